"""Visiting: what is put together of a record, and what is taken from plain
data."""
import z3
import normalize.visitor as NV
import normalize.exc as exc
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from .world import *        # noqa
from .world import B_ as B
from .c_json import sel, q, k_      # noqa
from .c_sel import j
from .c_sel2 import invariant, is_a
from .c_visit import *      # noqa
from .c_visit import PNAME, HB, VP, kinds_of_types, a_type, same

FILTERED = z3.Function('LEFT_OUT', V, BoolS)


def filtering(E):
    """a visitor which is asked which slots are left out"""
    def isf(E, s, args, kw):
        return E.sbool(FILTERED(E.lift(args[0])))
    return SV(E.ext('VISITOR').e, Tag('visitor', attrs={
        'field_selector': lambda E, e: SV(strf('fs', V, V)(e))}, methods={
            'is_filtered': isf}))


def some_slots(E):
    props = E.some_dict('PROPS', keytag='str')
    some = z3.Exists([q], z3.And(sel(props.dom, q), z3.Not(
        FILTERED(sel(props.val, q)))))
    return props, some


@contract('C29,C30'.split(','), 'what was visited, put together', covers=(
    'slots', 'nothing', 'items', 'both', 'refused'))
def reduced(E):
    isrec, iscoll = kinds_of_types(E)
    props, some = some_slots(E)
    t = a_type(E, isrec, iscoll, props=props)
    v = filtering(E)
    n = z3.Int('n')
    E.assume(n >= 0)
    P, VAL = z3.Function('P', IntS, V), z3.Function('VAL', IntS, V)
    IDX = z3.Function('INDEX', V, IntS)
    pt = Tag('prop', attrs={'name': lambda E, e: SV(PNAME(e))})
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
        is_str(PNAME(P(j))), IDX(PNAME(P(j))) == j)), patterns=[P(j)]))
    given = E.case(True, False)
    src = None
    if given:
        s = SSeq(n, lambda i: (SV(P(i), pt), SV(VAL(i))))
        src = E.new(HGen(lambda on: E.iterate(s, on, ('src',)), 'src'))
    else:
        # slots are handed on by what takes a value apart, if there are any
        E.assume(z3.Not(some))
    agg = E.val('AGGREGATED')
    k = IDX(q)

    def cands(E, ctx, i, base):
        out = []
        for loc in base:
            o = E.heap.get(HB + loc[1]) if loc[0] == 'heap' else None
            if isinstance(o, HDict) and o is not props:
                out.append(z3.ForAll([q], z3.Select(o.dom, q) == z3.And(
                    0 <= k, k < i, PNAME(P(k)) == q)))
                out.append(z3.ForAll([q], z3.Implies(z3.Select(
                    o.dom, q), z3.Select(o.val, q) == VAL(k))))
        return out
    invariant(E.sh.loop_cands, 'result', cands)
    tag, r = E.run(VP.reduce, src, agg, t, v)
    m = z3.And(0 <= k, k < n, PNAME(P(k)) == q) if given else B(False)
    vk = E.lift('values')
    has = z3.And(0 <= IDX(vk), IDX(vk) < n, PNAME(P(IDX(vk))) == vk) \
        if given else B(False)
    items = z3.And(iscoll(t.e), z3.Not(is_none(agg.e)))
    if tag == 'raise':
        E.cover('refused')
        E.prove('refused iff a slot of a collection is called values',
                z3.And(items, some, has, truth(VAL(IDX(vk)))))
        E.prove('saying so', B(is_a(E, r, exc.VisitorTooSimple)))
        return
    if not isinstance(r, HDict):
        if r is None or isinstance(r, SV) and E.valid(is_none(r.e)):
            E.cover('nothing')
            E.prove('nothing of what has no slots nor items', z3.And(
                B(not given), z3.Not(items)))
            return
        E.cover('items')
        E.prove('the items alone iff no slot is visited', z3.And(
            items, z3.Not(some), same(E, r, agg)))
        return
    both = E.branch(items)
    E.cover('both' if both else 'slots')
    dom, at_ = sel(r.dom, q), sel(r.val, q)
    E.prove('of a record', B(given))
    if both:
        E.prove('slots of a collection', some)
        E.prove('the items under the key values', z3.And(
            sel(r.dom, vk), sel(r.val, vk) == agg.e))
        E.prove('no slot is lost', z3.Implies(has, z3.Not(truth(VAL(
            IDX(vk))))))
        E.prove('exactly the slots by name, and the items', z3.ForAll(
            [q], dom == z3.Or(m, q == vk)))
        E.prove('with their values', z3.ForAll([q], z3.Implies(
            z3.And(m, q != vk), at_ == VAL(k))))
    else:
        E.prove('exactly the slots by name', z3.ForAll([q], dom == m))
        E.prove('with their values', z3.ForAll([q], z3.Implies(
            m, at_ == VAL(k))))


MAPPING = z3.Function('IS_MAPPING', V, BoolS)
SEQ = z3.Function('IS_SEQUENCE', V, BoolS)
HAS = z3.Function('HAS', V, V, BoolS)
ENTRY = z3.Function('ENTRY', V, V, V)


@contract('C29,C30'.split(','), 'plain data taken apart', covers=(
    'a record', 'items', 'items of a record', 'no record', 'no collection',
    'neither'))
def grok(E):
    isrec, iscoll = kinds_of_types(E)
    props, some = some_slots(E)
    items = SV(E.ext('ITEMS').e)
    log = []

    def tup(E, s, args, kw):
        log.append(args[0])
        return items
    t = a_type(E, isrec, iscoll, tup, props=props)
    v = filtering(E)

    def contains(E, s, args, kw):
        if not E.branch(z3.Or(MAPPING(s.e), SEQ(s.e))):
            E.throw(TypeError, 'no container')
        return E.sbool(HAS(s.e, E.lift(args[0])))

    def item(E, s, args, kw):
        kk = E.lift(args[0])
        if not E.branch(z3.And(MAPPING(s.e), HAS(s.e, kk))):
            E.throw(KeyError if E.branch(MAPPING(s.e)) else TypeError, 'key')
        return SV(ENTRY(s.e, kk))
    x = SV(E.ext('VALUE').e, Tag('value', methods={
        '__contains__': contains, '__getitem__': item}, strict=True))
    E.assume(z3.Not(z3.And(MAPPING(x.e), SEQ(x.e))))
    # a sequence which has the text 'values' for an item is no mapping, and
    # was refused before

    def isi(E, args, kw):
        y, T = E.lift(args[0]), args[1]
        if T is VP.grok_mapping_types:
            return E.sbool(MAPPING(y))
        if T is VP.grok_coll_types or T == VP.grok_coll_types:
            return E.sbool(z3.Or(MAPPING(y), SEQ(y)))
        raise Unsupported('isinstance(_, %r)' % (T,))
    E.sh.summaries[isinstance] = isi
    tag, r = E.run(VP.grok, x, t, v)
    vk = E.lift('values')
    rec = z3.And(isrec(t.e), some)
    src = z3.If(z3.And(rec, iscoll(t.e), HAS(x.e, vk)), ENTRY(x.e, vk), x.e)
    if tag == 'raise':
        if isinstance(r, HInst) and r.cls is exc.VisitorGrokRecordError:
            E.cover('no record')
            E.prove('refused as a record iff it is no mapping', z3.And(
                rec, z3.Not(MAPPING(x.e))))
        else:
            E.cover('no collection')
            E.prove('refused as a collection', B(is_a(
                E, r, exc.VisitorGrokCollectionError)))
            E.prove('iff it is none', z3.And(iscoll(t.e), z3.Not(z3.Or(
                MAPPING(src), SEQ(src)))))
        return
    ok = isinstance(r, tuple) and len(r) == 2
    E.prove('slots and items', B(ok))
    if not ok:
        return
    get, gen = r
    E.prove('slots are read iff some are visited', rec if get is not None
            else z3.Not(rec))
    E.prove('only of a mapping', z3.Implies(rec, MAPPING(x.e)))
    if gen is None:
        E.cover('a record' if get is not None else 'neither')
        E.prove('only collections have items', z3.Not(iscoll(t.e)))
    else:
        E.cover('items' if get is None else 'items of a record')
        E.prove('a collection', iscoll(t.e))
        E.prove('the items', z3.And(same(E, gen, items), B(len(log) == 1)))
        if log:
            E.prove('of the value, or of its entry values',
                    E.lift(log[0]) == src)
    if get is not None:
        p = SV(E.ext('PROP').e, Tag('prop', attrs={
            'name': lambda E, e: SV(PNAME(e))}))
        E.assume(is_str(PNAME(p.e)))
        tag, y = E.run(get, p)
        if tag == 'ok':
            E.prove('a slot is read by its name', z3.And(
                HAS(x.e, PNAME(p.e)), E.lift(y) == ENTRY(x.e, PNAME(p.e))))
        else:
            E.prove('a slot which is not there', z3.And(z3.Not(HAS(
                x.e, PNAME(p.e))), B(is_a(E, y, KeyError))))


@contract('C29,C30'.split(','), 'a value which may be of several types',
          covers=('of a type it is an instance of', 'of a type it fits',
                  'of none', 'failed'), assumes=(
    'unions of up to three types',))
def several_types(E):
    isrec, _ = kinds_of_types(E)
    isof = z3.Function('IS_OF', V, BoolS)
    refuses = z3.Function('REFUSES', V, BoolS)
    fails = z3.Function('FAILS', V, BoolS)
    mapped = z3.Function('MAPPED', V, V)
    n = E.case(1, 2, 3)
    ts = tuple(SV(E.ext('T%d' % i).e) for i in range(n))
    E.assume(z3.Distinct([t.e for t in ts]) if n > 1 else True)
    x = SV(E.ext('VALUE').e)
    log, asked_ = [], []
    res = SV(E.ext('RESULT').e)
    v = E.new(HInst(NV.Visitor, {'apply': hook(E, 'apply', log, res)}))
    p = SV(E.ext('PROP').e, Tag('prop'))

    def isi(E, args, kw):
        E.prove('the value is looked at', B(args[0] is x))
        return E.sbool(isof(E.lift(args[1])))
    E.sh.summaries[isinstance] = isi

    def map_(E, args, kw):
        if args and args[0] is VP:
            args = args[1:]
        E.prove('this value, by this visitor', B(
            len(args) == 3 and not kw and args[0] is v and args[1] is x))
        t = args[2]
        asked_.append(t)
        if E.branch(refuses(t.e)):
            E.throw(TypeError, 'not this one')
        if E.branch(fails(t.e)):
            E.throw(KeyError, 'broken')
        return SV(mapped(t.e))
    E.sh.summaries[VP.map.__func__] = map_
    tag, r = E.run(VP.map_type_union, v, x, ts, p)
    # as documented: of the record types those it is an instance of, or else
    # all of them, until one answers something true
    rec = [t for t in ts if E.branch(isrec(t.e))]
    own = [t for t in rec if E.branch(isof(t.e))]
    want, tried, broken = None, [], False
    for t in own or rec:
        tried.append(t)
        if E.branch(refuses(t.e)):
            continue
        if E.branch(fails(t.e)):
            broken = True
            break
        want = SV(mapped(t.e))
        if E.branch(truth(want.e)):
            break
    E.prove('asked one after the other, no more than needed', z3.And(
        [B(len(asked_) == len(tried))] + [
            same(E, a, b) for a, b in zip(asked_, tried)]))
    E.prove('other errors are passed on', B(
        (tag == 'raise') == broken))
    if tag == 'raise':
        E.cover('failed')
        return
    found = want is not None and E.branch(truth(want.e))
    if own or found:
        E.cover('of a type it is an instance of' if own else
                'of a type it fits')
        E.prove('what the visit as that type gave', same(E, r, want))
        E.prove('nothing else', B(not log))
    else:
        E.cover('of none')
        E.prove('handed on once', B(len(log) == 1))
        asked(E, 'the value with its property', log[0], 'apply', x, p, v)
        E.prove('and its result is the answer', same(E, r, res))
