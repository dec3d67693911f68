"""Visiting: which slots and items are handed on, once each, at which
position, and what becomes of the results."""
import z3
import normalize.visitor as NV
import normalize.exc as exc
from normalize.coll import Collection
from normalize.record import Record
from normalize.selector import MultiFieldSelector, FieldSelector
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from .world import *        # noqa
from .world import B_ as B
from .c_json import sel, q, k_      # noqa
from .c_sel import j
from .c_sel2 import invariant, is_a
from .c_diff import FA
from pv.interp import HEAP_BASE as HB      # noqa

VP = NV.VisitorPattern
EXTRA = z3.Function('EXTRANEOUS', V, BoolS)
PNAME = z3.Function('PROP_NAME', V, V)
ALLOWED = z3.Function('SELECTED', V, V, BoolS)   # by a filter, of a step
MAPPED = z3.Function('MAPPED', V, V, V)
READ = z3.Function('READ', V, V)                # the value of a slot
OUTCOME = z3.Function('OUTCOME', V, IntS)       # of reading it


def same_list(l, n, arr):
    return z3.And(l.n == n, z3.ForAll([j], z3.Implies(z3.And(
        0 <= j, j < n), z3.Select(l.arr, j) == z3.Select(arr, j))))


def at(E, what, l, cue, step):
    """the list l is the position of the visit and one step more"""
    ok = isinstance(l, HList)
    E.prove(what, z3.And(l.n == cue.n0 + 1, z3.Select(
        l.arr, cue.n0) == step, z3.ForAll([j], z3.Implies(z3.And(
            0 <= j, j < cue.n0), z3.Select(l.arr, j) == z3.Select(
                cue.arr0, j)))) if ok else B(False))


def visit_world(E):
    cue = E.some_list('CUE')
    cue.n0, cue.arr0 = cue.n, cue.arr
    E.pt = Tag('prop', attrs={
        'extraneous': lambda E, e: E.sbool(EXTRA(e)),
        'name': lambda E, e: SV(PNAME(e))}, sticky=True)
    filtered = E.case(True, False)

    def gi(E, s, args, kw):
        l = args[0]
        x = z3.Select(l.arr, cue.n0) if isinstance(l, HList) else E.lift(l)
        at(E, 'the filter is asked about the position of the slot', l, cue, x)
        return E.sbool(ALLOWED(s.e, x))
    f = None
    if filtered:
        f = SV(E.ext('FILTER').e, Tag('mfs', real=MultiFieldSelector, methods={
            '__getitem__': gi}, sticky=True))
        E.assume(truth(f.e))
        E.trusted('a filter (multiple selector) is true')
    flags = {x: E.flag(x) for x in (
        'apply_empty_slots', 'extraneous', 'ignore_empty_string',
        'ignore_none')}
    funcs = {x: SV(E.ext('F_' + x).e) for x in (
        'unpack', 'apply', 'collect', 'reduce')}
    v = E.new(HInst(NV.Visitor, dict(
        flags, visit_filter=f, cue=cue, seen=E.new(HSet(
            z3.K(V, z3.BoolVal(False)), [])), **funcs)))
    E.flags = {x: V.b(flags[x].e) for x in flags}
    E.cue = cue
    v.flags, v.funcs, v.f = flags, funcs, f

    def left_out(p):
        out = z3.And(z3.Not(E.flags['extraneous']), EXTRA(p))
        if f is not None:
            out = z3.Or(out, z3.Not(ALLOWED(f.e, PNAME(p))))
        return out
    E.left_out = left_out
    return v


def untouched(E, v):
    E.prove('the visitor is as it was', z3.And(
        B(v.attrs['cue'] is E.cue and v.attrs['visit_filter'] is v.f and all(
            v.attrs[x] is y for x, y in list(v.flags.items()) + list(
                v.funcs.items()))), same_list(
                    E.cue, E.cue.n0, E.cue.arr0)))


def like(E, rv, v):
    """a visitor with the same options"""
    ok = isinstance(rv, HInst) and rv.cls is NV.Visitor
    if not ok:
        E.prove('a visitor', B(False))
        raise PathEnd()
    E.prove('a visitor with the same options', z3.And(
        [E.lift(rv.attrs[x]) == E.lift(v.attrs[x]) for x in list(
            v.flags) + list(v.funcs) + ['visit_filter']]))
    return rv


@contract('C29,C30'.split(','), 'slots left out of a visit', covers=(
    'left out', 'visited'))
def is_filtered(E):
    v = visit_world(E)
    p = SV(E.ext('PROP').e, E.pt)
    E.assume(is_str(PNAME(p.e)))
    tag, r = E.run(NV.Visitor.is_filtered, v, p)
    E.prove('answers', B(tag == 'ok'))
    if tag != 'ok':
        return
    got = E.branch(truth(E.lift(r))) if not isinstance(r, bool) else r
    E.cover('left out' if got else 'visited')
    E.prove('left out iff extraneous or outside the filter', E.left_out(
        p.e) if got else z3.Not(E.left_out(p.e)))
    untouched(E, v)


@contract('C29,C30'.split(','), 'a visitor for the level below', covers=(
    'copied',))
def copied(E):
    v = visit_world(E)
    tag, r = E.run(NV.Visitor.copy, v)
    E.prove('made', B(tag == 'ok'))
    if tag != 'ok':
        return
    E.cover('copied')
    like(E, r, v)
    E.prove('a visitor of its own', B(r is not v))
    c = r.attrs['cue']
    E.prove('a position of its own', B(isinstance(c, HList) and c is not
                                       E.cue))
    E.prove('at the same position', same_list(c, E.cue.n0, E.cue.arr0))
    untouched(E, v)


def copies(E, v):
    """visitors are copied as proved of Visitor.copy"""
    def copy(E, args, kw):
        E.prove('the visitor is copied', B(len(args) == 1 and args[0] is v))
        c = E.new(HList(E.cue.n, E.cue.arr))
        return E.new(HInst(NV.Visitor, dict(v.attrs, cue=c)))
    E.sh.summaries[NV.Visitor.copy] = copy


def cue_kept(E, ctx, i, base):
    """the position is the same after each turn"""
    out = []
    for loc in base:
        o = E.heap.get(HB + loc[1]) if loc[0] == 'heap' else None
        if isinstance(o, HList):
            out.append(o.n == E.cue.n0)
            out.append(z3.ForAll([j], z3.Implies(z3.And(
                0 <= j, j < E.cue.n0), z3.Select(o.arr, j) == z3.Select(
                    E.cue.arr0, j))))
            # or that of the visitor which is to be copied
    return out


def ignored(E, m):
    """is the mapped value to be left out?"""
    return z3.Or(z3.And(E.flags['ignore_none'], is_none(m)), z3.And(
        E.flags['ignore_empty_string'], peq(m, E.lift(''))))


@contract('C29,C30'.split(','), 'the slots of a record, visited', covers=(
    'all', 'unreadable'))
def slots(E):
    E.sh.merge = E.sh.light = E.sh.ematch = True
    E.sh.templates = False
    v = visit_world(E)
    props = E.some_dict('P')
    props.valtag = E.pt
    at_ = lambda k: z3.Select(props.val, k)     # noqa
    E.assume(z3.ForAll([q], z3.Implies(z3.Select(props.dom, q), z3.And(
        is_str(q), PNAME(at_(q)) == q)), patterns=[z3.Select(props.dom, q)]))
    copies(E, v)
    rt = SV(E.ext('RT').e, Tag('type', attrs={
        'properties': lambda E, e: props,
        '__name__': lambda E, e: SV(strf('cname', V, V)(e))}))
    errors = {1: AttributeError, 2: KeyError, 3: ValueError}
    E.assume(z3.ForAll([q], z3.And(0 <= OUTCOME(q), OUTCOME(q) <= 3)))
    fails = []
    err = {}
    where = []

    def position(E, args, kw):
        where.append(args)
        E.prove('a position', B(len(args) == 1 and isinstance(
            args[0], HList)))
        return SV(E.ext('WHERE').e)
    E.sh.summaries[FieldSelector] = position

    def get(E, s, args, kw):
        E.prove('asked for the slot', B(len(args) == 1 and not kw))
        p = E.lift(args[0])
        for n, c in errors.items():
            if E.branch(OUTCOME(p) == n):
                if c not in err:
                    try:
                        E.throw(c, 'no value')
                    except PyRaise as r:
                        err[c] = r.value
                if n == 3:
                    fails.append(p)
                raise PyRaise(err[c])
        x = SV(READ(p))
        for c in (AttributeError, KeyError):
            E.assume(z3.Not(E.truth_inst(x, c)))
        E.trusted('the slots of a visited record hold no AttributeError or '
                  'KeyError objects as values')
        return x
    getter = SV(E.ext('GETTER').e, Tag('getter', call=get))
    E.assume(truth(getter.e))
    C = E.new(HSet(z3.K(V, z3.BoolVal(False)), []))      # handed on
    G = E.new(HSet(z3.K(V, z3.BoolVal(False)), []))      # given back
    has = lambda s, p: z3.Select(s.dom, p)      # noqa

    def exc_or_value(p):
        return OUTCOME(p) == 0

    def due(k):
        p = at_(k)
        return z3.And(z3.Select(props.dom, k), z3.Not(E.left_out(p)), z3.Or(
            OUTCOME(p) == 0, E.flags['apply_empty_slots']))

    def mp(E, args, kw):
        args = list(args)
        if args and args[0] is VP:
            args = args[1:]
        ok = len(args) == 3 and not kw
        E.prove('handed on with its property', B(ok))
        if not ok:
            raise PathEnd()
        rv, x, p = args
        like(E, rv, v)
        e = E.lift(p)
        at(E, 'at its position', rv.attrs['cue'], E.cue, PNAME(e))
        k = PNAME(e)
        E.prove('one that is to be visited', z3.And(due(k), at_(k) == e))
        if isinstance(x, HInst):
            E.prove('the error of a slot without value', z3.Or([z3.And(
                OUTCOME(e) == n, B(x.cls is c)) for n, c in (
                    (1, AttributeError), (2, KeyError))]))
        else:
            E.prove('its value', z3.And(OUTCOME(e) == 0, E.lift(
                x) == READ(e)))
        E.prove('handed on once', z3.Not(has(C, e)))
        E.set_add(C, SV(e, E.pt))
        return SV(MAPPED(e, e))
    E.sh.summaries[VP.map_prop.__func__] = mp

    def cands(E, ctx, i, base):
        out = cue_kept(E, ctx, i, base)
        if len(E.loops):
            return None
        for n, K, X, key in E.enum_cache.values():
            if n.eq(ctx.n):
                break
        else:
            return out
        for s, also in ((C, B(True)), (G, None)):
            if ('heap', s.uid) not in base:
                continue
            p = at_(q)
            d = due(q)
            if also is None:
                d = z3.And(d, z3.Not(ignored(E, MAPPED(p, p))))
            out.append(z3.ForAll([q], z3.Implies(z3.And(
                d, X(q) < i), has(s, p)), patterns=[
                    z3.Select(props.dom, q)]))
            out.append(FA([q], z3.Implies(has(s, q), z3.And(
                d_of(q, also), X(PNAME(q)) < i)), patterns=[has(s, q)]))
        return out

    def d_of(p, also):
        k = PNAME(p)
        d = z3.And(due(k), at_(k) == p)
        return d if also is not None else z3.And(d, z3.Not(ignored(
            E, MAPPED(p, p))))
    invariant(E.sh.loop_cands, 'visiting', cands)
    tag, g = E.run(VP.map_record, v, getter, rt)
    E.prove('a generator', B(tag == 'ok'))
    if tag != 'ok':
        return

    def got(x):
        ok = isinstance(x, tuple) and len(x) == 2
        E.prove('a property and its result', B(ok))
        if not ok:
            raise PathEnd()
        p, m = E.lift(x[0]), E.lift(x[1])
        E.prove('its own result', m == MAPPED(p, p))
        E.prove('of a slot that is to be visited', d_of(p, None))
        E.prove('given once', z3.Not(has(G, p)))
        E.set_add(G, SV(p, E.pt))
    try:
        E.iterate(g, got, ('drain',))
    except PyRaise as r:
        E.cover('unreadable')
        E.prove('fails only when a slot cannot be read', B(
            len(fails) == 1 and is_a(E, r.value, exc.VisitorPropError)))
        if is_a(E, r.value, exc.VisitorPropError):
            c = where[-1][0]
            E.prove('the error names the slot and where the record is', z3.And(
                E.lift(r.value.attrs['prop_name']) == PNAME(fails[0]),
                E.lift(r.value.attrs['fs']) == z3.Const('WHERE', V),
                same_list(c, E.cue.n0, E.cue.arr0)))
        untouched(E, v)
        return
    E.cover('all')
    p = at_(q)
    E.prove('every slot to be visited was handed on', z3.ForAll([
        q], z3.Implies(due(q), has(C, p))))
    E.prove('every result is given back, unless to be ignored', z3.ForAll([
        q], z3.Implies(z3.And(due(q), z3.Not(ignored(E, MAPPED(p, p)))), has(
            G, p))))
    E.prove('nothing unreadable was passed over', B(not fails))
    untouched(E, v)


@contract('C29,C30'.split(','), 'the items of a collection, visited', covers=(
    'all',))
def coll_items(E):
    E.sh.merge = True
    v = visit_world(E)
    n = z3.Int('n')
    E.assume(n >= 0)
    key, val = z3.Function('KEY', IntS, V), z3.Function('VAL', IntS, V)
    copies(E, v)
    it = E.ext('ITEMTYPE')
    ct = SV(E.ext('CT').e, Tag('type', attrs={
        'itemtype': lambda E, e: SV(it.e)}))
    calls = E.new(HList(z3.IntVal(0), z3.K(IntS, V.none)))
    ks, ms = E.list_new(), E.list_new()
    N_ = z3.Function('KEPT_AMONG', IntS, IntS)
    m_at = lambda i: MAPPED(key(i), val(i))     # noqa
    E.assume(z3.And(N_(0) == 0, z3.ForAll([j], z3.Implies(z3.And(
        0 <= j, j < n), N_(j + 1) == N_(j) + z3.If(ignored(
            E, m_at(j)), 0, 1)), patterns=[N_(j + 1), key(j)])))

    def mp(E, args, kw):
        args = list(args)
        if args and args[0] is VP:
            args = args[1:]
        ok = len(args) == 3 and not kw
        E.prove('each item is visited, as an item', B(ok))
        if not ok:
            raise PathEnd()
        rv, x, t = args
        like(E, rv, v)
        c = rv.attrs['cue']
        k = z3.Select(c.arr, E.cue.n0)
        at(E, 'at its position', c, E.cue, k)
        E.prove('as one of the item type', E.lift(t) == it.e)
        i = calls.n
        E.prove('each once, in order', z3.And(
            0 <= i, i < n, k == key(i), E.lift(x) == val(i)))
        E.list_append(calls, SV(k))
        return SV(MAPPED(k, E.lift(x)))
    E.sh.summaries[VP.map.__func__] = mp

    def cands(E, ctx, i, base):
        out = cue_kept(E, ctx, i, base)
        if ('heap', calls.uid) in base:
            out.append(calls.n == i)
        if ('heap', ks.uid) in base:
            out += [ks.n == N_(i), ms.n == N_(i), z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < i, z3.Not(ignored(E, m_at(j)))), z3.And(
                    N_(j) >= 0, N_(j) < N_(i),
                    z3.Select(ks.arr, N_(j)) == key(j),
                    z3.Select(ms.arr, N_(j)) == m_at(j)))), N_(i) >= 0]
        return out
    invariant(E.sh.loop_cands, 'items', cands)
    src = SSeq(n, lambda i: (SV(key(i)), SV(val(i))))
    tag, g = E.run(VP.map_collection, v, src, ct)
    E.prove('a generator', B(tag == 'ok'))
    if tag != 'ok':
        return

    def got(x):
        ok = isinstance(x, tuple) and len(x) == 2
        E.prove('an index and its result', B(ok))
        if not ok:
            raise PathEnd()
        E.list_append(ks, x[0])
        E.list_append(ms, x[1])
    try:
        E.iterate(g, got, ('drain',))
    except PyRaise:
        E.prove('never fails by itself', B(False))
        return
    E.cover('all')
    E.prove('every item was visited once', calls.n == n)
    E.prove('as many results as are not to be ignored', z3.And(
        ks.n == N_(n), ms.n == N_(n)))
    E.prove('the results in order, with their indices', z3.ForAll([
        j], z3.Implies(z3.And(0 <= j, j < n, z3.Not(ignored(
            E, m_at(j)))), z3.And(
                z3.Select(ks.arr, N_(j)) == key(j),
                z3.Select(ms.arr, N_(j)) == m_at(j)))))
    untouched(E, v)


# ---------------------------------------------------------------- one value
def kinds_of_types(E):
    """classes are terms; which are records and collections is given"""
    isrec = z3.Function('IS_RECORD_TYPE', V, BoolS)
    iscoll = z3.Function('IS_COLL_TYPE', V, BoolS)

    def isub(E, args, kw):
        t, c = args
        c = c if isinstance(c, tuple) else (c,)
        fs = []
        for x in c:
            if x not in (Record, Collection):
                E.prove('records or collections', B(False))
                raise PathEnd()
            fs.append((isrec if x is Record else iscoll)(E.lift(t)))
        return E.sbool(z3.Or(fs))
    E.sh.summaries[issubclass] = isub
    return isrec, iscoll


def hook(E, name, log, result):
    """a hook of the visitor: what it was given, and what it answers"""
    def run(E, s, args, kw):
        log.append((name, args, kw))
        return result
    return SV(E.ext('HOOK_' + name).e, Tag(name, call=run))


def same(E, x, y):
    if x is y:
        return B(True)
    if isinstance(x, (SV, type(None), str, int)) and isinstance(
            y, (SV, type(None), str, int)):
        return E.lift(x) == E.lift(y)
    return B(False)


def asked(E, what, call, name, *want):
    """this hook, of exactly these"""
    n, args, kw = call
    E.prove(what, z3.And([B(n == name and len(args) == len(
        want) and not kw)] + [same(E, x, y) for x, y in zip(args, want)]))


@contract('C29,C30'.split(','), 'one slot of a visit', covers=(
    'no value', 'a union', 'a record', 'a plain value'))
def one_slot(E):
    isrec, _ = kinds_of_types(E)
    log = []
    res = SV(E.ext('RESULT').e)
    v = E.new(HInst(NV.Visitor, {'apply': hook(E, 'apply', log, res)}))
    how = E.case('none', 'union', 'class')
    vt = {'none': None, 'union': (SV(E.ext('T1').e), SV(E.ext('T2').e)),
          'class': SV(E.ext('T1').e)}[how]
    if how == 'class':
        E.assume(truth(vt.e))
    E.assume(z3.Not(E.truth_inst(SV(z3.Const('T1', V)), tuple)))
    p = SV(E.ext('PROP').e, Tag('prop', attrs={'valuetype': lambda E, e: vt}))
    err = E.case(None, AttributeError, KeyError)
    if err:
        try:
            E.throw(err, 'no value')
        except PyRaise as r:
            x = r.value
    else:
        x = SV(E.ext('VALUE').e)
        for c in (AttributeError, KeyError):
            E.assume(z3.Not(E.truth_inst(x, c)))
        E.assume(z3.Not(E.truth_inst(SV(TYPE(x.e)), tuple)))
    for f in (VP.map, VP.map_type_union):
        def call(E, args, kw, f=f):
            if args and args[0] is VP:
                args = args[1:]
            log.append((f.__name__, args, kw))
            return res
        E.sh.summaries[f.__func__] = call
    E.sh.summaries[type] = lambda E, args, kw: SV(TYPE(E.lift(args[0])))
    tag, r = E.run(VP.map_prop, v, x, p)
    E.prove('answers', B(tag == 'ok'))
    if tag != 'ok':
        return
    E.prove('handed on once', B(len(log) == 1))
    E.prove('and its result is the answer', same(E, r, res))
    if err:
        E.cover('no value')
        asked(E, 'the error of a slot without value', log[0], 'apply', x, p, v)
    elif how == 'union':
        E.cover('a union')
        n, args, kw = log[0]
        E.prove('as one of the types', B(
            n == 'map_type_union' and len(args) == 4 and not kw and
            args[0] is v and args[1] is x and args[2] is vt and
            args[3] is p))
    else:
        t = vt if vt is not None else SV(TYPE(x.e))
        if E.branch(isrec(t.e)):
            E.cover('a record')
            asked(E, 'visited as that record', log[0], 'map', v, x, t)
        else:
            E.cover('a plain value')
            asked(E, 'the value with its property', log[0], 'apply', x, p, v)


@contract('C29,C30'.split(','), 'one value of a visit', covers=(
    'stopped', 'stopped with', 'plain', 'properties', 'items', 'both'))
def one_value(E):
    log = []
    res = {x: SV(E.ext('RESULT_' + x).e) for x in (
        'apply', 'collect', 'reduce', 'map_record', 'map_collection')}
    mc = None if E.case(True, False) else res['collect']
    props = None if E.case(True, False) else SV(E.ext('GETTER').e)
    coll = None if E.case(True, False) else SV(E.ext('ITEMS').e)
    for x in (props, coll):
        if x is not None:
            E.assume(truth(x.e))
    E.assume(z3.And([z3.Not(is_none(x.e)) for x in res.values()]))
    how = E.case('two', 'one', 'stop', 'stop with')
    back = SV(E.ext('BACK').e)
    un = {'two': (props, coll), 'one': props, 'stop': VP.StopVisiting,
          'stop with': None}[how]
    if how == 'stop with':
        un = E.new(HInst(VP.StopVisiting, {'return_value': back}))
    if how == 'one':
        if props is None:
            raise PathEnd()
        coll = None
        E.assume(z3.Not(peq(props.e, E.lift(VP.StopVisiting))))
        E.assume(z3.Not(E.truth_inst(props, VP.StopVisiting)))
        E.assume(z3.Not(E.truth_inst(props, tuple)))
    v = E.new(HInst(NV.Visitor, {
        'apply': hook(E, 'apply', log, res['apply']),
        'collect': hook(E, 'collect', log, mc),
        'reduce': hook(E, 'reduce', log, res['reduce']),
        'unpack': hook(E, 'unpack', log, un)}))
    for f in (VP.map_record, VP.map_collection):
        def call(E, args, kw, f=f):
            if args and args[0] is VP:
                args = args[1:]
            log.append((f.__name__, args, kw))
            return res[f.__name__]
        E.sh.summaries[f.__func__] = call
    x, t = SV(E.ext('VALUE').e), SV(E.ext('TYPE_').e)
    tag, r = E.run(VP.map, v, x, t)
    E.prove('answers', B(tag == 'ok'))
    if tag != 'ok':
        return
    calls = {}
    for c in log:
        E.prove('each hook is called once', B(c[0] not in calls))
        calls[c[0]] = c
    due = {'unpack'}
    E.prove('unpacked', B('unpack' in calls))
    asked(E, 'the value as that type', calls['unpack'], 'unpack', x, t, v)
    if how in ('stop', 'stop with'):
        E.cover('stopped' if how == 'stop' else 'stopped with')
        E.prove('stops with the result given', same(
            E, r, None if how == 'stop' else back))
    else:
        mapped = None
        if coll is not None:
            due |= {'map_collection', 'collect'}
            mapped = mc
        if props is not None:
            due |= {'map_record', 'reduce'}
        elif mapped is None:
            due |= {'apply'}
        else:
            due |= {'reduce'}
        if due <= set(calls):
            if coll is not None:
                asked(E, 'the items are visited', calls['map_collection'],
                      'map_collection', v, coll, t)
                asked(E, 'and collected', calls['collect'], 'collect',
                      res['map_collection'], t, v)
            if props is not None:
                asked(E, 'the slots are visited', calls['map_record'],
                      'map_record', v, props, t)
            if 'reduce' in due:
                asked(E, 'slots and items are put together', calls['reduce'],
                      'reduce', None if props is None else res['map_record'],
                      mapped, t, v)
            else:
                asked(E, 'a plain value is handed to the visitor function',
                      calls['apply'], 'apply', x, None, v)
        E.prove('the result of the last', same(E, r, res[
            'reduce' if 'reduce' in due else 'apply']))
        E.cover('plain' if 'reduce' not in due else 'items' if (
            props is None) else 'both' if coll is not None else 'properties')
    E.prove('exactly what is due is called', B(set(calls) == due))


for _f in (VP.apply, VP.reverse):
    @contract('C29,C30'.split(','), 'default result: ' + _f.__name__, covers=(
        'nothing', 'the value'))
    def passes(E, f=_f):
        err = E.case(None, AttributeError, KeyError)
        x = SV(E.ext('VALUE').e)
        if err:
            try:
                E.throw(err, 'no value')
            except PyRaise as r:
                x = r.value
        else:
            for c in (AttributeError, KeyError):
                E.assume(z3.Not(E.truth_inst(x, c)))
        tag, r = E.run(f, x, SV(E.ext('PROP').e), SV(E.ext('VISITOR').e))
        E.prove('answers', B(tag == 'ok'))
        E.cover('nothing' if err else 'the value')
        E.prove('the value, or nothing for a slot without', same(
            E, r, None if err else x))


for _f, _c in ((VP.aggregate, False), (VP.collect, True)):
    @contract('C29,C30'.split(','), 'items put together: ' + _f.__name__,
              covers=('ok',))
    def together(E, f=_f, coerce=_c):
        log = []
        res = SV(E.ext('RESULT').e)

        def t2c(E, s, args, kw):
            log.append((args, kw))
            return res
        ct = SV(E.ext('CT').e, Tag('ct', methods={'tuples_to_coll': t2c}))
        g = SV(E.ext('ITEMS').e)
        tag, r = E.run(f, g, ct, SV(E.ext('VISITOR').e))
        E.prove('answers', B(tag == 'ok'))
        E.cover('ok')
        E.prove('what the collection type makes of the items', z3.And(B(len(
            log) == 1), same(E, r, res)))
        args, kw = log[0]
        E.prove('of these items', same(E, args[0], g))
        c = args[1] if len(args) > 1 else kw.get('coerce', True)
        E.prove('converted iff a collection is wanted', B(c is coerce))


for _f, _g in ((VP.visit, ('unpack', 'apply', 'aggregate', 'reduce')), (
        VP.cast, ('grok', 'reverse', 'collect', 'produce'))):
    @contract('C29,C30'.split(','), 'a visit is started: ' + _f.__name__,
              covers=('started',))
    def started(E, f=_f, hooks=_g):
        isrec, _ = kinds_of_types(E)
        made, log = [], []
        vis = SV(E.ext('VISITOR').e)
        E.assume(truth(vis.e))
        res = SV(E.ext('RESULT').e)

        def mk(E, args, kw):
            made.append((args, kw))
            return vis
        E.sh.summaries[NV.Visitor] = mk

        def mp(E, args, kw):
            if args and args[0] is VP:
                args = args[1:]
            log.append((args, kw))
            return res
        E.sh.summaries[VP.map.__func__] = mp
        E.sh.summaries[type] = lambda E, args, kw: SV(TYPE(E.lift(
            args[0])), Tag('type', attrs={'__name__': lambda E, e: SV(
                strf('cname', V, V)(e))}))
        x = SV(E.ext('VALUE').e)
        t = SV(E.ext('TYPE_').e)
        E.assume(truth(t.e))
        opts = {'ignore_none': E.val('opt')} if E.case(True, False) else {}
        if f.__name__ == 'visit':
            given = E.case(True, False)
            if given:
                tag, r = E.run(f, x, t, **opts)
            else:
                tag, r = E.run(f, x, **opts)
                t = SV(TYPE(x.e))
                if tag == 'raise':
                    E.prove('only records can be visited as they are', z3.And(
                        z3.Not(isrec(t.e)), B(is_a(E, r, TypeError))))
                    return
                E.prove('a record', isrec(t.e))
        else:
            tag, r = E.run(f, t, x, **opts)
        E.prove('answers', B(tag == 'ok'))
        if tag != 'ok':
            return
        E.cover('started')
        E.prove('with one visitor', B(len(made) == 1 and len(log) == 1))
        args, kw = made[0]
        want = [getattr(VP, h) for h in hooks]
        got = [getattr(getattr(a, 'func', a), '__func__', getattr(
            a, 'func', a)) for a in args]
        E.prove('of the hooks of this kind of visit', B(
            got == [w.__func__ for w in want]))
        E.prove('and the options', B(set(kw) == set(opts) and all(
            kw[o] is opts[o] for o in kw)))
        asked(E, 'of the value, as its type', ('map',) + log[0], 'map', vis,
              x, t)
        E.prove('its result', same(E, r, res))


# -------------------------------------------- what is unpacked and put together
def a_type(E, isrec, iscoll, tuples=None, props=None, new=None):
    attrs = {'__name__': lambda E, e: SV(strf('cname', V, V)(e)),
             'colltype': lambda E, e: SV(strf('colltype', V, V)(e))}
    if props is not None:
        attrs['properties'] = lambda E, e: props
    t = SV(E.ext('TYPE_').e, Tag('type', attrs=attrs, methods={
        'coll_to_tuples': tuples} if tuples else {}, call=new))
    E.assume(z3.Implies(iscoll(t.e), isrec(t.e)))
    return t


@contract('C29,C30'.split(','), 'a value taken apart', covers=(
    'record', 'collection', 'like one', 'refused', 'neither'))
def unpack(E):
    isrec, iscoll = kinds_of_types(E)
    items = SV(E.ext('ITEMS').e)
    other = SV(E.ext('ITEMS2').e)
    log = []

    def tup(E, s, args, kw):
        log.append(args)
        return other
    t = a_type(E, isrec, iscoll, tup)
    own = E.case(True, False)

    def itertuples(E, s, args, kw):
        return items
    x = SV(E.ext('VALUE').e, Tag('value', methods={
        'itertuples': itertuples} if own else {}, strict=True))
    iscolltype = z3.Bool('is_of_the_colltype')

    def isi(E, args, kw):
        E.prove('of the native collection type', z3.And(same(
            E, args[0], x), E.lift(args[1]) == strf('colltype', V, V)(t.e)))
        return E.sbool(iscolltype)
    E.sh.summaries[isinstance] = isi
    v = SV(E.ext('VISITOR').e)
    tag, r = E.run(VP.unpack, x, t, v)
    if tag == 'raise':
        E.cover('refused')
        E.prove('only what is no collection is refused as one', z3.And(
            iscoll(t.e), z3.Not(iscolltype), B(not own)))
        E.prove('saying so', B(is_a(E, r, exc.VisitorUnpackError)))
        return
    ok = isinstance(r, tuple) and len(r) == 2
    E.prove('slots and items', B(ok))
    if not ok:
        return
    get, gen = r
    E.prove('has slots iff a record', isrec(t.e) if get is not None else
            z3.Not(isrec(t.e)))
    if gen is None:
        E.cover('neither' if get is None else 'record')
        E.prove('only collections have items', z3.Not(iscoll(t.e)))
    else:
        E.prove('a collection', iscoll(t.e))
        E.cover('collection' if own else 'like one')
        E.prove('its own items', same(E, gen, items if own else other))
        if not own:
            E.prove('of the value', z3.And(B(len(log) == 1), same(
                E, log[0][0], x), iscolltype))
    if get is not None:
        asked_ = []

        def pget(E, s, args, kw):
            asked_.append(args)
            return SV(READ(s.e))
        p = SV(E.ext('PROP').e, Tag('prop', methods={'__get__': pget}))
        tag, y = E.run(get, p)
        E.prove('a slot is read from the record', z3.And(B(
            tag == 'ok' and len(asked_) == 1 and len(asked_[0]) >= 1),
            same(E, asked_[0][0], x) if asked_ else B(False),
            E.lift(y) == READ(p.e) if tag == 'ok' else B(False)))


@contract('C29,C30'.split(','), 'a record made of what was visited', covers=(
    'made', 'of a collection'))
def produce(E):
    isrec, iscoll = kinds_of_types(E)
    made = []
    res = SV(E.ext('RESULT').e)

    def new(E, s, args, kw):
        made.append((args, kw))
        return res
    t = a_type(E, isrec, iscoll, new=new)
    n = z3.Int('n')
    E.assume(n >= 0)
    P, VAL = z3.Function('P', IntS, V), z3.Function('VAL', IntS, V)
    IDX = z3.Function('INDEX', V, IntS)
    pt = Tag('prop', attrs={'name': lambda E, e: SV(PNAME(e))})
    # each property comes once; 'values' is what a collection is made of
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
        is_str(PNAME(P(j))), IDX(PNAME(P(j))) == j,
        z3.Not(PNAME(P(j)) == E.lift('values')))), patterns=[P(j)]))
    given = E.case(True, False)
    src = SSeq(n, lambda i: (SV(P(i), pt), SV(VAL(i)))) if given else None
    agg = SV(E.ext('AGGREGATED').e)
    k = IDX(q)

    def cands(E, ctx, i, base):
        out = []
        for loc in base:
            o = E.heap.get(HB + loc[1]) if loc[0] == 'heap' else None
            if isinstance(o, HDict):
                out.append(z3.ForAll([q], z3.Select(o.dom, q) == z3.And(
                    0 <= k, k < i, PNAME(P(k)) == q)))
                out.append(z3.ForAll([q], z3.Implies(z3.Select(
                    o.dom, q), z3.Select(o.val, q) == VAL(k))))
        return out
    invariant(E.sh.loop_cands, 'arguments', cands)
    if given:
        # a generator is given, which is always true
        src = E.new(HGen(lambda on, s=src: E.iterate(s, on, ('src',)), 'src'))
    tag, r = E.run(VP.produce, src, agg, t, SV(E.ext('VISITOR').e))
    E.prove('answers', B(tag == 'ok'))
    if tag != 'ok':
        return
    E.prove('one is made', z3.And(B(len(made) == 1), same(E, r, res)))
    args, kw = made[0]
    E.prove('by keywords', B(not args))
    d = kw_dict(E, kw)
    coll = E.branch(iscoll(t.e))
    E.cover('of a collection' if coll else 'made')
    m = z3.And(0 <= k, k < n, PNAME(P(k)) == q) if given else B(False)
    val = E.lift('values')
    dom, at_ = z3.Select(d.dom, q), z3.Select(d.val, q)
    if coll:
        E.prove('the items are what was collected', z3.And(z3.Select(
            d.dom, val), z3.Select(d.val, val) == agg.e))
        dom = z3.And(dom, q != val)
    E.prove('exactly the mapped slots', z3.ForAll([q], dom == m))
    E.prove('with their values', z3.ForAll([q], z3.Implies(
        dom, at_ == VAL(k))))


def kw_dict(E, kw):
    """keyword arguments as one mapping"""
    kw = dict(kw)
    x = kw.pop('**extra**', None)
    d = E.new(HDict(x.dom, x.val, None)) if x is not None else E.new(HDict(
        z3.K(V, z3.BoolVal(False)), z3.K(V, V.none), None))
    for n, y in kw.items():
        d.dom = z3.Store(d.dom, E.lift(n), z3.BoolVal(True))
        d.val = z3.Store(d.val, E.lift(n), E.lift(y))
    return d
