"""Field selectors: reading, writing and deleting what they lead to.

The objects a selector is followed through are arbitrary; what they answer is
given by pure functions: IDX(o, s) whether a step is an index (what
`_try_index` decides; its own contract is below), HAS / STEP whether the step
exists and where it leads, ITER / LEN / ITEM iterating.  REACH(k) is what
following the first k steps leads to, W the position of the first all-items
step, F that of the first step that is missing before it."""
import z3
import normalize.exc as exc
import normalize.selector as NS
from normalize.coll import ListCollection
from normalize.property import SafeProperty      # noqa
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from .world import *        # noqa
from .world import B_ as B
from .c_json import only_known, sel, q, k_      # noqa
from .c_sel import FS, some_fs, seq, unchanged, step_ok, j
from pv.interp import HEAP_BASE as HB      # noqa

IDX = z3.Function('IDX', V, V, BoolS)
LOOKUP = z3.Function('LOOKUP', V, V, BoolS)   # a missing item is a LookupError
KEYED = z3.Function('KEYED', V, V, BoolS)     # ... a KeyError
ITER = z3.Function('ITERABLE', V, BoolS)
REACH = z3.Function('REACH', IntS, V)
# following the last m steps of the selector from an object
OKS = z3.Function('SUBOK', IntS, V, BoolS)
VALS = z3.Function('SUBVAL', IntS, V, V)
EXCS = z3.Function('SUBEXC', IntS, V, V)
FSX = exc.FieldSelectorException
W, F = z3.Ints('W F')


def node(E, e):
    return SV(e, E.node)


def n_getitem(E, o, args, kw):
    k = args[0]
    if isinstance(k, PSlice0()):
        raise Unsupported('slice of a node')
    k = E.lift(k)
    if not E.branch(HASITEM(o.e, k)):
        if not E.branch(LOOKUP(o.e, k)):
            E.throw(TypeError, 'item')
        if E.branch(KEYED(o.e, k)):
            E.throw(KeyError, k)
        E.throw(IndexError, k)
    return node(E, GETITEM(o.e, k))


def PSlice0():
    from pv.execute import PSlice
    return PSlice


def n_attr(E, e, name):
    if not E.branch(HASATTR(e, E.lift(name))):
        E.throw(AttributeError, name)
    return node(E, GETATTR(e, E.lift(name)))


def n_iter(E, o, args, kw):
    if not E.branch(ITER(o.e)):
        E.throw(TypeError, 'not iterable')
    E.assume(LEN(o.e) >= 0)
    return SSeq(LEN(o.e), lambda i: node(E, ITEM(o.e, i)))


def n_setitem(E, o, args, kw):
    k, v = args
    if isinstance(k, PSlice0()):
        ok = (k.lo, k.hi, k.st) == (None, None, None)
        E.opaque('setall' if ok else 'setslice', o, [v], {})
        return
    if E.branch(HASITEM(o.e, E.lift(k))) or not E.branch(E.fresh(
            'missing', BoolS)):
        E.opaque('setitem', o, [k, v], {})
        return
    E.throw(KeyError if E.branch(KEYED(o.e, E.lift(k))) else IndexError, k)


def setup(E):
    """the world; returns a selector of any length"""
    E.node = Tag('node', attrs={'*': n_attr}, methods={
        '__getitem__': n_getitem, '__iter__': n_iter,
        '__setitem__': n_setitem}, sticky=True)
    fs = some_fs(E, 'FS')
    E.sh.summaries[NS._try_index] = lambda E, a, kw: E.sbool(
        IDX(E.lift(a[0]), E.lift(a[1])))
    E.sh.summaries[FS] = make_fs
    e = EXCS(j, q)
    E.assume(z3.ForAll([j, q], z3.And(
        is_obj(e), V.ref(e) >= 0, V.ref(e) < 1000, TRUTHO(e)),
        patterns=[e]))
    return fs


def make_fs(E, args, kw):
    """the constructor, by its contract ('selector from steps')"""
    x = args[0] if args else None
    if kw or not isinstance(x, HList):
        raise Unsupported('a selector from something else')
    E.prove('a selector is made of steps', z3.ForAll([j], z3.Implies(
        z3.And(0 <= j, j < x.n), step_ok(sel(x.arr, j)))))
    l = E.list_new()
    l.n, l.arr = x.n, x.arr
    return E.new(HInst(FS, {'selectors': l}))


def has(o, s):
    return z3.If(IDX(o, s), HASITEM(o, s), HASATTR(o, s))


def step(o, s):
    return z3.If(IDX(o, s), GETITEM(o, s), GETATTR(o, s))


def follow(E, fs, rec, n, reach=REACH, w=W, f=F):
    """definitions of REACH, W and F for the first n steps"""
    a = fs.a0
    E.assume(reach(0) == rec)
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), reach(
        j + 1) == step(reach(j), sel(a, j))), patterns=[sel(a, j)]))
    E.assume(z3.And(0 <= w, w <= n, z3.Implies(w < n, is_none(sel(a, w))),
                    z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w),
                                              z3.Not(is_none(sel(a, j)))),
                              patterns=[sel(a, j)])))
    E.assume(z3.And(0 <= f, f <= w,
                    z3.Implies(f < w, z3.Not(has(reach(f), sel(a, f)))),
                    z3.ForAll([j], z3.Implies(
                        z3.And(0 <= j, j < f), has(reach(j), sel(a, j))),
                        patterns=[sel(a, j)])))


def invariant(cands, name, fn):
    """(the same on every path)"""
    cands[:] = [c for c in cands if c[0] != name] + [(name, fn)]


def following(E, rec, reach=REACH, f=F):
    """loop invariants of following the steps"""
    def var(E, ctx, i, be, ce):
        return ce == reach(i) if be.eq(rec) else None

    def cands(E, ctx, i, base):
        if isinstance(ctx.item, type(None)):
            return None
        return [i <= f]
    invariant(E.sh.scalar_cands, 'the object reached', var)
    invariant(E.sh.loop_cands, 'every step so far exists', cands)


def rest(E, fs, other, m):
    """how many steps a sub-selector has: they are the last ones of fs"""
    l = other.attrs['selectors'] if isinstance(other, HInst) else None
    E.prove('a selector of the remaining steps', B(
        isinstance(l, HList) and other.cls is FS))
    if not isinstance(l, HList):
        raise PathEnd()
    E.prove('the remaining steps in order', z3.And(
        l.n == m, m < fs.n0, m >= 0, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < m), sel(l.arr, j) == sel(
                fs.a0, fs.n0 - m + j)))))
    E.assume(l.n == m)


def sub_exc(E, m, o):
    """the exception of a recursive call: a fact about the whole world"""
    return SV(EXCS(m, o))


def sub_get(E, fs, m):
    def get(E, args, kw):
        s, o = args
        rest(E, fs, s, m)
        o = E.lift(o)
        E.count = getattr(E, 'count', -1) + 1
        E.at = E.loops[-1].i if E.loops else z3.IntVal(E.count)
        E.prove('followed from an item', z3.And(
            o == ITEM(REACH(W), E.at), 0 <= E.at, E.at < LEN(REACH(W))))
        if E.branch(OKS(m, o)):
            return node(E, VALS(m, o))
        raise PyRaise(sub_exc(E, m, o))
    return get


def forgiven(E, e):
    return E.truth_inst(SV(e), FSX)


def wild(E, coll, m, some):
    """loop invariants of going over the items: `some(i)` counts"""
    x = lambda i: ITEM(coll, i)      # noqa
    E.assume(some(0) == z3.BoolVal(False))
    E.assume(z3.ForAll([j], z3.Implies(0 <= j, some(j + 1) == z3.Or(
        some(j), OKS(m, x(j)))), patterns=[some(j + 1)]))
    E.assume(z3.ForAll([j], z3.Implies(0 <= j, some(j + 1) == z3.Or(
        some(j), OKS(m, x(j)))), patterns=[ITEM(coll, j)]))

    def var(E, ctx, i, be, ce):
        if not z3.is_true(z3.simplify(be == none)):
            return None
        E.assume(z3.Implies(0 <= i, some(i + 1) == z3.Or(
            some(i), OKS(m, x(i)))))
        return ce == z3.If(i == 0, none, z3.If(
            some(i), vbool(z3.BoolVal(False)), EXCS(m, x(0))))
    invariant(E.sh.scalar_cands, 'first failure', var)

    def lists(E, ctx, i, base):
        out = [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Or(
            OKS(m, x(j)), forgiven(E, EXCS(m, x(j))))),
            patterns=[x(j)]), z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < i, OKS(m, x(j))), some(i)),
                patterns=[x(j)])]
        for loc in sorted(base, key=str):
            l = E.heap.get(HB + loc[1]) if loc[0] == 'heap' else None
            if isinstance(l, HList):
                out.append(z3.ForAll([j], z3.Implies(
                    z3.And(0 <= j, j < i), sel(l.arr, j) == z3.If(
                        OKS(m, x(j)), VALS(m, x(j)), none))))
        return out
    invariant(E.sh.loop_cands, 'what the items gave', lists)


SOME = z3.Function('SOMEOK', IntS, BoolS)


def is_a(E, r, *classes):
    return isinstance(r, HInst) and isinstance(r.cls, type) and \
        issubclass(r.cls, classes)


@contract('C20', 'a selector reads', covers=(
    'reached', 'all items', 'missing attribute', 'missing item',
    'no item has it'))
def get(E):
    fs = setup(E)
    rec = E.val('REC', E.node)
    follow(E, fs, rec.e, fs.n0)
    following(E, rec.e)
    a, n = fs.a0, fs.n0
    m = n - W - 1
    coll = REACH(W)
    wild(E, coll, m, SOME)
    E.sh.summaries[FS.get] = sub_get(E, fs, m)
    tag, r = E.run_body(FS.get, fs, rec)
    E.prove('reading changes nothing', z3.And(
        unchanged(fs), B(not E.trace)))
    x = lambda i: ITEM(coll, i)      # noqa
    if tag == 'ok' and isinstance(r, HList):
        E.cover('all items')
        E.prove('a list for an all-items step', z3.And(F == W, W < n))
        E.prove('one value for each item, in order', z3.And(
            r.n == LEN(coll), z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < r.n), sel(r.arr, j) == z3.If(
                    OKS(m, x(j)), VALS(m, x(j)), none)))))
        E.prove('some item has it, or there are none', z3.Or(
            LEN(coll) == 0, SOME(LEN(coll))))
        E.prove('only selector errors are passed over', z3.ForAll(
            [j], z3.Implies(z3.And(0 <= j, j < r.n), z3.Or(
                OKS(m, x(j)), forgiven(E, EXCS(m, x(j)))))))
    elif tag == 'ok':
        E.cover('reached')
        E.prove('what the steps lead to', z3.And(
            F == n, W == n, E.lift(r) == REACH(n)))
    elif is_a(E, r, FSX):
        s = sel(a, F)
        E.prove('a step is missing', F < W)
        if is_a(E, r, KeyError):
            E.cover('missing item')
            E.prove('the key is named', z3.And(
                IDX(REACH(F), s), LOOKUP(REACH(F), s),
                E.lift(r.attrs.get('key')) == s))
        else:
            E.cover('missing attribute')
            E.prove('the attribute is named', z3.And(
                B(is_a(E, r, AttributeError)), z3.Not(IDX(REACH(F), s)),
                E.lift(r.attrs.get('name')) == s))
    elif isinstance(r, SV):
        E.cover('no item has it')
        at = getattr(E, 'at', 0)
        E.prove('the error of an item', z3.And(
            F == W, W < n, LEN(coll) > 0, z3.Or(z3.And(
                r.e == EXCS(m, x(0)), z3.Not(OKS(m, x(0)))),
                z3.And(B(hasattr(E, 'at')), r.e == EXCS(m, x(at)),
                       z3.Not(OKS(m, x(at)))))))
        E.prove('if no item has it, or it is another error', z3.Or(
            z3.Not(SOME(LEN(coll))), z3.Not(forgiven(E, r.e))))
    else:
        s = sel(a, F)
        E.prove('only what cannot be indexed or iterated', z3.And(
            B(is_a(E, r, TypeError)), z3.Or(
                z3.And(F < W, IDX(REACH(F), s), z3.Not(
                    LOOKUP(REACH(F), s))),
                z3.And(F == W, W < n, z3.Not(ITER(coll))))))


@contract('C20', 'a selector reads or gives nothing', covers=(
    'value', 'nothing'))
def get_or_none(E):
    fs = setup(E)
    rec = E.val('REC', E.node)

    def g(E, args, kw):
        E.prove('reads from the record given', B(
            len(args) == 2 and args[0] is fs and not kw and
            E.lift(args[1]).eq(rec.e)))
        if E.branch(OKS(fs.n0, rec.e)):
            return node(E, VALS(fs.n0, rec.e))
        raise PyRaise(SV(EXCS(fs.n0, rec.e)))
    E.sh.summaries[FS.get] = g
    tag, r = E.run(FS.get_or_none, fs, rec)
    ok, e = OKS(fs.n0, rec.e), EXCS(fs.n0, rec.e)
    if tag == 'ok' and r is None:
        E.cover('nothing')
        E.prove('nothing only if it cannot be read', z3.And(
            z3.Not(ok), forgiven(E, e)))
    elif tag == 'ok':
        E.cover('value')
        E.prove('what reading gives', z3.And(ok, E.lift(r) == VALS(
            fs.n0, rec.e)))
    else:
        E.prove('only other errors get through', z3.And(
            z3.Not(ok), z3.Not(forgiven(E, e)), E.lift(r) == e))


@contract('C20', 'index or attribute', covers=('index', 'attribute'))
def try_index(E):
    s = E.val('STEP')
    E.assume(step_ok(s.e))
    how = E.case('any', 'collection', 'list', 'dict', 'text')
    pd = None
    if how == 'any':
        o = E.ext('O')
        E.assume(z3.Not(INST(o.e, E.lift(ListCollection))))
        E.assume(z3.Not(INST(o.e, E.lift(str))))
    elif how == 'collection':
        C = E.new(HClass(ListCollection, 'C'))
        pd = E.some_dict('PROPS', keytag='str')
        C.overrides['properties'] = pd
        o = E.new(HInst(C, {}))
    else:
        o = {'list': lambda: E.some_list('L'), 'dict': lambda: E.some_dict(
            'D'), 'text': lambda: E.text('T')}[how]()
    tag, r = E.run(NS._try_index, o, s)
    E.prove('a decision', B(tag == 'ok'))
    if tag != 'ok':
        return
    rt = E.truth(r)
    rt = z3.BoolVal(rt) if isinstance(rt, bool) else rt
    num = z3.Or(is_int(s.e), is_bool(s.e))
    if how == 'any':
        E.cover('attribute')
        E.prove('positions, and what has items', rt == z3.Or(num, z3.And(
            HASATTR(o.e, E.lift('__getitem__')), truth(GETATTR(
                o.e, E.lift('__getitem__'))))))
    elif how == 'collection':
        E.cover('index')
        E.prove('all but its own properties', rt == z3.Or(
            num, z3.Not(z3.Select(pd.dom, s.e))))
    else:
        E.prove('containers have items, text has none', rt == B(
            how != 'text'))


def effects(E):
    return [t for t in E.trace]


def final(E, fs, rec, s, kinds):
    """the one change made: [(kind, target, args)]; all others are refused"""
    t = E.trace
    E.prove('at most one change', B(len(t) <= 1))
    for kind, o, args, res in t:
        E.prove('only at the location', z3.And(
            B(kind in kinds), E.lift(o) == rec))
    return t[0] if t else None


@contract('C20', 'a selector writes', covers=(
    'one step', 'further steps', 'all items', 'refused', 'no such step'))
def put(E):
    fs = setup(E)
    rec, val = E.val('REC', E.node), E.val('VALUE')
    n, a = fs.n0, fs.a0
    s, m = sel(a, 0), n - 1
    log = E.list_new()

    def sub(E, args, kw):
        f, o, v = args
        rest(E, fs, f, m)
        E.prove('the same value', B(E.lift(v).eq(val.e)))
        E.list_append(log, o)
        o = E.lift(o)
        if E.branch(OKS(m, o)):
            return None
        raise PyRaise(SV(EXCS(m, o)))
    E.sh.summaries[FS.put] = sub
    tag, r = E.run_body(FS.put, fs, rec, val)
    E.prove('the selector is not changed', unchanged(fs))
    nl = z3.simplify(log.n)
    t = final(E, fs, rec.e, s, ('setattr', 'setitem', 'setall'))
    E.prove('changed directly only by the last step', z3.Implies(
        B(t is not None), z3.And(n == 1, nl == 0)))
    if t is not None:
        kind, o, args, res = t
        E.prove('as the step says', z3.And(
            B({'setall': 1}.get(kind, 2) == len(args)),
            E.lift(args[-1]) == val.e,
            z3.If(is_none(s), B(kind == 'setall'), z3.And(
                z3.If(IDX(rec.e, s), B(kind == 'setitem'),
                      B(kind == 'setattr')),
                E.lift(args[0]) == s))))
    sub_at = z3.And(n > 1, z3.Not(is_none(s)), nl == 1, has(rec.e, s),
                    sel(log.arr, 0) == step(rec.e, s))
    if tag == 'ok':
        E.prove('no answer', B(r is None))
        if t is not None:
            E.cover('one step')
            E.prove('it was made', B(t[3][0] == 'ok'))
        else:
            E.prove('every place was written, once', z3.Or(
                z3.And(sub_at, OKS(m, step(rec.e, s))),
                z3.And(n > 1, is_none(s), nl == LEN(rec.e), z3.ForAll(
                    [j], z3.Implies(z3.And(0 <= j, j < nl), z3.And(
                        sel(log.arr, j) == ITEM(rec.e, j),
                        OKS(m, ITEM(rec.e, j))))))))
            E.cover('further steps')
            E.cover('all items')
        return
    if is_a(E, r, FSX):
        E.cover('no such step')
        E.prove('nothing was changed', B(t is None or t[3][0] == 'raise'))
        E.prove('an error of the location', z3.And(nl == 0, z3.Or(
            z3.And(n > 1, z3.Not(has(rec.e, s))),
            z3.And(n == 1, B(t is None), IDX(rec.e, s)),
            z3.And(n == 1, B(t is not None), z3.Or(
                E.truth_inst(t[3][1], AttributeError), E.truth_inst(
                    t[3][1], LookupError)) if t is not None else B(False))))
            )
    elif isinstance(r, SV) and t is not None:
        E.cover('refused')
        E.prove('the error of the change', B(
            t[3][0] == 'raise' and t[3][1].e.eq(r.e)))
    elif isinstance(r, SV):
        E.prove('the error of a further step', z3.And(
            nl > 0, r.e == EXCS(m, sel(log.arr, nl - 1)),
            z3.Not(OKS(m, sel(log.arr, nl - 1)))))
        E.prove('made at the place it leads to', z3.Or(sub_at, z3.And(
            is_none(s), nl <= LEN(rec.e), z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < nl), sel(log.arr, j) == ITEM(
                    rec.e, j))))))
    else:
        E.prove('only what cannot be indexed or iterated', z3.And(
            B(is_a(E, r, TypeError, IndexError)), nl == 0, B(t is None),
            z3.Or(n == 0, z3.And(is_none(s), z3.Not(ITER(rec.e))), z3.And(
                IDX(rec.e, s), z3.Not(HASITEM(rec.e, s))))))


@contract('C20', 'a selector deletes', covers=(
    'last step', 'nothing there', 'all items', 'missing attribute',
    'missing item', 'no item has it', 'refused'))
def delete(E):
    fs = setup(E)
    rec = E.val('REC', E.node)
    a, n = fs.a0, fs.n0
    E.assume(n >= 1)             # an empty selector has nothing to delete
    follow(E, fs, rec.e, n - 1)
    following(E, rec.e)
    m = n - W - 1
    coll = REACH(W)
    x = lambda i: ITEM(coll, i)      # noqa
    wild(E, coll, m, SOME)
    log = E.list_new()

    def logged(E, ctx, i, base):
        return [z3.And(log.n == i, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < i), sel(log.arr, j) == x(j))))] if any(
                loc[0] == 'heap' and loc[1] == log.uid
                for loc in base) else None
    invariant(E.sh.loop_cands, 'deleted so far', logged)
    ask = sub_get(E, fs, m)

    def sub(E, args, kw):
        E.list_append(log, args[1])
        ask(E, args, kw)
    E.sh.summaries[FS.delete] = sub
    tag, r = E.run_body(FS.delete, fs, rec)
    E.prove('the selector is not changed', unchanged(fs))
    s, o = sel(a, n - 1), REACH(n - 1)
    nl = z3.simplify(log.n)
    clear = GETATTR(o, E.lift('clear'))
    t = E.trace[0] if E.trace else None
    E.prove('at most one change made directly', B(len(E.trace) <= 1))
    if t is not None:
        kind, to, args, res = t
        E.prove('only by the last step', z3.And(
            F == n - 1, W == n - 1, nl == 0))
        if kind == 'call':
            E.prove('emptied', z3.And(
                is_none(s), E.lift(to) == clear, B(not args)))
        elif kind == 'setall':
            E.prove('emptied', z3.And(
                is_none(s), E.lift(to) == o, E.lift(args[0]) == vtup(
                    z3.IntVal(0), V.items(E.lift(args[0])))))
        else:
            E.prove('removed as the step says', z3.And(
                E.lift(to) == o, B(len(args) == 1), E.lift(args[0]) == s,
                z3.If(IDX(o, s), z3.And(B(kind == 'delitem'), z3.Not(
                    is_none(s))), z3.And(B(kind == 'delattr'),
                                         HASATTR(o, s)))))
    if tag == 'ok':
        E.prove('no answer', B(r is None))
        if t is not None:
            E.cover('last step')
            E.prove('it was made', B(t[3][0] == 'ok'))
        else:
            E.cover('nothing there')
            E.cover('all items')
            E.prove('no such attribute, or every item was asked once', z3.Or(
                z3.And(F == n - 1, W == n - 1, nl == 0, z3.Not(IDX(o, s)),
                       z3.Not(HASATTR(o, s))),
                z3.And(F == W, W < n - 1, nl == LEN(coll), z3.ForAll(
                    [j], z3.Implies(z3.And(0 <= j, j < nl), z3.And(
                        sel(log.arr, j) == x(j), z3.Or(
                            OKS(m, x(j)), forgiven(E, EXCS(m, x(j))))))),
                    z3.Or(nl == 0, SOME(nl)))))
        return
    if is_a(E, r, FSX):
        w = sel(a, F)
        if is_a(E, r, KeyError):
            E.cover('missing item')
            E.prove('the key is named', z3.And(
                nl == 0, IDX(REACH(F), w), E.lift(
                    r.attrs.get('key')) == w))
        else:
            E.cover('missing attribute')
            E.prove('the attribute is named', z3.And(
                nl == 0, B(is_a(E, r, AttributeError)),
                z3.Not(IDX(REACH(F), w)),
                E.lift(r.attrs.get('name')) == w))
        E.prove('a step is missing', z3.Or(F < W, z3.And(
            F == W, W == n - 1, B(t is not None), E.truth_inst(
                t[3][1], LookupError)) if t is not None and
            t[3][0] == 'raise' else F < W))
    elif isinstance(r, SV) and t is not None:
        E.cover('refused')
        E.prove('the error of the change', B(
            t[3][0] == 'raise' and t[3][1].e.eq(r.e)))
    elif isinstance(r, SV):
        E.cover('no item has it')
        at = getattr(E, 'at', 0)
        E.prove('the error of an item', z3.And(
            F == W, W < n - 1, LEN(coll) > 0, z3.Or(z3.And(
                r.e == EXCS(m, x(0)), z3.Not(OKS(m, x(0)))),
                z3.And(r.e == EXCS(m, x(at)), z3.Not(OKS(m, x(at)))))))
        E.prove('if no item has it, or it is another error', z3.Or(
            z3.And(nl == LEN(coll), z3.Not(SOME(LEN(coll)))),
            z3.Not(forgiven(E, r.e))))
    else:
        w = sel(a, F)
        E.prove('only what cannot be indexed or iterated', z3.And(
            B(is_a(E, r, TypeError)), nl == 0, B(t is None), z3.Or(
                z3.And(F < W, IDX(REACH(F), w), z3.Not(
                    LOOKUP(REACH(F), w))),
                z3.And(F == W, W < n - 1, z3.Not(ITER(coll))),
                z3.And(F == W, W == n - 1, is_none(s), z3.Not(
                    IDX(o, s))))))
