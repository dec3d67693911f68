"""Multiple field selectors: what they cover, and filtered get, delete and
patch.

The heads of the selector are an arbitrary dictionary from steps to either
`all` or another multiple field selector, subject to the invariant that
`__init__` establishes (its own contract).  Selectors below a head are
arbitrary: COVF(m, rest) says whether one covers the remaining steps, GETF
what it gives for them."""
import z3
import normalize.exc as exc
import normalize.selector as NS
from normalize.coll import ListCollection, DictCollection
from normalize.record import Record
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from .world import *        # noqa
from .world import B_ as B
from .c_json import only_known, sel, q, k_      # noqa
from .c_sel import FS, some_fs, seq, unchanged, step_ok, j, same_seq
from .c_sel2 import invariant, is_a, FSX
from pv.interp import HEAP_BASE as HB      # noqa

MFS = NS.MultiFieldSelector
COMPLETE = V.obj(z3.IntVal(901))
COVF = z3.Function('COVERS', V, IntS, IntS, BoolS)   # from step k on
GETF = z3.Function('SUBMFS', V, IntS, IntS, V)
SUBGET = z3.Function('FILTERED', V, V, V)            # mfs.get(value)
i_ = z3.Int('ii')


def tag_mfs(E):
    def contains(E, o, args, kw):
        k = the_rest(E, args[0])
        return E.sbool(z3.If(o.e == COMPLETE, z3.BoolVal(True),
                             COVF(o.e, k, E.total)))

    def getitem(E, o, args, kw):
        k = the_rest(E, args[0])
        return SV(GETF(o.e, k, E.total), E.tag)

    def get(E, o, args, kw):
        return SV(SUBGET(o.e, E.lift(args[0])))

    def it(E, o, args, kw):
        E.assume(LEN(o.e) >= 0)
        return SSeq(LEN(o.e), lambda i: SV(ITEM(o.e, i), E.fstag))
    E.fstag = Tag('fs', real=FS)
    E.tag = Tag('mfs', real=MFS, methods={
        '__contains__': contains, '__getitem__': getitem, 'get': get,
        '__iter__': it})
    return E.tag


def the_rest(E, x):
    """how much of the whole sequence was taken off"""
    l = x.attrs['selectors'] if isinstance(x, HInst) else x
    E.prove('the remaining steps', B(isinstance(l, HList)))
    if not isinstance(l, HList):
        raise PathEnd()
    k = z3.simplify(E.total - l.n)
    E.prove('in order', z3.And(k >= 0, z3.ForAll([j], z3.Implies(
        z3.And(0 <= j, j < l.n), sel(l.arr, j) == sel(E.steps, k + j)))))
    return k


def some_mfs(E, name='H'):
    tag_mfs(E)
    d = E.some_dict(name)
    d.valtag = E.tag
    dom, val = d.dom, d.val
    ALL = E.lift(all)
    hn, hi, hs = E.flag(name + 'none'), E.flag(name + 'int'), E.flag(
        name + 'str')
    cp = E.flag(name + 'complete')
    m = E.new(HInst(MFS, {'heads': d, 'has_none': hn, 'has_int': hi,
                          'has_string': hs, 'complete': cp}))
    t = lambda x: V.b(x.e)      # noqa
    at = lambda k: z3.Select(val, k)      # noqa
    E.assume(z3.ForAll([q], z3.Implies(z3.Select(dom, q), z3.And(
        z3.Or(is_none(q), is_int(q), is_str(q)),
        z3.Or(at(q) == ALL, z3.And(
            is_obj(at(q)), V.ref(at(q)) >= 0, V.ref(at(q)) < 900)),
        z3.Implies(t(hn), is_none(q)),
        z3.Implies(is_int(q), t(hi)), z3.Implies(is_str(q), t(hs)))),
        patterns=[z3.Select(dom, q)]))
    w1, w2 = z3.Int(name + 'w1'), z3.Int(name + 'w2')
    E.assume(z3.And(
        t(hn) == z3.Select(dom, none),
        z3.Implies(t(hi), z3.Select(dom, vint(w1))),
        z3.Implies(t(hs), z3.Select(dom, vstr(w2))),
        t(cp) == z3.And(t(hn), at(none) == ALL)))
    m.dom, m.val, m.hn, m.cp, m.hi, m.hs = dom, val, t(hn), t(cp), t(hi), \
        t(hs)
    m.all = ALL
    E.sh.summaries[MFS.complete_mfs.__func__] = lambda E, a, kw: SV(
        COMPLETE, E.tag)
    return m


def same_heads(m):
    d = m.attrs['heads']
    return z3.ForAll([q], z3.And(
        z3.Select(d.dom, q) == z3.Select(m.dom, q),
        z3.Implies(z3.Select(m.dom, q),
                   z3.Select(d.val, q) == z3.Select(m.val, q))))


def some_steps(E):
    """a non-empty or empty sequence of steps, in any form"""
    x = E.case(lambda: some_fs(E, 'S'), lambda: E.some_list('S'))()
    l = x.attrs['selectors'] if isinstance(x, HInst) else x
    E.assume(z3.ForAll([j], z3.Implies(
        z3.And(0 <= j, j < l.n), step_ok(sel(l.arr, j))),
        patterns=[sel(l.arr, j)]))
    E.total, E.steps = l.n, l.arr
    E.sh.summaries[FS] = from_steps
    return x


def from_steps(E, args, kw):
    x = args[0] if args else None
    if kw or not isinstance(x, (HList, tuple, list)):
        raise Unsupported('a selector from something else')
    l = E.list_new()
    s = x if isinstance(x, HList) else E.to_hlist(x)
    E.prove('made of steps', z3.ForAll([j], z3.Implies(
        z3.And(0 <= j, j < s.n), step_ok(sel(s.arr, j)))))
    l.n, l.arr = s.n, s.arr
    return E.new(HInst(FS, {'selectors': l}))


def tr(E, r):
    t = E.truth(r)
    return z3.BoolVal(t) if isinstance(t, bool) else t


@contract('C23', 'a step of a multiple selector', covers=(
    'all', 'some', 'none'))
def step(E):
    m = some_mfs(E)
    x = E.val('STEP')
    E.assume(z3.Or(is_none(x.e), is_int(x.e), is_str(x.e)))
    how = E.case('in', 'subscript')
    known = z3.Select(m.dom, z3.If(m.hn, none, x.e))
    if how == 'in':
        tag, r = E.run(MFS.__contains__, m, x)
        E.prove('matched by a head, or by all items', z3.And(
            B(tag == 'ok'), tr(E, r) == known))
    else:
        tag, r = E.run(MFS.__getitem__, m, x)
        E.prove('never fails', B(tag == 'ok'))
        v = z3.Select(m.val, z3.If(m.hn, none, x.e))
        if r is m:
            E.cover('all')
            E.prove('all of it', m.cp)
        elif r is None:
            E.cover('none')
            E.prove('nothing there', z3.Not(known))
        else:
            E.cover('some')
            E.prove('what lies below', z3.And(known, E.lift(r) == z3.If(
                v == m.all, COMPLETE, v)))
    E.prove('the selector is unchanged', same_heads(m))


@contract('C23', 'steps of a multiple selector', covers=(
    'all', 'some', 'none', 'below', 'in'))
def steps(E):
    m = some_mfs(E)
    x = some_steps(E)
    n, a = E.total, E.steps
    h = z3.If(m.hn, none, sel(a, 0))
    known, v = z3.Select(m.dom, h), z3.Select(m.val, h)
    how = E.case('in', 'subscript')
    if how == 'in':
        E.cover('in')

        def again(E, args, kw):
            # by induction over the length of the sequence
            k = the_rest(E, args[1])
            E.prove('on shorter sequences', z3.And(
                k > 0, B(args[0] is m), m.cp))
            return True
        E.sh.summaries[MFS.__contains__] = again
        tag, r = E.run_body(MFS.__contains__, m, x)
        E.prove('covered completely', z3.And(B(tag == 'ok'), tr(E, r) == z3.
                If(m.cp, z3.BoolVal(True), z3.If(
                    n == 0, z3.BoolVal(False), z3.And(known, z3.Or(
                        v == m.all, COVF(v, 1, n)))))))
        return
    tag, r = E.run(MFS.__getitem__, m, x)
    E.prove('never fails', B(tag == 'ok'))
    if r is m:
        E.cover('all')
        E.prove('itself', z3.Or(m.cp, n == 0))
    elif r is None:
        E.cover('none')
        E.prove('nothing there', z3.And(z3.Not(known), n > 0))
    else:
        e = E.lift(r)
        E.cover('some')
        E.cover('below')
        E.prove('what lies below', z3.And(
            known, n > 0, z3.Not(m.cp), e == z3.If(
                v == m.all, COMPLETE, z3.If(n == 1, v, GETF(v, 1, n)))))
    E.prove('the selector is unchanged', same_heads(m))


@contract('C23', 'the complete selector')
def complete(E):
    made = []

    def make(E, args, kw):
        o = E.new(HInst(MFS, {'args': args}))
        made.append(o)
        return o
    E.sh.summaries[MFS] = make
    C = E.new(HClass(MFS, 'C'))
    E.sh.summaries[C] = make
    tag, r = E.run(MFS.complete_mfs.__func__, C)
    E.prove('one selector of everything', B(
        tag == 'ok' and len(made) == 1 and r is made[0] and
        len(r.attrs['args']) == 1))
    if tag == 'ok' and made:
        x = r.attrs['args'][0]
        E.prove('all items', B(isinstance(x, HList) and
                               x.conc_len() == 1) if not isinstance(
                                   x, list) else B(x == [None]))
        if isinstance(x, HList):
            E.prove('all items', sel(x.arr, 0) == none)


TOT = z3.Function('TOTAL', IntS, IntS)


@contract('C23', 'the selectors of a multiple selector', covers=('some',))
def iterate(E):
    m = some_mfs(E)
    E.sh.summaries[FS] = from_steps
    PLUS = strf('head+', V, V, V)

    def plus(E, args, kw):
        l = args[0].attrs['selectors']
        E.prove('a head of one step', l.n == 1)
        return SV(PLUS(sel(l.arr, 0), E.lift(args[1])), E.fstag)
    E.sh.summaries[FS.__add__] = plus
    n, K, X = E.enum(m.dom)
    v = lambda i: z3.Select(m.val, K(i))      # noqa
    size = lambda i: z3.If(v(i) == m.all, 1, LEN(v(i)))     # noqa
    E.assume(TOT(0) == 0)
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
        LEN(v(j)) >= 0, TOT(j) >= 0, TOT(j + 1) == TOT(j) + size(j))),
        patterns=[K(j)]))
    log = E.list_new()
    heads = E.list_new()      # the head of each one yielded

    def on(f):
        if isinstance(f, HInst):
            l = f.attrs['selectors']
            E.prove('one step', l.n == 1)
            E.list_append(log, SV(PLUS(sel(l.arr, 0), none)))
        else:
            E.list_append(log, f)
    want = lambda i, p: z3.If(v(i) == m.all, PLUS(K(i), none),     # noqa
                              PLUS(K(i), ITEM(v(i), p)))

    def outer(E, ctx, i, base):
        return [z3.And(log.n == TOT(i), TOT(i) >= 0),
                z3.ForAll([i_, j], z3.Implies(z3.And(
                    0 <= i_, i_ < i, 0 <= j, j < size(i_)), z3.And(
                        TOT(i_) + j < TOT(i),
                        sel(log.arr, TOT(i_) + j) == want(i_, j))))]

    def inner(E, ctx, i, base):
        # the loop over the selectors below one head
        if len(E.loops) < 1:
            return None
        h = E.loops[0].i
        return [log.n == TOT(h) + i, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < i), sel(log.arr, TOT(h) + j) == PLUS(
                K(h), ITEM(v(h), j)))), z3.ForAll([i_, j], z3.Implies(z3.And(
                    0 <= i_, i_ < h, 0 <= j, j < size(i_)), z3.And(
                        TOT(i_) + j < TOT(h),
                        sel(log.arr, TOT(i_) + j) == want(i_, j))))]
    invariant(E.sh.loop_cands, 'outer', outer)
    invariant(E.sh.loop_cands, 'inner', inner)
    tag, g = E.run(MFS.__iter__, m)
    E.prove('a generator', B(tag == 'ok'))
    try:
        E.iterate(g, on, ('drain',))
    except PyRaise:
        E.prove('never fails', False)
        return
    E.cover('some')
    E.prove('one for each way from head to end', log.n == TOT(n))
    E.prove('the head, then the steps below it', z3.ForAll(
        [i_, j], z3.Implies(z3.And(0 <= i_, i_ < n, 0 <= j, j < size(i_)),
                            sel(log.arr, TOT(i_) + j) == want(i_, j))))
    E.prove('the selector is unchanged', same_heads(m))


# ------------------------------------------------------- filtered operations
FSI = z3.Function('SELECTOR', IntS, V)          # the i-th selector of it
OKG = z3.Function('READS', V, V, BoolS)         # a selector, an object
VALG = z3.Function('READ', V, V, V)
EXCG = z3.Function('READEXC', V, V, V)
OKD = z3.Function('DELETES', V, V, BoolS)
EXCD = z3.Function('DELEXC', V, V, V)
OKP = z3.Function('POSTS', V, V, V, BoolS)
EXCP = z3.Function('POSTEXC', V, V, V, V)
PERM = z3.Function('PERM', IntS, IntS)
GHOST = z3.Function('CHANGE', V, V, V)          # an entry of the log


def op_world(E):
    """an mfs known by the sequence of its selectors; logs of what is asked
    of them"""
    tag_mfs(E)
    m = E.new(HInst(MFS, {}))
    m.n = z3.Int('nsel')
    E.assume(m.n >= 0)
    E.reads, E.changes = E.list_new(), E.list_new()

    def get(E, o, args, kw):
        x = E.lift(args[0])
        E.prove('read before anything is changed', E.changes.n == 0)
        E.list_append(E.reads, SV(GHOST(o.e, x)))
        if E.branch(OKG(o.e, x)):
            return SV(VALG(o.e, x))
        raise PyRaise(SV(EXCG(o.e, x)))

    def delete(E, o, args, kw):
        x = E.lift(args[0])
        E.list_append(E.changes, SV(DEL(o.e, x)))
        if E.branch(OKD(o.e, x)):
            return None
        raise PyRaise(SV(EXCD(o.e, x)))

    def post(E, o, args, kw):
        x, v = E.lift(args[0]), E.lift(args[1])
        E.list_append(E.changes, SV(POST(o.e, x, v)))
        if E.branch(OKP(o.e, x, v)):
            return SV(E.fresh('count'))
        raise PyRaise(SV(EXCP(o.e, x, v)))
    E.sel = Tag('selector', methods={
        'get': get, 'delete': delete, 'post': post}, attrs={
            'selectors': lambda E, e: steps_of(E, e)}, sticky=True)
    ISSEL = z3.Function('ISSEL', V, BoolS)
    E.assume(z3.ForAll([j], ISSEL(FSI(j)), patterns=[FSI(j)]))
    E.sh.typing = [(ISSEL, E.sel)]
    E.sh.summaries[MFS.__iter__] = lambda E, a, kw: SSeq(
        m.n, lambda i: SV(FSI(i), E.sel))
    for f in (EXCG(q, k_), EXCD(q, k_), EXCP(q, k_, r_)):
        vs = [q, k_] + ([r_] if f.num_args() == 3 else [])
        E.assume(z3.ForAll(vs, z3.And(is_obj(f), V.ref(f) >= 0,
                                      V.ref(f) < 1000), patterns=[f]))
    return m


r_ = z3.Const('r_', V)
DEL = z3.Function('DEL', V, V, V)
POST = z3.Function('POST', V, V, V, V)
SLEN = z3.Function('STEPS_N', V, IntS)
SARR = z3.Function('STEPS', V, ArrIV)


def steps_of(E, e):
    l = E.list_new()
    l.n, l.arr = SLEN(e), SARR(e)
    E.assume(l.n >= 0)
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.n), step_ok(
        sel(l.arr, j)))))
    return l


def sorted_selectors(E, m, asked):
    """sorted(): a permutation, by the order of the keys"""
    def srt(E, args, kw):
        v = args[0]
        E.prove('the selectors are put in order', B(
            v is m or isinstance(v, (HGen, SSeq, HList))))
        x = SV(E.fresh('FSX'), E.sel)
        kf = kw.get('key')
        if kf is not None:
            key = E.call(kf, [x], {})
            ok = isinstance(key, HList)
            E.prove('ordered by a list of numbers', B(ok))
            if not ok:
                raise PathEnd()
            s = lambda k: sel(SARR(x.e), k)      # noqa
            E.prove('positions by number, all others alike', z3.And(
                key.n == SLEN(x.e), z3.ForAll([j], z3.Implies(z3.And(
                    0 <= j, j < key.n), z3.And(
                        z3.Implies(is_int(s(j)), sel(key.arr, j) == s(j)),
                        z3.Implies(z3.Or(is_none(s(j)), is_str(s(j))),
                                   sel(key.arr, j) == vint(-1)))))))
        asked.append(kw)
        E.trusted('sorted(): a permutation, ordered by the key')
        E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m.n), z3.And(
            0 <= PERM(j), PERM(j) < m.n)), patterns=[PERM(j)]))
        return SSeq(m.n, lambda i: SV(FSI(PERM(i)), E.sel))
    return srt


def bools(*xs):
    return z3.And(*[x if z3.is_expr(x) else z3.BoolVal(bool(x))
                    for x in xs])


@contract('C24', 'filtered delete', covers=(
    'deleted', 'a location is missing', 'another error'))
def delete(E):
    m = op_world(E)
    o = E.val('OBJ')
    force = E.case(None, True, False, 'any')
    kw = {} if force is None else {'force': E.val('FORCE') if force == 'any'
                                   else force}
    fv = z3.BoolVal(bool(force)) if force != 'any' else truth(kw['force'].e)
    asked = []
    E.sh.summaries[sorted] = sorted_selectors(E, m, asked)

    def cands(E, ctx, i, base):
        return [z3.And(E.reads.n == i, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < i), OKG(FSI(j), o.e)))),
            z3.And(E.changes.n == i, z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < i), z3.And(
                    sel(E.changes.arr, j) == DEL(FSI(PERM(j)), o.e), z3.Or(
                        OKD(FSI(PERM(j)), o.e), forgiven(
                            E, EXCD(FSI(PERM(j)), o.e)))))))]
    invariant(E.sh.loop_cands, 'so far', cands)
    tag, r = E.run(MFS.delete, m, o, **kw)
    n, c = m.n, E.changes
    readable = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), OKG(
        FSI(j), o.e)))
    if tag == 'ok':
        E.cover('deleted')
        E.prove('each selector deletes once', z3.And(
            B(len(asked) == 1), c.n == n, z3.ForAll([j], z3.Implies(z3.And(
                0 <= j, j < n), sel(c.arr, j) == DEL(
                    FSI(PERM(j)), o.e)))))
        E.prove('the highest positions first', B(
            asked and asked[0].get('reverse') is True and
            asked[0].get('key') is not None))
        E.prove('all could be read, unless forced', z3.Or(fv, readable))
        E.prove('only missing locations are passed over', z3.ForAll(
            [j], z3.Implies(z3.And(0 <= j, j < n), z3.Or(
                OKD(FSI(PERM(j)), o.e), forgiven(E, EXCD(
                    FSI(PERM(j)), o.e))))))
    else:
        e = E.lift(r)
        E.cover('a location is missing')
        E.cover('another error')
        k = E.loops[0].i if E.loops else z3.IntVal(0)
        last = sel(c.arr, c.n - 1)
        nr = E.reads.n
        E.prove('an error of reading, with nothing changed, or of deleting',
                z3.Or(z3.And(c.n == 0, z3.Not(fv), nr > 0, e == EXCG(
                    FSI(nr - 1), o.e), z3.Not(OKG(FSI(nr - 1), o.e))),
                    z3.And(c.n > 0, z3.Or(fv, readable), e == EXCD(
                        FSI(PERM(c.n - 1)), o.e), z3.Not(OKD(
                            FSI(PERM(c.n - 1)), o.e)), last == DEL(
                                FSI(PERM(c.n - 1)), o.e), z3.Not(
                                    forgiven(E, e)))))


def forgiven(E, e):
    return E.truth_inst(SV(e), FSX)


@contract('C24', 'filtered patch', covers=('patched', 'refused'))
def patch(E):
    m = op_world(E)
    target, source = E.val('TARGET'), E.val('SOURCE')
    how = E.case('no copy', 'true', 'function', 'default')
    copier = E.ext('COPIER') if how == 'function' else None
    COPY = z3.Function('COPIED', V, V)
    copied = lambda v: v if how in ('no copy', 'default') else (  # noqa
        strf('deepcopy', V, V)(v) if how == 'true' else COPY(v))
    kw = {}
    if how == 'no copy':
        kw['copy'] = False
    elif how == 'true':
        kw['copy'] = True
    elif how == 'function':
        kw['copy'] = SV(copier.e, Tag('copier', call=lambda E, f, a, k: SV(
            COPY(E.lift(a[0])))))
        E.assume(truth(copier.e))
    import copy
    E.sh.summaries[copy.deepcopy] = lambda E, a, k: SV(strf(
        'deepcopy', V, V)(E.lift(a[0])))
    missing = lambda i: E.truth_inst(       # noqa
        SV(EXCG(FSI(i), source.e)), AttributeError)
    s = source.e
    change = lambda i: z3.If(       # noqa
        OKG(FSI(i), s), POST(FSI(i), target.e, copied(VALG(FSI(i), s))),
        DEL(FSI(i), target.e))
    fine = lambda i: z3.If(       # noqa
        OKG(FSI(i), s), OKP(FSI(i), target.e, copied(VALG(FSI(i), s))),
        OKD(FSI(i), target.e))

    def cands(E, ctx, i, base):
        out = [z3.And(E.reads.n == i, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < i), z3.Or(OKG(FSI(j), s), missing(j))))),
            z3.And(E.changes.n == i, z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < i), z3.And(
                    sel(E.changes.arr, j) == change(j), fine(j)))))]
        for loc in sorted(base, key=str):
            l = E.heap.get(HB + loc[1]) if loc[0] == 'heap' else None
            if isinstance(l, HList) and l not in (E.reads, E.changes):
                it = sel(l.arr, j)
                x = z3.Select(V.items(it), 1)
                out.append(z3.And(l.n == i, z3.ForAll([j], z3.Implies(
                    z3.And(0 <= j, j < i), z3.And(
                        is_tup(it), V.n(it) == 2,
                        z3.Select(V.items(it), 0) == FSI(j),
                        x == z3.If(OKG(FSI(j), s), VALG(
                            FSI(j), s), E.lift(NS._None)))),
                    patterns=[it])))
        return out
    invariant(E.sh.loop_cands, 'so far', cands)
    # a value that is the marker class itself is taken for missing
    E.assume(z3.ForAll([q, k_], VALG(q, k_) != E.lift(NS._None)))
    tag, r = E.run(MFS.patch, m, target, source, **kw)
    n, c = m.n, E.changes
    if tag == 'ok':
        E.cover('patched')
        E.prove('each location is written, or deleted if the source '
                'lacks it', z3.And(c.n == n, z3.ForAll(
                    [j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
                        sel(c.arr, j) == change(j), fine(j))))))
        E.prove('the source could be read', z3.ForAll(
            [j], z3.Implies(z3.And(0 <= j, j < n), z3.Or(
                OKG(FSI(j), s), missing(j)))))
    else:
        E.cover('refused')
        e = E.lift(r)
        nr, k = E.reads.n, c.n - 1
        E.prove('an error of reading with nothing changed, or of a change',
                z3.Or(z3.And(c.n == 0, nr > 0, e == EXCG(FSI(nr - 1), s),
                             z3.Not(OKG(FSI(nr - 1), s)),
                             z3.Not(missing(nr - 1))),
                      z3.And(c.n > 0, nr == n, z3.Not(fine(k)), e == z3.If(
                          OKG(FSI(k), s), EXCP(FSI(k), target.e, copied(
                              VALG(FSI(k), s))), EXCD(
                                  FSI(k), target.e)))))
    E.prove('everything is read from the source', z3.ForAll(
        [j], z3.Implies(z3.And(0 <= j, j < E.reads.n), sel(
            E.reads.arr, j) == GHOST(FSI(j), s))))


SUBV = z3.Function('BELOW', V, V, V)       # what _get gives for a value, tail
OKF = z3.Function('BELOWOK', V, V, BoolS)
EXCF = z3.Function('BELOWEXC', V, V, V)


@contract('C24', 'what lies below a head', covers=('all', 'some'))
def below(E):
    tag_mfs(E)
    m = E.new(HInst(MFS, {}))
    x, t = E.val('X'), E.val('TAIL')
    E.assume(z3.Or(t.e == E.lift(all), z3.And(
        is_obj(t.e), V.ref(t.e) >= 0, V.ref(t.e) < 900)))
    tag, r = E.run(MFS._get, m, x, SV(t.e, E.tag))
    E.prove('never fails', B(tag == 'ok'))
    E.cover('all')
    E.cover('some')
    E.prove('a deep copy, or what the selector below gives', E.lift(r) == z3.
            If(t.e == E.lift(all), z3.If(
                z3.Or(is_none(x.e), is_int(x.e)), E.lift(r), strf(
                    'deepcopy', V, V)(x.e)), SUBGET(t.e, x.e)))


@contract('C24', 'filtered get', covers=(
    'list', 'positions of a list', 'dict', 'keys of a dict',
    'dict collection', 'keys of a collection', 'whole',
    'record', 'mismatch'))
def filtered(E):
    m = some_mfs(E)
    how = E.case('list', 'list collection', 'dict', 'dict collection',
                 'object')
    made = []
    E.sh.summaries.pop(type, None)
    C = E.new(HClass(Record, 'C'))

    pairs = []

    def ctor(E, args, kw):
        made.append((args, kw))
        if args and isinstance(args[0], HGen):
            # a constructor reads what it is given
            l = E.list_new()
            pairs.append(l)

            def on(v):
                ok = isinstance(v, tuple) and len(v) == 2
                E.prove('keys and values', B(ok))
                if ok:
                    E.list_append(l, SV(PAIR(E.lift(v[0]), E.lift(v[1]))))
            E.iterate(args[0], on, ('ctor',))
        return E.new(HInst(C, {}))
    E.sh.summaries[C] = ctor

    def sub(E, args, kw):
        x, t = E.lift(args[1]), E.lift(args[2])
        E.prove('with the same selector', B(args[0] is m))
        if E.branch(OKF(x, t)):
            return SV(SUBV(x, t))
        e = EXCF(x, t)
        E.assume(z3.And(is_obj(e), V.ref(e) >= 0, V.ref(e) < 1000))
        raise PyRaise(SV(e))
    E.sh.summaries[MFS._get] = sub
    KEYAT = z3.Function('KEYAT', IntS, V)
    VALAT = z3.Function('VALAT', IntS, V)
    PAIR = z3.Function('PAIR', V, V, V)
    CNT = z3.Function('COUNT', IntS, IntS)      # heads found below one
    orders = []

    def srt(E, args, kw):
        E.prove('in the order of the positions', B(not kw))
        v = args[0]
        orders.append(1)
        E.trusted('sorted(): a permutation, in increasing order')
        if isinstance(v, HDict) and v.dom is m.dom:
            return SSeq(n, lambda i: E.mkkey(K(PERM(i)), None))
        if not isinstance(v, SSeq):
            raise Unsupported('sorted(%r)' % (v,))
        return SSeq(n, lambda i: (E.mkkey(K(PERM(i)), None), SV(
            z3.Select(m.val, K(PERM(i))), E.tag)))
    E.sh.summaries[sorted] = srt
    n, K, X = E.enum(m.dom)
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
        0 <= PERM(j), PERM(j) < n)), patterns=[PERM(j)]))
    tail_of = lambda k: z3.Select(m.val, k)        # noqa
    tail = z3.Select(m.val, none)
    if how == 'list':
        o = E.some_list('L')
        ln, item = o.n, lambda i: sel(o.arr, i)        # noqa
    elif how == 'dict':
        o = E.some_dict('D')
    else:
        def getitem(E, s, args, kw):
            k = E.lift(args[0])
            if not E.branch(HASITEM(s.e, k)):
                E.throw(IndexError if how.startswith('list') else KeyError,
                        k)
            return SV(GETITEM(s.e, k))

        def items(E, s, args, kw):
            return SSeq(LEN(s.e), lambda i: (SV(KEYAT(i)), SV(VALAT(i))))
        base = {'list collection': ListCollection, 'dict collection':
                DictCollection, 'object': Record}[how]
        tg = Tag(how, real=base, attrs={'__class__': lambda E, e: C},
                 methods={'__getitem__': getitem, '__iter__': lambda E, s, a,
                          k: SSeq(LEN(s.e), lambda i: SV(ITEM(s.e, i))),
                          'items': items, '__contains__': lambda E, s, a, k:
                          E.sbool(HASITEM(s.e, E.lift(a[0])))})
        if how == 'object':
            tg.methods.clear()
        o = SV(E.ext('OBJ').e, tg)
        E.assume(LEN(o.e) >= 0)
        ln, item = LEN(o.e), lambda i: ITEM(o.e, i)        # noqa
        other = {'list collection': (), 'dict collection': (
            list, ListCollection), 'object': (
                list, ListCollection, dict, DictCollection)}[how]
        for t in other:
            E.assume(z3.Not(E.truth_inst(o, t)))
        E.sh.summaries[type] = lambda E, a, kw: C
    has = (lambda k: z3.Select(o.dom, k)) if how == 'dict' else (
        lambda k: HASITEM(o.e, k))
    at = (lambda k: z3.Select(o.val, k)) if how == 'dict' else (
        lambda k: GETITEM(o.e, k))
    att = lambda k: z3.If(HASATTR(o.e, k), GETATTR(o.e, k), none)   # noqa

    if how == 'dict collection':
        E.assume(CNT(0) == 0)
        E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), CNT(
            j + 1) == CNT(j) + z3.If(has(K(j)), 1, 0)), patterns=[K(j)]))

    def cands(E, ctx, i, base):
        out = []
        if how == 'dict collection' and pairs:
            l = pairs[0]
            out.append(z3.And(l.n == i, z3.ForAll([j], z3.Implies(z3.And(
                0 <= j, j < i), sel(l.arr, j) == PAIR(KEYAT(j), SUBV(
                    VALAT(j), tail))))))
            out.append(z3.And(l.n == CNT(i), z3.ForAll([j], z3.Implies(z3.And(
                0 <= j, j < i, has(K(j))), z3.And(
                    CNT(j) < l.n, sel(l.arr, CNT(j)) == PAIR(K(j), SUBV(
                        at(K(j)), tail_of(K(j)))))))))
        for loc in sorted(base, key=str):
            d = E.heap.get(HB + loc[1]) if loc[0] == 'heap' else None
            if isinstance(d, HDict):
                # built from the heads seen so far, or the items
                if how == 'object':
                    kp = lambda k: z3.And(z3.Select(m.dom, k), X(      # noqa
                        k) < i, z3.Not(is_none(att(k))))
                    new = lambda k: SUBV(att(k), tail_of(k))     # noqa
                else:
                    kp = lambda k: z3.And(z3.Select(m.dom, k), X(      # noqa
                        k) < i, has(k))
                    new = lambda k: SUBV(at(k), tail_of(k))     # noqa
                out.append(z3.ForAll([q], z3.And(
                    z3.Select(d.dom, q) == kp(q), z3.Implies(
                        kp(q), z3.Select(d.val, q) == new(q)))))
                if how == 'dict':
                    n2, K2, X2 = E.enum(o.dom)
                    kp2 = lambda k: z3.And(has(k), X2(k) < i)     # noqa
                    out.append(z3.ForAll([q], z3.And(
                        z3.Select(d.dom, q) == kp2(q), z3.Implies(
                            kp2(q), z3.Select(d.val, q) == SUBV(
                                at(q), tail)))))
        return out or None
    if how == 'dict':
        E.enum(o.dom)
    invariant(E.sh.loop_cands, 'built so far', cands)
    tag, r = E.run(MFS.get, m, o)
    E.prove('the selector is unchanged', same_heads(m))
    if tag == 'raise':
        if isinstance(r, SV):
            return               # the error of what lies below
        if how.startswith('list'):
            E.prove('only names in a list, or positions outside', z3.Or(
                z3.And(m.hs, B(is_a(E, r, TypeError))), z3.And(
                    z3.Not(m.hn), z3.Not(m.hs), B(is_a(E, r, IndexError)))))
        elif how.startswith('dict'):
            E.prove('no error for keys', B(False))
        else:
            E.cover('mismatch')
            E.prove('only positions, or items, of what is no list', z3.And(
                B(is_a(E, r, TypeError)), z3.Or(m.hi, z3.And(
                    m.hn, tail != m.all))))
        return
    if how.startswith('list'):
        l = r
        if how == 'list collection':
            kw = made[0][1] if made else {}
            E.prove('another one of its class', B(
                len(made) == 1 and isinstance(r, HInst) and r.cls is C and
                not made[0][0] and set(kw) == {'values'} and
                isinstance(kw['values'], HList)))
            l = kw.get('values')
        if not isinstance(l, HList):
            E.prove('a list', B(False))
            return
        E.prove('a list of its own', B(l is not o))
        E.prove('no names', z3.Not(m.hs))
        if orders:
            E.cover('positions of a list')
            kk = lambda i: K(PERM(i))      # noqa
            ok = [l.n == n, z3.Not(m.hn)]
            if how == 'list':
                p = lambda i: z3.If(V.i(kk(i)) < 0, V.i(kk(i)) + ln,   # noqa
                                    V.i(kk(i)))
                ok.append(z3.ForAll([j], z3.Implies(z3.And(
                    0 <= j, j < n), z3.And(
                        0 <= p(j), p(j) < ln, sel(l.arr, j) == SUBV(
                            item(p(j)), tail_of(kk(j)))))))
            else:
                ok.append(z3.ForAll([j], z3.Implies(z3.And(
                    0 <= j, j < n), sel(l.arr, j) == SUBV(GETITEM(
                        o.e, kk(j)), tail_of(kk(j))))))
            E.prove('exactly the positions selected', z3.And(*ok))
        else:
            E.cover('list')
            E.prove('all items', z3.And(m.hn, l.n == ln, z3.ForAll(
                [j], z3.Implies(z3.And(0 <= j, j < ln), sel(
                    l.arr, j) == SUBV(item(j), tail)))))
    elif how == 'dict':
        E.prove('a dictionary of its own', B(isinstance(
            r, HDict) and r is not o))
        if not isinstance(r, HDict):
            return
        E.cover('dict')
        E.cover('keys of a dict')
        kept = lambda k: z3.And(has(k), z3.Or(m.hn, z3.Select(  # noqa
            m.dom, k)))
        E.prove('exactly the keys selected', z3.ForAll([q], z3.And(
            z3.Select(r.dom, q) == kept(q), z3.Implies(kept(q), z3.Select(
                r.val, q) == SUBV(at(q), z3.If(m.hn, tail, tail_of(q)))))))
    elif how == 'dict collection':
        E.prove('another one of its class', B(
            len(made) == 1 and isinstance(r, HInst) and r.cls is C and
            len(made[0][0]) == 1 and not made[0][1]))
        if not made:
            return
        if isinstance(made[0][0][0], HDict) or not pairs:
            raise Unsupported('made from something else')
        l = pairs[0]
        E.cover('dict collection')
        E.cover('keys of a collection')
        E.prove('all items, or exactly the keys selected', z3.If(
            m.hn, z3.And(l.n == ln, z3.ForAll([j], z3.Implies(z3.And(
                0 <= j, j < ln), sel(l.arr, j) == PAIR(
                    KEYAT(j), SUBV(VALAT(j), tail))))),
            z3.And(l.n == CNT(n), z3.ForAll([j], z3.Implies(z3.And(
                0 <= j, j < n, has(K(j))), z3.And(
                    CNT(j) < l.n, sel(l.arr, CNT(j)) == PAIR(K(j), SUBV(
                        at(K(j)), tail_of(K(j))))))))))
    else:
        if not made:
            E.cover('whole')
            E.prove('all of it', z3.And(m.hn, tail == m.all, E.lift(
                r) == SUBV(o.e, m.all)))
            return
        E.cover('record')
        args, kw = made[0]
        d = kw.get(EXTRA)
        if not kw:
            d = E.dict_new()
        E.prove('another one of its class', B(
            len(made) == 1 and not args and set(kw) <= {EXTRA} and
            isinstance(r, HInst) and r.cls is C))
        if d is None:
            return
        kept = lambda k: z3.And(z3.Select(m.dom, k), z3.Not(is_none(  # noqa
            att(k))))
        E.prove('exactly the slots selected that are set', z3.And(
            z3.Not(m.hn), z3.ForAll([q], z3.And(
                z3.Select(d.dom, q) == kept(q), z3.Implies(
                    kept(q), z3.Select(d.val, q) == SUBV(
                        att(q), tail_of(q)))))))
