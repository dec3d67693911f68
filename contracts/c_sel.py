"""Field selectors: the sequence algebra; reading, writing, deleting."""
import z3
import normalize.exc as exc
import normalize.selector as NS
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from .world import *        # noqa
from .world import B_ as B
from .c_json import only_known, sel, q, k_
from pv.interp import HEAP_BASE as HB      # noqa

FS = NS.FieldSelector
j, j2 = z3.Int('jj'), z3.Int('jj2')


def step_ok(e):
    return z3.Or(is_none(e), is_int(e), is_bool(e), is_str(e))


def a_step(E, e):
    """a name, position or wildcard, of a subclass of str or int too"""
    return z3.Or(step_ok(e), z3.And(is_obj(e), z3.Or(
        INST(e, E.lift(str)), INST(e, E.lift(int)))))


def some_fs(E, name, valid=True):
    """an arbitrary selector of any length"""
    l = E.some_list(name)
    if valid:
        E.assume(z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < l.n), step_ok(sel(l.arr, j))),
            patterns=[sel(l.arr, j)]))
    fs = E.new(HInst(FS, {'selectors': l}))
    fs.n0, fs.a0 = l.n, l.arr
    return fs


def same_seq(n, a, m, b):
    return z3.And(n == m, z3.ForAll([j], z3.Implies(
        z3.And(0 <= j, j < m), sel(a, j) == sel(b, j))))


def unchanged(fs):
    l = fs.attrs['selectors']
    return same_seq(l.n, l.arr, fs.n0, fs.a0)


def seq(E, r, other=()):
    """the steps of a selector that was made; a list of its own"""
    ok = isinstance(r, HInst) and r.cls is FS and \
        isinstance(r.attrs.get('selectors'), HList)
    E.prove('a selector', B(ok))
    if not ok:
        raise PathEnd()
    l = r.attrs['selectors']
    E.prove('with steps of its own', B(all(l is not x for x in other)))
    return l.n, l.arr


@contract('C21', 'selector from steps', covers=('made', 'refused', 'empty'))
def make(E):
    how = E.case('list', 'selector', 'nothing', 'tuple')
    if how == 'nothing':
        E.cover('empty')
        tag, r = E.run(FS, *E.case([], [None]))
        n, a = seq(E, r) if tag == 'ok' else (z3.IntVal(-1), None)
        E.prove('no steps', n == 0)
        return
    if how == 'tuple':
        k = E.case(0, 1, 2)
        x = tuple(E.val('S%d' % i) for i in range(k))
        n0, at = z3.IntVal(k), lambda i: sel(arr, i)
        arr = z3.K(IntS, none)
        for i in range(k):
            arr = z3.Store(arr, i, x[i].e)
        src = ()
        a0 = arr
    elif how == 'list':
        x = E.some_list('L')
        n0, a0, src = x.n, x.arr, (x,)
    else:
        x = some_fs(E, 'FS')
        n0, a0, src = x.n0, x.a0, (x.attrs['selectors'],)
    tag, r = E.run(FS, x)
    valid = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n0), step_ok(
        sel(a0, j))))
    if tag == 'ok':
        E.cover('made')
        n, a = seq(E, r, src)
        E.prove('exactly those steps', same_seq(n, a, n0, a0))
        # bool is an int; anything else is refused
        E.prove('only names, positions and wildcards', z3.ForAll(
            [j], z3.Implies(z3.And(0 <= j, j < n), a_step(E, sel(a, j)))))
    else:
        E.cover('refused')
        E.prove('only what is no step is refused', z3.And(
            z3.Not(valid), B(isinstance(r, HInst) and
                             r.cls is ValueError)))
    if how == 'list':
        E.prove('the list given is not changed', same_seq(
            x.n, x.arr, n0, a0))


@contract('C21', 'extending a selector', covers=('ok', 'refused'))
def grow(E):
    fs = some_fs(E, 'FS')
    how = E.case('add_property', 'add_index', 'add_full_collection',
                 'extend', 'extend itself')
    l = fs.attrs['selectors']
    n0, a0 = l.n, l.arr
    if how.startswith('extend'):
        o = fs if how == 'extend itself' else some_fs(E, 'O')
        m, b = o.n0, o.a0
        tag, r = E.run(FS.extend, fs, o)
        E.prove('returns itself', B(tag == 'ok' and r is fs))
        l = fs.attrs['selectors']
        E.prove('the steps of both, in order', z3.And(
            l.n == n0 + m, z3.ForAll([j], z3.And(
                z3.Implies(z3.And(0 <= j, j < n0),
                           sel(l.arr, j) == sel(a0, j)),
                z3.Implies(z3.And(0 <= j, j < m),
                           sel(l.arr, n0 + j) == sel(b, j))))))
        if o is not fs:
            E.prove('the other is not changed', unchanged(o))
        return
    x = E.val('X')
    if how == 'add_full_collection':
        tag, r = E.run(FS.add_full_collection, fs)
        good, xe = z3.BoolVal(True), none
    else:
        tag, r = E.run(getattr(FS, how), fs, x)
        good = is_str(x.e) if how == 'add_property' else z3.Or(
            is_int(x.e), is_bool(x.e))
        xe = x.e
    l = fs.attrs['selectors']
    if tag == 'ok':
        E.cover('ok')
        E.prove('one step is added at the end', z3.And(
            l.n == n0 + 1, sel(l.arr, n0) == xe, z3.ForAll(
                [j], z3.Implies(z3.And(0 <= j, j < n0),
                                sel(l.arr, j) == sel(a0, j)))))
        E.prove('only valid steps are added', a_step(E, xe))
    else:
        E.cover('refused')
        E.prove('only a step of another kind is refused', z3.And(
            B(isinstance(r, HInst) and r.cls is ValueError),
            z3.Not(good)))
        E.prove('a refused step changes nothing', unchanged(fs))


@contract('C21', 'comparing selectors', covers=('equal', 'different'))
def compare(E):
    a = some_fs(E, 'A')
    how = E.case('selector', 'other')
    if how == 'other':
        o = E.case(lambda: E.some_list('O'), lambda: E.text('O'),
                   lambda: None, lambda: E.new(HInst(object)))()
        tag, r = E.run(FS.__eq__, a, o)
        E.prove('only selectors can be compared', B(
            tag == 'raise' and isinstance(r, HInst) and r.cls is TypeError))
        return
    b = E.case(lambda: some_fs(E, 'B'), lambda: a)()
    same = z3.And(a.n0 == b.n0, z3.ForAll([j], z3.Implies(
        z3.And(0 <= j, j < a.n0), peq(sel(a.a0, j), sel(b.a0, j)))))
    tag, r = E.run(FS.__eq__, a, b)
    rt = B(r) if isinstance(r, bool) else truth(E.lift(r))
    E.prove('equal iff the steps are', z3.And(B(tag == 'ok'), rt == same))
    tag, r = E.run(FS.__ne__, a, b)
    rt = B(r) if isinstance(r, bool) else truth(E.lift(r))
    E.prove('!= is the opposite', z3.And(B(tag == 'ok'), rt == z3.Not(same)))
    E.cover('equal')
    E.cover('different')
    E.prove('comparing changes nothing', z3.And(unchanged(a), unchanged(b)))
    hs = []
    E.sh.summaries[hash] = lambda E, args, kw: hashed(E, hs, args[0])
    tag, r = E.run(FS.__hash__, a)
    E.prove('hashed by its steps', z3.And(B(tag == 'ok' and len(hs) == 1),
            hs[0][0] == a.n0, z3.ForAll([j], z3.Implies(z3.And(
                0 <= j, j < a.n0), sel(hs[0][1], j) == sel(a.a0, j))))
            if hs else B(False))


def hashed(E, hs, x):
    e = E.lift(x)
    E.prove('the hash is that of a tuple', is_tup(e))
    hs.append((V.n(e), V.items(e)))
    return SV(vint(E.fresh('hash', IntS)))


@contract('C21', 'ordering selectors', covers=('less', 'not less',
                                               'incompatible'))
def order(E):
    a, b = some_fs(E, 'A'), some_fs(E, 'B')

    def cands(E, ctx, i, base):
        return [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), peq(
            sel(a.a0, j), sel(b.a0, j))))]
    E.sh.loop_cands = [('equal so far', cands)]
    tag, r = E.run(FS.__lt__, a, b)
    eqto = lambda k: z3.And(k <= a.n0, k <= b.n0, z3.ForAll(   # noqa
        [j], z3.Implies(z3.And(0 <= j, j < k), peq(
            sel(a.a0, j), sel(b.a0, j)))))
    k = z3.Int('kk')
    x, y = sel(a.a0, k), sel(b.a0, k)
    E.prove('comparing changes nothing', z3.And(unchanged(a), unchanged(b)))
    first = z3.And(0 <= k, k < a.n0, k < b.n0, eqto(k), z3.Not(peq(x, y)))
    if tag == 'ok':
        rt = B(r) if isinstance(r, bool) else truth(E.lift(r))
        E.prove('a proper prefix comes first', z3.Implies(z3.And(
            eqto(a.n0), a.n0 < b.n0), rt))
        E.prove('and nothing before its own prefixes', z3.Implies(
            z3.And(eqto(b.n0)), z3.Not(rt)))
        E.prove('positions by number', z3.ForAll([k], z3.Implies(
            z3.And(first, is_int(x), is_int(y)), rt == (V.i(x) < V.i(y)))))
        E.prove('steps of different kinds are not ordered', z3.ForAll(
            [k], z3.Implies(z3.And(first, is_int(x)), is_int(y))))
        E.prove('names by text', z3.ForAll([k], z3.Implies(
            z3.And(first, is_str(x)), z3.And(is_str(y), rt == LTO(
                x, y)))))
    else:
        E.cover('incompatible')
        E.prove('only steps of different kinds cannot be compared', z3.And(
            B(isinstance(r, HInst) and r.cls is TypeError),
            z3.Exists([k], z3.And(first, z3.Not(z3.Or(
                z3.And(is_int(x), is_int(y)), z3.And(
                    is_str(x), is_str(y))))))))
    E.cover('less')
    E.cover('not less')


@contract('C21', 'slices and length of a selector')
def parts(E):
    fs = some_fs(E, 'FS')
    n0, a0 = fs.n0, fs.a0
    how = E.case('len', 'item', 'slice')
    if how == 'len':
        tag, r = E.run(FS.__len__, fs)
        E.prove('the number of steps', z3.And(B(tag == 'ok'), E.lift(
            r) == vint(n0)))
    elif how == 'item':
        i = E.integer('I')
        tag, r = E.run(FS.__getitem__, fs, i)
        iv = V.i(i.e)
        p = z3.If(iv < 0, iv + n0, iv)
        ok = z3.And(0 <= p, p < n0)
        if tag == 'ok':
            E.prove('the step at that position', z3.And(ok, E.lift(
                r) == sel(a0, p)))
        else:
            E.prove('only positions outside are refused', z3.And(
                z3.Not(ok), B(r.cls is IndexError)))
    else:
        from pv.execute import PSlice
        lo = E.case(lambda: None, lambda: E.integer('LO'))()
        hi = E.case(lambda: None, lambda: E.integer('HI'))()
        tag, r = E.run(FS.__getitem__, fs, PSlice(lo, hi, None))

        def clamp(v, d):
            if v is None:
                return d
            i = V.i(v.e)
            i = z3.If(i < 0, i + n0, i)
            return z3.If(i < 0, z3.IntVal(0), z3.If(i > n0, n0, i))
        s, t = clamp(lo, z3.IntVal(0)), clamp(hi, n0)
        m = z3.If(t > s, t - s, z3.IntVal(0))
        E.prove('never fails', B(tag == 'ok'))
        if tag == 'ok':
            n, a = seq(E, r, (fs.attrs['selectors'],))
            E.prove('a selector of the steps of the slice', z3.And(
                n == m, z3.ForAll([j], z3.Implies(z3.And(
                    0 <= j, j < m), sel(a, j) == sel(a0, s + j)))))
    E.prove('nothing is changed', unchanged(fs))


@contract('C21', 'adding to a selector', covers=('added', 'refused'))
def plus(E):
    fs = some_fs(E, 'FS')
    n0, a0 = fs.n0, fs.a0
    how = E.case('selector', 'list', 'text', 'number', 'other')
    src = [fs.attrs['selectors']]
    if how == 'selector':
        o = some_fs(E, 'O')
        m, b = o.n0, o.a0
        src.append(o.attrs['selectors'])
    elif how == 'list':
        o = E.some_list('O')
        m, b = o.n, o.arr
    elif how in ('text', 'number'):
        o = E.text('O') if how == 'text' else E.integer('O')
        m, b = z3.IntVal(1), z3.K(IntS, o.e)
    else:
        o = E.case(lambda: None, lambda: E.new(HInst(object)))()
    tag, r = E.run(FS.__add__, fs, o)
    if how == 'other':
        E.cover('refused')
        E.prove('nothing else can be added', B(
            tag == 'raise' and isinstance(r, HInst) and r.cls is TypeError))
    elif tag == 'ok':
        E.cover('added')
        n, a = seq(E, r, src)
        E.prove('a new selector: its own steps, then the others', z3.And(
            n == n0 + m, z3.ForAll([j], z3.And(
                z3.Implies(z3.And(0 <= j, j < n0),
                           sel(a, j) == sel(a0, j)),
                z3.Implies(z3.And(0 <= j, j < m),
                           sel(a, n0 + j) == sel(b, j))))))
    else:
        E.prove('only what is no step is refused', z3.And(
            B(how == 'list' and isinstance(r, HInst) and
              r.cls is ValueError), z3.Exists([j], z3.And(
                  0 <= j, j < m, z3.Not(step_ok(sel(b, j)))))))
    E.prove('nothing is changed', unchanged(fs))
    if how == 'selector':
        E.prove('the other is not changed', unchanged(o))


@contract('C21', 'prefixes of a selector')
def prefix(E):
    fs = some_fs(E, 'FS')
    n0, a0 = fs.n0, fs.a0
    how = E.case('selector', 'list', 'step')
    if how == 'step':
        o = E.case(lambda: E.text('O'), lambda: E.integer('O'),
                   lambda: None)()
        tag, r = E.run(FS.startswith, fs, o)
        rt = B(r) if isinstance(r, bool) else truth(E.lift(r))
        E.prove('true iff that is the first step', z3.And(
            B(tag == 'ok'), rt == z3.And(n0 > 0, peq(
                sel(a0, 0), E.lift(o)))))
        return
    if how == 'selector':
        o = some_fs(E, 'O')
        m, b = o.n0, o.a0
    else:
        o = E.some_list('O')
        m, b = o.n, o.arr
    tag, r = E.run(FS.startswith, fs, o)
    rt = B(r) if isinstance(r, bool) else truth(E.lift(r))
    E.prove('true iff its steps come first', z3.And(
        B(tag == 'ok'), rt == z3.And(m <= n0, z3.ForAll(
            [j], z3.Implies(z3.And(0 <= j, j < m), peq(
                sel(b, j), sel(a0, j)))))))
    E.prove('nothing is changed', unchanged(fs))
