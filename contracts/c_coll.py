"""Typed collections: every operation of a list collection and of a mapping
collection against the operation of a list / a dict on the converted items."""
import collections.abc
import z3
import normalize.coll as NC
import normalize.exc as exc
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from pv.execute import EXTRA, PSlice
from .world import B_ as B

q, k1 = z3.Const('q', V), z3.Const('k1', V)
j = z3.Int('jj')
CONVD = z3.Function('CONVERTED', V, V, BoolS)    # a call of coerceitem on x
#                                                  returned y
ASSUME = ('coerceitem returns members of the item type (for the default, a '
          'constructor returns instances of its class)',
          '== of items is reflexive on the same object and changes nothing',
          'iterating a passed iterable does not change the collection')


def sel(a, k):
    return z3.Select(a, k)


class CollWorld:
    def __init__(self, E, base, own_coerce=None):
        self.E = E
        self.base = base
        ct = Tag('coerceitem', call=self.convert)
        if own_coerce is None:
            own_coerce = E.case(False, True)
        self.T = E.ext('T', Tag('itemtype', call=self.convert))
        E.assume(is_obj(self.T.e))
        ov = {'itemtype': self.T}
        if own_coerce:
            ov['coerceitem'] = E.ext('COERCEITEM', ct)
        self.C = E.new(HClass(base, 'C', ov))
        self.nconv = 0

    def convert(self, E, f, args, kw):
        x = E.lift(args[0])
        E.prove('only an item that is not of the item type is converted',
                z3.Not(INST(x, self.T.e)))
        E.prove('the item is the only argument', B(
            len(args) == 1 and not kw))
        if E.branch(E.fresh('raises', BoolS)):
            ex = SV(E.fresh('exc'))
            E.assume(is_obj(ex.e))
            E.trace.append(('call', f, tuple(args), ('raise', ex)))
            raise PyRaise(ex)
        r = SV(E.fresh('ret'))
        E.assume(z3.Implies(is_obj(r.e), V.ref(r.e) < 1000000))
        E.assume(INST(r.e, self.T.e))
        E.assume(CONVD(x, r.e))
        E.trace.append(('call', f, tuple(args), ('ok', r)))
        return r

    def instance(self, name, values):
        return self.E.new(HInst(self.C, {'_values': values}))

    def item(self, x, y):
        """y is what storing x must store"""
        return z3.If(INST(x, self.T.e), y == x, CONVD(x, y))

    def conv_error(self, tag, r, passed=None):
        """the raised error is that of a failed conversion"""
        E = self.E
        if tag != 'raise':
            return B(False)
        if isinstance(r, HInst) and r.cls is exc.CollectionItemCoerceError:
            k = r.attrs
            fs = [E.lift(k['itemtype']) == self.T.e,
                  E.lift(k['colltype']) == E.lift(self.C)]
            if passed is not None:
                fs.append(passed(E.lift(k['passed'])))
            return z3.And(*fs)
        if isinstance(r, SV):      # SystemExit and the like pass through
            return z3.Not(INST(r.e, E.lift(Exception)))
        return B(False)


class ListWorld(CollWorld):
    def __init__(self, E, **kw):
        super().__init__(E, NC.ListCollection, **kw)
        self.L = E.some_list('L')
        self.n0, self.a0 = self.L.n, self.L.arr
        E.assume(self.typed(self.n0, self.a0))
        self.obj = self.instance('o', self.L)

    def typed(self, n, a):
        return z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < n), INST(sel(a, j), self.T.e)),
            **({'patterns': [sel(a, j)]} if z3.is_const(a) else {}))

    @property
    def now(self):
        l = self.obj.attrs['_values']
        return l.n, l.arr

    def unchanged(self):
        n, a = self.now
        return z3.And(n == self.n0, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < n), sel(a, j) == sel(self.a0, j))))

    def run(self, name, *args, **kw):
        for c in NC.ListCollection.__mro__:
            if name in c.__dict__:
                return self.E.run(c.__dict__[name], self.obj, *args, **kw)

    def is_(self, n, fn):
        """the items now are fn(0) .. fn(n-1)"""
        m, a = self.now
        return z3.And(m == n, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < n), fn(j, sel(a, j)))))

    def finish(self):
        E = self.E
        n, a = self.now
        E.prove('every item is of the item type (or came that way)',
                self.typed(n, a))
        E.prove('the items are still a list', B(isinstance(
            self.obj.attrs['_values'], HList)))


def pos(i, n):
    return z3.If(i < 0, i + n, i)


def cl(i, n):
    i = pos(i, n)
    return z3.If(i < 0, z3.IntVal(0), z3.If(i > n, n, i))


def builtin_error(r, cls):
    return B(isinstance(r, HInst) and r.cls is cls)


def some_input(E, W, name, forms):
    """an iterable in one of the documented forms: (value, n, arr)"""
    how = E.case(*forms)
    if how == 'list':
        l = E.some_list(name)
        return l, l.n, l.arr, how
    if how == 'itself':
        return W.obj, W.n0, W.a0, how
    if how == 'another':
        l = E.some_list(name)
        E.assume(W.typed(l.n, l.arr))
        return W.instance('p', l), l.n, l.arr, how
    if how == 'generator':
        l = E.some_list(name)
        return E.call(iter, [l], {}), l.n, l.arr, how
    if how == 'tuple':
        l = E.some_list(name)
        return SV(vtup(l.n, l.arr)), l.n, l.arr, how
    raise KeyError(how)


# ------------------------------------------------------------ list collection
@contract(('C13', 'C14'), 'list append', assumes=ASSUME,
          covers=('appended', 'refused'))
def list_append(E):
    W = ListWorld(E)
    x = E.val('X')
    tag, r = W.run('append', x)
    W.finish()
    if tag == 'ok':
        E.cover('appended')
        E.prove('the converted item comes last', W.is_(
            W.n0 + 1, lambda j, y: z3.If(j < W.n0, y == sel(W.a0, j),
                                         W.item(x.e, y))))
        E.prove('append gives None', B(r is None))
    else:
        E.cover('refused')
        E.prove('refused only if the item cannot be converted',
                W.conv_error(tag, r, lambda p: p == x.e))
        E.prove('refused: unchanged', W.unchanged())


@contract(('C13', 'C14'), 'list extend', assumes=ASSUME,
          covers=('extended', 'refused'))
def list_extend(E):
    W = ListWorld(E, own_coerce=False)
    it, m, a, how = some_input(E, W, 'M', (
        'list', 'itself', 'another', 'generator'))
    tag, r = W.run('extend', it)
    W.finish()
    if tag == 'ok':
        E.cover('extended')
        E.prove('the converted items follow in order', W.is_(
            W.n0 + m, lambda j, y: z3.If(
                j < W.n0, y == sel(W.a0, j),
                W.item(sel(a, j - W.n0), y))))
    else:
        E.cover('refused')
        E.prove('refused only if an item cannot be converted',
                W.conv_error(tag, r, lambda p: z3.Exists([j], z3.And(
                    0 <= j, j < m, p == sel(a, j)))))
        E.prove('refused: unchanged', W.unchanged())


@contract(('C13', 'C14'), 'list insert', assumes=ASSUME,
          covers=('inserted', 'refused'))
def list_insert(E):
    W = ListWorld(E, own_coerce=False)
    x, i = E.val('X'), E.integer('I')
    tag, r = W.run('insert', i, x)
    p = cl(V.i(i.e), W.n0)
    W.finish()
    if tag == 'ok':
        E.cover('inserted')
        E.prove('inserted before the index, as in a list', W.is_(
            W.n0 + 1, lambda j, y: z3.If(
                j < p, y == sel(W.a0, j), z3.If(
                    j == p, W.item(x.e, y), y == sel(W.a0, j - 1)))))
    else:
        E.cover('refused')
        E.prove('refused only if the item cannot be converted',
                W.conv_error(tag, r, lambda v: v == x.e))
        E.prove('refused: unchanged', W.unchanged())


@contract(('C13', 'C14'), 'list item assignment', assumes=ASSUME,
          covers=('set', 'refused', 'no such item'))
def list_setitem(E):
    W = ListWorld(E)
    x, i = E.val('X'), E.integer('I')
    tag, r = W.run('__setitem__', i, x)
    p = pos(V.i(i.e), W.n0)
    inside = z3.And(p >= 0, p < W.n0)
    W.finish()
    if tag == 'ok':
        E.cover('set')
        E.prove('an existing index', inside)
        E.prove('exactly this item is replaced', W.is_(
            W.n0, lambda j, y: z3.If(j == p, W.item(x.e, y),
                                     y == sel(W.a0, j))))
        return
    E.prove('refused: unchanged', W.unchanged())
    if isinstance(r, HInst) and r.cls is IndexError:
        E.cover('no such item')
        E.prove('IndexError iff there is no such item', z3.Not(inside))
    else:
        E.cover('refused')
        E.prove('any other refusal is a failed conversion',
                W.conv_error(tag, r, lambda v: v == x.e))


def bound(E, name):
    how = E.case('none', 'int')
    if how == 'none':
        return None, None
    i = E.integer(name)
    return i, V.i(i.e)


def bounds(E, n):
    lo, le = bound(E, 'LO')
    hi, he = bound(E, 'HI')
    a = z3.IntVal(0) if le is None else cl(le, n)
    b = n if he is None else cl(he, n)
    return PSlice(lo, hi, None), a, z3.If(b < a, a, b)


@contract(('C13', 'C14'), 'list slice assignment', assumes=ASSUME,
          covers=('set', 'refused'))
def list_setslice(E):
    W = ListWorld(E, own_coerce=False)
    sl, a, b = bounds(E, W.n0)
    it, m, arr, how = some_input(E, W, 'M', ('list', 'generator'))
    tag, r = W.run('__setitem__', sl, it)
    W.finish()
    if tag == 'ok':
        E.cover('set')
        E.prove('the slice is replaced by the converted items', W.is_(
            W.n0 - (b - a) + m, lambda j, y: z3.If(
                j < a, y == sel(W.a0, j), z3.If(
                    j < a + m, W.item(sel(arr, j - a), y),
                    y == sel(W.a0, j - m + (b - a))))))
    else:
        E.cover('refused')
        E.prove('refused only if an item cannot be converted',
                W.conv_error(tag, r, lambda p: z3.Exists([j], z3.And(
                    0 <= j, j < m, p == sel(arr, j)))))
        E.prove('refused: unchanged', W.unchanged())


@contract(('C14',), 'list item', assumes=ASSUME, covers=('got', 'none'))
def list_getitem(E):
    W = ListWorld(E, own_coerce=False)
    i = E.integer('I')
    tag, r = W.run('__getitem__', i)
    p = pos(V.i(i.e), W.n0)
    inside = z3.And(p >= 0, p < W.n0)
    E.prove('reading changes nothing', W.unchanged())
    if tag == 'ok':
        E.cover('got')
        E.prove('gives the item at the index', z3.And(
            inside, E.lift(r) == sel(W.a0, p)))
    else:
        E.cover('none')
        E.prove('IndexError iff there is no such item', z3.And(
            builtin_error(r, IndexError), z3.Not(inside)))


@contract(('C14',), 'list slice', assumes=ASSUME)
def list_getslice(E):
    W = ListWorld(E, own_coerce=False)
    sl, a, b = bounds(E, W.n0)
    tag, r = W.run('__getitem__', sl)
    E.prove('reading changes nothing', W.unchanged())
    E.prove('gives a list', B(tag == 'ok' and isinstance(r, HList) and
                              r is not W.obj.attrs['_values']))
    E.prove('of exactly the items of the slice', z3.And(
        r.n == b - a, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < r.n), sel(r.arr, j) == sel(W.a0, j + a)))))


@contract(('C13', 'C14'), 'list item deletion', assumes=ASSUME,
          covers=('deleted', 'none'))
def list_delitem(E):
    W = ListWorld(E, own_coerce=False)
    i = E.integer('I')
    tag, r = W.run('__delitem__', i)
    p = pos(V.i(i.e), W.n0)
    inside = z3.And(p >= 0, p < W.n0)
    W.finish()
    if tag == 'ok':
        E.cover('deleted')
        E.prove('an existing index', inside)
        E.prove('exactly this item is gone', W.is_(
            W.n0 - 1, lambda j, y: y == sel(W.a0, z3.If(
                j < p, j, j + 1))))
    else:
        E.cover('none')
        E.prove('IndexError iff there is no such item', z3.And(
            builtin_error(r, IndexError), z3.Not(inside), W.unchanged()))


@contract(('C13', 'C14'), 'list slice deletion', assumes=ASSUME)
def list_delslice(E):
    W = ListWorld(E, own_coerce=False)
    sl, a, b = bounds(E, W.n0)
    tag, r = W.run('__delitem__', sl)
    W.finish()
    E.prove('deleting a slice never fails', B(tag == 'ok'))
    E.prove('exactly the slice is gone', W.is_(
        W.n0 - (b - a), lambda j, y: y == sel(W.a0, z3.If(
            j < a, j, j + (b - a)))))


@contract(('C13', 'C14'), 'list pop', assumes=ASSUME,
          covers=('popped', 'none'))
def list_pop(E):
    W = ListWorld(E, own_coerce=False)
    if E.case('last', 'index') == 'last':
        tag, r = W.run('pop')
        i = z3.IntVal(-1)
    else:
        x = E.integer('I')
        tag, r = W.run('pop', x)
        i = V.i(x.e)
    p = pos(i, W.n0)
    inside = z3.And(p >= 0, p < W.n0)
    W.finish()
    if tag == 'ok':
        E.cover('popped')
        E.prove('gives the item at the index', z3.And(
            inside, E.lift(r) == sel(W.a0, p)))
        E.prove('exactly this item is gone', W.is_(
            W.n0 - 1, lambda j, y: y == sel(W.a0, z3.If(
                j < p, j, j + 1))))
    else:
        E.cover('none')
        E.prove('IndexError iff there is no such item', z3.And(
            builtin_error(r, IndexError), z3.Not(inside), W.unchanged()))


def first_at(W, k, x, a, b):
    """k is the first index in [a, b) of an item equal to x"""
    return z3.And(a <= k, k < b, peq(sel(W.a0, k), x),
                  z3.ForAll([j], z3.Implies(z3.And(a <= j, j < k),
                                            z3.Not(peq(sel(W.a0, j), x)))))


def none_in(W, x, a, b):
    return z3.ForAll([j], z3.Implies(z3.And(a <= j, j < b), z3.Not(
        peq(sel(W.a0, j), x))))


def not_equal_seen(W, x, a):
    return [('not found so far', lambda E, ctx, i, base: none_in(
        W, x, a, a + i))]


@contract(('C14',), 'list index', assumes=ASSUME,
          covers=('found', 'missing'))
def list_index(E):
    W = ListWorld(E, own_coerce=False)
    x = E.val('X')
    how = E.case('all', 'from', 'between')
    a, b = z3.IntVal(0), W.n0
    args = []
    if how != 'all':
        i = E.integer('I')
        args.append(i)
        a = cl(V.i(i.e), W.n0)
    if how == 'between':
        i = E.integer('J')
        args.append(i)
        b = cl(V.i(i.e), W.n0)
    E.sh.loop_cands = not_equal_seen(W, x.e, a)
    tag, r = W.run('index', x, *args)
    E.prove('searching changes nothing', W.unchanged())
    if tag == 'ok':
        E.cover('found')
        k = V.i(E.lift(r))
        E.prove('gives the first index of an equal item in the range',
                z3.And(is_int(E.lift(r)), first_at(W, k, x.e, a, b)))
    else:
        E.cover('missing')
        E.prove('ValueError iff no item in the range is equal', z3.And(
            builtin_error(r, ValueError), none_in(W, x.e, a, b)))


@contract(('C13', 'C14'), 'list remove', assumes=ASSUME,
          covers=('removed', 'missing'))
def list_remove(E):
    W = ListWorld(E, own_coerce=False)
    x = E.val('X')
    E.sh.loop_cands = not_equal_seen(W, x.e, z3.IntVal(0))
    tag, r = W.run('remove', x)
    W.finish()
    if tag == 'ok':
        E.cover('removed')
        p = E.fresh('p', IntS)
        E.assume(z3.Implies(
            z3.Exists([j], first_at(W, j, x.e, z3.IntVal(0), W.n0)),
            first_at(W, p, x.e, z3.IntVal(0), W.n0)))
        E.prove('exactly the first equal item is gone', z3.And(
            first_at(W, p, x.e, z3.IntVal(0), W.n0), W.is_(
                W.n0 - 1, lambda j, y: y == sel(W.a0, z3.If(
                    j < p, j, j + 1)))))
    else:
        E.cover('missing')
        E.prove('ValueError iff no item is equal', z3.And(
            builtin_error(r, ValueError), W.unchanged(),
            none_in(W, x.e, z3.IntVal(0), W.n0)))


@contract(('C13', 'C14'), 'list reverse', assumes=ASSUME)
def list_reverse(E):
    W = ListWorld(E, own_coerce=False)
    tag, r = W.run('reverse')
    W.finish()
    E.prove('the items are reversed', z3.And(B(tag == 'ok' and r is None),
            W.is_(W.n0, lambda j, y: y == sel(W.a0, W.n0 - 1 - j))))


@contract(('C14',), 'list length and iteration', assumes=ASSUME)
def list_len_iter(E):
    W = ListWorld(E, own_coerce=False)
    tag, r = W.run('__len__')
    E.prove('length', z3.And(B(tag == 'ok'), E.lift(r) == vint(W.n0)))
    tag, r = W.run('__iter__')
    E.prove('iterates', B(tag == 'ok'))
    l = E.to_hlist(r)
    E.prove('iteration gives the items in order', z3.And(
        l.n == W.n0, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < l.n), sel(l.arr, j) == sel(W.a0, j)))))
    E.prove('reading changes nothing', W.unchanged())


@contract(('C14',), 'list containment', assumes=ASSUME,
          covers=('in', 'out'))
def list_contains(E):
    W = ListWorld(E)
    x = E.val('X')
    tag, r = W.run('__contains__', x)
    E.prove('reading changes nothing', W.unchanged())
    if tag == 'ok':
        t = E.truth(r)
        t = B(t) if isinstance(t, bool) else t
        E.cover('in')
        E.cover('out')
        E.prove('an item is contained iff it equals one of the items',
                z3.Implies(INST(x.e, W.T.e), t == z3.Exists(
                    [j], z3.And(0 <= j, j < W.n0, peq(sel(W.a0, j), x.e)))))
    else:
        E.prove('raises only if the value cannot be an item', z3.And(
            z3.Not(INST(x.e, W.T.e)), W.conv_error(tag, r)))


@contract(('C13', 'C14'), 'list concatenation', assumes=ASSUME,
          covers=('sum', 'refused'))
def list_add(E):
    W = ListWorld(E, own_coerce=False)
    it, m, a, how = some_input(E, W, 'M', ('list', 'another', 'itself'))
    tag, r = W.run('__add__', it)
    E.prove('the operands are unchanged', W.unchanged())
    if how == 'another':
        l = it.attrs['_values']
        E.prove('the other operand is unchanged', z3.And(
            l.n == m, B(l.arr.eq(a))))
    if tag == 'ok':
        E.cover('sum')
        E.prove('gives a new collection of the same class', B(
            isinstance(r, HInst) and r.cls is W.C and r is not W.obj and
            r is not it))
        l = r.attrs['_values']
        E.prove('which does not share its items', B(
            l is not W.L and l is not it))
        E.prove('holding the items of both', z3.And(
            l.n == W.n0 + m, z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < l.n), z3.If(
                    j < W.n0, sel(l.arr, j) == sel(W.a0, j),
                    W.item(sel(a, j - W.n0), sel(l.arr, j)))))))
        E.prove('all of the item type', W.typed(l.n, l.arr))
    else:
        E.cover('refused')
        E.prove('refused only if an item cannot be converted', z3.And(
            W.conv_error(tag, r), B(how == 'list')))


# --------------------------------------------------------- mapping collection
class DictWorld(CollWorld):
    def __init__(self, E, **kw):
        super().__init__(E, NC.DictCollection, **kw)
        self.D = E.some_dict('D')
        self.dom0, self.val0 = self.D.dom, self.D.val
        E.assume(self.typed(self.dom0, self.val0))
        self.obj = self.instance('o', self.D)

    def typed(self, dom, val):
        return z3.ForAll([q], z3.Implies(sel(dom, q),
                                         INST(sel(val, q), self.T.e)))

    @property
    def now(self):
        d = self.obj.attrs['_values']
        return d.dom, d.val

    def run(self, name, *args, **kw):
        for c in NC.DictCollection.__mro__:
            if name in c.__dict__:
                f = c.__dict__[name]
                x = kw.pop('extra', None)
                if x is not None:
                    try:
                        return 'ok', self.E.call(
                            f, [self.obj] + list(args), {EXTRA: x})
                    except PyRaise as r:
                        return 'raise', r.value
                return self.E.run(f, self.obj, *args, **kw)

    def is_(self, fn):
        """fn(key, is in, value) for every key"""
        d, v = self.now
        return z3.ForAll([q], fn(q, sel(d, q), sel(v, q)))

    def kept(self, q, i, v):
        return z3.And(i == sel(self.dom0, q), z3.Implies(
            i, v == sel(self.val0, q)))

    def unchanged(self):
        return self.is_(self.kept)

    def finish(self):
        E = self.E
        E.prove('every item is of the item type (or came that way)',
                self.typed(*self.now))
        E.prove('the items are still a dict', B(isinstance(
            self.obj.attrs['_values'], HDict)))


def hashable(E, x):
    E.assume(z3.Implies(is_obj(x.e), HASHABLE(x.e)))
    return x


@contract(('C13', 'C15'), 'mapping item assignment', assumes=ASSUME,
          covers=('set', 'refused'))
def dict_setitem(E):
    W = DictWorld(E)
    k, x = E.val('KEY'), E.val('X')
    tag, r = W.run('__setitem__', k, x)
    W.finish()
    if tag == 'ok':
        E.cover('set')
        E.prove('exactly this key is set', W.is_(lambda q, i, v: z3.If(
            q == k.e, z3.And(i, W.item(x.e, v)), W.kept(q, i, v))))
    else:
        E.cover('refused')
        E.prove('refused only if the key or the item is no good', z3.Or(
            builtin_error(r, TypeError),
            W.conv_error(tag, r, lambda p: p == x.e)))
        E.prove('refused: unchanged', W.unchanged())


@contract(('C15',), 'mapping item', assumes=ASSUME, covers=('got', 'none'))
def dict_getitem(E):
    W = DictWorld(E, own_coerce=False)
    k = hashable(E, E.val('KEY'))
    tag, r = W.run('__getitem__', k)
    E.prove('reading changes nothing', W.unchanged())
    if tag == 'ok':
        E.cover('got')
        E.prove('gives the item of the key', z3.And(
            sel(W.dom0, k.e), E.lift(r) == sel(W.val0, k.e)))
    else:
        E.cover('none')
        E.prove('KeyError iff there is no such key', z3.And(
            builtin_error(r, KeyError), z3.Not(sel(W.dom0, k.e))))


def gone(W, k):
    return W.is_(lambda q, i, v: z3.If(q == k, z3.Not(i), W.kept(q, i, v)))


@contract(('C13', 'C15'), 'mapping item deletion', assumes=ASSUME,
          covers=('deleted', 'none'))
def dict_delitem(E):
    W = DictWorld(E, own_coerce=False)
    k = hashable(E, E.val('KEY'))
    how = E.case('__delitem__', 'pop')
    tag, r = W.run(how, k)
    W.finish()
    if tag == 'ok':
        E.cover('deleted')
        E.prove('gives the item (pop)', B(r is None) if how != 'pop' else
                E.lift(r) == sel(W.val0, k.e))
        E.prove('exactly this item is gone', z3.And(
            sel(W.dom0, k.e), gone(W, k.e)))
    else:
        E.cover('none')
        E.prove('KeyError iff there is no such key', z3.And(
            builtin_error(r, KeyError), z3.Not(sel(W.dom0, k.e)),
            W.unchanged()))


@contract(('C13', 'C15'), 'mapping popitem and clear', assumes=ASSUME,
          covers=('popped', 'none'))
def dict_popitem(E):
    W = DictWorld(E, own_coerce=False)
    if E.case('popitem', 'clear') == 'clear':
        tag, r = W.run('clear')
        E.prove('clear leaves nothing', z3.And(
            B(tag == 'ok' and r is None),
            W.is_(lambda q, i, v: z3.Not(i))))
        W.finish()
        return
    tag, r = W.run('popitem')
    W.finish()
    if tag == 'ok':
        E.cover('popped')
        E.prove('gives an item with its key', B(
            isinstance(r, tuple) and len(r) == 2))
        k = E.lift(r[0])
        E.prove('exactly this item is gone', z3.And(
            sel(W.dom0, k), E.lift(r[1]) == sel(W.val0, k), gone(W, k)))
    else:
        E.cover('none')
        E.prove('KeyError iff empty', z3.And(
            builtin_error(r, KeyError),
            z3.ForAll([q], z3.Not(sel(W.dom0, q)))))


@contract(('C13', 'C15'), 'mapping update', assumes=ASSUME,
          covers=('updated', 'refused'))
def dict_update(E):
    W = DictWorld(E, own_coerce=False)
    how = E.case('mapping', 'itself', 'keywords', 'both', 'nothing')
    N = {'mdom': z3.K(V, z3.BoolVal(False)), 'mval': z3.K(V, none),
         'kdom': z3.K(V, z3.BoolVal(False)), 'kval': z3.K(V, none)}
    args, extra = [], None
    if how in ('mapping', 'both'):
        m = E.some_dict('M')
        args = [m]
        N['mdom'], N['mval'] = m.dom, m.val
    if how == 'itself':
        args = [W.obj]
        N['mdom'], N['mval'] = W.dom0, W.val0
    if how in ('keywords', 'both'):
        extra = E.some_dict('KW', keytag='str')
        for nm in ('self', 'iterable'):
            E.assume(z3.Not(sel(extra.dom, E.lift(nm))))
        N['kdom'], N['kval'] = extra.dom, extra.val

    def new(q):
        return z3.Or(sel(N['mdom'], q), sel(N['kdom'], q))

    def src(q):
        return z3.If(sel(N['kdom'], q), sel(N['kval'], q), sel(N['mval'], q))
    E.sh.loop_cands = [('update', update_invariants(W, N, new, src))]
    tag, r = W.run('update', *args, extra=extra) if extra is not None else \
        W.run('update', *args)
    W.finish()
    if tag == 'ok':
        E.cover('updated')
        E.prove('the converted items replace or join the items',
                W.is_(lambda q, i, v: z3.If(
                    new(q), z3.And(i, W.item(src(q), v)), W.kept(q, i, v))))
    else:
        E.cover('refused')
        E.prove('refused only if an item cannot be converted', z3.Or(
            builtin_error(r, TypeError) if how == 'x' else B(False),
            W.conv_error(tag, r)))
        E.prove('refused: unchanged', W.unchanged())


def key_at(E, ctx):
    from .world import key_loop
    return key_loop(E, ctx)


def update_invariants(W, N, new, src):
    def cands(E, ctx, i, base):
        kl = key_at(E, ctx)
        if kl is None:
            return None
        K, X, key = kl
        done = z3.And(sel(key, q), X(q) < i)
        fs = []
        for loc in sorted(base, key=str):
            if loc[0] != 'heap':
                continue
            o = E.heap[HB + loc[1]]
            if not isinstance(o, HDict):
                continue
            d0, v0 = base[loc][1], base[loc][2]
            # what the loop runs over: the items of which dict
            us = [u for u in E.heap.values() if isinstance(u, HDict) and
                  u is not o and u.dom.eq(key)]
            if not us:
                continue
            if o is W.D:
                fs.append(z3.ForAll([q], z3.Implies(
                    done, sel(o.val, q) == sel(us[0].val, q))))
            else:
                fs.append(z3.ForAll([q], z3.Implies(
                    done, W.item(sel(us[0].val, q), sel(o.val, q)))))
            fs.append(z3.ForAll([q], sel(o.dom, q) == z3.Or(
                sel(d0, q), done)))
            fs.append(z3.ForAll([q], z3.Implies(
                z3.And(sel(d0, q), z3.Not(done)),
                sel(o.val, q) == sel(v0, q))))
            fs.append(W.typed(o.dom, o.val))
        return fs
    return cands


from pv.interp import HEAP_BASE as HB      # noqa


@contract(('C15',), 'mapping views', assumes=ASSUME)
def dict_views(E):
    W = DictWorld(E, own_coerce=False)
    how = E.case('items', 'itertuples', 'iteritems', 'keys', 'iterkeys',
                 'values', 'itervalues', '__iter__', '__len__')
    tag, r = W.run(how)
    E.prove('reading succeeds', B(tag == 'ok'))
    n, K, X = E.enum(W.dom0)
    if how == '__len__':
        E.prove('the length is the number of keys', E.lift(r) == vint(n))
        E.prove('reading changes nothing', W.unchanged())
        return
    l = E.to_hlist(r)

    def elem(j):
        k = K(j)
        kv = vtup2(E, k, sel(W.val0, k))
        if how in ('items', 'itertuples', 'iteritems'):
            return kv
        if how in ('keys', 'iterkeys', '__iter__'):
            return k
        return sel(W.val0, k)
    E.prove('one for each key, in the order of the items', z3.And(
        l.n == n, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < n), sel(l.arr, j) == elem(j)))))
    E.prove('reading changes nothing', W.unchanged())


def vtup2(E, a, b):
    return E.lift((SV(a), SV(b)))


@contract(('C15',), 'mapping containment', assumes=ASSUME)
def dict_contains(E):
    W = DictWorld(E, own_coerce=False)
    k = hashable(E, E.val('KEY'))
    tag, r = W.run('__contains__', k)
    t = E.truth(r) if tag == 'ok' else False
    t = B(t) if isinstance(t, bool) else t
    E.prove('in iff it is one of the keys', t == sel(W.dom0, k.e))
    E.prove('reading changes nothing', W.unchanged())


# --------------------------------------------------------------- construction
def make(E, W, value=MISSING):
    o = E.new(HInst(W.C, {}))
    tag, r = E.run(NC.Collection.__dict__['__init__'], o,
                   *([] if value is MISSING else [value]))
    return tag, r, o


@contract(('C13', 'C16'), 'list collection of a sequence', assumes=ASSUME,
          covers=('built', 'refused'))
def build_list(E):
    W = ListWorld(E)
    it, m, a, how = some_input(E, W, 'M', (
        'list', 'tuple', 'generator', 'another', 'itself'))
    n1, a1 = (it.n, it.arr) if how == 'list' else (None, None)
    tag, r, o = make(E, W, it)
    if how == 'list':
        E.prove('the input is left as it was', B(it.n.eq(n1) and
                                                 it.arr.eq(a1)))
    E.prove('the input is left as it was', W.unchanged())
    if tag == 'ok':
        E.cover('built')
        l = o.attrs['_values']
        E.prove('a new list', B(isinstance(l, HList) and l is not it and
                                l is not W.L))
        E.prove('one item for each input item, converted, in order', z3.And(
            l.n == m, z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < l.n),
                W.item(sel(a, j), sel(l.arr, j))))))
        E.prove('all of the item type', W.typed(l.n, l.arr))
    else:
        E.cover('refused')
        E.prove('refused only if an item cannot be converted',
                W.conv_error(tag, r, lambda p: z3.Exists([j], z3.And(
                    0 <= j, j < m, p == sel(a, j)))))


@contract(('C13', 'C16'), 'list collection of a mapping', assumes=ASSUME + (
    'sorted() returns the keys in some order',))
def build_list_mapping(E):
    W = ListWorld(E, own_coerce=False)
    d = E.some_dict('M')
    dom, val = d.dom, d.val
    tag, r, o = make(E, W, d)
    E.prove('the input is left as it was', B(
        d.dom.eq(dom) and d.val.eq(val)))
    n, K, X = E.enum(dom)
    if tag == 'ok':
        l = o.attrs['_values']
        E.prove('one converted item for each key', z3.And(
            l.n == n, z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < l.n),
                W.item(sel(val, K(j)), sel(l.arr, j))))))
        E.prove('all of the item type', W.typed(l.n, l.arr))
    else:
        E.prove('refused only if an item cannot be converted',
                W.conv_error(tag, r))


@contract('C16', 'collection of nothing, or of something else',
          covers=('refused', 'empty'))
def build_other(E):
    W = CollWorld(E, E.case(NC.ListCollection, NC.DictCollection),
                  own_coerce=False)
    how = E.case('none', 'nothing', 'text', 'number', 'flag')
    x = {'none': lambda: None, 'nothing': lambda: MISSING,
         'text': lambda: E.text('X'), 'number': lambda: E.integer('X'),
         'flag': lambda: E.flag('X')}[how]()
    tag, r, o = make(E, W, x)
    v = o.attrs.get('_values')
    if how in ('none', 'nothing'):
        E.cover('empty')
        E.prove('empty', B(tag == 'ok' and (
            v.conc_len() == 0 if isinstance(v, HList) else
            isinstance(v, HDict) and v.known == [])))
        return
    if tag == 'ok':
        E.prove('only something false is taken as empty', z3.And(
            z3.Not(truth(x.e)), B(how != 'text')))
    else:
        E.cover('refused')
        E.prove('the refusal says what was passed', B(
            isinstance(r, HInst) and r.cls is exc.CollectionCoerceError and
            r.attrs.get('passed') is x and r.attrs.get('colltype') is W.C))


@contract(('C13', 'C16'), 'mapping collection of a mapping', assumes=ASSUME,
          covers=('built', 'refused'))
def build_dict(E):
    W = DictWorld(E, own_coerce=False)
    how = E.case('dict', 'itself')
    if how == 'dict':
        d = it = E.some_dict('M')
    else:
        d, it = W.D, W.obj
    dom, val = d.dom, d.val
    E.sh.loop_cands = [('built', build_invariants(W, dom, val))]
    tag, r, o = make(E, W, it)
    E.prove('the input is left as it was', B(
        d.dom.eq(dom) and d.val.eq(val)))
    if tag == 'ok':
        E.cover('built')
        v = o.attrs['_values']
        E.prove('a new dict', B(isinstance(v, HDict) and v is not d))
        E.prove('one item for each input item, converted, under its key',
                z3.ForAll([q], z3.And(
                    sel(v.dom, q) == sel(dom, q), z3.Implies(
                        sel(dom, q), W.item(sel(val, q), sel(v.val, q))))))
        E.prove('all of the item type', W.typed(v.dom, v.val))
    else:
        E.cover('refused')
        E.prove('refused only if an item cannot be converted',
                W.conv_error(tag, r))


def build_invariants(W, dom, val):
    def cands(E, ctx, i, base):
        kl = key_at(E, ctx)
        if kl is None:
            return None
        K, X, key = kl
        done = z3.And(sel(key, q), X(q) < i)
        fs = []
        for loc in sorted(base, key=str):
            if loc[0] != 'heap':
                continue
            o = E.heap[HB + loc[1]]
            if not isinstance(o, HDict):
                continue
            d0 = base[loc][1]
            fs += [z3.ForAll([q], z3.Implies(
                       done, W.item(sel(val, q), sel(o.val, q)))),
                   z3.ForAll([q], sel(o.dom, q) == z3.Or(
                       sel(d0, q), done)),
                   W.typed(o.dom, o.val)]
        return fs
    return cands


@contract(('C13', 'C16'), 'mapping collection of a sequence', assumes=ASSUME,
          covers=('built', 'refused'))
def build_dict_seq(E):
    W = DictWorld(E, own_coerce=False)
    how = E.case('list', 'list collection')
    l = E.some_list('M')
    it = l
    if how == 'list collection':
        LC = E.new(HClass(NC.ListCollection, 'LC', {'itemtype': W.T}))
        it = E.new(HInst(LC, {'_values': l}))
    n, a = l.n, l.arr

    def cands(E, ctx, i, base):
        fs = []
        for loc in sorted(base, key=str):
            o = E.heap[HB + loc[1]] if loc[0] == 'heap' else None
            if isinstance(o, HDict):
                fs += [z3.ForAll([q], sel(o.dom, q) == z3.And(
                    is_int(q), 0 <= V.i(q), V.i(q) < i)),
                    z3.ForAll([j], z3.Implies(
                        z3.And(0 <= j, j < i),
                        W.item(sel(a, j), sel(o.val, vint(j))))),
                    W.typed(o.dom, o.val)]
        return fs
    E.sh.loop_cands = [('built', cands)]
    tag, r, o = make(E, W, it)
    E.prove('the input is left as it was', B(l.n.eq(n) and l.arr.eq(a)))
    if tag == 'ok':
        E.cover('built')
        v = o.attrs['_values']
        E.prove('one converted item for each, under its position', z3.And(
            z3.ForAll([q], sel(v.dom, q) == z3.And(
                is_int(q), 0 <= V.i(q), V.i(q) < n)),
            z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < n),
                W.item(sel(a, j), sel(v.val, vint(j)))))))
        E.prove('all of the item type', W.typed(v.dom, v.val))
    else:
        E.cover('refused')
        E.prove('refused only if an item cannot be converted',
                W.conv_error(tag, r))


# ------------------------------------------------------------------- equality
@contract(('C10', 'C14'), 'list collection ==', assumes=ASSUME,
          covers=('equal', 'different'))
def list_eq(E):
    W = ListWorld(E, own_coerce=False)
    l = E.some_list('M')
    how = E.case('same class', 'other item type', 'plain list', 'itself',
                 'mapping collection', 'none', 'number', 'text')
    neg = E.case('__eq__', '__ne__') == '__ne__'
    if how == 'same class':
        E.assume(W.typed(l.n, l.arr))
        x = W.instance('p', l)
    elif how == 'other item type':
        T2 = E.ext('T2')
        E.assume(z3.Not(peq(W.T.e, T2.e)))
        E.assume(z3.Not(peq(T2.e, W.T.e)))
        C2 = E.new(HClass(NC.ListCollection, 'C2', {'itemtype': T2}))
        x = E.new(HInst(C2, {'_values': l}))
    elif how == 'plain list':
        x = l
    elif how == 'itself':
        x = W.obj
    elif how == 'mapping collection':
        C2 = E.new(HClass(NC.DictCollection, 'C2', {'itemtype': W.T}))
        x = E.new(HInst(C2, {'_values': E.some_dict('D')}))
    else:
        x = {'none': None, 'number': E.integer('X'),
             'text': E.text('X')}[how]
    tag, r = W.run('__ne__' if neg else '__eq__', x)
    E.prove('comparing changes nothing', z3.And(
        W.unchanged(), l.n == z3.Int('M_n')))
    if tag == 'raise':
        E.prove('raises only if converting the other list is interrupted', z3.And(
            B(how == 'plain list'), W.conv_error(tag, r), B(
                isinstance(r, SV))))
        return
    t = E.truth(r)
    t = B(t) if isinstance(t, bool) else t
    if neg:
        t = z3.Not(t)
    if how == 'same class':
        E.cover('equal')
        E.cover('different')
        E.prove('equal iff the items are', t == z3.And(
            l.n == W.n0, z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < l.n),
                peq(sel(W.a0, j), sel(l.arr, j))))))
    elif how == 'itself':
        E.prove('equal to itself', t)
    elif how == 'plain list':
        E.prove('equal to a list of members iff the items are', z3.Implies(
            W.typed(l.n, l.arr), t == z3.And(
                l.n == W.n0, z3.ForAll([j], z3.Implies(
                    z3.And(0 <= j, j < l.n),
                    peq(sel(W.a0, j), sel(l.arr, j)))))))
        E.prove('equal only to a list of as many items', z3.Implies(
            t, l.n == W.n0))
    else:
        E.prove('not equal to something of another kind', z3.Not(t))


@contract(('C10', 'C15'), 'mapping collection ==', assumes=ASSUME,
          covers=('equal', 'different'))
def dict_eq(E):
    W = DictWorld(E, own_coerce=False)
    d = E.some_dict('M')
    how = E.case('same class', 'itself', 'none', 'number')
    neg = E.case('__eq__', '__ne__') == '__ne__'
    if how == 'same class':
        x = W.instance('p', d)
    elif how == 'itself':
        x = W.obj
    else:
        x = {'none': None, 'number': E.integer('X')}[how]
    tag, r = W.run('__ne__' if neg else '__eq__', x)
    E.prove('comparing changes nothing', W.unchanged())
    E.prove('answers', B(tag == 'ok'))
    t = E.truth(r)
    t = B(t) if isinstance(t, bool) else t
    if neg:
        t = z3.Not(t)
    if how == 'same class':
        E.cover('equal')
        E.cover('different')
        E.prove('equal iff the items are', t == z3.ForAll([q], z3.And(
            sel(d.dom, q) == sel(W.dom0, q), z3.Implies(
                sel(d.dom, q), peq(sel(W.val0, q), sel(d.val, q))))))
    elif how == 'itself':
        E.prove('equal to itself', t)
    else:
        E.prove('not equal to something of another kind', z3.Not(t))
