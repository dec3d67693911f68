"""C13..C16: typed collections against list/dict models."""
import normalize.exc as exc
from normalize import *          # noqa
from normalize import Record, Property
from normalize.coll import list_of, dict_of, ListCollection, DictCollection
from normalize.record.json import JsonRecordDict
from core import scenario, srepr
from gen import *                # noqa
from gen import Even, Err


class CErr(Exception):
    pass


def _half(x):
    if not isinstance(x, str):
        raise TypeError('half wants str')
    return len(x) * 2


def kinds():
    def mk():
        L1 = list_of(int)
        L2 = type('L2', (ListCollection,), {
            'itemtype': int, 'coerceitem': staticmethod(_half),
            'extra': Property(isa=int)})
        L3 = list_of(Inner)
        L4 = list_of(str)
        L5 = type('L5', (ListCollection,), {'itemtype': Even})
        L6 = type('L6', (L2,), {'itemtype': float, 'coerceitem': float})
        D1 = dict_of(int)
        D2 = type('D2', (DictCollection,), {
            'itemtype': int, 'coerceitem': staticmethod(_half),
            'extra': Property(isa=int)})
        D3 = dict_of(Inner)
        D5 = type('D5', (DictCollection,), {'itemtype': Even})
        LP = type('LP', (Record,), {'xs': ListProperty(of=int)}).properties[
            'xs'].valuetype
        JL = type('JI', (JsonRecord,), {'q': Property(isa=int)})
        L7 = type('L7', (JsonRecordList,), {'itemtype': JL})
        D7 = type('D7', (JsonRecordDict,), {'itemtype': JL})

        def conv(T, f):
            def g(v):
                if isinstance(v, T):
                    return v
                try:
                    return f(v)
                except Exception:
                    raise CErr()
            return g

        def jl(v):
            if isinstance(v, JL):
                return v
            try:
                return JL(v)
            except Exception:
                raise CErr()
        ci, ch, cn, cs = (conv(int, int), conv(int, _half),
                          conv(Inner, Inner), conv(str, str))
        ce, cf = conv(Even, Even), conv(float, float)
        return ([(L1, ci, int), (L2, ch, int), (L3, cn, Inner), (L4, cs, str),
                 (L5, ce, Even), (L6, cf, float), (LP, ci, int),
                 (L7, jl, JL), (list_of(object), lambda v: v, object)],
                [(D1, ci, int), (D2, ch, int), (D3, cn, Inner),
                 (D5, ce, Even), (D7, jl, JL),
                 (dict_of(object), lambda v: v, object)])
    return cached('collkinds', mk)


def item(c, T, good=False):
    """a value for a collection of T: mostly convertible"""
    r = c.rng.random()
    if T is int:
        pool = [c.int(0, 6), c.int(0, 6), True, '3', 'ab', 2.5]
        bad = [None, 'x', [], {}]
    elif T is float:
        pool, bad = [1.5, 0.0, '2', 3, True], [None, 'x', []]
    elif T is object:
        pool, bad = [None, 0, '', 'a', False, 2.5, (1, 2, 3), None], []
    elif T is str:
        pool, bad = ['a', 'b', '', 3, None, [1]], []
    elif T is Inner:
        pool = [Inner(n=c.int(0, 3)), Inner(n=1, s='q'), {'n': c.int(0, 3)},
                {'n': '4'}]
        bad = [None, 5, 'x', {'n': 'x'}, {'zz': 1}, {}]
    elif T is Even:
        pool, bad = [0, 2, 4, 6, 3, 5, '7'], [None, 'x', []]
    else:
        pool = [T(q=c.int(0, 3)), {'q': c.int(0, 4)}, {}, {'other': 1}]
        bad = [5, 'x', {'q': 'x'}]
    if bad and not good and r < 0.15:
        return c.pick(bad)
    return c.pick(pool)


def conforms(c, coll, T):
    vals = list(coll._values.values() if isinstance(
        coll, DictCollection) else iter(coll)) if False else [
        v for k, v in coll.itertuples()]
    for v in vals:
        c.check(isinstance(v, T), 'item', srepr(v), 'is no', T.__name__)


def sl(c, n):
    def e():
        return c.pick([None, None, 0, 1, 2, n, n + 2, -1, -2, -n - 2])
    return slice(e(), e(), c.pick([None, None, None, 1, 2, -1, -2]))


def form(c, xs):
    """the same items as some iterable"""
    k = c.int(0, 3)
    if k == 0:
        return list(xs)
    if k == 1:
        return tuple(xs)
    if k == 2:
        return (x for x in xs)
    return iter(list(xs))


def cv(conv, xs):
    return [conv(x) for x in xs]


def list_case(c, only_conform):
    L, conv, T = c.pick(kinds()[0])
    model, raw = [], []
    for _ in range(c.int(0, 5)):
        x = item(c, T, good=True)
        try:
            model.append(conv(x))
            raw.append(x)
        except CErr:
            pass
    coll = L(form(c, raw)) if L.__name__ != 'L7' else L(values=raw)
    c.eq(list(coll), model, 'built from', raw)
    c.note(L.__name__, srepr(model))
    ops = ['append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort',
           'set', 'setslice', 'del', 'delslice', 'get', 'getslice', 'index',
           'count', 'len', 'add', 'iadd', 'iter', 'tuples', 'eq', 'contains']
    if only_conform:
        ops = ['append', 'extend', 'insert', 'set', 'setslice', 'pop', 'add']
    for _ in range(c.int(1, 8)):
        op = c.pick(ops)
        n = len(model)
        i = c.pick([0, 1, -1, n, n - 1, n + 1, -n, -n - 1, -n - 2, 2])
        x = item(c, T)
        new = list(model)
        want = None
        excs = set()
        snap = list(coll)
        try:
            if op == 'append':
                arg = (x,)
                fn = lambda: coll.append(x)             # noqa
                new.append(conv(x))
            elif op in ('extend', 'add', 'iadd', 'setslice'):
                xs = [item(c, T) for _ in range(c.int(0, 3))]
                good = []
                ok = True
                for y in xs:
                    try:
                        good.append(conv(y))
                    except CErr:
                        ok = False
                        break
                arg = (xs,)
                if op == 'extend':
                    f = form(c, xs)
                    fn = lambda: coll.extend(f)         # noqa
                    if not ok:
                        raise CErr()
                    new.extend(good)
                elif op == 'setslice':
                    s = sl(c, n)
                    arg = (s, xs)
                    f = form(c, xs)

                    def fn():
                        coll[s] = f
                    if not ok:
                        raise CErr()
                    new[s] = good
                else:
                    plain = c.coin()
                    if not ok or (not plain and L.__name__ == 'L7'):
                        continue
                    o = list(xs) if plain else L(xs)
                    if op == 'add':
                        fn = lambda: coll + o               # noqa
                        want = model + good
                    else:
                        def fn():
                            y = coll
                            y += o
                            return y
                        want = model + good
                    tag, r = c.outcome(fn)
                    c.check(tag == 'ok', op, srepr(r))
                    c.check(type(r) is L, op, 'type', type(r).__name__)
                    c.eq(list(r), want, op)
                    if r is coll:
                        model = want
                    c.eq(list(coll), model, op, 'operand')
                    conforms(c, r, T)
                    continue
            elif op == 'insert':
                arg = (i, x)
                fn = lambda: coll.insert(i, x)          # noqa
                new.insert(i, conv(x))
            elif op == 'pop':
                if c.coin(0.3):
                    arg = ()
                    fn = lambda: coll.pop()             # noqa
                    want = new.pop()
                else:
                    arg = (i,)
                    fn = lambda: coll.pop(i)            # noqa
                    want = new.pop(i)
            elif op == 'remove':
                y = c.pick(model) if model and c.coin(0.8) else x
                arg = (y,)
                fn = lambda: coll.remove(y)             # noqa
                new.remove(y)
            elif op == 'reverse':
                arg = ()
                fn = lambda: coll.reverse()             # noqa
                new.reverse()
            elif op == 'sort':
                rev = c.coin()
                arg = (rev,)
                key = repr
                fn = lambda: coll.sort(key=key, reverse=rev)    # noqa
                new.sort(key=key, reverse=rev)
            elif op == 'set':
                arg = (i, x)

                def fn():
                    coll[i] = x
                try:
                    y = conv(x)
                except CErr:
                    if not -n <= i < n:
                        excs.add(IndexError)
                    raise
                new[i] = y
            elif op == 'del':
                arg = (i,)

                def fn():
                    del coll[i]
                del new[i]
            elif op == 'delslice':
                s = sl(c, n)
                arg = (s,)

                def fn():
                    del coll[s]
                del new[s]
            elif op == 'get':
                arg = (i,)
                fn = lambda: coll[i]                    # noqa
                want = model[i]
            elif op == 'getslice':
                s = sl(c, n)
                arg = (s,)
                fn = lambda: list(coll[s])              # noqa
                want = model[s]
            elif op == 'index':
                y = c.pick(model) if model and c.coin(0.8) else x
                a = [c.pick([0, 1, -1, -2, n, n + 3, -n - 3])
                     for _ in range(c.int(0, 2))]
                arg = (y,) + tuple(a)
                fn = lambda: coll.index(*arg)           # noqa
                want = model.index(*arg)
            elif op == 'count':
                y = c.pick(model) if model and c.coin(0.8) else x
                arg = (y,)
                fn = lambda: coll.count(y)              # noqa
                want = model.count(y)
            elif op == 'contains':
                y = c.pick(model) if model and c.coin(0.6) else x
                arg = (y,)
                fn = lambda: y in coll                  # noqa
                want = conv(y) in model
            elif op == 'len':
                arg = ()
                fn = lambda: len(coll)                  # noqa
                want = n
            elif op == 'iter':
                arg = ()
                fn = lambda: list(coll)                 # noqa
                want = list(model)
            elif op == 'tuples':
                arg = ()
                fn = lambda: list(coll.itertuples())    # noqa
                want = list(enumerate(model))
            elif op == 'eq':
                arg = ()
                fn = lambda: (coll == list(model), coll == L(   # noqa
                    values=list(model)), coll != list(model),
                    coll == model + model[:1])
                want = (True, True, False, not model)
            c.note(op, srepr(arg))
            bad = None
        except (CErr, IndexError, ValueError) as e:
            c.note(op, srepr(arg))
            bad = (exc.CollectionItemCoerceError,) if isinstance(
                e, CErr) else (type(e),)
            bad += tuple(excs)
            new = model
        tag, got = c.outcome(fn)
        if bad:
            c.check(tag == 'err' and isinstance(got, bad), op, arg,
                    'expected', str(bad), 'got', tag, srepr(got))
            c.eq(list(coll), model, op, arg, 'raised but changed')
        else:
            c.check(tag == 'ok', op, arg, 'raised', srepr(got))
            c.eq(got, want, op, arg, 'result')
            if op in ('get', 'pop'):
                c.check(got is snap[arg[0] if arg else -1], 'identity')
            c.eq(list(coll), new, op, arg, 'contents')
            model = new
        c.eq(len(coll), len(model), 'len')
        conforms(c, coll, T)


@scenario('C14', 1200, 25000)
def list_model(c):
    list_case(c, False)


@scenario('C13', 500, 8000)
def list_conforms(c):
    list_case(c, True)


def dict_case(c, only_conform):
    D, conv, T = c.pick(kinds()[1])
    model = {}
    raw = {}
    for k in c.sample('abcde', c.int(0, 4)):
        x = item(c, T, good=True)
        try:
            model[k] = conv(x)
            raw[k] = x
        except CErr:
            pass
    coll = D(dict(raw)) if D.__name__ != 'D7' else D(values=dict(raw))

    def state():
        return [(k, coll[k]) for k in coll]
    c.eq(state(), list(model.items()), 'built from', raw)
    c.note(D.__name__, srepr(model))
    ops = ['set', 'del', 'get', 'pop', 'popitem', 'update', 'updatepairs',
           'updatekw', 'updatecoll', 'clear', 'contains', 'len', 'views',
           'eq', 'updatenone', 'updateboth']
    if only_conform:
        ops = ['set', 'update', 'updatepairs', 'updatekw', 'updatecoll',
               'updateboth']
    for _ in range(c.int(1, 8)):
        op = c.pick(ops)
        k = c.pick('abcdef') if c.coin(0.9) else c.pick([1, None, (1,)])
        x = item(c, T)
        new = dict(model)
        want = None
        arg = (k,)
        try:
            if op == 'set':
                arg = (k, x)

                def fn():
                    coll[k] = x
                new[k] = conv(x)
            elif op == 'del':
                def fn():
                    del coll[k]
                del new[k]
            elif op == 'get':
                fn = lambda: coll[k]                    # noqa
                want = model[k]
            elif op == 'pop':
                fn = lambda: coll.pop(k)                # noqa
                want = new.pop(k)
            elif op == 'popitem':
                arg = ()
                fn = lambda: coll.popitem()             # noqa
                want = new.popitem()
            elif op.startswith('update'):
                ks = c.sample('abcdefg', c.int(0, 3))
                items = [(y, item(c, T)) for y in ks]
                arg = (items,)
                if op == 'update':
                    a, kw = (dict(items),), {}
                elif op == 'updatepairs':
                    # a key may come twice: the last one counts
                    items += [(y, item(c, T)) for y in c.sample(
                        ks, c.int(0, len(ks)))]
                    a, kw = (form(c, items),), {}
                    arg = (items,)
                elif op == 'updatekw':
                    a, kw = (), dict(items)
                elif op == 'updateboth':
                    two = [(y, item(c, T)) for y in
                           c.sample('abcdefg', c.int(0, 3))]
                    a, kw = (c.pick([dict, list])(items),), dict(two)
                    items = items + two
                    arg = (a, kw)
                elif op == 'updatenone':
                    a, kw, items = (None,), {}, []
                else:
                    good = []
                    for y, z in items:
                        try:
                            good.append((y, conv(z)))
                        except CErr:
                            pass
                    items = good
                    a, kw = (D(values=dict(items)),), {}
                fn = lambda: coll.update(*a, **kw)      # noqa
                for y, z in items:
                    new[y] = conv(z)
            elif op == 'clear':
                arg = ()
                fn = lambda: coll.clear()               # noqa
                new = {}
            elif op == 'contains':
                fn = lambda: k in coll                  # noqa
                want = k in model
            elif op == 'len':
                arg = ()
                fn = lambda: len(coll)                  # noqa
                want = len(model)
            elif op == 'views':
                arg = ()
                fn = lambda: [list(coll), list(coll.keys()),    # noqa
                              list(coll.iterkeys())] + [
                    list(coll.values()), list(coll.itervalues())] + [
                    list(coll.items()), list(coll.iteritems()),
                    list(coll.itertuples())]
                want = [list(model)] * 3 + [list(model.values())] * 2 + [
                    list(model.items())] * 3
            else:
                arg = ()
                fn = lambda: (coll == dict(model), coll == D(   # noqa
                    values=dict(model)), coll != dict(model),
                    coll == dict(model, zzz=coll))
                want = (True, True, False, False)
            bad = None
        except (CErr, KeyError) as e:
            bad = exc.CollectionItemCoerceError if isinstance(
                e, CErr) else KeyError
        c.note(op, srepr(arg))
        tag, got = c.outcome(fn)
        if bad:
            c.check(tag == 'err' and isinstance(got, bad), op, arg,
                    'expected', bad.__name__, 'got', tag, srepr(got))
            c.eq(state(), list(model.items()), op, arg,
                 'raised but changed')
        else:
            c.check(tag == 'ok', op, arg, 'raised', srepr(got))
            c.eq(got, want, op, arg, 'result')
            c.eq(state(), list(new.items()), op, arg, 'contents')
            model = new
        c.eq(len(coll), len(model), 'len')
        conforms(c, coll, T)


@scenario('C15', 1200, 25000)
def dict_model(c):
    dict_case(c, False)


@scenario('C13', 500, 8000)
def dict_conforms(c):
    dict_case(c, True)


@scenario('C13', 200, 3000)
def slot_collections(c):
    """collections held in record slots: same guarantee"""
    cls = cached('slotcoll', lambda: type('SC', (Record,), {
        'xs': ListProperty(of=int), 'rs': ListProperty(of=Inner),
        'd': DictProperty(of=int)}))
    r = cls()
    for _ in range(c.int(1, 6)):
        n = c.pick(['xs', 'rs', 'd'])
        T = Inner if n == 'rs' else int
        xs = [item(c, T) for _ in range(c.int(0, 3))]
        v = dict(zip('abc', xs)) if n == 'd' else form(c, xs)
        good = []
        try:
            for x in xs:
                good.append(x if isinstance(x, T) else T(x))
            ok = True
        except Exception:
            ok = False
        before = slots(r, ['xs', 'rs', 'd'])
        before = dict((k, list(x.itertuples())) for k, x in before.items())
        c.note(n, xs, ok)
        tag, e = c.outcome(lambda: setattr(r, n, v))
        c.check((tag == 'ok') == ok, 'set', n, xs, tag, srepr(e))
        after = slots(r, ['xs', 'rs', 'd'])
        after = dict((k, list(x.itertuples())) for k, x in after.items())
        if ok:
            before[n] = list(zip('abc' if n == 'd' else range(9), good))
        else:
            c.check(isinstance(e, exc.CoercionError), srepr(e))
        c.eq(after, before, 'slots')
        for k, x in slots(r, ['xs', 'rs', 'd']).items():
            conforms(c, x, Inner if k == 'rs' else int)


# ------------------------------------------------------------------ C16
class OldIter(object):
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


@scenario('C16', 600, 10000)
def forms_list(c):
    L, conv, T = c.pick(kinds()[0])
    kw = {}
    if L.__name__ in ('L2', 'L6') and c.coin():
        kw = {'extra': c.int(0, 5)}
    raw = []
    for _ in range(c.int(0, 4)):
        x = item(c, T)
        raw.append(x)
    k = c.pick(['list', 'tuple', 'gen', 'iter', 'map', 'coll', 'set', 'own',
                'none', 'str', 'bad', 'empty', 'range'])
    c.note(L.__name__, k, raw, kw)
    want = raw
    src = None
    if k == 'list':
        src = list(raw)
    elif k == 'tuple':
        src = tuple(raw)
    elif k == 'gen':
        src = (x for x in raw)
    elif k == 'iter':
        src = iter(raw)
    elif k == 'own':
        src = OldIter(raw)
    elif k == 'map':
        keys = c.sample(c.pick(['gfedcba', [5, 3, 11, 2, 10, 7], [
            (1,), (0, 2), (0,), (), (3, 1)], [0.5, -1.5, 11.0, 2.25, 9]]),
            len(raw))
        src = dict(zip(keys, raw))
        want = [src[x] for x in sorted(keys)]
    elif k == 'coll':
        good = []
        for x in raw:
            try:
                good.append(conv(x))
            except CErr:
                pass
        src, want = L(values=good), good
    elif k == 'set':
        src = set(x for x in raw if x.__hash__ and not isinstance(x, Record))
        want = list(src)
    elif k == 'range':
        src = range(2)
        want = [0, 1]
    elif k == 'none':
        src, want = None, []
    elif k == 'empty':
        src, want = c.pick([[], (), {}, 0, False]), []
    elif k == 'str':
        src = c.pick(['', 'a', '12', 'abc'])
    else:
        src = c.pick([5, 2.5, object(), True, len])
    js = L.__name__ == 'L7'
    fn = lambda: L(values=src, **kw)        # noqa
    if not js and c.coin():
        fn = lambda: L(src, **kw)           # noqa
    snap = list(src.items()) if isinstance(src, dict) else None
    tag, r = c.outcome(fn)
    if k in ('str', 'bad'):
        c.check(tag == 'err' and isinstance(r, exc.CollectionCoerceError),
                'accepted', srepr(src), srepr(r))
        return
    try:
        want = cv(conv, want)
    except CErr:
        c.check(tag == 'err' and isinstance(
            r, exc.CollectionItemCoerceError), 'accepted bad item', srepr(r))
        return
    c.check(tag == 'ok', 'refused', srepr(src), srepr(r))
    c.check(type(r) is L, 'type')
    c.eq(list(r), want, 'items')
    c.eq(list(r.itertuples()), list(enumerate(want)), 'tuples')
    for n, v in kw.items():
        c.eq(getattr(r, n), v, 'property', n)
    if snap is not None:
        c.eq(list(src.items()), snap, 'input changed')
    if isinstance(src, list):
        before = list(r)
        src.append('later')
        c.eq(list(r), before, 'aliases its input')
    if k == 'coll' and want:
        r.append(want[0])
        c.eq(len(src), len(want), 'aliases the source collection')


@scenario('C16', 600, 10000)
def forms_dict(c):
    D, conv, T = c.pick(kinds()[1])
    kw = {}
    if D.__name__ == 'D2' and c.coin():
        kw = {'extra': c.int(0, 5)}
    raw = [item(c, T) for _ in range(c.int(0, 4))]
    keys = c.sample('abcdefg', len(raw))
    k = c.pick(['dict', 'pairs', 'vals', 'list', 'tuple', 'coll', 'lcoll',
                'mixed', 'mixed', 'none', 'str', 'bad', 'empty'])
    c.note(D.__name__, k, keys, raw, kw)
    want = list(zip(keys, raw))
    if k == 'dict':
        src = dict(want)
    elif k == 'pairs':
        src = (x for x in want)
    elif k == 'vals':
        src = iter(raw)
        want = list(enumerate(raw))
    elif k == 'mixed':
        # pairs give their own key, other items their position
        keyed = [c.coin() for _ in raw]
        src = iter([(y, x) if p else x for y, x, p in
                    zip(keys, raw, keyed)])
        want = [(y if p else i, x) for i, (y, x, p) in
                enumerate(zip(keys, raw, keyed))]
    elif k in ('list', 'tuple'):
        src = list(raw) if k == 'list' else tuple(raw)
        want = list(enumerate(raw))
    elif k in ('coll', 'lcoll'):
        good = []
        for y, x in want:
            try:
                good.append((y, conv(x)))
            except CErr:
                pass
        if k == 'coll':
            src, want = D(values=dict(good)), good
        else:
            lt = list_of(T) if T is not Even else type(
                'LE', (ListCollection,), {'itemtype': Even})
            src = lt([x for _, x in good])
            want = list(enumerate(x for _, x in good))
    elif k == 'none':
        src, want = None, []
    elif k == 'empty':
        src, want = c.pick([{}, [], (), 0, False]), []
    elif k == 'str':
        src = c.pick(['', 'a', 'abc'])
    else:
        src = c.pick([5, object(), {1, 2}, True, len])
    js = D.__name__ == 'D7'
    fn = lambda: D(values=src, **kw)        # noqa
    if not js and c.coin():
        fn = lambda: D(src, **kw)           # noqa
    tag, r = c.outcome(fn)
    if k in ('str', 'bad'):
        c.check(tag == 'err' and isinstance(r, exc.CollectionCoerceError),
                'accepted', srepr(src), srepr(r))
        return
    try:
        want = [(y, conv(x)) for y, x in want]
    except CErr:
        c.check(tag == 'err' and isinstance(
            r, exc.CollectionItemCoerceError), 'accepted bad item', srepr(r))
        return
    c.check(tag == 'ok', 'refused', srepr(src), srepr(r))
    c.check(type(r) is D, 'type')
    c.eq(list(r.itertuples()), want, 'items')
    for n, v in kw.items():
        c.eq(getattr(r, n), v, 'property', n)
    if isinstance(src, dict):
        src['later'] = 1
        c.eq(list(r.itertuples()), want, 'aliases its input')
    if k == 'coll' and want:
        r.clear()
        c.eq(len(src), len(want), 'aliases the source collection')


@scenario('C16', 100, 1000)
def generic_types(c):
    """list_of/dict_of give one type per item type"""
    T = c.pick([int, str, Inner, float])
    a, b = list_of(T), list_of(T)
    c.check(a is b and a.itemtype is T, 'list_of')
    d, e = dict_of(T), dict_of(T)
    c.check(d is e and d.itemtype is T and d is not a, 'dict_of')
    c.check(issubclass(a, ListCollection) and issubclass(d, DictCollection),
            'base')
    nt = type('Clash%d' % c.int(0, 10 ** 9), (object,), {
        '__module__': __name__})
    x = list_of(nt)
    c.check(x is list_of(nt), 'cached')
    other = type(nt.__name__, (object,), {'__module__': __name__})
    c.raises(exc.PropertyNotUnique, lambda: list_of(other), 'same name')
    c.check(list_of(nt) is x and x.itemtype is nt, 'first type unchanged')
    c.raises(exc.CollectionDefinitionError, lambda: ListCollection([1]),
             'no item type') if c.coin() else None
