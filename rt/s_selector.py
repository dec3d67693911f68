"""C20..C24: field selectors and multi field selectors."""
import copy
import normalize.exc as exc
from normalize import *          # noqa
from normalize import Record, Property, FieldSelector, MultiFieldSelector
from normalize.coll import ListCollection, DictCollection
from core import scenario, srepr, Known
from gen import cached, MISSING


def nodes():
    def mk():
        class SLeaf(Record):
            x = Property()
            y = Property(isa=int)
            zs = ListProperty(of=int)

        class SKid(Record):
            leaf = Property(isa=SLeaf)
            x = Property()
            ls = ListProperty(of=SLeaf)
            d = DictProperty(of=SLeaf)

        class SRoot(Record):
            kid = Property(isa=SKid)
            leaf = Property(isa=SLeaf)
            kids = ListProperty(of=SKid)
            x = Property()
            d = DictProperty(of=SKid)
            data = Property()
        return SLeaf, SKid, SRoot
    return cached('selnodes', mk)


# model: ['rec', cls, {slot: node}], list, dict, scalars
class MRec(object):
    def __init__(self, cls, slots):
        self.cls, self.slots = cls, slots


def valuekind(cls, slot):
    """('rec', T) / ('list', T) / ('dict', T) / None"""
    vt = cls.properties[slot].valuetype
    if isinstance(vt, type) and issubclass(vt, ListCollection):
        return ('list', vt.itemtype)
    if isinstance(vt, type) and issubclass(vt, DictCollection):
        return ('dict', vt.itemtype)
    if isinstance(vt, type) and issubclass(vt, Record):
        return ('rec', vt)
    return None


class MList(object):
    def __init__(self, T, items):
        self.T, self.items = T, items


class MDict(object):
    def __init__(self, T, items):
        self.T, self.items = T, items


def gen_node(c, T, depth=3):
    SLeaf, SKid, SRoot = nodes()
    if T is int:
        return c.int(0, 5)
    sl = {}
    for n in T.properties:
        if not c.coin(0.65):
            continue
        k = valuekind(T, n)
        if n == 'y':
            sl[n] = c.int(0, 5)
        elif n == 'data':
            sl[n] = c.pick([[1, [2, 3]], {'k': {'j': 1}, 'l': [5]},
                            [{'x': 1}, {'x': 2}, {}], 'text', {}])
            sl[n] = plain_model(sl[n])
        elif k is None:
            sl[n] = c.pick([0, 1, 'v', 2.5])
        elif k[0] == 'rec':
            sl[n] = gen_node(c, k[1], depth - 1)
        elif k[0] == 'list':
            sl[n] = MList(k[1], [gen_node(c, k[1], depth - 1)
                                 for _ in range(c.int(0, 2))])
        else:
            sl[n] = MDict(k[1], dict(
                (kk, gen_node(c, k[1], depth - 1)) for kk in c.sample(
                    ['k', 'j', 'b c'], c.int(0, 2))))
    return MRec(T, sl)


def plain_model(v):
    if isinstance(v, list):
        return MList(None, [plain_model(x) for x in v])
    if isinstance(v, dict):
        return MDict(None, dict((k, plain_model(x)) for k, x in v.items()))
    return v


def real(m):
    if isinstance(m, MRec):
        return m.cls(**dict((k, real(v)) for k, v in m.slots.items()))
    if isinstance(m, MList):
        return [real(x) for x in m.items]
    if isinstance(m, MDict):
        return dict((k, real(v)) for k, v in m.items.items())
    return m


def abstract(o):
    """comparable form of a real object (or of a model)"""
    if isinstance(o, MRec):
        return (o.cls.__name__, tuple(sorted(
            ((k, abstract(v)) for k, v in o.slots.items()),
            key=lambda t: t[0])))
    if isinstance(o, (MList, MDict)):
        o2 = o.items
    elif isinstance(o, ListCollection):
        o2 = list(o)
    elif isinstance(o, DictCollection):
        o2 = dict(o.items())
    elif isinstance(o, Record):
        return (type(o).__name__, tuple(sorted(
            ((n, abstract(getattr(o, n))) for n in type(o).properties
             if hasattr(o, n)), key=lambda t: t[0])))
    else:
        o2 = o
    if isinstance(o2, (list, tuple)):
        return [abstract(x) for x in o2]
    if isinstance(o2, dict):
        return dict((k, abstract(v)) for k, v in o2.items())
    return (type(o2).__name__, o2)


class FS(Exception):
    """a FieldSelectorException is due"""


class Bad(Exception):
    """some error is due"""


class Skip(Exception):
    """behaviour not promised"""


def step(m, s):
    if isinstance(m, MRec):
        if not isinstance(s, str):
            raise Bad()
        if s not in m.slots:
            raise FS()
        return m.slots[s]
    if isinstance(m, MList):
        if not isinstance(s, int):
            raise Bad()
        if not -len(m.items) <= s < len(m.items):
            raise FS()
        return m.items[s]
    if isinstance(m, MDict):
        if s not in m.items:
            raise FS()
        return m.items[s]
    if isinstance(s, str):
        raise FS()
    raise Bad()


def mget(m, path):
    for i, s in enumerate(path):
        if s is None:
            if not isinstance(m, MList):
                raise Skip()
            out, fs, ok = [], False, not m.items
            for x in m.items:
                try:
                    out.append(mget(x, path[i + 1:]))
                    ok = True
                except FS:
                    out.append(None)
            if not ok:
                raise FS()
            return out
        m = step(m, s)
    return m


def mput(m, path, v):
    s = path[0]
    if len(path) > 1:
        if s is None:
            if not isinstance(m, MList):
                raise Skip()
            for x in m.items:
                mput(x, path[1:], copy.deepcopy(v))
            return
        return mput(step(m, s), path[1:], v)
    if isinstance(m, MRec):
        if not isinstance(s, str):
            raise Bad()
        if s not in m.cls.properties:
            raise Skip()
        m.slots[s] = v
    elif isinstance(m, MList):
        if s is None:
            if not isinstance(v, MList):
                raise Bad()
            m.items[:] = v.items
        elif not isinstance(s, int):
            raise Bad()
        elif not -len(m.items) <= s < len(m.items):
            raise FS()
        else:
            m.items[s] = v
    elif isinstance(m, MDict):
        if s is None:
            raise Skip()
        m.items[s] = v
    else:
        raise Bad()


def empty(T):
    return MRec(T, {})


def mpost(m, path, v):
    """returns the count"""
    if len(path) == 1:
        mput(m, path, v)
        return 1
    s = path[0]
    if s is None:
        if not isinstance(m, MList):
            raise Skip()
        return sum(mpost(x, path[1:], copy.deepcopy(v)) for x in m.items)
    if isinstance(m, MRec):
        if not isinstance(s, str):
            raise Bad()
        if s not in m.slots:
            if s not in m.cls.properties:
                raise Bad()
            k = valuekind(m.cls, s)
            if k is None:
                raise Bad()
            m.slots[s] = empty(k[1]) if k[0] == 'rec' else (
                MList if k[0] == 'list' else MDict)(
                    k[1], [] if k[0] == 'list' else {})
        nxt = m.slots[s]
    elif isinstance(m, MList):
        if not isinstance(s, int):
            raise Bad()
        if not -len(m.items) <= s < len(m.items):
            if s != len(m.items) or m.T in (None, int):
                raise Bad()
            m.items.append(empty(m.T))
        nxt = m.items[s]
    elif isinstance(m, MDict):
        if s not in m.items:
            if m.T is None:
                raise Bad()
            m.items[s] = empty(m.T)
        nxt = m.items[s]
    else:
        raise Bad()
    return mpost(nxt, path[1:], v)


def mdelete(m, path):
    s = path[0]
    if len(path) > 1:
        if s is None:
            if not isinstance(m, MList):
                raise Skip()
            fail = 0
            for x in m.items:
                try:
                    mdelete(x, path[1:])
                except FS:
                    fail += 1
            if fail and fail == len(m.items):
                raise FS()
            return
        return mdelete(step(m, s), path[1:])
    if isinstance(m, MRec):
        if not isinstance(s, str):
            raise Bad()
        m.slots.pop(s, None)
    elif isinstance(m, (MList, MDict)):
        if s is None:
            m.items.clear()
        elif isinstance(m, MList) and not isinstance(s, int):
            raise Bad()
        else:
            step(m, s)
            del m.items[s]
    elif isinstance(s, str):
        pass                       # nothing there to delete
    else:
        raise Bad()


def gen_path(c, m, n=None, wild=0.15, miss=0.2):
    """a path that mostly exists in the model"""
    out = []
    n = n or c.int(1, 4)
    for _ in range(n):
        if isinstance(m, MRec):
            if m.slots and not c.coin(miss):
                s = c.pick(sorted(m.slots))
            else:
                s = c.pick(sorted(m.cls.properties))
                if c.coin(0.1):
                    s = c.pick(['nosuch', 0, -1])
            nxt = m.slots.get(s, MISSING)
            if nxt is MISSING and s in m.cls.properties:
                k = valuekind(m.cls, s)
                if k:
                    nxt = empty(k[1]) if k[0] == 'rec' else (
                        MList if k[0] == 'list' else MDict)(
                            k[1], [] if k[0] == 'list' else {})
        elif isinstance(m, MList):
            r = c.rng.random()
            if r < wild:
                s = None
                nxt = c.pick(m.items) if m.items else (
                    empty(m.T) if m.T not in (None, int) else MISSING)
            else:
                L = len(m.items)
                s = c.int(0, L) if c.coin(0.8) else c.pick(
                    [-1, -L, L, L + 1, -L - 1, 'x'])
                nxt = m.items[s] if isinstance(s, int) and (
                    -L <= s < L) else (empty(m.T) if m.T not in (
                        None, int) else MISSING)
        elif isinstance(m, MDict):
            s = c.pick(sorted(m.items)) if m.items and not c.coin(
                miss) else c.pick(['k', 'zz', 'x'])
            nxt = m.items.get(s, MISSING)
            if nxt is MISSING and m.T:
                nxt = empty(m.T)
        else:
            if out and c.coin(0.8):
                break
            s = c.pick(['x', 'nosuch', 0])
            nxt = MISSING
        out.append(s)
        m = nxt
    return out


def value_for(c, m, path):
    """a model value of the right type for the place, or a scalar"""
    T = None
    k = None
    for s in path:
        if isinstance(m, MRec):
            if s not in m.cls.properties:
                return 1
            k = valuekind(m.cls, s)
            if s == 'y':
                k = ('int',)
            m = m.slots.get(s, MISSING)
            if m is MISSING and k and k[0] != 'int':
                m = empty(k[1]) if k[0] == 'rec' else (
                    MList if k[0] == 'list' else MDict)(
                        k[1], [] if k[0] == 'list' else {})
        elif isinstance(m, (MList, MDict)):
            if s is None:
                k = ('slice', m)
            elif m.T is None:
                k = None
            else:
                k = ('int',) if m.T is int else ('rec', m.T)
            T = m.T
            if isinstance(m, MList) and isinstance(s, int) and (
                    -len(m.items) <= s < len(m.items)):
                m = m.items[s]
            elif isinstance(m, MDict) and s in m.items:
                m = m.items[s]
            elif s is None and isinstance(m, MList) and m.items:
                m = m.items[0]
            else:
                m = empty(T) if T not in (None, int) else MISSING
        else:
            return 1
    if k is None:
        return c.pick([7, 'new', 3.5])
    if k[0] == 'int':
        return c.int(10, 20)
    if k[0] == 'rec':
        return gen_node(c, k[1], 1)
    if k[0] == 'slice':
        T = k[1].T
        return MList(T, [gen_node(c, T, 1) if T else 7
                         for _ in range(c.int(0, 2))])
    if k[0] == 'list':
        return MList(k[1], [gen_node(c, k[1], 1)
                            for _ in range(c.int(0, 2))])
    return MDict(k[1], dict((x, gen_node(c, k[1], 1))
                            for x in c.sample('kj', c.int(0, 2))))


@scenario('C20', 1500, 30000)
def field_selectors(c):
    SRoot = nodes()[2]
    m = gen_node(c, SRoot)
    o = real(m)
    c.check(abstract(o) == abstract(m), 'construction')
    for _ in range(c.int(1, 4)):
        path = gen_path(c, m)
        op = c.pick(['get', 'put', 'post', 'delete', 'get_or_none'])
        fs = FieldSelector(path)
        new = copy.deepcopy(m)
        v = value_for(c, m, path) if op in ('put', 'post') else None
        c.note(op, path, srepr(abstract(m)) if len(c.log) < 2 else '',
               srepr(abstract(v)) if v is not None else '')
        want, exp = None, None
        try:
            if op in ('get', 'get_or_none'):
                want = mget(new, path)
            elif op == 'put':
                mput(new, path, copy.deepcopy(v))
            elif op == 'post':
                want = mpost(new, path, copy.deepcopy(v))
            else:
                mdelete(new, path)
        except (FS, Bad) as e:
            exp = e
        except Skip:
            continue
        if op == 'get':
            tag, got = c.outcome(lambda: fs.get(o))
        elif op == 'get_or_none':
            tag, got = c.outcome(lambda: fs.get_or_none(o))
        elif op == 'put':
            tag, got = c.outcome(lambda: fs.put(o, real(v)))
        elif op == 'post':
            tag, got = c.outcome(lambda: fs.post(o, real(v)))
        else:
            tag, got = c.outcome(lambda: fs.delete(o))
        if isinstance(exp, FS) and op == 'get_or_none':
            c.check(tag == 'ok' and got is None, 'get_or_none', path,
                    srepr(got))
        elif isinstance(exp, FS):
            c.check(tag == 'err' and isinstance(
                got, exc.FieldSelectorException), op, path,
                'expected a FieldSelectorException, got', tag, srepr(got))
        elif exp is not None:
            c.check(tag == 'err', op, path, 'expected an error, got',
                    srepr(got))
        else:
            c.check(tag == 'ok', op, path, 'raised', srepr(got))
            if op.startswith('get'):
                c.check(abstract(got) == abstract(want), op, path, 'got',
                        srepr(got))
                if not any(s is None for s in path):
                    x = o
                    for s in path:
                        x = getattr(x, s) if isinstance(
                            x, Record) and not isinstance(x, (
                                ListCollection, DictCollection)) else x[s]
                    c.check(got is x, op, path, 'returned a copy')
            else:
                c.check(abstract(o) == abstract(new), op, path, 'left',
                        srepr(o), 'want', srepr(abstract(new)))
                if op == 'post':
                    c.eq(got, want, 'post count')
                m = new
        if exp is not None and op in ('post', 'put', 'delete'):
            if any(s is None for s in path) or op == 'post':
                return          # may have been done in part
            c.check(abstract(o) == abstract(m), op, path,
                    'failed but changed the object')
        c.eq(fs.selectors, path, 'selector changed')


@scenario('C20', 200, 2000)
def put_then_get(c):
    SRoot = nodes()[2]
    m = gen_node(c, SRoot)
    o = real(m)
    path = gen_path(c, m, wild=0)
    v = value_for(c, m, path)
    fs = FieldSelector(path)
    c.note(path, srepr(abstract(v)))
    tag, r = c.outcome(lambda: fs.post(o, real(v)))
    if tag == 'err':
        c.trivial = True
        return
    c.check(abstract(fs.get(o)) == abstract(v), 'post then get', srepr(o))
    if isinstance(path[-1], str):
        fs.delete(o)
        c.check(fs.get_or_none(o) is None, 'delete then get')


# ------------------------------------------------------------------ C21
NAMES = ['a', 'b', 'foo', 'b ar', '', "q'x", 'é', '_u', '1x']


def sel(c, n=None, wild=True):
    return [c.pick([c.pick(NAMES), c.pick(NAMES), c.int(-2, 12),
                    None if wild else 0])
            for _ in range(c.int(0, 4) if n is None else n)]


@scenario('C21', 1200, 25000)
def algebra(c):
    a, b = sel(c), sel(c)
    fa, fb = FieldSelector(a), FieldSelector(b)
    c.note(a, b)
    c.eq(fa.selectors, a, 'constructor')
    cp = FieldSelector(fa)
    c.check(cp == fa and cp is not fa, 'copy')
    c.eq(len(fa), len(a), 'len')
    c.eq((fa + fb).selectors, a + b, 'concatenation')
    c.eq((fa + list(b)).selectors, a + b, 'concatenation with a list')
    x = c.pick(['n', 3])
    c.eq((fa + x).selectors, a + [x], 'concatenation with one item')
    c.raises(TypeError, lambda: fa + 2.5, 'adding a float')
    c.eq((fa.selectors, fb.selectors), (a, b), 'operands changed')
    i, j = (c.pick([None, -2, -1, 0, 1, 2, 5]) for _ in range(2))
    s = fa[i:j]
    c.check(type(s) is FieldSelector, 'slice type')
    c.eq(s.selectors, a[i:j], 'slice')
    if a:
        k = c.int(0, len(a) - 1)
        c.eq(fa[k], a[k], 'item')
        c.check((fa[:k] + fa[k:]) == fa, 'split')
    c.check((fa + (fb + [x])) == ((fa + fb) + [x]), 'associative')
    # prefix tests
    for pre in (b, a[:c.int(0, 4)], a + b):
        want = a[:len(pre)] == pre
        for arg in (FieldSelector(pre), list(pre), tuple(pre)):
            c.eq(bool(fa.startswith(arg)), want, 'startswith', pre)
    for k in (x, None, a[0] if a else 'zz'):
        c.eq(bool(fa.startswith(k)), bool(a) and a[0] == k, 'startswith', k)
    # equality and hashing
    c.eq(fa == fb, a == b, 'eq')
    c.eq(fa != fb, a != b, 'ne')
    if a == b:
        c.eq(hash(fa), hash(fb), 'hash')
    c.eq(hash(fa), hash(FieldSelector(tuple(a))), 'hash of equal')
    c.raises(TypeError, lambda: fa == 5, 'compare with an int')
    # mutation through the add methods only appends
    g = FieldSelector(a)
    g.add_property('p')
    g.add_index(4)
    g.add_full_collection()
    c.check(g.extend(fb) is g, 'extend returns itself')
    c.eq(g.selectors, a + ['p', 4, None] + b, 'adders')
    c.raises(ValueError, lambda: g.add_property(5), 'add_property(5)')
    c.raises(ValueError, lambda: g.add_index('x'), 'add_index("x")')
    c.eq(g.selectors, a + ['p', 4, None] + b, 'refused adders')
    c.eq((fa.selectors, fb.selectors), (a, b), 'operands changed')
    bad = c.pick([2.5, 0.0, (), ['a'], b'', object(), {}])
    c.raises(ValueError, lambda: FieldSelector(a + [bad]), 'holding',
             srepr(bad))


@scenario('C21', 600, 10000)
def ordering(c):
    pool = [FieldSelector([c.pick(['a', 'b']), c.int(0, 12)] + [
        c.pick(['x', 'y'])] * c.int(0, 1)) for _ in range(3)]
    if c.coin(0.3):
        pool[1] = pool[0][:c.int(0, 3)]
    c.note([f.selectors for f in pool])
    for f in pool:
        for g in pool:
            want = f.selectors < g.selectors
            c.eq(f < g, want, 'lt', f.selectors, g.selectors)
            c.eq(g > f, want, 'gt')
            c.eq(f <= g, want or f.selectors == g.selectors, 'le')
            c.eq(f >= g, not want, 'ge')
    srt = sorted(pool)
    c.eq([f.selectors for f in srt], sorted(f.selectors for f in pool),
         'sorted')
    c.raises(TypeError, lambda: FieldSelector(['a']) < FieldSelector([1]),
             'incomparable')


# ------------------------------------------------------------------ C22
def text(c):
    if c.coin(0.4):
        return c.pick(NAMES)
    return ''.join(c.pick("ab_0.[]'\\()|*\n\t é\"-") for _ in range(
        c.int(0, 6)))


@scenario('C22', 1500, 30000)
def fs_paths(c):
    a = [c.pick([text(c), text(c), c.int(-20, 200), None])
         for _ in range(c.int(0, 5))]
    fs = FieldSelector(a)
    p = fs.path
    c.note(a, p)
    c.check(isinstance(p, str), 'path type')
    c.eq(FieldSelector.from_path(p).selectors, a, 'parsed back from', p)
    c.eq(FieldSelector.from_path(p).path, p, 'path of parsed')
    b = [c.pick([text(c), c.int(-3, 3), None]) for _ in range(c.int(0, 3))]
    if a != b:
        c.check(FieldSelector(b).path != p, 'two selectors share a path',
                a, b)
    c.eq((fs + b).path, p + FieldSelector(b).path, 'path of concatenation')


@scenario('C22', 1000, 20000)
def mfs_paths(c):
    S = gen_mfs(c, names=lambda: c.pick([text(c), 'a', 'b', 'c']),
                allow_top=False)
    tag, m = c.outcome(lambda: MultiFieldSelector(*S))
    if tag == 'err':
        c.trivial = True
        return
    p = m.path
    c.note(S, p)
    m2 = MultiFieldSelector.from_path(p)
    c.eq(listing(m2), listing(m), 'parsed back from', p)
    c.eq(listing(m), canon(S), 'selectors of', p)


# ------------------------------------------------------------------ C23
def key(s):
    return [(0, '') if x is None else (1, '%06d' % x) if isinstance(
        x, int) else (2, x) for x in s]


def strip(s):
    s = tuple(s)
    return s[:-1] if s and s[-1] is None else s


def canon(S):
    """minimal canonical set of paths denoted by selectors"""
    return minimal(strip(s) for s in S)


def minimal(S):
    T = set(tuple(s) for s in S)
    T = [s for s in T if not any(
        s != t and s[:len(t)] == t for t in T)]
    return sorted(T, key=key)


def listing(m):
    return canon([tuple(x.selectors) for x in m])


def gen_mfs(c, names=None, allow_top=True, n=None):
    """selectors whose levels do not mix wildcards with other keys"""
    names = names or (lambda: c.pick(['a', 'b', 'c', 'd']))
    kinds = {}

    def one(depth):
        out = []
        for i in range(depth):
            pre = tuple(out)
            k = kinds.setdefault(pre, c.pick(
                ['s', 's', 's', 'i', 'w', 's']) if i or allow_top
                else 's')
            if c.coin(0.02):
                k = c.pick('siw')
            s = names() if k == 's' else c.int(0, 3) if k == 'i' else None
            out.append(s)
        return out
    return [one(c.int(1, 4)) for _ in range(n or c.int(1, 5))]


def mixes(T):
    """does some level mix a wildcard with other keys?"""
    levels = {}
    full = [tuple(s) for s in T]
    for s in full:
        for i in range(len(s)):
            levels.setdefault(s[:i], set()).add(s[i])
    dead = set()
    for s in full:
        dead.add(s)
    for pre, ks in levels.items():
        if None in ks and len(ks) > 1:
            # absorbed when a whole-subtree selector covers this level
            if any(pre[:len(t)] == t for t in dead) or (
                    pre + (None,) in dead):
                continue
            return True
    return False


def covers(T, p):
    """some canonical selector is a prefix of p (wildcards match anything)"""
    return any(len(t) <= len(p) and all(
        x is None or x == y for x, y in zip(t, p)) for t in T)


def residual(T, p):
    out = []
    for t in T:
        if len(t) <= len(p):
            if all(x is None or x == y for x, y in zip(t, p)):
                return 'all'
        elif all(x is None or x == y for x, y in zip(t, p)):
            out.append(t[len(p):])
    return out


def gen_query(c, S, n=None):
    s = c.pick(S)
    p = list(s[:c.int(0, len(s))])
    for i in range(len(p)):
        if p[i] is None and c.coin(0.7):
            p[i] = c.pick([0, 1, 'a'])
        elif c.coin(0.15):
            p[i] = c.pick(['a', 'zz', 0, 3])
    while c.coin(0.3):
        p.append(c.pick(['a', 'b', 0, 1]))
    return p


@scenario('C23', 1500, 30000)
def mfs_denotation(c):
    S = gen_mfs(c)
    c.note(S)
    tag, m = c.outcome(lambda: MultiFieldSelector(*[
        c.pick([list, tuple, FieldSelector])(s) for s in S]))
    if mixes(S):
        c.check(tag == 'err' and isinstance(m, ValueError) or tag == 'ok',
                'mixed levels', srepr(m))
        if tag == 'err':
            return
    c.check(tag == 'ok', 'refused', srepr(m))
    T = canon(S)
    c.eq(listing(m), T, 'iteration')
    c.check(bool(m), 'truth')
    # a second construction from the first (and from its parts)
    m2 = MultiFieldSelector(m)
    c.eq(listing(m2), T, 'copy')
    k = c.int(0, len(S))
    if mixes(S[:k]):
        k = 0
    tag, m3 = c.outcome(lambda: MultiFieldSelector(
        *([MultiFieldSelector(*S[:k])] if k else []) + S[k:]))
    c.check(tag == 'ok', 'combination refused', srepr(m3))
    c.eq(listing(m3), T, 'combination')
    for _ in range(5):
        p = gen_query(c, S)
        want = covers(T, p)
        q = c.pick([FieldSelector, tuple])(p)
        c.eq(bool(q in m), want, 'contains', p)
        c.eq(bool(q in m3), want, 'combined contains', p)
        # subscript: the residual selectors
        sub = m[q]
        res = residual(T, p)
        if res == 'all':
            c.check(sub is not None and () in sub and ('anything',) in sub,
                    'subscript', p, srepr(sub), 'should match everything')
        elif not res:
            c.check(sub is None, 'subscript', p, srepr(sub))
        else:
            c.check(sub is not None, 'subscript', p, 'is None')
            c.eq(listing(sub), minimal(res), 'subscript', p)
        if p:
            x = p[0]
            res = residual(T, p[:1])
            sub = m[x]
            c.eq(bool(x in m), bool(res), 'single contains', x)
            if res == 'all':
                c.check(sub is not None and () in sub, 'single subscript', x)
            elif not res:
                c.check(sub is None, 'single subscript', x, srepr(sub))
            else:
                c.eq(listing(sub), minimal(res), 'single subscript', x)
        # stepwise and whole-path subscripts agree
        st = m
        for x in p:
            st = st[x] if st is not None else None
        whole = m[tuple(p)]
        c.check((st is None) == (whole is None), 'stepwise subscript', p)
        if st is not None:
            c.eq(listing(st), listing(whole), 'stepwise subscript', p)
    # any grouping and order of the parts
    parts = []
    rest = list(S) + [s[:c.int(1, len(s))] for s in S if c.coin(0.4)]
    T2 = canon(rest)
    # (a group without the selector which absorbs its mixed levels is refused)
    if not mixes(rest) and not any(mixes([s, t]) for s in rest for t in rest):
        c.rng.shuffle(rest)
        while rest:
            j = c.int(1, 2)
            parts.append(MultiFieldSelector(*rest[:j])
                         if c.coin(0.7) or j > 1 else rest[0])
            rest = rest[j:]
        before = [srepr(x) for x in parts]
        tag, m4 = c.outcome(lambda: MultiFieldSelector(*parts))
        c.check(tag == 'ok', 'grouping refused', srepr(parts), srepr(m4))
        c.eq(listing(m4), T2, 'grouping', parts)
        for _ in range(4):
            p = gen_query(c, S)
            c.eq(bool(tuple(p) in m4), covers(T2, p), 'grouped contains', p)
        c.eq([srepr(x) for x in parts], before, 'parts changed')
    full = MultiFieldSelector.complete_mfs()
    c.check(() in full and full['x'] is not None and ('a', 0) in full,
            'complete')
    c.check(MultiFieldSelector([]).complete and not m.complete or T == [()],
            'complete flag')


# ------------------------------------------------------------------ C24
def obj_paths(c, m, n, wild=0.25):
    out = []
    for _ in range(n):
        p = gen_path(c, m, wild=wild, miss=0.1)
        out.append([x for x in p])
    return out


def valid(m, p):
    """does the path make sense for the object's types?"""
    for s in p:
        if isinstance(m, MRec):
            if not isinstance(s, str) or s not in m.cls.properties:
                return False
            if s not in m.slots:
                return 'unset'
            m = m.slots[s]
        elif isinstance(m, MList):
            if s is None:
                return all(valid(x, p[1:]) is not False for x in m.items) \
                    if False else True
            if not isinstance(s, int) or not 0 <= s < len(m.items):
                return False
            m = m.items[s]
        elif isinstance(m, MDict):
            if not isinstance(s, str):
                return False
            if s not in m.items:
                return 'unset'
            m = m.items[s]
        else:
            return False
    return True


def mfilter(m, T):
    """the sub-object selected by canonical selectors T"""
    if any(len(t) == 0 for t in T):
        return copy.deepcopy(m)
    if isinstance(m, MRec):
        out = {}
        for n, v in m.slots.items():
            sub = [t[1:] for t in T if t[0] == n]
            if sub:
                out[n] = mfilter(v, sub)
        for t in T:
            if not isinstance(t[0], str) or t[0] not in m.cls.properties:
                raise Skip()
        return MRec(m.cls, out)
    if isinstance(m, MList):
        if any(isinstance(t[0], str) for t in T):
            raise Bad()
        if any(t[0] is None for t in T):
            return MList(m.T, [mfilter(x, [t[1:] for t in T])
                               for x in m.items])
        out = []
        for i in sorted(set(t[0] for t in T)):
            if not -len(m.items) <= i < len(m.items):
                raise Bad()
            if i < 0:
                raise Skip()
            out.append(mfilter(m.items[i], [
                t[1:] for t in T if t[0] == i]))
        return MList(m.T, out)
    if isinstance(m, MDict):
        out = {}
        for k, v in m.items.items():
            sub = [t[1:] for t in T if t[0] is None or t[0] == k]
            if sub:
                out[k] = mfilter(v, sub)
        return MDict(m.T, out)
    raise Skip()


@scenario('C24', 1200, 25000)
def mfs_get(c):
    SRoot = nodes()[2]
    m = gen_node(c, SRoot)
    o = real(m)
    S = obj_paths(c, m, c.int(1, 4))
    c.note(S, srepr(abstract(m)))
    tag, mfs = c.outcome(lambda: MultiFieldSelector(*S))
    if tag == 'err':
        c.trivial = True
        return
    T = canon(S)
    try:
        want, bad = mfilter(m, T), False
    except Bad:
        bad = True
    except Skip:
        c.trivial = True
        return
    tag, got = c.outcome(lambda: mfs.get(o))
    if bad:
        c.check(tag == 'err', 'expected an error, got', srepr(got))
    else:
        c.check(tag == 'ok', 'get raised', srepr(got))
        c.check(abstract(got) == abstract(want), 'get: got', srepr(got),
                'want', srepr(abstract(want)))
        c.check(type(got) is type(o), 'type')
    c.check(abstract(o) == abstract(m), 'the object changed')
    if not bad:
        # changing the copy does not reach the original
        for n in SRoot.properties:
            v = getattr(got, n, None)
            if isinstance(v, Record) and not isinstance(
                    v, (ListCollection, DictCollection)):
                v.x = 'changed'
            elif isinstance(v, ListCollection):
                v[:] = []
            elif isinstance(v, list):
                v[:] = []
            elif isinstance(v, (dict, DictCollection)):
                v.clear()
        c.check(abstract(o) == abstract(m), 'the copy shares state')


@scenario('C24', 60, 600)
def long_lists(c):
    """positions are numbers: more than ten items"""
    n = c.int(9, 25)
    It = cached('LLI', lambda: type('LLI', (Record,), {
        'v': Property(isa=int), 'w': Property()}))
    Rc = cached('LLR', lambda: type('LLR', (Record,), {
        'items': ListProperty(of=It), 'l': Property(), 'o': Property()}))
    r = Rc(items=[It(v=i, w=str(i)) for i in range(n)], l=list(range(n)),
           o=1)
    pos = sorted({c.int(0, n - 1) for _ in range(c.int(1, 6))})
    order = list(pos)
    c.rng.shuffle(order) if hasattr(c, 'rng') else None
    c.note(n, order)
    g = MultiFieldSelector(*[['items', i, 'v'] for i in order]).get(r)
    c.eq([x.v for x in g.items], pos, 'items, in order')
    c.check(all(not hasattr(x, 'w') for x in g.items), 'other slots')
    c.check(not hasattr(g, 'o'), 'other slots')
    g = MultiFieldSelector(*[['l', i] for i in order]).get(r)
    c.eq(g.l, pos, 'plain items, in order')
    MultiFieldSelector(*[['items', i] for i in order]).delete(r)
    c.eq([x.v for x in r.items], [i for i in range(n) if i not in pos],
         'deleted')


@scenario('C24', 1000, 20000)
def mfs_delete(c):
    SRoot = nodes()[2]
    m = gen_node(c, SRoot)
    o = real(m)
    S = [p for p in obj_paths(c, m, c.int(1, 4)) if not any(
        isinstance(x, int) and x < 0 for x in p)]
    c.note(S, srepr(abstract(m)))
    if not S or c.outcome(lambda: MultiFieldSelector(*S))[0] == 'err':
        c.trivial = True
        return
    mfs = MultiFieldSelector(*S)
    raw = [list(x.selectors) for x in mfs]
    # does every selector resolve?
    missing = None
    try:
        for p in raw:
            try:
                mget(m, p)
            except FS:
                missing = p
    except (Bad, Skip):
        c.trivial = True
        return
    force = c.coin(0.4)
    if missing and not force:
        c.raises(exc.FieldSelectorException, lambda: mfs.delete(o),
                 'missing', missing)
        c.check(abstract(o) == abstract(m), 'refused but changed')
        return
    new = copy.deepcopy(m)
    try:
        want = mremove(new, [tuple(p) for p in raw])
    except Skip:
        c.trivial = True
        return
    tag, r = c.outcome(lambda: mfs.delete(o, force=force) if force
                       else mfs.delete(o))
    c.check(tag == 'ok', 'delete raised', srepr(r))
    c.check(abstract(o) == abstract(want), 'delete left', srepr(o), 'want',
            srepr(abstract(want)))


def mremove(m, T):
    """simultaneous removal of the places denoted by raw selectors"""
    if isinstance(m, MRec):
        for n in list(m.slots):
            sub = [t[1:] for t in T if t and t[0] == n]
            if any(len(t) == 0 for t in sub):
                del m.slots[n]
            elif sub:
                m.slots[n] = mremove(m.slots[n], sub)
        return m
    if isinstance(m, (MList, MDict)):
        if any(t == (None,) for t in T):
            m.items.clear()
            return m
        pairs = list(enumerate(m.items)) if isinstance(m, MList) else list(
            m.items.items())
        out = []
        for k, v in pairs:
            if isinstance(m, MDict) and any(t[0] is None for t in T if t):
                raise Skip()
            sub = [t[1:] for t in T if t and (t[0] is None or t[0] == k)]
            if any(len(t) == 0 for t in sub):
                continue
            out.append((k, mremove(v, sub) if sub else v))
        m.items = [v for k, v in out] if isinstance(m, MList) else dict(out)
        return m
    return m


@scenario('C24', 800, 15000)
def mfs_patch(c):
    """fields are lifted from the source, or removed when unset there"""
    SLeaf, SKid, SRoot = nodes()
    a, b = gen_node(c, SRoot), gen_node(c, SRoot)
    S = []
    for _ in range(c.int(1, 3)):
        k = c.int(0, 3)
        if k == 0:
            S.append([c.pick(['kid', 'leaf', 'kids', 'x', 'd', 'data'])])
        elif k == 1:
            S.append(['leaf', c.pick(['x', 'y', 'zs'])])
        elif k == 2:
            S.append(['kid', c.pick(['x', 'leaf', 'ls'])])
        else:
            S.append(['kid', 'leaf', c.pick(['x', 'y'])])
    T = canon(S)
    mfs = MultiFieldSelector(*S)
    o, s = real(a), real(b)
    c.note(S, srepr(abstract(a)), srepr(abstract(b)))
    new = copy.deepcopy(a)
    for t in T:
        try:
            v = mget(b, list(t))
        except FS:
            try:
                mget(new, list(t[:-1]))
            except FS:
                c.trivial = True        # nowhere to delete from
                return
            mdelete(new, list(t))
        else:
            mpost(new, list(t), copy.deepcopy(v))
    cp = c.pick([False, True, copy.deepcopy])
    tag, r = c.outcome(lambda: mfs.patch(o, s, copy=cp) if cp else
                       mfs.patch(o, s))
    if tag == 'err':
        # order of selectors: a delete before the parent was created
        c.check(isinstance(r, exc.FieldSelectorException), srepr(r))
        c.trivial = True
        return
    c.check(abstract(o) == abstract(new), 'patch left', srepr(o), 'want',
            srepr(abstract(new)))
    c.check(abstract(s) == abstract(b), 'the source changed')
    for t in T:
        v = FieldSelector(t).get_or_none(s)
        w = FieldSelector(t).get_or_none(o)
        if isinstance(v, (Record, list, dict)):
            if cp:
                c.check(w is not v, 'patch(copy) shares', t)
            else:
                c.check(w is v, 'patch copied', t)


@scenario('C24', 40, 300)
def patch_wildcard(c):
    SLeaf, SKid, SRoot = nodes()
    n = c.int(1, 3)
    vals = [c.int(0, 9) for _ in range(n)]
    src = SKid(ls=[SLeaf(x=v) for v in vals])
    dst = SKid(ls=[SLeaf(x='old') for v in vals])
    c.note(vals)
    MultiFieldSelector(['ls', None, 'x']).patch(dst, src)
    got = [r.x for r in dst.ls]
    if got == [vals] * n:
        raise Known('C24-patch-wildcard', 'patch through a wildcard stores '
                    'the list of all source values in every item')
    c.eq(got, vals, 'patched items')
