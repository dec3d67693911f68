"""C29, C30: visiting and casting against an independent tree walk."""
import copy
import json
import normalize.exc as exc
from normalize import *          # noqa
from normalize import Record, Property
from normalize.coll import ListCollection, DictCollection, list_of, dict_of
from normalize.visitor import VisitorPattern
from normalize.selector import MultiFieldSelector
from core import scenario, srepr, Known
from gen import cached, MISSING


def classes():
    def mk():
        class VLeaf(Record):
            a = Property(isa=int)
            b = Property(isa=str)
            e = Property(isa=int, extraneous=True)

        class VKid(Record):
            n = Property(isa=int)
            v = Property()
            leaf = Property(isa=VLeaf)
            leaves = ListProperty(of=VLeaf)
            tags = DictProperty(of=str)

        class VNamed(ListCollection):
            itemtype = VLeaf
            name = Property(isa=str)
            hid = Property(isa=int, extraneous=True)

        class VNamedD(DictCollection):
            itemtype = VKid
            name = Property(isa=str)

        class VRoot(Record):
            i = Property(isa=int)
            s = Property(isa=str)
            x = Property()
            lz = LazyProperty(isa=int, default=lambda: 17)
            ro = ROProperty(isa=str)
            kid = Property(isa=VKid)
            kids = ListProperty(of=VKid)
            dk = DictProperty(of=VLeaf)
            ints = ListProperty(of=int)
            named = Property(isa=VNamed)
            nd = Property(isa=VNamedD)
            un = Property(isa=(VLeaf, str))
            ex = Property(isa=VLeaf, extraneous=True)
        return VLeaf, VKid, VNamed, VNamedD, VRoot
    return cached('visclasses', mk)


COLL, DCOLL = 'coll', 'dcoll'


def gen(c, cls):
    VLeaf, VKid, VNamed, VNamedD, VRoot = classes()
    kw = {}
    for n, p in cls.properties.items():
        if c.coin(0.55):
            kw[n] = slot(c, cls, n)
    return ('rec', cls, kw)


def slot(c, cls, n):
    VLeaf, VKid, VNamed, VNamedD, VRoot = classes()
    if n in ('a', 'e', 'i', 'n', 'lz', 'hid'):
        return c.int(0, 5)
    if n in ('b', 's', 'ro', 'name'):
        return c.pick(['', 'x', 'foo'])
    if n in ('v', 'x'):
        return c.pick([None, 0, '', 'v', 2.5, False, [1, None], {'k': ''}])
    if n in ('leaf', 'ex'):
        return gen(c, VLeaf)
    if n == 'un':
        return gen(c, VLeaf) if c.coin() else c.pick(['', 'u'])
    if n == 'kid':
        return gen(c, VKid)
    if n == 'leaves':
        return ('list', [gen(c, VLeaf) for _ in range(c.int(0, 3))])
    if n == 'kids':
        return ('list', [gen(c, VKid) for _ in range(c.int(0, 2))])
    if n == 'ints':
        return ('list', [c.int(0, 4) for _ in range(c.int(0, 4))])
    if n == 'dk':
        return ('dict', dict((k, gen(c, VLeaf)) for k in c.sample(
            'abc', c.int(0, 3))))
    if n == 'tags':
        return ('dict', dict((k, c.pick(['', 't'])) for k in c.sample(
            'abc', c.int(0, 3))))
    if n == 'named':
        return ('coll', VNamed, [gen(c, VLeaf) for _ in range(c.int(0, 3))],
                dict((k, slot(c, VNamed, k)) for k in ('name', 'hid')
                     if c.coin()))
    if n == 'nd':
        return ('coll', VNamedD, dict((k, gen(c, VKid)) for k in c.sample(
            'abc', c.int(0, 2))), {'name': 'q'} if c.coin() else {})
    raise KeyError(n)


def real(m):
    if isinstance(m, tuple):
        if m[0] == 'rec':
            return m[1](**dict((k, real(v)) for k, v in m[2].items()))
        if m[0] == 'list':
            return [real(x) for x in m[1]]
        if m[0] == 'dict':
            return dict((k, real(x)) for k, x in m[1].items())
        if m[0] == 'coll':
            it = [real(x) for x in m[2]] if isinstance(m[2], list) else dict(
                (k, real(x)) for k, x in m[2].items())
            return m[1](it, **m[3])
    return copy.deepcopy(m)


def look(r):
    """everything a record holds, by type"""
    if isinstance(r, (ListCollection, DictCollection)):
        items = [look(x) for x in r] if isinstance(r, ListCollection) else \
            dict((k, look(v)) for k, v in r.items())
        return (type(r).__name__, items, slots(r))
    if isinstance(r, Record):
        return (type(r).__name__, slots(r))
    if isinstance(r, list):
        return [look(x) for x in r]
    if isinstance(r, dict):
        return dict((k, look(v)) for k, v in r.items())
    return (type(r).__name__, r)


def slots(r):
    d = {}
    for n in type(r).properties:
        try:
            d[n] = look(getattr(r, n))
        except AttributeError:
            pass
    return d


class W(object):
    def __init__(self, **kw):
        self.extraneous = kw.get('extraneous', False)
        self.none = kw.get('ignore_none', True)
        self.estr = kw.get('ignore_empty_string', False)
        self.slots = kw.get('apply_empty_slots', False)
        self.filter = kw.get('filter')
        self.f = kw['f']
        self.log = []

    def hidden(self, path, p):
        if p.extraneous and not self.extraneous:
            return True
        if not self.filter:
            return False
        for F in self.filter:
            if all(f is None or f == x for f, x in zip(F, path)):
                return False
        return True

    def keep(self, v):
        if v is None and self.none:
            return False
        return not (isinstance(v, str) and v == '' and self.estr)

    def leaf(self, v, path, pname):
        self.log.append((path, pname, 'EMPTY' if v is MISSING else srepr(v)))
        return None if v is MISSING else self.f(v)

    def rec(self, cls, kw, path):
        out = {}
        for n, p in cls.properties.items():
            here = path + (n,)
            if self.hidden(here, p):
                continue
            v = kw.get(n, MISSING)
            if v is MISSING and n == 'lz':
                v = 17
            if v is MISSING and not self.slots:
                continue
            r = self.val(v, here, n)
            if self.keep(r):
                out[n] = r
        return out

    def val(self, v, path, pname):
        if not isinstance(v, tuple):
            return self.leaf(v, path, pname)
        if v[0] == 'rec':
            return self.rec(v[1], v[2], path)
        items = self.items(v[2] if v[0] == 'coll' else v[1], path)
        if v[0] != 'coll' or all(self.hidden(path + (n,), p) for n, p in
                                 v[1].properties.items()):
            return items
        out = self.rec(v[1], v[3], path)
        out['values'] = items
        return out

    def items(self, xs, path):
        if isinstance(xs, dict):
            got = [(k, self.val(x, path + (k,), None)) for k, x in xs.items()]
            return dict((k, x) for k, x in got if self.keep(x))
        got = [self.val(x, path + (k,), None) for k, x in enumerate(xs)]
        return [x for x in got if self.keep(x)]


def opts(c):
    kw = {}
    for n in ('extraneous', 'ignore_none', 'ignore_empty_string',
              'apply_empty_slots'):
        if c.coin(0.35):
            kw[n] = c.coin(0.7) if n != 'ignore_none' else False
    return kw


FILTERS = [['i'], ['s'], ['x'], ['kid'], ['kid', 'n'], ['kid', 'leaf', 'a'],
           ['kids', None, 'n'], ['kids', None], ['kids', None, 'leaf', 'b'],
           ['dk', 'a', 'a'], ['dk', 'b'], ['ints'], ['named'],
           ['named', 'name'], ['nd', None, 'leaf'], ['un'], ['un', 'a'],
           ['kid', 'leaves', None, 'a'], ['kid', 'tags'], ['ex'],
           ['ex', 'a'], ['lz'], ['ro']]


def pattern(log, f, hooks=None):
    class P(VisitorPattern):
        @classmethod
        def apply(cls, value, prop, visitor):
            log.append((tuple(visitor.field_selector.selectors),
                        prop and prop.name,
                        'EMPTY' if isinstance(value, AttributeError)
                        else srepr(value)))
            if isinstance(value, AttributeError):
                return None
            return f(value)
    return P


@scenario('C29', 900, 18000)
def visits(c):
    VLeaf, VKid, VNamed, VNamedD, VRoot = classes()
    m = gen(c, VRoot)
    kw = opts(c)
    if c.coin(0.4):
        F = c.sample(FILTERS, c.int(1, 5))
        kw[c.pick(['filter', 'visit_filter'])] = F
        if c.coin():
            for k in ('filter', 'visit_filter'):
                if k in kw:
                    kw[k] = MultiFieldSelector(*F)
    else:
        F = None
    drop = c.pick([None, 0, 'x', 1])

    def f(v):
        if drop is not None and type(v) is type(drop) and v == drop:
            return c0
        return ('seen', v) if isinstance(v, int) and not isinstance(
            v, bool) else v
    c0 = c.pick([None, ''])
    if kw.get('apply_empty_slots') and isinstance(m[2].get('un'), str):
        m[2].pop('un')      # known finding, see union_with_empty_slots
    w = W(f=f, filter=F, **dict((k, v) for k, v in kw.items()
                                if 'filter' not in k))
    r = real(m)
    c.note(kw and dict(kw, F=F), repr(drop), repr(c0), srepr(r))
    before = srepr(look(r)) if c.coin(0.3) else None
    log = []
    tag, got = c.outcome(lambda: pattern(log, f).visit(r, **kw))
    c.check(tag == 'ok', 'visit raised', type(got).__name__, srepr(got))
    want = w.rec(VRoot, m[2], ())
    c.eq(sorted(log, key=repr), sorted(w.log, key=repr),
         'values handed to apply')
    c.eq(got, want, 'result')
    if before is not None:
        c.eq(srepr(look(r)), before, 'the record changed')


@scenario('C29', 60, 600)
def union_members(c):
    """a value of a union is visited as the member it is an instance of, also
    when its class is derived from that member"""
    def mk():
        class UA(Record):
            a = Property()

        class UB(Record):
            b = Property()
            a = Property()

        class SubA(UA):
            extra = Property()

        class SubB(UB):
            extra = Property()

        class UR(Record):
            u = Property(isa=(UA, UB, str))
            w = Property(isa=(str, UB, UA))
        return UA, UB, SubA, SubB, UR
    UA, UB, SubA, SubB, UR = cached('unionmembers', mk)
    kw, want = {}, {}
    for n in 'uw':
        k = c.int(0, 5)
        if k == 0:
            kw[n] = want[n] = 'text'
            continue
        if k == 5:
            continue
        cls = (UA, UB, SubA, SubB)[k - 1]
        at = {'a': 1}
        if k in (2, 4):
            at['b'] = 2
        if k > 2:
            kw[n] = cls(extra=3, **at)
        else:
            kw[n] = cls(**at)
        want[n] = at
    c.note(srepr(kw))
    got = VisitorPattern.visit(UR(**kw))
    c.eq(got, want or None, 'visit') if want else c.check(
        not got, 'visit', got)


@scenario('C29', 20, 100)
def union_with_empty_slots(c):
    VLeaf, VKid, VNamed, VNamedD, VRoot = classes()
    r = VRoot(un='u')
    w = W(f=lambda v: v, apply_empty_slots=True)
    log = []
    c.note('un')
    pattern(log, lambda v: v).visit(r, apply_empty_slots=True)
    w.rec(VRoot, {'un': 'u'}, ())
    extra = [x for x in log if x not in w.log]
    c.eq([x for x in w.log if x not in log], [], 'not handed to apply')
    if extra:
        c.eq(set(x[0] for x in extra), {('un', 'a'), ('un', 'b')},
             'values handed to apply')
        raise Known('C29-union-empty-slots', 'with apply_empty_slots, the '
                    'properties of a record type of a type union are visited '
                    'on a value that is not that record')


@scenario('C29', 250, 4000)
def collections_at_top(c):
    """a collection can be visited itself; its items carry their keys"""
    VLeaf, VKid, VNamed, VNamedD, VRoot = classes()
    m = slot(c, VRoot, c.pick(['named', 'nd', 'kids', 'dk', 'ints']))
    if m[0] == 'coll':
        r, val = real(m), m
    elif m[0] == 'list':
        T = list_of(VKid) if m[1] and isinstance(m[1][0], tuple) else \
            list_of(int) if m[1] else list_of(VKid)
        r, val = T(real(m)), m
    else:
        r, val = dict_of(VLeaf)(real(m)), m
    kw = opts(c)
    c.note(kw, srepr(look(r)))
    w = W(f=lambda v: v, **kw)
    log = []
    tag, got = c.outcome(lambda: pattern(log, lambda v: v).visit(r, **kw))
    c.check(tag == 'ok', 'visit raised', type(got).__name__, srepr(got))
    c.eq(got, w.val(val, (), None), 'result')
    c.eq(sorted(log, key=repr), sorted(w.log, key=repr),
         'values handed to apply')


@scenario('C29', 200, 3000)
def visit_errors(c):
    VLeaf, VKid, VNamed, VNamedD, VRoot = classes()
    c.raises(TypeError, lambda: VisitorPattern.visit(c.pick(
        [3, 'x', [VLeaf()], None])), 'visit of a non record')
    # a slot that cannot be computed

    def mk():
        class Boom(Record):
            n = Property(isa=int)
            bad = LazyProperty(default=lambda: 1 // 0)
        return Boom, type('Top', (Record,), {
            'b': Property(isa=Boom), 'ls': ListProperty(of=Boom)})
    Boom, Top = cached('visboom', mk)
    k = c.int(0, 2)
    t = Top(ls=[Boom(n=1), Boom(n=2, bad=3)][:k] + [Boom(n=3)]) if c.coin() \
        else Top(b=Boom(n=1))
    ok = Top(ls=[Boom(bad=1)])
    c.note(k)
    e = c.raises(exc.VisitorPropError, lambda: VisitorPattern.visit(t),
                 'slot that raises')
    want = ('b', 'bad') if hasattr(t, 'b') else (
        'ls', 0, 'bad')
    c.eq(e.prop_name, 'bad', 'prop_name')
    str(e)
    c.eq(tuple(e.fs.selectors), want[:len(e.fs.selectors)], 'path')
    c.eq(VisitorPattern.visit(ok), {'ls': [{'bad': 1}]}, 'afterwards')
    e = c.raises(exc.VisitorUnpackError, lambda: VisitorPattern.visit(
        c.pick([5, 'x', None]), value_type=dict_of(VLeaf)), 'not a dict')
    str(e)
    # stopping
    stop = VisitorPattern.StopVisiting
    how = c.int(0, 2)

    class S(VisitorPattern):
        @classmethod
        def unpack(cls, value, value_type, visitor):
            if value_type is VLeaf and how < 2:
                return stop if how == 0 else stop('leaf!')
            return super(S, cls).unpack(value, value_type, visitor)
    r = VKid(n=1, leaf=VLeaf(a=1), leaves=[VLeaf(b='x')])
    c.eq(S.visit(r), [{'n': 1, 'leaves': []}, {
        'n': 1, 'leaf': 'leaf!', 'leaves': ['leaf!']}, {
        'n': 1, 'leaf': {'a': 1}, 'leaves': [{'b': 'x'}]}][how],
        'StopVisiting', how)


@scenario('C29', 120, 1500)
def reflects(c):
    VLeaf, VKid, VNamed, VNamedD, VRoot = classes()

    def info(T):
        out = {'name': T.__name__}
        props = {}
        for n, p in T.properties.items():
            if p.extraneous and not ext:
                continue
            vt = p.valuetype
            if isinstance(vt, tuple):
                continue
            if vt and issubclass(vt, Record):
                props[n] = info(vt)
            else:
                props[n] = {'name': n}
                if vt:
                    props[n]['type'] = vt.__name__
        if props:
            out['properties'] = props
        if issubclass(T, (ListCollection, DictCollection)):
            it = T.itemtype
            out['itemtype'] = info(it) if issubclass(it, Record) else {
                'name': it.__name__}
        return out
    ext = c.coin()
    T = c.pick([VLeaf, VKid, VNamed, VNamedD, VRoot, list_of(VLeaf),
                list_of(int)])
    c.note(T.__name__, ext)
    got = VisitorPattern.reflect(T, extraneous=ext)
    if T is VRoot:
        got['properties'].pop('un')
    c.eq(got, info(T), 'reflect')


# ------------------------------------------------------------------ C30
def has_none(m):
    if isinstance(m, tuple):
        vals = list(m[2].values()) if m[0] == 'rec' else (
            list(m[1].values()) if isinstance(m[1], dict) else m[1]
        ) if m[0] != 'coll' else (
            list(m[2].values()) if isinstance(m[2], dict) else m[2]
        ) + list(m[3].values())
        return any(has_none(x) for x in vals)
    return m is None


@scenario('C30', 900, 18000)
def round_trip(c):
    VLeaf, VKid, VNamed, VNamedD, VRoot = classes()
    T = c.pick([VRoot, VRoot, VKid, VNamed, VNamedD])
    if T is VNamed:
        m = slot(c, VRoot, 'named')
    elif T is VNamedD:
        m = slot(c, VRoot, 'nd')
    else:
        m = gen(c, T)
    kw = {'extraneous': True}
    if has_none(m) or c.coin(0.3):
        kw['ignore_none'] = False
    enc = c.pick([0, 1, 2])

    class P(VisitorPattern):
        @classmethod
        def apply(cls, value, prop, visitor):
            if enc == 1 and type(value) is int:
                return 'int:%d' % value
            if enc == 2 and prop is not None and type(value) is str:
                return (prop.name, value)
            return value

        @classmethod
        def reverse(cls, value, prop, visitor):
            if isinstance(value, (AttributeError, KeyError)):
                return None
            if enc == 1 and isinstance(value, str) and value[:4] == 'int:':
                return int(value[4:])
            if enc == 2 and prop is not None and isinstance(value, tuple):
                c.eq(value[0], prop.name, 'reverse called with')
                return value[1]
            return value
    r = real(m)
    c.note(kw, enc, srepr(look(r)))
    tag, d = c.outcome(lambda: P.visit(r, **kw))
    c.check(tag == 'ok', 'visit raised', srepr(d))
    if c.coin() and enc != 2:
        d = json.loads(json.dumps(d))
    d0 = copy.deepcopy(d)
    tag, back = c.outcome(lambda: P.cast(T, d, **kw))
    c.check(tag == 'ok', 'cast raised', type(back).__name__, srepr(back))
    c.eq(look(back), look(r), 'cast(visit(x))')
    c.check(back == r, 'cast(visit(x)) != x')
    c.eq(d, d0, 'cast changed its input')
    if not kw.get('ignore_none', True) is False:
        c.eq(VisitorPattern.cast(T, VisitorPattern.visit(r)) is not None,
             True, 'default options')


@scenario('C30', 250, 4000)
def cast_garbage(c):
    """input that is not of the right shape is refused, naming where"""
    VLeaf, VKid, VNamed, VNamedD, VRoot = classes()
    bad = c.pick(['green cheese', 5, [], (), [1], 2.5])
    spots = [
        ((), lambda b: b, exc.VisitorGrokRecordError),
        (('kid',), lambda b: {'kid': b}, exc.VisitorGrokRecordError),
        (('kid', 'leaf'), lambda b: {'kid': {'leaf': b}},
         exc.VisitorGrokRecordError),
        (('kids', 1), lambda b: {'kids': [{}, b]},
         exc.VisitorGrokRecordError),
        (('dk', 'k'), lambda b: {'dk': {'k': b}}, exc.VisitorGrokRecordError),
        (('named',), lambda b: {'named': b}, exc.VisitorGrokRecordError),
        (('nd', 'z', 'leaf'), lambda b: {
            'nd': {'values': {'z': {'leaf': b}}}},
         exc.VisitorGrokRecordError),
        (('kids',), lambda b: {'kids': 7}, exc.VisitorGrokCollectionError),
        (('kid', 'leaves'), lambda b: {'kid': {'leaves': None, 'n': 1}},
         exc.VisitorGrokCollectionError),
    ]
    path, mk, E = c.pick(spots)
    c.note(path, srepr(bad))
    e = c.raises(E, lambda: VisitorPattern.cast(VRoot, mk(bad)), 'cast')
    c.eq(tuple(e.field_selector.selectors), path, 'path of the error')
    c.check(str(e), 'message')
    # wrong types inside are refused by the type itself
    c.raises(exc.CoercionError, lambda: VisitorPattern.cast(
        VRoot, c.pick([{'i': 'x'}, {'kid': {'n': 'q'}},
                       {'kids': [{'leaf': {'a': []}}]}])), 'bad slot')
    # items are coerced
    n = c.int(0, 9)
    got = VisitorPattern.cast(VRoot, {'ints': [str(n), n], 'kids': [
        {'n': str(n)}], 'unknown': 1})
    c.eq(look(got), look(VRoot(ints=[n, n], kids=[VKid(n=n)])), 'coerced')
    # unions
    got = VisitorPattern.cast(VRoot, {'un': c.pick([{'a': n}])})
    c.eq(look(got), look(VRoot(un=VLeaf(a=n))), 'union, record')
