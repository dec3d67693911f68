"""C09..C12: record classes, equality, pickling, repr."""
import copy
import datetime
import pickle
import sys
import normalize
import normalize.exc as exc
from normalize import *          # noqa
from normalize import Record, Property
from core import scenario, srepr, Known
from gen import *                # noqa
from gen import MISSING

MOD = sys.modules[__name__]


# ------------------------------------------------------------------ C09
@scenario('C09', 500, 8000)
def composition(c):
    """random class hierarchies"""
    pool = 'abcde'
    classes = []        # (cls, {name: prop}, local)
    for k in range(c.int(1, 5)):
        nb = c.int(0, min(2, len(classes)))
        bases = c.sample(classes, nb)
        if any(issubclass(x[0], y[0]) and x is not y
               for x in bases for y in bases):
            bases = bases[:1]
        body = {}
        for n in c.sample(pool, c.int(0, 3)):
            kw = c.pick([{}, {'isa': int}, {'required': True}, {
                'default': 4}, {'extraneous': True}, {'json_name': 'J' + n},
                {'lazy': True, 'default': lambda: 1}, {'default': None},
                {'traits': ['ro']}])
            body[n] = Property(**kw)
        local = dict(body)
        inherited = {}
        clash = False
        for _, ps, _l in bases:
            for n, p in ps.items():
                if n in inherited:
                    clash = True
                inherited[n] = p
        want = dict(inherited)
        want.update(local)
        pk = None
        if want and c.coin(0.4):
            names = c.sample(sorted(want), c.int(1, len(want)))
            pk = [n if c.coin() else want[n] for n in names]
            body['primary_key'] = c.pick([list, tuple])(pk)
        body['other'] = 5
        nm = 'K%d' % k
        c.note(nm, [b[0].__name__ for b in bases], sorted(local),
               'pk' if pk else '', 'clash' if clash else '')
        tag, cls = c.outcome(lambda: type(
            nm, tuple(b[0] for b in bases) or (Record,), dict(body)))
        if clash:
            c.check(tag == 'err' and isinstance(
                cls, exc.MultipleInheritanceClash), 'clash', tag, srepr(cls))
            continue
        c.check(tag == 'ok', 'class refused', type(cls).__name__, srepr(cls))
        c.eq(set(cls.properties), set(want), 'properties')
        for n, p in want.items():
            c.check(cls.properties[n] is p, 'property', n)
            c.check(getattr(cls, n) is p, 'class attribute', n)
            c.eq(p.name, n, 'name')
            c.check(p.bound, 'bound')
        for n, p in local.items():
            c.eq(p.fullname, '%s.%s' % (nm, n), 'fullname')
        if pk:
            c.check([p.name for p in cls.primary_key] == names and all(
                p is want[n] for p, n in zip(cls.primary_key, names)),
                'primary key', srepr(cls.primary_key))
        c.eq(set(cls.eager_properties), set(
            n for n, p in want.items() if p.eager_init()), 'eager')
        c.eq(cls.other, 5, 'plain attribute')
        # earlier classes unaffected
        for oc, ops, _l in classes:
            c.eq(set(oc.properties), set(ops), 'earlier class changed')
            for n, p in ops.items():
                c.check(oc.properties[n] is p, 'earlier property changed', n)
        classes.append((cls, want, local))
        # instances have exactly those slots
        given = dict((n, 3) for n in want)
        r = cls(**given)
        c.eq(slots(r, sorted(want)), given, 'instance')
        bad = 'zz'
        c.raises(exc.PropertyNotKnown, lambda: cls(**dict(given, zz=1)),
                 'unknown')


@scenario('C09', 100, 1000)
def bad_classes(c):
    P = Property
    A = type('A', (Record,), {'x': P()})
    cases = [
        (lambda: type('B', (Record,), {'properties': 1}),
         exc.ReservedPropertyName),
        (lambda: type('B', (Record,), {'eager_properties': 1}),
         exc.ReservedPropertyName),
        (lambda: type('B', (Record,), {'properties': P()}),
         exc.ReservedPropertyName),
        (lambda: type('B', (A,), {'primary_key': [P()]}),
         exc.PropertiesNotKnown),
        (lambda: type('B', (A,), {'primary_key': [5]}),
         exc.PropertiesNotKnown),
        (lambda: type('B', (Record,), {'y': P(), 'primary_key': [A.x]}),
         exc.PropertiesNotKnown),
        (lambda: type('B', (A,), {'primary_key': ['nope']}), Exception),
        (lambda: type('B', (Record,), {'x': P(), 'primary_key': [A.x]}),
         exc.PropertiesNotKnown),
        (lambda: type('B', (A,), {'x': P(), 'primary_key': [A.x]}),
         exc.PropertiesNotKnown),
        (lambda: type('B', (A, type('C', (Record,), {'x': P()})), {}),
         exc.MultipleInheritanceClash),
    ]
    fn, e = cases[c.index % len(cases)]
    c.note(c.index % len(cases), e.__name__)
    c.raises(e, fn, 'class')


@scenario('C09', 100, 1000)
def shared_properties(c):
    """a property of one class used again in the body of another: the first
    class keeps it as it was"""
    kw = c.pick([{}, {'isa': int}, {'required': True}, {'default': 4}, {
        'json_name': 'J'}, {'extraneous': True}])
    A = type('A', (Record,), {'x': Property(**kw), 'w': Property()})
    nm = c.pick(['x', 'y', 'w', 'z1'])
    base = c.pick([Record, type('Base', (Record,), {'v': Property()})])
    before = (A.x.name, A.x.fullname, A.properties['x'], set(A.properties),
              set(A.eager_properties))
    c.note(nm, kw, base.__name__)
    tag, B = c.outcome(lambda: type('B', (base,), {nm: A.x}))
    c.eq((A.x.name, A.x.fullname, A.properties['x'], set(A.properties),
          set(A.eager_properties)), before, 'the first class changed', tag)
    r = A(x=3)
    c.eq(slots(r, ['x', 'w']), {'x': 3}, 'instance of the first class')
    if tag == 'ok':
        c.check(B.properties[nm] is A.x, 'the property')
        if nm == 'x':
            c.eq(slots(B(x=5), ['x']), {'x': 5}, 'instance of the second')
        if A.x.eager_init():
            c.check(nm in B.eager_properties, 'eager slots of the second')


# ------------------------------------------------------------------ C10
def eqclass(c):
    def mk():
        class Leaf(Record):
            a = Property()
            b = Property(isa=str)

        class Keyed(Record):
            id = Property(isa=int)
            t = Property()
            primary_key = [id]

        class E(Record):
            i = Property(isa=int)
            s = Property(default='')
            leaf = Property(isa=Leaf)
            k = Property(isa=Keyed)
            ls = ListProperty(of=int)
            lk = ListProperty(of=Keyed)
            u = Property(isa=(Leaf, Keyed, str))
            x = Property(extraneous=True)

        class ESub(E):
            pass

        class ESub2(E):
            more = Property()

        class PK(Record):
            id = Property(isa=int, required=True)
            n = Property()
            x = Property(extraneous=True)
            primary_key = [id]
        return Leaf, Keyed, E, ESub, ESub2, PK
    return cached('eqclasses', mk)


def gen_eq(c, cls, depth=0):
    Leaf, Keyed, E, ESub, ESub2, PK = eqclass(c)
    small = [0, 1, 2, '', 'p', None, 1.0, True, (1,), False]
    if cls is Leaf:
        return {k: v for k, v in (('a', c.pick(small)), ('b', c.pick(
            ['', 'p']))) if c.coin(0.7)}
    if cls is Keyed:
        return {k: v for k, v in (('id', c.int(0, 2)), ('t', c.pick(small)))
                if c.coin(0.8)}
    if cls is PK:
        kw = {'id': c.int(0, 1)}
        for k in 'nx':
            if c.coin(0.6):
                kw[k] = c.pick([0, 1, ''])
        return kw
    kw = {}
    if c.coin(0.6):
        kw['i'] = c.int(0, 1)
    if c.coin(0.4):
        kw['s'] = c.pick(['', 'p', 0, None])
    if c.coin(0.4):
        kw['leaf'] = ('rec', Leaf, gen_eq(c, Leaf))
    if c.coin(0.4):
        kw['k'] = ('rec', Keyed, gen_eq(c, Keyed))
    if c.coin(0.3):
        kw['ls'] = [c.int(0, 1) for _ in range(c.int(0, 2))]
    if c.coin(0.3):
        kw['lk'] = [('rec', Keyed, gen_eq(c, Keyed))
                    for _ in range(c.int(0, 2))]
    if c.coin(0.3):
        T = c.pick([Leaf, Keyed])
        kw['u'] = c.pick([('rec', T, gen_eq(c, T)), 'p'])
    if c.coin(0.3):
        kw['x'] = c.int(0, 3)
    if cls is ESub2 and c.coin(0.5):
        kw['more'] = c.int(0, 1)
    return kw


def real(x):
    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'rec':
        return x[1](**{k: real(v) for k, v in x[2].items()})
    if isinstance(x, list):
        return [real(v) for v in x]
    return x


def model_key(cls, kw):
    """(class, non-extraneous slots) – the value equality is about"""
    out = {}
    for n, p in cls.properties.items():
        if p.extraneous:
            continue
        if n in kw:
            out[n] = deep(kw[n])
        elif n == 's' and 'i' in cls.properties:
            out[n] = ''
    return cls, out


def deep(v):
    if isinstance(v, tuple) and len(v) == 3 and v[0] == 'rec':
        return ('rec',) + model_key(v[1], v[2])
    if isinstance(v, list):
        return [deep(x) for x in v]
    return v


@scenario('C10', 700, 15000)
def equality(c):
    classes = eqclass(c)
    cls = c.pick([classes[0], classes[1], classes[2], classes[2],
                  classes[3], classes[5], classes[4]])
    kws = [gen_eq(c, cls)]
    # near copies: mutate one slot
    for _ in range(2):
        kw = dict(kws[0])
        k = gen_eq(c, cls)
        if kw and c.coin():
            n = c.pick(sorted(kw))
            if n in k:
                kw[n] = k[n]
            elif n != 'id' or cls is not classes[5]:
                kw.pop(n)
        elif c.coin():
            kw = k
        kws.append(kw)
    cs = [cls, cls, c.pick([cls, cls, classes[3], classes[4]])
          if issubclass(cls, classes[2]) else cls]
    kws = [{n: v for n, v in kw.items() if n in k.properties}
           for k, kw in zip(cs, kws)]
    rs = [k(**{n: real(v) for n, v in kw.items()})
          for k, kw in zip(cs, kws)]
    c.note(str([k.__name__ for k in cs]), kws)
    keys = [model_key(k, kw) for k, kw in zip(cs, kws)]
    for i, a in enumerate(rs):
        for j, b in enumerate(rs):
            want = keys[i] == keys[j]
            got = a == b
            c.check(got is want or got == want, 'a == b is', got, 'for',
                    keys[i], keys[j])
            c.check((a != b) == (not want), '!= disagrees with ==')
            if want:
                c.check(hash(a) == hash(b), 'equal records, unequal hashes',
                        srepr(a), srepr(b))
                c.check(len({a, b}) == 1, 'set of equal records')
    for a in rs:
        for o in (None, 1, 'x', {}, object(), []):
            c.check(not (a == o) and a != o, 'equal to', srepr(o))


@scenario('C10', 150, 2000)
def hash_stable(c):
    """hash does not depend on how the record was built, only on its value"""
    Leaf, Keyed, E, ESub, ESub2, PK = eqclass(c)
    kw = gen_eq(c, E)
    a = E(**{n: real(v) for n, v in kw.items()})
    order = sorted(kw)
    c.rng.shuffle(order)
    b = E()
    for n in order:
        setattr(b, n, real(kw[n]))
    c.note(kw, order)
    c.check(a == b and hash(a) == hash(b), 'built differently')
    b.x = c.int(5, 9)
    c.check(a == b and hash(a) == hash(b), 'extraneous slot counts')
    d = copy.deepcopy(a)
    c.check(a == d and hash(a) == hash(d), 'copy')


@scenario('C10', 40, 400)
def hash_dicts(c):
    cls = cached('dc', lambda: type('DC', (Record,), {
        'd': DictProperty(of=int)}))
    keys = c.sample('abcd', c.int(1, 3))
    items = [(k, c.int(0, 2)) for k in keys]
    shuf = list(items)
    c.rng.shuffle(shuf)
    a, b = cls(d=dict(items)), cls(d=dict(shuf))
    c.note(items, shuf)
    c.check(a == b, 'equal')
    if hash(a) != hash(b):
        if items != shuf:
            raise Known('C10-dict-order', 'equal records with a dict '
                        'property hash differently when the dict was filled '
                        'in a different order')
        c.check(False, 'hash differs')


@scenario('C10', 200, 3000)
def coll_equality(c):
    from normalize.coll import list_of, dict_of
    T = c.pick([int, str, Inner])
    L, Dd = list_of(T), dict_of(T)
    S = cached('LSub%s' % T.__name__, lambda: type('LSub', (
        ListCollection,), {'itemtype': T}))

    def items():
        n = c.int(0, 3)
        return [Inner(n=c.int(0, 1)) if T is Inner else T(c.int(0, 1))
                for _ in range(n)]
    x, y = items(), items()
    c.note(T.__name__, x, y)
    c.eq(L(x) == L(y), x == y, 'list collections')
    c.eq(L(x) != L(y), x != y, 'list collections !=')
    c.eq(L(x) == y, x == y, 'collection == list')
    dx, dy = dict(zip('abc', x)), dict(zip('abc', y))
    c.eq(Dd(dx) == Dd(dy), dx == dy, 'dict collections')
    c.eq(Dd(dx) == dy, dx == dy, 'collection == dict')
    c.check(not (L(x) == Dd(dx)) or (not x and False), 'list == dict')
    c.check(not (L(x) == list_of(float)([])), 'other item type')
    c.check(L(x) == S(x), 'same item type and values')
    c.check(not (L(x) == 5) and L(x) != None, 'not a collection')  # noqa


# ------------------------------------------------------------------ C11/C12
def setup():
    def mk():
        from normalize.coll import list_of, dict_of

        class PLeaf(Record):
            n = Property(isa=int, required=True)
            s = Property(isa=str)
            r = Property(traits=['ro'])
            x = Property(extraneous=True)

        class PColl(ListCollection):
            itemtype = PLeaf
            total = Property(isa=int)

        class PDict(DictCollection):
            itemtype = PLeaf
            tag = Property()

        class PRec(Record):
            i = Property(isa=int)
            v = Property(default=None)
            dflt = Property(default=lambda: 7)
            leaf = Property(isa=PLeaf)
            ls = ListProperty(of=PLeaf)
            ints = ListProperty(of=int)
            d = DictProperty(of=PLeaf)
            pc = Property(isa=PColl)
            pd = Property(isa=PDict)
            lz = Property(lazy=True, isa=int, default=lambda self: LZ(self))
            rolz = Property(lazy=True, traits=['ro'],
                            default=lambda: [1])
            when = DateProperty()

        class PJson(JsonRecord):
            a = Property(isa=int, json_name='A')
            kids = JsonListProperty(of=PLeaf, json_name='Kids')
            m = JsonDictProperty(of=int)

        class PJItem(JsonRecord):
            q = Property(json_name='Q')

        class PJList(JsonRecordList):
            itemtype = PJItem
            page = Property(isa=int)

        from normalize.record.json import JsonRecordDict

        class PJDict(JsonRecordDict):
            itemtype = PJItem
            page = Property(isa=int)
        ns = dict(locals())
        for k, v in ns.items():
            if isinstance(v, type):
                v.__module__ = __name__
                v.__qualname__ = k
                setattr(MOD, k, v)
        MOD.IntList = list_of(int)
        MOD.LeafList = list_of(PLeaf)
        MOD.LeafMap = dict_of(PLeaf)
        return ns
    return cached('picklable', mk)


LZCALLS = []


def LZ(self):
    LZCALLS.append(1)
    return (self.i if hasattr(self, 'i') else 0) + 100


def gleaf(c):
    kw = {'n': c.int(-3, 3)}
    if c.coin():
        kw['s'] = c.pick(['', 'x', "it's", '(a', '[b', '{c', 'é"'])
    if c.coin(0.3):
        kw['r'] = c.pick([None, (1, 'a'), [1]])
    if c.coin(0.3):
        kw['x'] = c.int(0, 3)
    return MOD.PLeaf(**kw)


def gobject(c, jsonish=True):
    setup()
    kind = c.pick(['rec', 'rec', 'rec', 'leaf', 'ints', 'leaves', 'map',
                   'pcoll', 'pdict', 'json', 'jlist', 'jdict'])
    leaves = [gleaf(c) for _ in range(c.int(0, 3))]
    dleaves = dict(zip(['a', 'b c', 'C'], leaves))
    if kind == 'leaf':
        return gleaf(c)
    if kind == 'ints':
        return MOD.IntList([c.int(0, 9) for _ in range(c.int(0, 4))])
    if kind == 'leaves':
        return MOD.LeafList(leaves)
    if kind == 'map':
        return MOD.LeafMap(dleaves)
    if kind == 'pcoll':
        return MOD.PColl(leaves, **({'total': c.pick([3, 0])} if c.coin() else {}))
    if kind == 'pdict':
        return MOD.PDict(dleaves, **({'tag': c.pick(['(t[', ''])} if c.coin() else {}))
    if kind == 'json':
        kw = {}
        if c.coin():
            kw['a'] = c.int(0, 5)
        if c.coin():
            kw['kids'] = leaves
        if c.coin():
            kw['m'] = {'k': 1}
        r = MOD.PJson(**kw)
        if c.coin(0.4):
            r.unknown_json_keys = {'zz': [1, {'y': None}]}
        return r
    its = [MOD.PJItem(q=c.pick([1, 'x', None])) for _ in leaves]
    if kind == 'jlist':
        return MOD.PJList(values=its, **({'page': c.pick([2, 0])} if c.coin() else {}))
    if kind == 'jdict':
        return MOD.PJDict(values=dict(zip('abc', its)),
                          **({'page': c.pick([2, 0])} if c.coin() else {}))
    kw = {}
    opts = {'i': c.int(0, 5), 'v': c.pick([None, 0, 'x', [1], {}]),
            'dflt': c.pick([None, 8]), 'leaf': gleaf(c), 'ls': leaves,
            'ints': [c.int(0, 9) for _ in range(c.int(0, 3))], 'd': dleaves,
            'pc': MOD.PColl(leaves, total=1), 'pd': MOD.PDict(dleaves),
            'lz': c.int(0, 5), 'rolz': c.int(0, 2),
            'when': datetime.date(2012, 1, c.int(1, 28))}
    for k, v in opts.items():
        if c.coin(0.4):
            kw[k] = v
    r = MOD.PRec(**kw)
    if c.coin(0.3):
        r.lz
    if c.coin(0.3):
        r.rolz
    return r


def state(o):
    """observable state, without triggering lazy computation"""
    if isinstance(o, Record):
        st = {}
        for n, p in type(o).properties.items():
            if 'lazy' in p.traits:
                st[n] = state(o.__dict__[n]) if n in o.__dict__ else '<lazy>'
            else:
                try:
                    st[n] = state(getattr(o, n))
                except AttributeError:
                    pass
        out = [type(o), st]
        if isinstance(o, DictCollection):
            out.append(dict((k, state(v)) for k, v in o.items()))
        elif isinstance(o, ListCollection):
            out.append([state(x) for x in o])
        return out
    if isinstance(o, (list, tuple)):
        return [type(o)] + [state(x) for x in o]
    if isinstance(o, dict):
        return dict((k, state(v)) for k, v in o.items())
    return o


@scenario('C11', 500, 8000)
def pickling(c):
    o = gobject(c)
    how = c.pick([0, 1, 2, 3, 4, 5, 'copy', 'deepcopy'])
    before = state(o)
    c.note(how, o)
    n = len(LZCALLS)
    if how == 'copy':
        o2 = copy.copy(o)
    elif how == 'deepcopy':
        o2 = copy.deepcopy(o)
    else:
        o2 = pickle.loads(pickle.dumps(o, how))
    c.eq(len(LZCALLS), n, 'lazy slots computed by the round trip')
    c.check(type(o2) is type(o), 'type', type(o2).__name__)
    c.eq(state(o), before, 'the original changed')
    c.eq(state(o2), before, 'state')
    c.check(o2 == o and not (o2 != o), 'not equal to the original')
    if not isinstance(o, (ListCollection, DictCollection)) and not (
            isinstance(o, JsonRecord)):
        t1, h1 = c.outcome(lambda: hash(o))
        t2, h2 = c.outcome(lambda: hash(o2))
        c.eq(t1, t2, 'hashability')
        if t1 == 'ok':
            c.eq(h1, h2, 'hash')
    before = state(o)       # comparing may have computed lazy slots
    if how != 'copy':
        # the copy is still a working, independent, checked object
        if isinstance(o2, MOD.PLeaf):
            c.raises(exc.ReadOnlyAttributeError, lambda: setattr(
                o2, 'r', 1), 'ro')
            c.raises(exc.CoercionError, lambda: setattr(o2, 'n', 'x'), 'safe')
        if isinstance(o2, MOD.LeafList):
            o2.append(MOD.PLeaf(n=9))
        elif isinstance(o2, MOD.PRec):
            if hasattr(o2, 'ls'):
                o2.ls.append(MOD.PLeaf(n=9))
            if hasattr(o2, 'leaf'):
                o2.leaf.n = 99
            o2.dflt = 123
        elif isinstance(o2, MOD.PLeaf):
            o2.n = 77
        c.eq(state(o), before, 'the copy shares state with the original')


@scenario('C11', 150, 1500)
def pickle_misc(c):
    setup()
    sel = [c.pick(['a', 'b', 0, 2, -1, None, "q'x"])
           for _ in range(c.int(0, 4))]
    fs = FieldSelector(sel)
    how = c.pick([0, 1, 2, 3, 4, 5, 'c', 'd'])
    f = {'c': copy.copy, 'd': copy.deepcopy}.get(how) or (
        lambda o: pickle.loads(pickle.dumps(o, how)))
    c.note(how, sel)
    g = f(fs)
    c.check(type(g) is FieldSelector and g.selectors == sel and g == fs,
            'field selector', srepr(g))
    a = gleaf(c)
    b = gleaf(c)
    d = a.diff(b)
    d2 = f(d)
    c.check(type(d2) is type(d) and len(d2) == len(d), 'diff')
    for x, y in zip(d, d2):
        c.check(x == y and x.diff_type == y.diff_type, 'diff item')
    c.eq((d2.base_type_name, d2.other_type_name), (
        d.base_type_name, d.other_type_name), 'diff names')


@scenario('C12', 500, 8000)
def repr_eval(c):
    o = gobject(c)
    text = repr(o)
    c.note(text)
    ns = dict((k, getattr(MOD, k)) for k in dir(MOD) if isinstance(
        getattr(MOD, k), type))
    ns['datetime'] = datetime
    for t in (MOD.IntList, MOD.LeafList, MOD.LeafMap):
        ns[t.__name__] = t
    if isinstance(o, MOD.PJson):
        for p in MOD.PJson.properties.values():
            if isinstance(p.valuetype, type):
                ns[p.valuetype.__name__] = p.valuetype
    tag, o2 = c.outcome(lambda: eval(text, ns))
    c.check(tag == 'ok', 'repr does not evaluate:', text, srepr(o2))
    c.check(type(o2) is type(o), 'type', type(o2).__name__, text)
    s1, s2 = state(o), state(o2)
    c.eq(s2, s1, 'state of', text)
    c.check(o2 == o, 'not equal', text)


@scenario('C12', 200, 2000)
def repr_selectors(c):
    sel = [c.pick(['a', 'b', 'a b', "it's", '', 0, 2, -1, None, '\\', '\n'])
           for _ in range(c.int(0, 4))]
    ns = {'FieldSelector': FieldSelector,
          'MultiFieldSelector': MultiFieldSelector}
    fs = FieldSelector(sel)
    c.note(repr(fs))
    c.check(eval(repr(fs), ns) == fs, 'field selector')
    sels = [[c.pick(['a', 'b', "x'y"])] + [c.pick(['a', 'c'])
                                          for _ in range(c.int(0, 2))]
            for _ in range(c.int(1, 4))]
    m = MultiFieldSelector(*sels)
    m2 = eval(repr(m), ns)
    c.eq(sorted(x.selectors for x in m2), sorted(x.selectors for x in m),
         'multi field selector', repr(m))


@scenario('C12', 200, 2000)
def str_forms(c):
    """str() never fails and shows the identity"""
    Leaf, Keyed, E, ESub, ESub2, PK = eqclass(c)
    o = c.pick([Keyed, Leaf, PK])
    kw = gen_eq(c, o)
    r = o(**kw)
    s = str(r)
    c.note(o.__name__, kw, s)
    c.check(s.startswith('<%s ' % o.__name__) and s.endswith('>'), s)
    if o is PK:
        c.eq(s, '<PK %r>' % kw['id'], 'str shows the primary key')
    setup()
    leaves = [gleaf(c) for _ in range(c.int(0, 3))]
    s = str(MOD.LeafList(leaves))
    c.eq(s, '<%s: %d item(s)>' % (MOD.LeafList.__name__, len(leaves)),
         'str of a list')
