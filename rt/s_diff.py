"""C25..C28: comparison against an independent slot-by-slot oracle."""
import copy
import re
import unicodedata
import normalize.exc as exc
from normalize import *          # noqa
from normalize import Record, Property, FieldSelector, MultiFieldSelector
from normalize.coll import ListCollection, DictCollection
from normalize.diff import DiffTypes, DiffOptions, diff_iter
from core import scenario, srepr, Known
from gen import cached, MISSING


def classes():
    def mk():
        class DLeaf(Record):
            a = Property()
            b = Property(isa=str)

        class DLeaf2(DLeaf):
            c2 = Property()

        class DKeyed(Record):
            id = Property(isa=int)
            t = Property()
            u = Property(isa=str)
            sub = Property(isa=DLeaf)
            xx = Property(extraneous=True)
            nums = Property()
            primary_key = [id]

        class DRec(Record):
            i = Property(isa=int)
            s = Property(isa=str)
            v = Property()
            leaf = Property(isa=DLeaf)
            un = Property(isa=(DLeaf, DKeyed, str))
            keyed = ListProperty(of=DKeyed)
            dk = DictProperty(of=DKeyed)
            ints = ListProperty(of=int)
            strs = ListProperty(of=str)
            di = DictProperty(of=int)
            x = Property(extraneous=True)

        class DColl(ListCollection):
            itemtype = DKeyed
            total = Property(isa=int)

        class DTop(Record):
            r = Property(isa=DRec)
            c = Property(isa=DColl)
            n = Property(isa=int)
        return DLeaf, DLeaf2, DKeyed, DRec, DColl, DTop
    return cached('diffclasses', mk)


STR = ['', ' ', 'foo', 'Foo', 'foo ', ' foo  bar', 'foo bar', 'FOO bar',
       'e\u0301', '\xe9', 'x', '\u0390', '\u03aa\u0301', '\u1fb7',
       '\u0391\u0342\u0399', 'stra\xdfe', 'STRASSE', '\ufb01', 'fi', 'FI', '\u212b',
       '\xe5', 'a\u030a', ' \u2003foo', 'foo\x1cbar']
PLAIN = [[], [1, 2], [2, 1], [1, 1], [[1], [2]], ['[1]'], [[1]], (1, 2),
         {'k': 1}, {'k': 1, 'j': 2}, {'j': 2, 'k': 1}, [{'a': 1, 'b': 2}],
         [{'b': 2, 'a': 1}], [([1],)], {'k': [1]}, ['x', None]]


def g_leaf(c):
    kw = {}
    if c.coin(0.7):
        kw['a'] = c.pick([0, 1, None, '', 'foo', 'Foo ', 1.0, True] + (
            PLAIN if c.coin(0.3) else []))
    if c.coin(0.6):
        kw['b'] = c.pick(STR)
    return ('rec', classes()[0], kw)


def g_keyed(c, ident):
    kw = {'id': ident}
    if c.coin(0.6):
        kw['t'] = c.pick([0, 1, None, 'foo', 'foo '])
    if c.coin(0.5):
        kw['u'] = c.pick(STR)
    if c.coin(0.4):
        kw['sub'] = g_leaf(c)
    if c.coin(0.3):
        kw['xx'] = c.int(0, 2)
    if c.coin(0.3):
        kw['nums'] = copy.deepcopy(c.pick(PLAIN))
    return ('rec', classes()[2], kw)


def g_slot(c, n):
    DLeaf, DLeaf2, DKeyed, DRec, DColl, DTop = classes()
    if n in ('i', 'x', 'n'):
        return c.int(0, 2)
    if n == 's':
        return c.pick(STR)
    if n == 'v':
        return copy.deepcopy(c.pick([0, 1, None, '', 'foo', 'foo '] + PLAIN))
    if n == 'leaf':
        return g_leaf(c)
    if n == 'un':
        return c.pick([g_leaf(c), g_keyed(c, 1), 'foo', 'FOO'])
    if n == 'keyed':
        return ('list', [g_keyed(c, k) for k in c.sample(
            [1, 2, 3, 4], c.int(0, 3))])
    if n == 'dk':
        return ('dict', dict(zip(c.sample('abcd', 3), [
            g_keyed(c, k) for k in c.sample([1, 2, 3, 4], c.int(0, 3))])))
    if n == 'ints':
        return ('ilist', [c.int(0, 3) for _ in range(c.int(0, 4))])
    if n == 'strs':
        return ('ilist', [c.pick(STR) for _ in range(c.int(0, 3))])
    if n == 'di':
        return ('idict', dict((k, c.int(0, 2)) for k in c.sample(
            'abcd', c.int(0, 3))))
    if n == 'r':
        return g_rec(c)
    if n == 'c':
        kw = {'total': c.int(0, 2)} if c.coin() else {}
        return ('coll', DColl, [g_keyed(c, k) for k in c.sample(
            [1, 2, 3, 4], c.int(0, 3))], kw)


def g_rec(c):
    DRec = classes()[3]
    return ('rec', DRec, dict((n, g_slot(c, n)) for n in DRec.properties
                              if c.coin(0.6)))


def g_top(c):
    DTop = classes()[5]
    return ('rec', DTop, dict((n, g_slot(c, n)) for n in DTop.properties
                              if c.coin(0.8)))


def perturb(c, m):
    """a near copy"""
    m = copy.deepcopy(m)
    for _ in range(c.int(0, 3)):
        spot(c, m)
    return m


def spot(c, m):
    kind = m[0]
    if kind == 'rec':
        cls, kw = m[1], m[2]
        if kw and c.coin(0.6):
            n = c.pick(sorted(kw))
            v = kw[n]
            if isinstance(v, tuple) and v and v[0] in (
                    'rec', 'list', 'dict', 'ilist', 'idict', 'coll') and (
                        c.coin(0.8)):
                return spot(c, v)
            if n == 'id':
                return
            if cls in (classes()[3], classes()[5]):
                kw[n] = g_slot(c, n)
            else:
                kw.pop(n)
        else:
            if cls in (classes()[3], classes()[5]):
                n = c.pick(sorted(cls.properties))
                kw[n] = g_slot(c, n)
            elif cls is classes()[0]:
                kw.update(g_leaf(c)[2])
            else:
                kw.update(dict((k, v) for k, v in g_keyed(
                    c, kw['id'])[2].items()))
    elif kind in ('list', 'coll'):
        items = m[1] if kind == 'list' else m[2]
        r = c.int(0, 3)
        if kind == 'coll' and r == 3:
            m[3]['total'] = c.int(0, 2)
        elif items and r == 0:
            items.pop(c.int(0, len(items) - 1))
        elif items and r == 1:
            spot(c, c.pick(items))
        elif r == 2:
            used = set(x[2]['id'] for x in items)
            free = [k for k in (1, 2, 3, 4, 5) if k not in used]
            items.insert(c.int(0, len(items)), g_keyed(c, c.pick(free)))
        else:
            c.rng.shuffle(items)
    elif kind == 'dict':
        if m[1]:
            k = c.pick(sorted(m[1]))
            if c.coin():
                spot(c, m[1][k])
            else:
                v = m[1].pop(k)
                if c.coin():
                    m[1]['q'] = v
    elif kind == 'ilist':
        if m[1]:
            k = c.int(0, len(m[1]) - 1)
            if c.coin():
                m[1][k] = c.pick(m[1])
            else:
                m[1].pop(k)
    elif kind == 'idict':
        if m[1]:
            k = c.pick(sorted(m[1]))
            if c.coin():
                m[1][k] = c.int(0, 3)
            else:
                m[1]['q'] = m[1].pop(k)


def real(m):
    if isinstance(m, tuple) and m and isinstance(m[0], str):
        if m[0] == 'rec':
            return m[1](**dict((k, real(v)) for k, v in m[2].items()))
        if m[0] == 'list':
            return [real(x) for x in m[1]]
        if m[0] == 'dict':
            return dict((k, real(v)) for k, v in m[1].items())
        if m[0] == 'coll':
            return m[1]([real(x) for x in m[2]], **m[3])
        return copy.deepcopy(m[1])
    return copy.deepcopy(m)


class Opts(object):
    def __init__(self, **kw):
        self.kw = kw
        self.ws = kw.get('ignore_ws', True)
        self.case = kw.get('ignore_case', False)
        self.unf = kw.get('unicode_normal', True)
        self.unchanged = kw.get('unchanged', False)
        self.moved = kw.get('moved', False)
        self.extraneous = kw.get('extraneous', False)
        self.empty = kw.get('ignore_empty_slots', False)
        self.recurse = kw.get('recurse', False)
        self.filter = kw.get('compare_filter')

    def norm(self, v):
        if isinstance(v, str):
            if self.ws:
                v = ' '.join(v.split())
            if self.case:
                v = v.upper()
            if self.unf:
                v = unicodedata.normalize('NFC', v)
        if self.empty and (v is None or v == ''):
            return MISSING
        return v


def isrec(v):
    return isinstance(v, tuple) and v and v[0] == 'rec'


def tag(v):
    if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] in (
            'rec', 'list', 'dict', 'ilist', 'idict', 'coll'):
        return v[0]
    if isinstance(v, list):
        return 'plist'
    if isinstance(v, tuple):
        return 'ptuple'
    if isinstance(v, dict):
        return 'pdict'


def kindof(v):
    """the python type the slot would have"""
    t = tag(v)
    if t == 'rec':
        return v[1]
    if t == 'coll':
        return v[1]
    return t or type(v)


def is_empty(v, o):
    """nothing below v but empties (for ignore_empty_slots)"""
    t = tag(v)
    if t == 'rec':
        return all(p.extraneous and not o.extraneous or n not in v[2] or
                   is_empty(v[2][n], o)
                   for n, p in v[1].properties.items())
    if t in ('list', 'coll'):
        items = v[1] if t == 'list' else v[2]
        return all(is_empty(x, o) for x in items) and not (
            t == 'coll' and v[3])
    if t == 'dict':
        return all(is_empty(x, o) for x in v[1].values())
    if t in ('ilist', 'plist', 'ptuple'):
        return all(o.norm(x) is MISSING for x in (
            v[1] if t == 'ilist' else v))
    if t in ('idict', 'pdict'):
        return all(o.norm(x) is MISSING for x in (
            v[1] if t == 'idict' else v).values())
    return o.norm(v) is MISSING


def filtered(o, path):
    """None: no restriction below; False: excluded"""
    if o.filter is None:
        return False
    for f in o.filter:
        n = min(len(f), len(path))
        if list(f[:n]) == list(path[:n]):
            return False
    return True


def cmp_rec(a, b, fa, fb, o, out):
    cls = a[1]
    for n, p in cls.properties.items():
        if p.extraneous and not o.extraneous:
            continue
        if filtered(o, fa + (n,)):
            continue
        va, vb = a[2].get(n, MISSING), b[2].get(n, MISSING)
        cmp_val(va, vb, fa + (n,), fb + (n,), o, out)


def cmp_val(va, vb, pa, pb, o, out):
    if not tag(va):
        va = o.norm(va)
    if not tag(vb):
        vb = o.norm(vb)
    if va is MISSING and vb is MISSING:
        return
    if va is MISSING or vb is MISSING:
        have = vb if va is MISSING else va
        if o.empty and tag(have):
            if not is_empty(have, o):
                out.append(('ADDED' if va is MISSING else 'REMOVED', pa, pb))
            return
        out.append(('ADDED' if va is MISSING else 'REMOVED', pa, pb))
        return
    if tag(va) and kindof(va) == kindof(vb):
        t = tag(va)
        if t == 'rec':
            return cmp_rec(va, vb, pa, pb, o, out)
        if t == 'list':
            return cmp_items(dict(enumerate(va[1])), dict(enumerate(vb[1])),
                             pa, pb, o, out)
        if t == 'dict':
            return cmp_items(va[1], vb[1], pa, pb, o, out)
        if t == 'coll':
            cmp_items(dict(enumerate(va[2])), dict(enumerate(vb[2])),
                      pa, pb, o, out)
            return cmp_rec(('rec', va[1], va[3]), ('rec', vb[1], vb[3]),
                           pa, pb, o, out)
        if t in ('ilist', 'plist', 'ptuple'):
            x, y = (va[1], vb[1]) if t == 'ilist' else (va, vb)
            return cmp_plain(list(enumerate(x)), list(enumerate(y)), pa, pb,
                             o, out)
        x, y = (va[1], vb[1]) if t == 'idict' else (va, vb)
        return cmp_plain(list(x.items()), list(y.items()), pa, pb, o, out)
    if plainval(va) != plainval(vb):
        out.append(('MODIFIED', pa, pb))
    elif o.unchanged:
        out.append(('NO_CHANGE', pa, pb))


def plainval(v):
    t = tag(v)
    return (t, kindof(v), v) if t in ('rec', 'coll') else v


def cmp_items(xa, xb, pa, pb, o, out):
    if o.recurse:
        for k in set(xa) | set(xb):
            if k not in xb:
                out.append(('REMOVED', pa + (k,), pb))
            elif k not in xa:
                out.append(('ADDED', pa, pb + (k,)))
            else:
                cmp_rec(xa[k], xb[k], pa + (k,), pb + (k,), o, out)
        return
    ida = dict((v[2]['id'], k) for k, v in xa.items())
    idb = dict((v[2]['id'], k) for k, v in xb.items())
    for i in set(ida) | set(idb):
        if i not in idb:
            out.append(('REMOVED', pa + (ida[i],), pb))
        elif i not in ida:
            out.append(('ADDED', pa, pb + (idb[i],)))
        else:
            ka, kb = ida[i], idb[i]
            cmp_rec(xa[ka], xb[kb], pa + (ka,), pb + (kb,), o, out)
            if o.moved and ka != kb:
                out.append(('MOVED', pa + (ka,), pb + (kb,)))
            elif o.unchanged:
                out.append(('NO_CHANGE', pa + (ka,), pb + (kb,)))


def cmp_plain(xa, xb, pa, pb, o, out):
    xa = [(k, o.norm(v)) for k, v in xa]
    xb = [(k, o.norm(v)) for k, v in xb]
    xa = [(k, v) for k, v in xa if v is not MISSING]
    xb = [(k, v) for k, v in xb if v is not MISSING]
    # the n-th occurrence of a value corresponds to its n-th occurrence on
    # the other side; what is left over is the difference
    restb = list(xb)
    lefta, pairs = [], []
    for k, v in xa:
        for j, (kb, vb) in enumerate(restb):
            if vb == v:
                pairs.append((k, kb))
                del restb[j]
                break
        else:
            lefta.append(k)
    leftb = [k for k, v in restb]
    for k, kb in pairs:
        if o.moved and k != kb:
            out.append(('MOVED', pa + (k,), pb + (kb,)))
        elif o.unchanged:
            out.append(('NO_CHANGE', pa + (k,), pb + (kb,)))
    for k in lefta:
        if k in leftb:
            out.append(('MODIFIED', pa + (k,), pb + (k,)))
        else:
            out.append(('REMOVED', pa + (k,), pb))
    for k in leftb:
        if k not in lefta:
            out.append(('ADDED', pa, pb + (k,)))


def got(diffs):
    return sorted(((d.diff_type.name if hasattr(d.diff_type, 'name') else
                    dtname(d.diff_type), tuple(d.base.selectors),
                    tuple(d.other.selectors)) for d in diffs), key=repr)


NAMES = None


def dtname(dt):
    for n in ('NO_CHANGE', 'ADDED', 'REMOVED', 'MODIFIED', 'MOVED'):
        if dt == getattr(DiffTypes, n):
            return n


def got(diffs):     # noqa
    return sorted(((dtname(d.diff_type), tuple(d.base.selectors),
                    tuple(d.other.selectors)) for d in diffs), key=repr)


def snapshot(r):
    return repr(r)


def random_opts(c):
    kw = {}
    for n, p in (('ignore_ws', 0.3), ('ignore_case', 0.3),
                 ('unicode_normal', 0.2), ('unchanged', 0.25),
                 ('moved', 0.25), ('extraneous', 0.25), ('recurse', 0.2),
                 ('ignore_empty_slots', 0.25)):
        if c.coin(p):
            kw[n] = c.coin(0.8) if n not in (
                'ignore_ws', 'unicode_normal') else False
    if kw.get('ignore_empty_slots'):
        kw.pop('unchanged', None)
    return kw


def call(c, a, b, kw):
    k = c.int(0, 3)
    if k == 0:
        return list(a.diff_iter(b, **kw))
    if k == 1:
        return list(diff_iter(a, b, options=DiffOptions(**kw)))
    if k == 2:
        return list(diff_iter(a, b, **kw))
    d = a.diff(b, **kw)
    str(d)
    return list(d)


def compare(c, kw, ma, mb, top):
    a, b = real(ma), real(mb)
    before = snapshot(a), snapshot(b)
    o = Opts(**kw)
    want = []
    cmp_rec(ma, mb, (), (), o, want)
    kk = dict(kw)
    if kw.get('compare_filter') is not None and c.coin():
        kk['compare_filter'] = MultiFieldSelector(*kw['compare_filter'])
    c.note(kw, srepr(a), srepr(b))
    tagr, ds = c.outcome(lambda: call(c, a, b, kk))
    c.check(tagr == 'ok', 'diff raised', type(ds).__name__, srepr(ds))
    c.eq(got(ds), sorted(want, key=repr), 'differences')
    c.check((snapshot(a), snapshot(b)) == before, 'the records changed')
    # every location resolves
    for d in ds:
        t = dtname(d.diff_type)
        one_side = not kw.get('recurse') or True
        va, vb = d.base.get_or_none(a), d.other.get_or_none(b)
        if t in ('MODIFIED', 'MOVED', 'NO_CHANGE') and not (
                kw.get('ignore_empty_slots')):
            c.eq((resolves(d.base, a), resolves(d.other, b)), (True, True),
                 'locations of', srepr(d))
        if t == 'MODIFIED':
            c.check(va != vb, 'modified but equal', srepr(d))
        elif t == 'ADDED':
            c.check(resolves(d.other, b), 'added location', srepr(d))
        elif t == 'REMOVED':
            c.check(resolves(d.base, a), 'removed location', srepr(d))
    return a, b, ds


def resolves(fs, o):
    try:
        fs.get(o)
        return True
    except exc.FieldSelectorException:
        return False


@scenario('C26', 900, 18000)
def differences(c):
    ma = g_top(c) if c.coin() else g_rec(c)
    mb = perturb(c, ma) if c.coin(0.8) else (
        g_top(c) if ma[1] is classes()[5] else g_rec(c))
    kw = {'moved': True} if c.coin(0.2) else {}
    compare(c, kw, ma, mb, True)


@scenario('C27', 1200, 25000)
def options(c):
    ma = g_top(c) if c.coin() else g_rec(c)
    mb = perturb(c, ma) if c.coin(0.8) else (
        g_top(c) if ma[1] is classes()[5] else g_rec(c))
    compare(c, random_opts(c), ma, mb, True)


@scenario('C27', 500, 10000)
def filters(c):
    ma = g_rec(c)
    mb = perturb(c, ma) if c.coin() else g_rec(c)
    F = []
    for _ in range(c.int(1, 4)):
        n = c.pick(['i', 's', 'v', 'leaf', 'leaf.a', 'leaf.b', 'keyed',
                    'ints', 'di', 'dk', 'x', 'un'])
        F.append(n.split('.'))
    kw = {'compare_filter': F}
    if c.coin(0.3):
        kw['extraneous'] = True
    if c.coin(0.3):
        kw['moved'] = True
    compare(c, kw, ma, mb, True)


@scenario('C27', 200, 3000)
def option_misc(c):
    DLeaf, DLeaf2, DKeyed, DRec, DColl, DTop = classes()
    # options and keywords exclude each other
    a, b = DLeaf(a=1), DLeaf(a=1)
    c.raises(exc.DiffOptionsException, lambda: list(diff_iter(
        a, b, options=DiffOptions(), ignore_ws=False)), 'both')
    # duck typing
    class Alien(object):
        pass
    v, w = c.int(0, 1), c.pick(STR)
    x, y = c.int(0, 1), c.pick(STR)
    al = Alien()
    al.a, al.b = x, y
    r = DLeaf(a=v, b=w)
    c.note(v, w, x, y)
    want = []
    o = Opts()
    cmp_rec(('rec', DLeaf, {'a': v, 'b': w}),
            ('rec', DLeaf, {'a': x, 'b': y}), (), (), o, want)
    c.eq(got(diff_iter(r, al, duck_type=True)), sorted(want, key=repr),
         'duck typed')
    c.raises(TypeError, lambda: list(diff_iter(r, al)), 'without duck_type')
    c.raises(TypeError, lambda: list(DLeaf().diff_iter(DLeaf2())),
             'different classes')
    # compare_as
    CA = cached('CA', lambda: type('CA', (Record,), {
        'p': Property(compare_as=lambda x: (x or 0) % 10),
        'q': Property(isa=int)}))
    p, q = c.int(0, 30), c.int(0, 30)
    c.eq(got(CA(p=p).diff_iter(CA(p=q))), [] if p % 10 == q % 10 else [
        ('MODIFIED', ('p',), ('p',))], 'compare_as')
    # ignore_empty_items
    its = [c.pick([None, 1, 2]) for _ in range(c.int(0, 3))]
    full = [k for k in its if k]
    if len(set(full)) == len(full):
        A = DRec(keyed=[DKeyed(id=k) if k else DKeyed() for k in its])
        B = DRec(keyed=[DKeyed(id=k) for k in full])
        c.eq(got(A.diff_iter(B, ignore_empty_items=True)), [],
             'ignore_empty_items', its)
        c.eq(len(list(A.diff_iter(B))), len(its) - len(full),
             'empty items count by default')
    # sub-class hooks
    class O(DiffOptions):
        def items_equal(self, a, b):
            return True

        def normalize_slot(self, value=None, prop=None):
            return self._nothing if prop.name == 's' else \
                super(O, self).normalize_slot(value, prop)
    A, B = DRec(i=1, s='x', v=3), DRec(i=2, s='y')
    c.eq(got(diff_iter(A, B, options=O())), [('REMOVED', ('v',), ('v',))],
         'hooks')


@scenario('C25', 700, 12000)
def reflexive(c):
    """a record and an equal record differ in nothing"""
    ma = g_top(c) if c.coin() else g_rec(c)
    kw = random_opts(c)
    kw.pop('unchanged', None)
    if c.coin(0.3):
        kw['duck_type'] = True
    a = real(ma)
    b = c.pick([a, real(ma), copy.deepcopy(a)])
    c.note(kw, srepr(a))
    tagr, ds = c.outcome(lambda: call(c, a, b, kw))
    c.check(tagr == 'ok', 'diff raised', srepr(ds))
    c.eq(got(ds), [], 'differences of equal records')
    if c.coin(0.3):
        kw['unchanged'] = True
        kw.pop('ignore_empty_slots', None)
        kw.pop('duck_type', None)
        ds = list(a.diff_iter(b, **kw))
        c.check(all(d.diff_type == DiffTypes.NO_CHANGE for d in ds),
                'unchanged', str(got(ds)))
    # dict slots filled in another order are equal too
    sh = reorder(c, ma)
    b = real(sh)
    kw.pop('moved', None)
    if a == b:
        c.eq(got(call(c, a, b, dict(kw, unchanged=False))), [],
             'equal, differently built')


def reorder(c, m):
    if isinstance(m, tuple) and m and isinstance(m[0], str):
        if m[0] == 'rec':
            it = list(m[2].items())
            c.rng.shuffle(it)
            return ('rec', m[1], dict((k, reorder(c, v)) for k, v in it))
        if m[0] in ('dict', 'idict'):
            it = list(m[1].items())
            c.rng.shuffle(it)
            return (m[0], dict((k, reorder(c, v)) for k, v in it))
        if m[0] == 'list':
            return ('list', [reorder(c, x) for x in m[1]])
        if m[0] == 'coll':
            return ('coll', m[1], [reorder(c, x) for x in m[2]], m[3])
        return m
    if isinstance(m, dict):
        it = list(m.items())
        c.rng.shuffle(it)
        return dict((k, reorder(c, v)) for k, v in it)
    if isinstance(m, list):
        return [reorder(c, x) for x in m]
    return m


@scenario('C25', 500, 10000)
def separates(c):
    """records that differ are reported as different (with whitespace and
    normal-form folding off and item order counted)"""
    ma = g_top(c) if c.coin() else g_rec(c)
    mb = perturb(c, ma)
    for m in (ma, mb):
        # == on collections is about their items only
        if 'c' in m[2]:
            m[2]['c'][3].clear()
    a, b = real(ma), real(mb)
    c.note(srepr(a), srepr(b))
    kw = dict(ignore_ws=False, unicode_normal=False, moved=True)
    ds = list(a.diff_iter(b, **kw))
    if a == b:
        c.eq(got(ds), [], 'equal records')
    elif not ds:
        # == on lists and dicts counts order of what diff folds: none left
        c.check(False, 'different records, no difference reported')
    back = list(b.diff_iter(a, **kw))
    c.eq(len(back), len(ds), 'symmetric count')
    flip = {'ADDED': 'REMOVED', 'REMOVED': 'ADDED'}
    c.eq(got(back), sorted(((flip.get(t, t), y, x) for t, x, y in got(ds)),
                           key=repr), 'mirror image')


# ------------------------------------------------------------------ C28
@scenario('C28', 1000, 20000)
def accounting(c):
    """lists of records without keys: every item is matched, added or
    removed exactly once"""
    DLeaf = classes()[0]

    def items():
        out = []
        for _ in range(c.int(0, 5)):
            kw = {}
            if c.coin(0.8):
                kw['a'] = c.pick([0, 1, 2, 'foo', 'Foo'])
            if c.coin(0.7):
                kw['b'] = c.pick(['', 'x', 'y', 'foo'])
            out.append(kw)
        return out
    xs, ys = items(), items()
    if c.coin():
        ys = list(xs)
        c.rng.shuffle(ys)
        for _ in range(c.int(0, 2)):
            if ys:
                ys[c.int(0, len(ys) - 1)] = c.pick(items() or [{}])
    L = cached('LFz', lambda: type('LFz', (Record,), {
        'ls': ListProperty(of=DLeaf), 'd': DictProperty(of=DLeaf)}))
    usedict = c.coin(0.3)
    kw = {}
    if c.coin(0.3):
        kw['fuzzy_match'] = False
    if c.coin(0.4):
        kw['ignore_ws'] = False
    moved = c.coin()
    if moved:
        kw['moved'] = True
    if usedict:
        ka, kb = c.sample('abcdef', len(xs)), c.sample('abcdef', len(ys))
        A = dict((k, DLeaf(**x)) for k, x in zip(ka, xs))
        B = dict((k, DLeaf(**x)) for k, x in zip(kb, ys))
        a, b, n = L(d=A), L(d=B), 'd'
    else:
        ka, kb = list(range(len(xs))), list(range(len(ys)))
        a, b, n = L(ls=[DLeaf(**x) for x in xs]), L(
            ls=[DLeaf(**x) for x in ys]), 'ls'
        A, B = dict(enumerate(a.ls)), dict(enumerate(b.ls))
    c.note(xs, ys, ka, kb, kw)
    ds = got(a.diff_iter(b, **kw))
    removed = [x[1] for t, x, y in [(t, x, y) for t, x, y in ds]
               if t == 'REMOVED' and len(x) == 2 for x in [x]] if False \
        else [x[1] for t, x, y in ds if t == 'REMOVED' and len(x) == 2]
    added = [y[1] for t, x, y in ds if t == 'ADDED' and len(y) == 2]
    pairs = set((x[1], y[1]) for t, x, y in ds
                if t in ('MODIFIED', 'ADDED', 'REMOVED', 'MOVED') and
                len(x) > 1 and len(y) > 1 and (len(x), len(y)) != (2, 1) and
                (len(x), len(y)) != (1, 2))
    c.eq(len(set(removed)), len(removed), 'removed twice')
    c.eq(len(set(added)), len(added), 'added twice')
    for i, j in pairs:
        c.check(i in A and j in B, 'pair of unknown items', (i, j))
        c.check(i not in removed and j not in added,
                'item both matched and removed/added', (i, j))
    c.check(len(set(i for i, j in pairs)) == len(pairs) and
            len(set(j for i, j in pairs)) == len(pairs),
            'item matched twice', sorted(pairs))
    if kw.get('fuzzy_match') is False:
        c.check(all(A[i] is not None for i in removed), '')
        c.check(not [p for p in pairs if ds and not moved], 'fuzzy pairs')
    # whatever is left is matched as equal
    lefta = [i for i in A if i not in removed and i not in [
        p[0] for p in pairs]]
    leftb = [j for j in B if j not in added and j not in [
        p[1] for p in pairs]]
    o = Opts(**kw)

    def nv(r):
        return tuple(sorted((k, repr(o.norm(v))) for k, v in r.items() if
                            o.norm(v) is not None or True))
    dx = dict(zip(ka, xs))
    dy = dict(zip(kb, ys))
    c.eq(len(lefta), len(leftb), 'unaccounted items', lefta, leftb)

    def ident(r):
        # None-valued and unset slots count as the same item
        return tuple(sorted((k, repr(o.norm(v))) for k, v in r.items()))
    c.eq(sorted(ident(dx[i]) for i in lefta), sorted(
        ident(dy[j]) for j in leftb), 'left over items differ')
    # every reported difference is real
    for t, x, y in ds:
        if len(x) == 3 or len(y) == 3:
            i, j, f = x[1], y[1], x[2]
            va, vb = o.norm(dx[i].get(f, MISSING)) if f in dx[i] else \
                MISSING, o.norm(dy[j][f]) if f in dy[j] else MISSING
            c.check((t == 'ADDED') == (va is MISSING), t, x, y)
            c.check((t == 'REMOVED') == (vb is MISSING), t, x, y)
            c.check(t != 'MODIFIED' or va != vb, t, x, y)
    if moved and not usedict:
        for t, x, y in ds:
            if t == 'MOVED':
                c.check(x[1] != y[1], 'moved in place')


@scenario('C28', 250, 3000)
def nested_values(c):
    """plain items which cannot be hashed are the same iff they are equal"""
    def g(d):
        k = c.int(0, 5 if d else 2)
        if k <= 2:
            return c.pick([0, 1, 2, 'x', 'y', None])
        if k == 3:
            return [g(d - 1) for _ in range(c.int(0, 4))]
        if k == 4:
            return {c.pick('ab'): g(d - 1) for _ in range(c.int(0, 2))}
        return {c.pick([1, 2, 3]) for _ in range(c.int(0, 3))}
    a = [g(2) for _ in range(c.int(1, 4))]
    b = copy.deepcopy(a)
    for _ in range(c.int(0, 2)):
        x = c.pick(b)
        if isinstance(x, list) and x and c.coin(0.7):
            if c.coin():
                x.reverse()
            else:
                x.append(g(1))
        else:
            b[b.index(x)] = g(2)
    c.note(a, b)
    cls = cached('nestedplain', lambda: type('NPl', (Record,), {
        'l': Property()}))

    def count(x):
        out = []
        for y in x:
            for e in out:
                if e[0] == y and type(e[0]) is type(y):
                    e[1] += 1
                    break
            else:
                out.append([y, 1])
        return out
    ca, cb = count(a), count(b)
    same = len(ca) == len(cb) and all(e in cb for e in ca)
    ds = list(cls(l=a).diff_iter(cls(l=b), ignore_ws=False,
                                 unicode_normal=False))
    c.eq(not ds, same, 'no difference iff the same items', srepr(ds))
    for d in ds:
        c.check(d.diff_type in (DiffTypes.ADDED, DiffTypes.REMOVED,
                                DiffTypes.MODIFIED), 'kind', srepr(d))


@scenario('C27', 80, 800)
def empty_items(c):
    """items are empty only if all their fields are unset, None or ''"""
    DLeaf, DLeaf2, DKeyed, DRec, DColl, DTop = classes()
    I = cached('emptyitem', lambda: type('EI', (Record,), {
        'a': Property(), 'b': Property()}))
    C = cached('emptyitems', lambda: type('EIs', (Record,), {
        'l': ListProperty(of=I)}))
    kw = {}
    for n in 'ab':
        v = c.pick([MISSING, None, '', 0, False, 0.0, 1, 'x'])
        if v is not MISSING:
            kw[n] = v
    c.note(sorted(kw.items(), key=repr))
    empty = all(v is None or v == '' for v in kw.values())
    ds = list(C(l=[]).diff_iter(C(l=[I(**kw)]), ignore_empty_items=True))
    c.eq([d.diff_type for d in ds], [] if empty else [DiffTypes.ADDED],
         'empty item' if empty else 'an item with a value')


@scenario('C25', 120, 1500)
def shared_values(c):
    """records which share the very same values: equal values are reported as
    unchanged if asked for, whether or not they are one object"""
    DLeaf, DLeaf2, DKeyed, DRec, DColl, DTop = classes()
    S = cached('sharedslots', lambda: type('SharedS', (Record,), {
        'a': Property(), 'b': Property(), 'd': Property(),
        'r': Property(isa=DLeaf)}))
    kw = {}
    for n in 'abd':
        if c.coin(0.8):
            kw[n] = c.pick([1, 'some text', 2.5, None, True, 10 ** 20])
    if c.coin():
        kw['r'] = DLeaf(a=c.int(0, 2))
    a = S(**kw)
    b = a if c.coin(0.2) else S(**(kw if c.coin() else copy.deepcopy(kw)))
    c.note(sorted(kw.items(), key=repr), a is b)
    want = sorted([(n,) for n in kw if n != 'r'] + [
        ('r', 'a') for n in kw if n == 'r'])
    ds = list(a.diff_iter(b, unchanged=True))
    c.eq(sorted(tuple(d.base.selectors) for d in ds), want, 'base')
    c.eq(sorted(tuple(d.other.selectors) for d in ds), want, 'other')
    c.check(all(d.diff_type == DiffTypes.NO_CHANGE for d in ds), 'kind')
    c.eq(list(a.diff_iter(b)), [], 'no difference')


@scenario('C26', 150, 1500)
def below_moved_items(c):
    """positions below an item are those of the item on either side"""
    K = cached('movedk2', lambda: type('MovedK2', (Record,), (lambda i: {
        'id': i, 'd': Property(), 'l': Property(), 'primary_key': [i]})(
            Property(isa=int))))
    L = cached('movedl', lambda: type('MovedL', (Record,), {
        'ks': ListProperty(of=K)}))
    n = c.int(1, 4)

    def some():
        return {k: c.int(0, 1) * 10 + j for j, k in enumerate('xyz')
                if c.coin(0.6)}
    A = [(i, some()) for i in range(n)]
    B = [(i, some()) for i in range(n)]
    c.rng.shuffle(B)
    c.note(A, B)
    a = L(ks=[K(id=i, d=d) for i, d in A])
    b = L(ks=[K(id=i, d=d) for i, d in B])
    want = []
    for ia, (i, da) in enumerate(A):
        ib = [x[0] for x in B].index(i)
        db = B[ib][1]
        fa, fb = ('ks', ia, 'd'), ('ks', ib, 'd')
        for k in 'xyz':
            if k in da and k not in db:
                want.append(('REMOVED', fa + (k,), fb))
            elif k in db and k not in da:
                want.append(('ADDED', fa, fb + (k,)))
            elif k in da and da[k] != db[k]:
                want.append(('MODIFIED', fa + (k,), fb + (k,)))
    names = {DiffTypes.REMOVED: 'REMOVED', DiffTypes.ADDED: 'ADDED',
             DiffTypes.MODIFIED: 'MODIFIED'}
    out = [(names.get(d.diff_type, d.diff_type), tuple(d.base.selectors),
            tuple(d.other.selectors)) for d in a.diff_iter(b)]
    c.eq(sorted(out), sorted(want), 'differences')


@scenario('C28', 200, 3000)
def mixed_items(c):
    """items of different classes with one key are modified as a whole"""
    DLeaf, DLeaf2, DKeyed, DRec, DColl, DTop = classes()

    def mk():
        class B0(Record):
            id = Property(isa=int)
            t = Property()
            primary_key = [id]

        class B1(B0):
            id = Property(isa=int)
            primary_key = [id]

        class B2(B0):
            id = Property(isa=int)
            primary_key = [id]
        return B0, B1, B2, type('MX', (Record,), {
            'ls': ListProperty(of=B0), 'd': DictProperty(of=B0)})
    B0, B1, B2, MX = cached('mixed', mk)

    def g():
        return [(c.pick([B0, B1, B2]), k, c.int(0, 1)) for k in c.sample(
            [1, 2, 3], c.int(0, 3))]
    xs, ys = g(), g()
    c.note([(x[0].__name__,) + x[1:] for x in xs],
           [(x[0].__name__,) + x[1:] for x in ys])
    a = MX(ls=[T(id=k, t=v) for T, k, v in xs])
    b = MX(ls=[T(id=k, t=v) for T, k, v in ys])
    want = []
    for i, (T, k, v) in enumerate(xs):
        m = [(j, y) for j, y in enumerate(ys) if y[1] == k]
        if not m:
            want.append(('REMOVED', ('ls', i), ('ls',)))
        else:
            j, y = m[0]
            if y[0] is not T:
                want.append(('MODIFIED', ('ls', i), ('ls', j)))
            elif y[2] != v:
                want.append(('MODIFIED', ('ls', i, 't'), ('ls', j, 't')))
    for j, y in enumerate(ys):
        if not any(x[1] == y[1] for x in xs):
            want.append(('ADDED', ('ls',), ('ls', j)))
    c.eq(got(a.diff_iter(b)), sorted(want, key=repr), 'differences')
