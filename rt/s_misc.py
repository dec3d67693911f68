"""C31 subtypes, C32 empty placeholders, C35 structured exceptions."""
import copy
import string
import normalize.exc as exc
from normalize import *          # noqa
from normalize import Record, Property
from normalize.coll import ListCollection, DictCollection, list_of, dict_of
from normalize.empty import placeholder
from normalize.subtype import subtype
from normalize.selector import FieldSelector
from normalize.record.json import JsonRecord, from_json
from normalize.diff import DiffOptions
from normalize.visitor import VisitorPattern
from core import scenario, srepr, Known
from gen import cached, MISSING

VALUES = [0, 1, 2, 5, 7, 10, -3, True, False, 2.5, '', '3', 'x', 'abc', None,
          [], [1], (1, 2), {'a': 1}, b'q', 10 ** 20]


# ------------------------------------------------------------------ C31
def wheres():
    def boom(v):
        raise KeyError(v)
    return [('odd', lambda v: v % 2), ('small', lambda v: v < 4),
            ('long', lambda v: len(v) > 1), ('true', bool),
            ('none', lambda v: False), ('any', lambda v: True),
            ('boom', boom), ('str', lambda v: str(v) != '1')]


def coerces():
    def boom(v):
        raise ValueError('boom')
    return [('no', None), ('int', int), ('str', str), ('id', lambda v: v),
            ('five', lambda v: 5), ('boom', boom), ('list', list)]


@scenario('C31', 900, 15000)
def subtypes(c):
    base = c.pick([int, str, object, list, float])
    chain = []
    of = base
    for k in range(c.int(1, 3)):
        wn, w = c.pick(wheres())
        cn, co = c.pick(coerces())
        kw = {'coerce': co} if co else {}
        of = subtype('S%d' % k, of=of, where=w, **kw)
        chain.append((of, wn, w, cn, co))
    T, wn, w, cn, co = chain[-1]
    parent = chain[-2][0] if len(chain) > 1 else base
    v = c.pick(VALUES)
    c.note(base.__name__, [(x[1], x[3]) for x in chain], srepr(v))

    def member(x):
        if not isinstance(x, base):
            return False
        for _, _, f, _, _ in chain:
            try:
                if not f(x):
                    return False
            except Exception:
                return False
        return True
    c.eq(isinstance(v, T), member(v), 'isinstance')
    c.check(issubclass(T, base) and T.__name__ == 'S%d' % (len(chain) - 1),
            'the subtype is a subclass of its base')
    c.eq(str(T), '<subtype %s of %s>' % (T.__name__, parent.__name__), 'str')
    tag, got = c.outcome(lambda: T(v))
    if member(v):
        c.check(tag == 'ok' and got is v, 'T(member) is not the member', got)
    elif co is None:
        c.check(tag == 'err' and isinstance(got, exc.SubtypeNoCoerceFunc),
                'no coerce function', srepr(got))
        c.check(got.passed is v and got.subtype is T and
                got.subtype_of is parent, 'context')
        str(got)
    else:
        t2, want = c.outcome(lambda: co(v))
        if t2 == 'err':
            c.check(tag == 'err' and type(got) is type(want),
                    'coerce error', srepr(got))
        elif member(want):
            c.eq((tag, got), ('ok', want), 'coerced')
        else:
            c.check(tag == 'err' and isinstance(got, exc.SubtypeCoerceError),
                    'bad coerce', srepr(got))
            c.eq((got.passed, got.coerced), (v, want), 'context')
            str(got)
    # as the type of a property
    R = type('R', (Record,), {'p': Property(isa=T)})
    tag, got = c.outcome(lambda: R(p=v))
    if tag == 'ok' and not hasattr(got, 'p'):
        # coercing to None leaves the slot unset
        c.check(not member(v), 'member dropped')
    elif tag == 'ok':
        c.check(member(got.p), 'slot holds a non-member', srepr(got.p))
        if member(v):
            c.check(got.p is v, 'slot value')
    else:
        c.check(not member(v), 'member refused', srepr(got))


@scenario('C31', 150, 2000)
def record_subtypes(c):
    def mk():
        class P31(Record):
            n = Property(isa=int)
            s = Property(isa=str)
        class Q31(P31):
            z = Property()
        return (P31, Q31, subtype('BigP', of=P31, where=lambda r: r.n > 2),
                subtype('BigL', of=list_of(int), where=lambda r: len(r) > 1))
    P31, Q31, BigP, BigL = cached('c31rec', mk)
    n = c.int(0, 5)
    K = c.pick([P31, Q31])
    r = K(n=n) if c.coin(0.9) else K()
    c.note(K.__name__, srepr(r))
    ok = hasattr(r, 'n') and n > 2
    c.eq(isinstance(r, BigP), ok, 'record subtype')
    tag, got = c.outcome(lambda: BigP(r))
    if ok:
        c.check(tag == 'ok' and got is r, 'construct')
    else:
        c.check(tag == 'err' and isinstance(got, exc.SubtypeNoCoerceFunc),
                srepr(got))
    xs = [1] * c.int(0, 3)
    c.eq(isinstance(list_of(int)(xs), BigL), len(xs) > 1, 'list subtype')
    bad = c.pick([3, 'int', None, (int, str), [int], lambda: 1])
    e = c.raises(exc.SubtypeOfWhat, lambda: subtype(
        'Z', of=bad, where=lambda v: True), 'not a type')
    c.check(e.of is bad, 'context')


# ------------------------------------------------------------------ C32
def empties():
    def mk():
        class Callable(object):
            x = 3

            def __call__(self):
                return 1

            def __getitem__(self, i):
                return 1

        class SubCallable(Callable):
            pass

        class Dyn(object):
            def __getattr__(self, n):
                return n

        class SubDyn(Dyn):
            pass

        class ELeaf(Record):
            a = SafeProperty(isa=int)
            u = Property(isa=(int, str))
            anyp = Property()
            fn = Property(isa=Callable)

            def meth(self):
                pass

        class EKid(Record):
            leaf = Property(isa=ELeaf)
            leaves = ListProperty(of=ELeaf)
            m = DictProperty(of=ELeaf)
            un = Property(isa=(ELeaf, SubCallable))
            dyn = Property(isa=SubDyn)
            none = Property(isa=ELeaf, empty_attr=None)
            ren = Property(isa=ELeaf, empty_attr='other')

        class ERoot(Record):
            kid = Property(isa=EKid)
            kids = ListProperty(of=EKid, traits=['safe'])
            lz = LazyProperty(isa=EKid, default=lambda: EKid())
            s = Property(isa=str)
            x = Property()
            ro = ROProperty(isa=ELeaf)
        EKid.parent = Property(isa=ERoot)
        return Callable, SubCallable, Dyn, SubDyn, ELeaf, EKid, ERoot
    return cached('empties', mk)


def has(t, name):
    return any(name in k.__dict__ for k in t.__mro__)


def step_attr(types, n):
    """types: tuple of types or any -> types, or None for an error"""
    if types is any:
        return any
    out, found = [], False
    for t in types:
        if isinstance(t, type) and issubclass(t, Record) and (
                n in t.properties):
            vt = t.properties[n].valuetype or any
        elif hasattr(t, n) and getattr(t, n) is not None:
            vt = getattr(getattr(t, n), 'valuetype', False) or any
        elif has(t, '__getattr__'):
            vt = any
        else:
            continue
        found = True
        for x in vt if isinstance(vt, tuple) else (vt,):
            if x not in out:
                out.append(x)
    if not found:
        return None
    return any if any in out else tuple(out)


def step_item(types):
    if types is any:
        return any
    out, found = [], False
    for t in types:
        if issubclass(t, (ListCollection, DictCollection)):
            found = True
            if t.itemtype not in out:
                out.append(t.itemtype)
        elif has(t, '__getitem__'):
            found = True
            if any not in out:
                out.append(any)
    if not found:
        return None
    return any if any in out else tuple(out)


ATTRS = ['leaf', 'leaves', 'm', 'un', 'dyn', 'none', 'a', 'u', 'anyp', 'fn',
         'kid', 'kids', 'lz', 's', 'x', 'meth', 'nosuch', 'upper', 'real',
         'itemtype', 'leaf0', 'append']


@scenario('C32', 800, 15000)
def placeholders(c):
    Callable, SubCallable, Dyn, SubDyn, ELeaf, EKid, ERoot = empties()
    T = c.pick([ERoot, EKid, ELeaf, (EKid, ELeaf), int, str, Callable, SubDyn,
                list_of(ELeaf), dict_of(EKid), any, (int, any),
                (list_of(ELeaf), list_of(EKid)), SubCallable])
    types = T if isinstance(T, tuple) else (T,)
    if any in types:
        types = any
    p = placeholder(T)
    c.note(srepr(T))
    for _ in range(c.int(1, 6)):
        c.check(not p, 'a placeholder is true')
        c.check(bool(p) is False, 'bool')
        names = 'any' if types is any else ','.join(
            t.__name__ for t in types)
        c.eq((str(p), repr(p)), ('False(%s)' % names,
                                 'normalize.empty.placeholder(%s)' % names),
             'text')
        c.check(placeholder(types) is p, 'one placeholder per type')
        op = c.int(0, 6)
        if op <= 2:
            known = [a for a in ATTRS if step_attr(types, a) is not None]
            n = c.pick(known if known and c.coin(0.85) else ATTRS)
            nxt = step_attr(types, n)
            c.note('.', n)
            if nxt is None:
                e = c.raises(exc.NoSuchAttribute, lambda: getattr(p, n),
                             names, n)
                c.check(isinstance(e, AttributeError), 'kind')
                c.eq((e.typenames, e.attribute), (names, n), 'context')
                str(e)
                c.eq(getattr(p, n, 'dflt'), 'dflt', 'getattr default')
                break
            q = getattr(p, n)
            c.check(getattr(p, n) is q, 'not persistent')
        elif op == 3:
            nxt = step_item(types)
            k = c.pick([0, 5, 'k', -1])
            c.note('[]')
            if nxt is None:
                e = c.raises(exc.NotSubscriptable, lambda: p[k], names)
                c.eq(e.typenames, names, 'context')
                c.check(isinstance(e, TypeError) and str(e), 'kind')
                break
            q = p[k]
            c.check(p[c.int(0, 9)] is q, 'not persistent')
            c.check(p[1:] is p, 'slice')
        elif op == 4:
            c.note('()')
            if types is any or any_callable(types):
                q, nxt = p(1, k=2), any
            else:
                e = c.raises(exc.NotCallable, lambda: p(), names)
                c.eq(e.typenames, names, 'context')
                str(e)
                continue
        elif op == 5:
            e = c.raises(exc.BadAssignment, lambda: setattr(
                p, c.pick(ATTRS), 1), 'attribute set')
            c.check(isinstance(e, TypeError), 'kind')
            c.eq(e.typenames, names, 'context')
            continue
        else:
            c.raises(exc.BadAssignment, lambda: p.__setitem__(0, 1),
                     'item set')
            continue
        p, types = q, nxt


def any_callable(types):
    return [t for t in types if has(t, '__call__')]


@scenario('C32', 500, 8000)
def empty_attributes(c):
    """the empty-safe pseudo attributes of records"""
    Callable, SubCallable, Dyn, SubDyn, ELeaf, EKid, ERoot = empties()
    leaf = ELeaf(**(dict(a=c.int(0, 3)) if c.coin(0.6) else {}))
    kid = EKid()
    if c.coin(0.6):
        kid.leaf = leaf
    if c.coin():
        kid.ren = leaf
    if c.coin():
        kid.leaves = [ELeaf(a=1)]
    r = ERoot()
    if c.coin(0.7):
        r.kid = kid
    if c.coin():
        r.s = c.pick(['', 'x'])
    if c.coin():
        r.x = c.pick([None, 0, 3])
    if c.coin(0.3):
        r.kids = [kid]
    c.note(srepr(r))
    cur, types = r, (ERoot,)
    for _ in range(c.int(1, 4)):
        if isinstance(cur, Record) and type(cur).properties:
            props = type(cur).properties
            n = c.pick([k for k in sorted(props) if k != 'lz'])
            prop = props[n]
            if n == 'none':
                c.raises(AttributeError, lambda: cur.none0, 'disabled')
                c.check(not hasattr(type(cur), 'none0'), 'disabled')
                return
            name = 'other' if n == 'ren' else n + '0'
            c.note(name)
            if n == 'ren':
                c.check(not hasattr(type(cur), 'ren0'), 'renamed')
            tag, v = c.outcome(lambda: getattr(cur, n))
            got = getattr(cur, name)
            if tag == 'ok':
                c.check(got is v, 'set slot', srepr(got), srepr(v))
                cur = v
            else:
                c.check(got is placeholder(prop.valuetype or any),
                        'unset slot', srepr(got))
                c.check(n not in cur.__dict__, 'the slot was filled')
                cur = got
                return
        else:
            return
    c.check(ERoot().lz0 is not None, 'lazy')


# ------------------------------------------------------------------ C35
FIELDS = ['alpha', 'beta', 'gamma', '0', '1', 'alpha.real', 'beta[0]']


@scenario('C35', 700, 10000)
def formatting(c):
    parts, used = [], []
    for _ in range(c.int(0, 5)):
        if c.coin():
            parts.append(c.pick(['text ', 'x', '{{', '}}', 'é', ': ', '%s']))
        else:
            f = c.pick(FIELDS)
            used.append(f)
            parts.append('{' + f + c.pick(['', '!r', '!s']) + '}')
    msg = ''.join(parts)
    X = type('X', (c.pick([exc.StringFormatException, exc.CoercionError,
                           exc.UsageException, exc.FieldSelectorException]),),
             {'message': msg})
    args = tuple(c.pick(['a', 2, None, (), (1, 2)]) for _ in range(c.int(0, 2)))
    kw = {}
    for k in ('alpha', 'beta', 'gamma', 'delta'):
        if c.coin(0.75):
            kw[k] = c.pick([[1, 2], 'str', (0,)]) if k == 'beta' else c.pick(
                [1, 2.5, True])
    c.note(msg, srepr(args), srepr(kw))
    tag, want = c.outcome(lambda: msg.format(*args, **kw))
    t2, e = c.outcome(lambda: X(*args, **kw))
    if tag == 'err':
        c.check(t2 == 'err', 'bad arguments accepted')
        if isinstance(want, IndexError):
            c.check(isinstance(e, exc.PositionalExceptionFormatError),
                    srepr(e))
            c.eq((e.typename, e.received), ('X', repr(args)), 'context')
        else:
            c.check(isinstance(e, exc.KeywordExceptionFormatError), srepr(e))
            c.eq((e.typename, e.missing), ('X', want.args[0]), 'context')
            c.eq(e.passed, repr(list(kw)), 'passed')
        str(e)
        return
    c.check(t2 == 'ok', 'raised', srepr(e))
    c.eq(str(e), want, 'message')
    c.check(isinstance(e, exc.NormalizeError), 'base')
    for k, v in kw.items():
        c.check(getattr(e, k) is v, 'attribute', k)
    for i, v in enumerate(args):
        c.check(e[i] is v, 'item', i)
    c.raises(IndexError, lambda: e[len(args)], 'no such item')
    c.raises(AttributeError, lambda: e.nosuch, 'no such attribute')
    X.__module__ = c.pick(['mymod', 'normalize.exc'])
    r = repr(e)
    if X.__module__ == 'normalize.exc':
        c.check(r.startswith('exc.X('), 'repr', r)
        r = r[4:]
    back = eval(r, {'X': X})
    c.check(back.args == e.args and back.kwargs == e.kwargs and
            str(back) == str(e), 'repr', r)


def errors():
    """[(what, function, exception type, {attribute: value})]"""
    def mk():
        class XR(Record):
            i = Property(isa=int)
            q = Property(required=True, isa=str)
            ck = Property(isa=int, check=lambda v: v > 0)
            ro = ROProperty()
            co = Property(isa=int, coerce=lambda v: 'notint')
            ls = ListProperty(of=int)
            d = DictProperty(of=int)
            sq = SafeProperty(required=True, isa=int)
            req_del = SafeProperty(required=True)

        class XJ(JsonRecord):
            i = Property(isa=int)
            sub = Property(isa=XR)

        class XL(JsonRecord):
            xs = JsonListProperty(of=XJ)
        class AmbA(Property):
            __trait__ = 'amba'

            def __init__(self, ambarg=None, **kw):
                super(AmbA, self).__init__(**kw)

        class AmbB(Property):
            __trait__ = 'ambb'

            def __init__(self, ambarg=None, **kw):
                super(AmbB, self).__init__(**kw)
        return XR, XJ, XL
    XR, XJ, XL = cached('errors', mk)
    P = XR.properties

    def ok(**kw):
        d = dict(q='q', sq=1, req_del=1)
        d.update(kw)
        return XR(**d)

    def newclass(**kw):
        return type('N', (Record,), kw)
    nat = subtype('nat', of=int, where=lambda v: v > 0)

    class Unhashable(object):
        __hash__ = None

    def f2(a, b):
        pass
    return [
        ('coerce', lambda: ok(i='x'), exc.CoerceError,
         {'prop': P['i'], 'passed': 'x', 'valuetype': 'int'}),
        ('coerce assign', lambda: setattr(ok(), 'sq', []), exc.CoerceError,
         {'prop': P['sq'], 'passed': []}),
        ('required', lambda: XR(sq=1), exc.PropertyRequired, {}),
        ('required delete', lambda: delattr(ok(), 'req_del'),
         exc.PropertyRequired, {'prop': P['req_del']}),
        ('check', lambda: ok(ck=0), exc.ValueCheckError,
         {'prop': P['ck'], 'passed': 0}),
        ('ro', lambda: setattr(ok(), 'ro', 1), exc.ReadOnlyAttributeError,
         {'attrname': 'XR.ro'}),
        ('ro del', lambda: delattr(ok(), 'ro'), exc.ReadOnlyAttributeError,
         {'attrname': 'XR.ro'}),
        ('bad coercion', lambda: ok(co='z'), exc.ValueCoercionError,
         {'prop': P['co'], 'passed': 'z', 'coerced': 'notint'}),
        ('list item', lambda: list_of(int)(['x']),
         exc.CollectionItemCoerceError, {'passed': 'x', 'itemtype': int}),
        ('list append', lambda: list_of(int)([]).append('y'),
         exc.CollectionItemCoerceError, {'passed': 'y'}),
        ('list of scalar', lambda: list_of(int)(5),
         exc.CollectionCoerceError, {'passed': 5}),
        ('dict of scalar', lambda: dict_of(int)(5),
         exc.CollectionCoerceError, {'passed': 5}),
        ('isa missing', lambda: Property(coerce=int), exc.CoerceWithoutType,
         {}),
        ('positional', lambda: Property(1), exc.PositionalArgumentsProhibited,
         {}),
        ('unknown kwarg', lambda: Property(nosucharg=1),
         exc.PropertyArgumentNotKnown, {'badkwarg': 'nosucharg'}),
        ('default args', lambda: Property(default=f2),
         exc.DefaultSignatureError, {'func': f2, 'nargs': 2}),
        ('lazy false', lambda: LazyProperty(lazy=False), exc.LazyIsFalse, {}),
        ('list of what', lambda: ListProperty(), exc.ListOfWhat, {}),
        ('dict of what', lambda: DictProperty(), exc.DictOfWhat, {}),
        ('ambiguous', lambda: Property(ambarg=1),
         exc.AmbiguousPropertyTraitArg, {'trait_arg': 'ambarg',
                                         'could_be': 'amba ambb'}),
        ('mutable none', lambda: Property(v1_none=[]), exc.NoneMutable,
         {'passed': []}),
        ('both init forms', lambda: XR({'q': 1}, q=2),
         exc.AmbiguousConstruction, {}),
        ('identity props', lambda: newclass(a=Property(), primary_key=['b']),
         exc.PropertiesNotKnown, {'badprop': repr('b')}),
        ('no attribute', lambda: FieldSelector(['nosuch']).get(ok()),
         exc.FieldSelectorAttributeError, {'name': 'nosuch'}),
        ('no item', lambda: FieldSelector(['d', 'k']).get(ok(d={})),
         exc.FieldSelectorKeyError, {'key': 'k'}),
        ('no index', lambda: FieldSelector(['ls', 3]).get(ok(ls=[1])),
         exc.FieldSelectorKeyError, {'key': 3}),
        ('subtype', lambda: nat(-1), exc.SubtypeNoCoerceFunc,
         {'passed': -1, 'subtype': nat, 'subtype_of': int}),
        ('subtype of', lambda: subtype('a', of=3, where=bool),
         exc.SubtypeOfWhat, {'of': 3}),
        ('json', lambda: from_json(XJ, {'sub': {'i': 'x'}}),
         exc.JsonConversionError, {}),
        ('json list', lambda: from_json(XL, {'xs': [{}, {'i': 'z'}]}),
         exc.JsonConversionError, {}),
        ('diff options', lambda: list(ok().diff_iter(ok(),
         options=DiffOptions(), moved=True)), exc.DiffOptionsException, {}),
        ('empty attr', lambda: placeholder(int).zz, exc.NoSuchAttribute,
         {'attribute': 'zz', 'typenames': 'int'}),
        ('visitor', lambda: VisitorPattern.cast(XJ, 'x'),
         exc.VisitorGrokRecordError, {'record_type': XJ,
                                      'record_type_name': 'XJ'}),
        ('visitor coll', lambda: VisitorPattern.cast(list_of(int), 5),
         exc.VisitorGrokCollectionError, {}),
        ('visitor unpack', lambda: VisitorPattern.visit(
            5, value_type=list_of(int)), exc.VisitorUnpackError,
         {'passed': 5}),
    ]


@scenario('C35', 150, 800)
def provoked(c):
    """every kind of error carries what it was about and can be printed"""
    es = errors()
    for what, fn, E, ctx in c.sample(es, min(6, len(es))):
        c.note(what)
        e = c.raises(E, fn, what)
        c.check(isinstance(e, exc.NormalizeError), 'base of', what)
        tag, s = c.outcome(lambda: str(e))
        c.check(tag == 'ok' and s and '{' not in s.replace('{}', ''),
                'message of', what, srepr(s))
        for k, v in ctx.items():
            tag, got = c.outcome(lambda: getattr(e, k))
            c.check(tag == 'ok', what, 'lacks', k)
            c.check(got is v or got == v, what, k, srepr(got))
        tag, s = c.outcome(lambda: repr(e))
        c.check(tag == 'ok' and type(e).__name__ in s, 'repr of', what)
        for k in [f[1].split('.')[0].split('[')[0] for f in
                  string.Formatter().parse(E.message) if f[1]]:
            if not k.isdigit():
                c.check(k in e.kwargs, what, 'lacks', k)
