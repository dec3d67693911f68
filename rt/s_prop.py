"""C01..C08, C33: declaration, construction, assignment, deletion."""
import datetime
import decimal
import fractions
import itertools
import normalize
import normalize.exc as exc
from normalize import *          # noqa
from normalize import Record, Property
from normalize.property import make_property_type, SafeProperty, ROProperty
from normalize.property import LazyProperty, V1Property, LazySafeProperty
from core import scenario, srepr
from gen import *                # noqa
from gen import MISSING


class Acceptor(object):
    pass


def check_store(c, rec, name, spec, want, before, others, what):
    pass


def decl(c, spec, **extra):
    kw = spec.kwargs()
    kw.update(extra)
    return Property(**kw)


def random_record(c, styles=('safe', 'ro', 'plain', 'json', 'lazy')):
    """(class, [(name, spec, meta)])"""
    n = c.int(1, 4)
    body, info = {}, []
    for i in range(n):
        spec = c.pick(SPECS)
        name = 'p%d' % i
        kw = spec.kwargs()
        meta = {'required': False, 'default': MISSING, 'style': 'plain'}
        st = c.pick(styles)
        if st == 'safe':
            kw['traits'] = ['safe']
        elif st == 'ro':
            kw['traits'] = ['ro']
        elif st == 'json':
            kw['json_name'] = 'J%d' % i
        elif st == 'lazy':
            kw['lazy'] = True
        meta['style'] = st
        if st == 'lazy':
            dv = value(c, spec)
            kw['default'] = (lambda v: lambda: v)(dv)
            meta['default'] = dv
        else:
            if c.coin(0.3):
                kw['required'] = meta['required'] = True
            if c.coin(0.35):
                dv = value(c, spec)
                meta['default'] = dv
                k = c.int(0, 2)
                if k == 0:
                    kw['default'] = (lambda v: lambda: v)(dv)
                elif k == 1:
                    kw['default'] = (lambda v: lambda self: v)(dv)
                else:
                    kw['default'] = dv
                    # an immutable false default makes the property a "v1"
                    # property (and hence safe), whose unset value it is
                    if not dv and dv.__hash__ and not callable(dv):
                        meta['v1'] = True
        body[name] = Property(**kw)
        if c.coin(0.2):
            pass
        info.append((name, spec, meta))
        c.note(name, spec.name, str({k: meta[k] for k in meta}))
    return type('R', (Record,), body), info


def model_init(info, given):
    """what the constructor must produce: ('ok', {slot: value}) or ('err', n)
    with the set of slots allowed to be blamed"""
    out, blame = {}, {}
    for name, spec, meta in info:
        if meta['style'] == 'lazy':
            if name in given:
                m = spec.model(given[name], init=True)
                if is_err(m):
                    blame[name] = m
                elif m is not MISSING:
                    out[name] = m
            continue
        if name in given:
            m = spec.model(given[name], meta['required'], init=True)
        elif meta['default'] is not MISSING and not (
                meta.get('v1')):
            m = spec.model(meta['default'], meta['required'], init=True)
        elif meta['required']:
            m = Err(exc.PropertyRequired)
        else:
            m = MISSING
        if m is MISSING and meta['required']:
            m = Err(exc.PropertyRequired)
        if is_err(m):
            blame[name] = m
        elif m is not MISSING:
            out[name] = m
    return out, blame


def build(c, cls, info, given, positional):
    if positional and given:
        return c.outcome(lambda: cls(dict(given)))
    return c.outcome(lambda: cls(**given))


@scenario(('C01', 'C04'), 500, 12000)
def construct(c):
    cls, info = random_record(c)
    given = {}
    for name, spec, meta in info:
        if c.coin(0.65):
            given[name] = value(c, spec)
    c.note('given', given)
    snap = repr(given)
    want, blame = model_init(info, given)
    tag, r = build(c, cls, info, given, c.coin())
    c.check(repr(given) == snap, 'constructor changed its arguments')
    if blame:
        c.check(tag == 'err', 'accepted a bad value', srepr(r), blame)
        ok = tuple(k for m in blame.values() for k in m.classes)
        c.check(isinstance(r, ok), 'wrong error', type(r).__name__,
                srepr(r), ok)
        if isinstance(r, (exc.CoercionError, exc.ValueCheckError,
                          exc.PropertyRequired)):
            c.check(r.prop.name in blame, 'blames', r.prop.name)
        return
    c.check(tag == 'ok', 'refused good values:', type(r).__name__, srepr(r))
    for name, spec, meta in info:
        if meta['style'] == 'lazy' and name not in want:
            continue
        if name in want:
            got = getattr(r, name)
            c.eq(got, want[name], 'slot', name)
            c.check(spec.conforms(got), 'slot does not conform', name, got)
            if name in given and (spec.isa is None or isinstance(
                    given[name], spec.isa)):
                c.check(got is given[name], 'conforming value replaced', name)
        elif meta.get('v1'):
            c.eq(getattr(r, name), meta['default'], 'unset v1', name)
        else:
            c.check(not hasattr(r, name), 'slot set from nowhere', name)


@scenario('C04', 200, 4000)
def unknown_args(c):
    cls, info = random_record(c, styles=('safe', 'plain'))
    good = dict((n, v) for n, s, m in info for v in [None])
    given = {}
    for name, spec, meta in info:
        for _ in range(20):
            v = value(c, spec)
            if spec.conforms_safe(v) if hasattr(spec, 'conforms_safe') else \
                    not is_err(spec.model(v, meta['required'], True)):
                given[name] = v
                break
    bad = c.pick(['nope', 'p9', '_p0', 'P0', 'properties', 'p0x'])
    v = c.pick([None, 1, 'x'])
    given2 = dict(given)
    given2[bad] = v
    c.note('given', given2)
    e = c.raises(exc.PropertyNotKnown, lambda: cls(**given2), 'unknown kwarg')
    c.eq(e.propname, bad, 'names the unknown property')
    c.raises(exc.PropertyNotKnown, lambda: cls(given2), 'unknown key')
    if given:
        c.raises(exc.AmbiguousConstruction,
                 lambda: cls(dict(given), **{bad: 1}), 'both forms')


@scenario('C04', 150, 3000)
def default_fresh(c):
    """a callable default is called anew for every instance"""
    calls = []
    kind = c.int(0, 3)

    def mk(self=None):
        calls.append(self)
        return [len(calls)]
    fns = [lambda: mk(), lambda self: mk(self), lambda x=3: mk(),
           lambda self, y=1: mk(self)]
    kw = {'default': fns[kind]}
    if c.coin():
        kw['isa'] = list
    if c.coin(0.3):
        kw['required'] = True
    if c.coin(0.3):
        kw['json_name'] = 'q'
    cls = type('D', (Record,), {'a': Property(**kw),
                                'b': Property(default=5)})
    rs = [cls() for _ in range(c.int(2, 4))]
    c.note('kind', kind, sorted(kw), len(rs))
    c.eq([r.a for r in rs], [[i + 1] for i in range(len(rs))], 'defaults')
    if kind in (1, 3):
        for r, s in zip(rs, calls):
            c.check(r is s, 'default method not given its instance')
    rs[0].a.append('x')
    c.check('x' not in rs[1].a, 'default shared')
    n = len(calls)
    r = cls(a=[9])
    c.eq(len(calls), n, 'default called although a value was given')
    c.eq(r.a, [9], 'value')
    c.eq(r.b, 5, 'plain default')
    c.eq(cls(b=6).b, 6, 'given over default')


@scenario(('C02', 'C07'), 500, 12000)
def history(c):
    """a random history of assignments and deletions"""
    spec = c.pick(SPECS)
    kw = spec.kwargs()
    req = c.coin(0.3)
    if req:
        kw['required'] = True
    st = c.pick(['safe', 'implied', 'json', 'named', 'prop'])
    if st == 'safe':
        kw['traits'] = ['safe']
    elif st == 'json':
        kw['json_name'] = 'jj'
        kw['traits'] = ['safe']
    elif st == 'implied' and spec.isa is None and spec.check is None and \
            not req:
        kw['required'] = req = True
    p = SafeProperty(**kw) if st == 'named' else Property(**kw)
    cls = type('H', (Record,), {'p': p, 'q': Property()})
    first = None
    for _ in range(60):
        v = value(c, spec)
        m = spec.model(v, req, True)
        if not is_err(m) and m is not MISSING:
            first = v
            break
    if first is None:
        if req:
            c.trivial = True
            c.check(True)
            return
        r = cls(q=1)
        cur = MISSING
    else:
        r = cls(p=first, q=1)
        cur = spec.model(first, req, True)
    c.note(spec.name, 'required' if req else '', st, 'init', first)
    for _ in range(c.int(1, 7)):
        op = c.pick(['set', 'set', 'set', 'del', 'other'])
        if op == 'other':
            r.q = c.int(0, 9)
        elif op == 'set':
            v = value(c, spec)
            m = spec.model(v, req, False)
            c.note('set', v, '->', m)
            tag, e = c.outcome(lambda: setattr(r, 'p', v))
            if is_err(m):
                c.check(tag == 'err', 'assignment accepted', v)
                c.check(isinstance(e, m.classes), 'wrong error',
                        type(e).__name__, m)
            else:
                c.check(tag == 'ok', 'assignment refused', v, srepr(e))
                cur = m
        else:
            c.note('del')
            tag, e = c.outcome(lambda: delattr(r, 'p'))
            if req:
                c.check(tag == 'err', 'deleted a required value')
                c.check(isinstance(e, exc.PropertyRequired), 'wrong error',
                        srepr(e))
            elif cur is MISSING:
                c.check(tag == 'err' and isinstance(e, AttributeError),
                        'deleting an unset slot:', tag, srepr(e))
            else:
                c.check(tag == 'ok', 'refused deletion', srepr(e))
                cur = MISSING
        if cur is MISSING:
            c.check(not hasattr(r, 'p'), 'slot set', srepr(
                getattr(r, 'p', None)))
            c.raises(AttributeError, lambda: r.p, 'unset read')
        else:
            c.eq(r.p, cur, 'slot')
            c.check(spec.conforms(r.p), 'does not conform', r.p)


@scenario('C02', 200, 4000)
def coll_history(c):
    """collection slots keep a collection of the declared item type"""
    kind = c.pick(['list', 'dict', 'jlist', 'jdict', 'coll'])
    of = c.pick([int, str, Inner])
    P = {'list': ListProperty, 'dict': DictProperty, 'jlist': JsonListProperty,
         'jdict': JsonDictProperty}.get(kind)
    ro = c.coin(0.2)
    kw = {'of': of}
    if ro:
        kw['traits'] = ['ro']
    if kind == 'coll':
        p = ListProperty(isa=cached(('lo', of), lambda: __import__(
            'normalize.coll', fromlist=['x']).list_of(of)), of=of, **(
            {'traits': ['ro']} if ro else {}))
    else:
        p = P(**kw)
    cls = type('CH', (Record,), {'p': p})
    isdict = 'dict' in kind

    def mk():
        n = c.int(0, 3)
        vals = [c.pick([c.int(0, 9), str(c.int(0, 9)), 'x', {'n': 1},
                        {'n': '7'}, None, Inner(n=2), [1]])
                for _ in range(n)]
        if isdict:
            return dict(zip('abc', vals))
        return c.pick([list, tuple])(vals)

    def conv(v):
        if isinstance(v, of):
            return v
        return of(v)

    def model(v):
        try:
            if isdict:
                return dict((k, conv(x)) for k, x in v.items())
            return [conv(x) for x in v]
        except Exception:
            return None
    r = None
    for _ in range(20):
        v = mk()
        if model(v) is not None:
            r = cls(p=v)
            cur = model(v)
            break
    if r is None:
        c.trivial = True
        return
    for _ in range(4):
        v = c.pick([mk, mk, mk, lambda: 'abc', lambda: 5])()
        m = None if isinstance(v, (str, int)) else model(v)
        c.note(kind, of.__name__, 'ro' if ro else '', 'set', v)
        tag, e = c.outcome(lambda: setattr(r, 'p', v))
        if ro:
            c.check(tag == 'err' and isinstance(
                e, exc.ReadOnlyAttributeError), 'ro', tag, srepr(e))
        elif m is None:
            if kind == 'dict' and v == 5:
                break
            c.check(tag == 'err', 'accepted', v, 'as', srepr(
                getattr(r, 'p', None)))
            c.check(isinstance(e, exc.CoercionError), 'error', srepr(e))
        else:
            c.check(tag == 'ok', 'refused', srepr(e))
            cur = m
        c.check(isinstance(r.p, type(r).properties['p'].valuetype),
                'slot is', type(r.p).__name__)
        got = dict(r.p.items()) if isdict else list(r.p)
        c.eq(got, cur, 'contents')
        for x in (got.values() if isdict else got):
            c.check(isinstance(x, of), 'item type', x)


@scenario(('C02', 'C03'), 150, 2000)
def cross_talk(c):
    """values of different instances and properties never mix"""
    s1, s2 = c.pick(SPECS), c.pick(SPECS)
    Base = type('B', (Record,), {'a': Property(traits=['safe'],
                                              **s1.kwargs())})
    Sub = type('S', (Base,), {'b': Property(traits=['safe'], **s2.kwargs())})
    rs = [Sub(), Sub(), Base()]
    model = [{}, {}, {}]
    for _ in range(8):
        i = c.int(0, 2)
        n = c.pick('ab') if i < 2 else 'a'
        sp = s1 if n == 'a' else s2
        v = value(c, sp)
        m = sp.model(v)
        c.note(i, n, sp.name, v)
        tag, e = c.outcome(lambda: setattr(rs[i], n, v))
        c.check((tag == 'err') == is_err(m), 'outcome', tag, m)
        if not is_err(m):
            model[i][n] = m
        for r, mm in zip(rs, model):
            c.eq(slots(r, 'ab'), mm, 'state')


@scenario('C03', 400, 8000)
def coercion_protocol(c):
    """the exact calls made of isa/coerce/check"""
    log = []
    want_t = c.pick([int, str, (int, str), Weird])

    mode = c.pick(['ok', 'raise', 'wrong', 'none', 'default'])
    # something which is of none of the types, false or not
    bad = c.pick([None, [], {}, (), 0.0, 1.5, b'', frozenset(), object()])
    good = {int: 41, str: 'zz', (int, str): 42, Weird: Weird('g')}[want_t]

    def co(v):
        log.append(('coerce', v))
        if mode == 'raise':
            raise c.pick([ValueError, KeyError, TypeError,
                          ZeroDivisionError])('x')
        if mode == 'wrong':
            return [v] if bad is None else bad
        if mode == 'none':
            return None
        return good
    verdict = c.pick([True, False, 1, 0, '', 'y', None])

    def ck(v):
        log.append(('check', v))
        return verdict
    kw = {'isa': want_t, 'traits': ['safe']}
    has_co = mode != 'default'
    if has_co:
        kw['coerce'] = co
    elif isinstance(want_t, tuple):
        has_co = True
        mode = 'ok'
        kw['coerce'] = co
    has_ck = c.coin(0.6)
    if has_ck:
        kw['check'] = ck
    if c.coin(0.3):
        kw['required'] = True
    cls = type('P', (Record,), {'p': Property(**kw)})
    v = value(c)
    init = c.coin()
    c.note(str(want_t), mode, 'check' if has_ck else '', verdict, 'init' if
           init else 'set', v, 'req' if 'required' in kw else '')
    seed = {int: 3, str: 's', (int, str): 4, Weird: Weird('s')}[want_t]
    if init:
        run = lambda: cls(p=v)
    else:
        try:
            sv, verdict = verdict, True
            r = cls(p=seed)
        finally:
            verdict = sv
        del log[:]

        def run():
            r.p = v
            return r
    tag, res = c.outcome(run)
    want_log = []
    err = None
    cur = v
    if not isinstance(v, want_t):
        if has_co:
            want_log.append(('coerce', v))
        if mode == 'default':
            try:
                cur = want_t(v)
            except Exception:
                err = exc.CoerceError
        elif mode == 'raise':
            err = exc.CoerceError
        elif mode in ('wrong', 'none'):
            if mode == 'none' and init and 'required' not in kw:
                cur = MISSING
            elif mode == 'none' and init:
                err = (exc.ValueCoercionError, exc.PropertyRequired)
            else:
                err = exc.ValueCoercionError
        else:
            cur = good
    if err is None and cur is not MISSING and has_ck:
        want_log.append(('check', cur))
        if not verdict:
            err = exc.ValueCheckError
    c.check(len(log) == len(want_log) and all(
        a[0] == b[0] and (a[1] is b[1] or a[1] == b[1])
        for a, b in zip(log, want_log)), 'calls', log, 'want', want_log)
    if err is not None:
        c.check(tag == 'err' and isinstance(res, err), 'outcome', tag,
                srepr(res), 'want', str(err))
        if not init:
            c.eq(r.p, seed, 'slot after failed store')
        c.check(res.prop is cls.properties['p'], 'error names the property')
        if hasattr(exc, 'CoerceError') and isinstance(
                res, (exc.CoerceError, exc.ValueCoercionError)):
            c.check(res.passed is v, 'error carries the passed value')
    elif cur is MISSING:
        c.check(tag == 'ok' and not hasattr(res, 'p'), 'silently dropped')
    else:
        c.check(tag == 'ok', 'refused', srepr(res))
        c.check(res.p is cur or res.p == cur, 'stored', res.p, 'want', cur)
        if isinstance(v, want_t):
            c.check(res.p is v, 'conforming value not stored as is')


# ------------------------------------------------------------------ C05
RO_COMBOS = [
    dict(), dict(lazy=True, default=lambda: 5), dict(json_name='j'),
    dict(isa=int), dict(check=lambda x: True), dict(default=3),
    dict(default=None), dict(default=0, isa=int), dict(required=True),
    dict(json_name='j', lazy=True, default=lambda self: 8),
    dict(v1_none=''), dict(json_in=lambda x: x, isa=int),
    dict(compare_as=lambda x: x), dict(extraneous=True),
    dict(json_name='j', default=None), dict(json_name='j', compare_as=lambda x: x,
                                            lazy=True, default=lambda: 1),
    dict(isa=int, default=lambda: 0, json_name='k', lazy=True),
    dict(traits=['safe']), dict(traits=['v1']), dict(traits=['json']),
    dict(traits=['lazy'], default=lambda: 9),
    dict(traits=['safe', 'lazy'], default=lambda: 2),
]


@scenario('C05', 300, 3000)
def readonly(c):
    combo = dict(RO_COMBOS[c.index % len(RO_COMBOS)])
    via = c.pick(['trait', 'class', 'list', 'dict', 'type'])
    traits = list(combo.pop('traits', []))
    lazy = combo.get('lazy') or 'lazy' in traits
    c.note(via, str(sorted(combo)), traits)
    try:
        if via == 'trait':
            p = Property(traits=traits + ['ro'], **combo)
        elif via == 'class':
            p = ROProperty(**dict(combo, **({'traits': traits} if traits
                                            else {})))
        elif via == 'type':
            T = cached('ro_int_type', lambda: make_property_type(
                'ROInt', traits=['ro'], trait_name='roint'))
            p = T(**combo)      # (traits= would override the made default)
            lazy = bool(combo.get('lazy'))
        else:
            P = ListProperty if via == 'list' else DictProperty
            combo = {k: combo[k] for k in combo if k in (
                'json_name', 'required', 'extraneous', 'compare_as')}
            p = P(of=int, traits=['ro'], **combo)
            lazy = False
    except exc.PropertyTypeMixNotFound:
        c.note('not composable')
        return
    cls = type('RO', (Record,), {'p': p})
    if c.coin(0.3):
        cls = type('ROSub', (cls,), {'z': Property()})
    coll = via in ('list', 'dict')
    val = [1] if via == 'list' else {'a': 1} if via == 'dict' else 7
    given = {'p': val} if (combo.get('required') or c.coin(0.7)) else {}
    r = cls(**given)
    for step in range(c.int(1, 4)):
        before = srepr(r)
        had = repr(getattr(r, 'p', MISSING)) if not lazy or step else None
        op = c.pick(['set', 'set', 'del', 'setsame', 'get'])
        c.note(op)
        if op == 'set':
            v = c.pick([1, 99, None, 'x', [2], {'b': 3}])
            e = c.raises(exc.ReadOnlyAttributeError,
                         lambda: setattr(r, 'p', v), 'assign')
            c.check(isinstance(e, AttributeError), 'AttributeError')
        elif op == 'del':
            c.raises(exc.ReadOnlyAttributeError, lambda: delattr(r, 'p'),
                     'delete')
        elif op == 'setsame':
            v = getattr(r, 'p', 1)
            c.raises(exc.ReadOnlyAttributeError,
                     lambda: setattr(r, 'p', v), 'assign same')
            continue
        if had is not None:
            c.eq(repr(getattr(r, 'p', MISSING)), had, 'value unchanged')
        if not lazy:
            c.eq(srepr(r), before, 'unchanged')
    if given and not coll:
        c.check(r.p == 7, 'value kept', r.p)
    if given and coll:
        c.eq(list(r.p) if via == 'list' else dict(r.p.items()), val, 'kept')


# ------------------------------------------------------------------ C06
@scenario('C06', 400, 6000)
def lazy(c):
    calls = []
    spec = c.pick(SPECS)
    v = value(c, spec)
    method = c.coin()
    kind = c.pick(['lazy', 'lazysafe', 'rolazy', 'jsonlazy', 'LazyProperty',
                   'safejsonlazy'])
    kw = spec.kwargs()
    boom = c.coin(0.15)

    def compute():
        if boom and len(calls) == 1:
            raise RuntimeError('first computation fails')
        return v
    if method:
        def default(self):
            calls.append(self)
            return compute()
    else:
        def default():
            calls.append(None)
            return compute()
    if kind == 'LazyProperty':
        P = LazyProperty
    else:
        P = Property
        kw['lazy'] = True
    if kind == 'rolazy':
        kw['traits'] = ['ro']
    elif kind in ('jsonlazy', 'safejsonlazy'):
        kw['json_name'] = 'jl'
    if kind in ('lazysafe', 'safejsonlazy'):
        kw['traits'] = ['safe']
    cls = type('L', (Record,), {'p': P(default=default, **kw),
                                'q': Property()})
    r = cls(q=1)
    r2 = cls(q=2)
    c.note(kind, spec.name, 'value', v, 'method' if method else '')
    c.eq(len(calls), 0, 'computed at construction')
    if not method and c.coin(0.3) and not boom:
        pass
    m = spec.model(v, False, False)
    if boom:
        c.raises(RuntimeError, lambda: r.p, 'computation error')
        c.eq(len(calls), 1, 'calls')
    if is_err(m):
        for i in range(3):
            n0 = len(calls)
            tag, e = c.outcome(lambda: r.p)
            c.check(tag == 'err' and isinstance(e, m.classes),
                    'bad lazy value', 'read', i, tag, srepr(e))
            c.eq(len(calls), n0 + 1, 'a failed computation is tried again')
            c.check('p' not in r.__dict__, 'failed computation stored')
        return
    n0 = len(calls)
    a = r.p
    c.eq(len(calls), n0 + 1, 'computed on first read')
    c.eq(a, m, 'value')
    c.check(spec.conforms(a), 'conforms')
    if method:
        c.check(calls[-1] is r, 'method receives its record')
    for _ in range(c.int(1, 3)):
        b = r.p
        c.check(b is a, 'same object on every read')
    c.eq(len(calls), n0 + 1, 'computed again')
    r2.p
    c.eq(len(calls), n0 + 2, 'per instance')
    # explicit value wins
    if not is_err(spec.model(v, False, True)):
        r3 = cls(p=v)
        k = len(calls)
        if spec.model(v, False, True) is not MISSING:
            c.eq(r3.p, spec.model(v, False, True), 'given value')
            c.eq(len(calls), k, 'computed although given')
    if kind in ('lazysafe', 'safejsonlazy', 'lazy', 'jsonlazy',
                'LazyProperty') and spec.isa is not None:
        w = value(c, spec)
        mw = spec.model(w)
        if not is_err(mw):
            k = len(calls)
            r.p = w
            if kind in ('lazysafe', 'safejsonlazy') or spec.conforms(w):
                c.eq(r.p, mw, 'assigned value')
                c.eq(len(calls), k, 'recomputed after assignment')
    c.raises(exc.LazyIsFalse, lambda: Property(lazy=False,
                                               default=lambda: 1), 'lazy=0')


@scenario('C06', 150, 2000)
def lazy_chain(c):
    """lazy values computed from other slots, order independent"""
    n = c.int(2, 5)
    calls = []
    body = {'p0': Property(isa=int, default=lambda: 1)}
    for i in range(1, n):
        def d(self, i=i):
            calls.append(i)
            return getattr(self, 'p%d' % (i - 1)) + 1
        body['p%d' % i] = Property(isa=int, lazy=True, default=d, **(
            {'traits': ['safe']} if c.coin() else {}))
    r = type('LC', (Record,), body)()
    order = [c.int(1, n - 1) for _ in range(6)]
    c.note(n, order)
    for i in order:
        c.eq(getattr(r, 'p%d' % i), i + 1, 'chain')
    c.eq(sorted(set(calls)), sorted(calls), 'each computed once')
    c.eq(sorted(calls), list(range(1, max(order) + 1)), 'only those needed')
    if c.coin():
        r2 = type(r)(p0=10)
        c.eq(r2.p1, 11, 'second instance')


# ------------------------------------------------------------------ C07
@scenario('C07', 300, 5000)
def v1_semantics(c):
    nones = [None, '', 0, False, (), 0.0, frozenset()]
    none = c.pick(nones)
    how = c.pick(['default', 'v1_none', 'class'])
    spec = c.pick([BYNAME[n] for n in ('int', 'str', 'any', 'weird', 'inner',
                                       'tens', 'union')])
    kw = spec.kwargs()
    if how == 'default':
        kw['default'] = none
        p = Property(**kw)
    elif how == 'v1_none':
        p = Property(v1_none=none, **kw)
    else:
        p = V1Property(v1_none=none, **kw)
    cls = type('V', (Record,), {'p': p})
    c.note(how, none, spec.name)
    r = cls()
    c.check(r.p is none or (r.p == none and type(r.p) is type(none)),
            'unset reads as', srepr(r.p))
    cur = MISSING
    for _ in range(c.int(1, 6)):
        op = c.pick(['set', 'set', 'setnone', 'del', 'None'])
        if op == 'del':
            c.note('del')
            tag, e = c.outcome(lambda: delattr(r, 'p'))
            c.check(tag == 'ok' or (cur is MISSING and isinstance(
                e, AttributeError)), 'deletion', srepr(e))
            cur = MISSING
        else:
            v = value(c, spec) if op == 'set' else (
                none if op == 'setnone' else None)
            m = spec.model(v)
            c.note('set', v)
            tag, e = c.outcome(lambda: setattr(r, 'p', v))
            if is_err(m):
                if v is None or v == none:
                    c.check(tag == 'ok', 'clearing with the none value',
                            srepr(e))
                    cur = MISSING
                else:
                    c.check(tag == 'err' and isinstance(e, m.classes),
                            'accepted', v)
            else:
                c.check(tag == 'ok', 'refused', srepr(e))
                cur = m
        if cur is MISSING:
            c.check(r.p is none or (r.p == none and type(r.p) is type(none)),
                    'unset reads as', srepr(r.p))
        else:
            c.eq(r.p, cur, 'set value')


@scenario('C07', 200, 3000)
def unset_plain(c):
    """unset slots: AttributeError, hasattr False, class access gives the
    property, other slots not affected"""
    spec = c.pick(SPECS)
    kw = spec.kwargs()
    tr = c.pick([None, 'safe', 'ro', 'json', 'diffas'])
    if tr == 'json':
        kw['json_name'] = 'j'
    elif tr == 'diffas':
        kw['compare_as'] = lambda x: x
    elif tr:
        kw['traits'] = [tr]
    cls = type('U', (Record,), {'p': Property(**kw), 'q': Property()})
    r = cls(q=3)
    c.note(spec.name, str(tr))
    e = c.raises(AttributeError, lambda: r.p, 'unset')
    c.check('p' in str(e), 'names the attribute', str(e))
    c.check(not hasattr(r, 'p') and hasattr(r, 'q'), 'hasattr')
    c.check(cls.p is cls.properties['p'], 'class attribute')
    c.eq(getattr(r, 'p', 'dflt'), 'dflt', 'getattr default')
    c.check(cls.p.__get__(r, cls) if False else True, '')
    if tr in (None, 'diffas') and not kw.get('isa') and not kw.get('check'):
        r.p = v = value(c)
        c.check(r.p is v, 'unchecked')
        del r.p
        c.check(not hasattr(r, 'p'), 'deleted')


# ------------------------------------------------------------------ C08
ARGS = [
    ('isa', int, None), ('check', lambda v: True, None),
    ('required', True, None), ('extraneous', True, None),
    ('doc', 'd', None), ('json_name', 'j', 'json'),
    ('json_in', lambda x: x, 'json'), ('json_out', lambda x: x, 'json'),
    ('compare_as', lambda x: x, 'diffas'), ('v1_none', '', 'v1'),
    ('lazy', True, 'lazy'), ('list_of', int, 'list'), ('dict_of', int,
                                                       'dict'),
]


@scenario('C08', 500, 8000)
def trait_selection(c):
    picked = c.sample(ARGS, c.int(0, 5))
    names = [a for a, v, t in picked]
    if 'list_of' in names and 'dict_of' in names:
        picked = [x for x in picked if x[0] != 'dict_of']
        names.remove('dict_of')
    kw = dict((a, v) for a, v, t in picked)
    if 'list_of' in names or 'dict_of' in names:
        kw.pop('isa', None)
    if 'lazy' in names:
        kw['default'] = lambda: 1
    dv = c.pick([MISSING, MISSING, None, '', 0, 5, 'x'])
    if 'lazy' not in names and dv is not MISSING and \
            'list_of' not in names and 'dict_of' not in names:
        kw['default'] = dv
    explicit = c.pick([[], [], ['ro'], ['unsafe'], ['safe'], ['json'],
                       ['v1'], ['lazy']])
    want = set(t for a, v, t in picked if t and a in kw) | set(explicit)
    if 'lazy' in explicit and 'default' not in kw:
        kw['default'] = lambda: 2
    if want & {'list', 'dict'}:
        want.add('coll')
    safe_unless = any(a in kw for a in ('isa', 'required', 'check')) or \
        bool(want & {'coll'})
    if 'unsafe' in want and 'safe' not in want:
        want.discard('unsafe')
    elif 'ro' not in want and safe_unless:
        want.add('safe')
    d = kw.get('default', MISSING)
    if 'v1' not in want and d is not MISSING and not callable(d) and not d:
        want.add('v1')
        want.add('safe')
    if 'v1' in want:
        want.add('safe')
    args = dict(kw)
    if explicit:
        args['traits'] = explicit
    # V1Property declares safe through inheritance
    c.note(str(sorted(args)), explicit, 'want', str(sorted(want)))
    if 'unsafe' in explicit and 'v1_none' in kw:
        return          # contradictory: v1 properties are safe
    if 'v1' in explicit and not safe_unless and 'v1_none' not in kw:
        return          # the v1 trait must be requested together with safe
    tag, p = c.outcome(lambda: Property(**args))
    if tag == 'err':
        # a "v1" property of five and more traits may have no
        # consistent composition
        c.check(len(want) > 4 and 'v1' in want,
                'declaration failed', type(p).__name__, srepr(p))
        return
    c.eq(set(p.traits), want, 'traits')
    c.check(isinstance(p, Property), 'is a Property')
    p2 = Property(**args)
    c.check(type(p2) is type(p), 'same declaration, same type')
    # every requested trait's behaviour is there
    if 'json' in want:
        c.check(isinstance(p, JsonProperty), 'json')
    if 'ro' in want:
        c.check(isinstance(p, ROProperty), 'ro')
    if 'safe' in want:
        c.check(isinstance(p, SafeProperty), 'safe')
    if 'lazy' in want:
        c.check(isinstance(p, LazyProperty), 'lazy')
    if 'list' in want:
        c.check(isinstance(p, ListProperty), 'list')
    if 'v1' in want:
        c.check(isinstance(p, V1Property), 'v1')
    # every accepted argument takes effect
    cls = type('T', (Record,), {'p': p})
    if 'json_name' in kw:
        c.eq(p.json_name, 'j', 'json_name')
    elif 'json' in want:
        c.eq(p.json_name, 'p', 'json_name default')
    c.eq(bool(p.extraneous), bool(kw.get('extraneous')), 'extraneous')
    c.eq(bool(p.required), bool(kw.get('required')), 'required')
    c.eq(p.__doc__, kw.get('doc'), 'doc')
    if 'isa' in kw:
        c.check(p.valuetype is int, 'valuetype')
    c.eq(p.name, 'p', 'name')
    c.check('p' in cls.properties, 'registered')
    ro = 'ro' in want
    if not (want & {'coll'}):
        tag, r = c.outcome(lambda: cls(p=5))
        c.check(tag == 'ok', 'construct', srepr(r))
        c.eq(r.p, 5, 'value')
        tag, e = c.outcome(lambda: setattr(r, 'p', 6))
        c.check((tag == 'err') == ro, 'assign ro=%s' % ro, tag, srepr(e))
        tag, e = c.outcome(lambda: setattr(r, 'p', 'zz'))
        bad = ro or ('isa' in kw and 'safe' in want)
        c.check((tag == 'err') == bad, 'assign bad=%s' % bad, tag, srepr(e))


@scenario('C08', 200, 2000)
def bad_declarations(c):
    from normalize.property.coll import CollectionProperty
    L = cached('l_int', lambda: __import__(
        'normalize.coll', fromlist=['x']).list_of(int))
    cases = [
        (lambda: Property(int), exc.PositionalArgumentsProhibited),
        (lambda: Property(bogus=1), exc.PropertyArgumentNotKnown),
        (lambda: SafeProperty(isa=int, bogus=1),
         exc.PropertyArgumentNotKnown),
        (lambda: Property(coerce=int), exc.CoerceWithoutType),
        (lambda: Property(traits=['nosuchtrait']),
         exc.PropertyTypeMixNotFound),
        (lambda: Property(default=lambda a, b: 1),
         exc.DefaultSignatureError),
        (lambda: Property(default=lambda self, b: 1),
         exc.DefaultSignatureError),
        (lambda: ListProperty(), exc.ListOfWhat),
        (lambda: DictProperty(), exc.DictOfWhat),
        (lambda: ListProperty(of=int, coll=DictCollection),
         exc.ListPropertyMustDeriveListCollection),
        (lambda: DictProperty(of=int, coll=ListCollection),
         exc.DictPropertyMustDeriveDictCollection),
        (lambda: CollectionProperty(of=int), exc.CollRequiredError),
        (lambda: Property(compare_as=lambda a, b: 1),
         exc.CompareAsSignatureError),
        (lambda: Property(lazy=False, default=lambda: 1), exc.LazyIsFalse),
        (lambda: JsonProperty(json_nam='x'), exc.PropertyArgumentNotKnown),
        (lambda: ListProperty(of=str, isa=L), exc.CollTypeMismatch),
        (lambda: make_property_type('Clash', trait_name='safe'),
         exc.PropertyTypeClash),
    ]
    i = c.index % len(cases)
    fn, e = cases[i]
    c.note('case', i, e.__name__)
    c.raises(e, fn, 'declaration %d' % i)


@scenario('C08', 200, 2000)
def made_types(c):
    """make_property_type: defaults, overridden by the declaration"""
    base = c.pick([Property, SafeProperty, IntProperty, JsonProperty])
    dflt = {'required': c.coin()}
    if base is not IntProperty and c.coin(0.7):
        dflt['isa'] = c.pick([int, str, float])
    if c.coin():
        dflt['extraneous'] = True
    if c.coin(0.4):
        dflt['json_name'] = 'made'
    T = make_property_type('Made%d' % c.index, base_type=base, **dflt)
    over = {}
    if c.coin():
        over['required'] = c.coin()
    if c.coin():
        over['extraneous'] = c.coin()
    if c.coin(0.3):
        over['isa'] = str
    c.note(base.__name__, str(sorted(dflt.items(), key=str)), str(
        sorted(over.items(), key=str)))
    p = T(**over)
    c.check(isinstance(p, T), 'type')
    c.check(isinstance(p, base), 'base type')
    e = dict(dflt)
    e.update(over)
    c.eq(bool(p.required), bool(e.get('required')), 'required')
    c.eq(bool(p.extraneous), bool(e.get('extraneous')), 'extraneous')
    want = e.get('isa', int if base is IntProperty else None)
    c.check(p.valuetype is want, 'isa', str(p.valuetype), str(want))
    if 'json_name' in dflt:
        c.eq(p.json_name, 'made', 'json_name')
    p3 = T()
    c.eq(bool(p3.required), bool(dflt['required']), 'defaults not changed '
         'by an earlier declaration')
    cls = type('M', (Record,), {'p': p})
    if e.get('required'):
        c.raises(exc.PropertyRequired, cls, 'required')


# ------------------------------------------------------------------ C33
D, DT = datetime.date, datetime.datetime


class DSub(datetime.date):
    pass


class DTSub(datetime.datetime):
    pass


class ISub(int):
    pass


class SSub(str):
    pass


class FSub(float):
    pass


def _date_cases():
    return [
        (DSub(2020, 1, 2), DSub(2020, 1, 2)),
        (DTSub(2020, 1, 2, 3), D(2020, 1, 2)),
        (D(2014, 2, 3), D(2014, 2, 3)), (DT(2014, 2, 3, 4, 5, 6),
                                         D(2014, 2, 3)),
        ('2014-02-03', D(2014, 2, 3)), ('20140203', D(2014, 2, 3)),
        ('2014-02-03T10:11:12', D(2014, 2, 3)),
        (5, Err(exc.CoerceError)), (None, Err(exc.CoerceError)),
        ([], Err(exc.CoerceError)),
    ]


def _dt_cases():
    return [
        (DTSub(2020, 1, 2, 3), DTSub(2020, 1, 2, 3)),
        (DSub(2020, 1, 2), DT(2020, 1, 2)),
        (DT(2014, 2, 3, 4, 5, 6), DT(2014, 2, 3, 4, 5, 6)),
        (DT(2014, 2, 3, 4, 5, 6, 789), DT(2014, 2, 3, 4, 5, 6, 789)),
        (D(2014, 2, 3), DT(2014, 2, 3)),
        ('2014-02-03T10:11:12', DT(2014, 2, 3, 10, 11, 12)),
        ('2014-02-03 10:11', DT(2014, 2, 3, 10, 11)),
        ('2014-02-03', DT(2014, 2, 3)),
        (7, Err(exc.CoerceError)), (None, Err(exc.CoerceError)),
    ]


CE = Err(exc.CoerceError)
FIXED = {
    'IntProperty': [(ISub(4), ISub(4)), (3, 3), ('14', 14), (2.9, 2), (True, True), ('x', CE),
                    (None, CE), ([], CE)],
    'LongProperty': [(3, 3), ('14', 14), (10**30, 10**30), ('x', CE)],
    'IntegerProperty': [(3, 3), ('14', 14), (2.9, 2), ('x', CE), (None, CE)],
    'NumberProperty': [(3, 3), (2.5, 2.5), ('14', 14), ('2.5', 2.5),
                       ('1e3', 1000.0), ('x', CE), (None, CE),
                       (decimal.Decimal('1.5'), decimal.Decimal('1.5')),
                       (fractions.Fraction(1, 3), fractions.Fraction(1, 3)),
                       (1j, 1j), (True, True), ('-7', -7), (' 8 ', 8)],
    'StringProperty': [(SSub('q'), SSub('q')), ('x', 'x'), (3, '3'), (None, 'None'), ('', '')],
    'UnicodeProperty': [('x', 'x'), ('\u00e9', '\u00e9'),
                        (3, Err(exc.ValueCoercionError)),
                        (b'x', Err(exc.ValueCoercionError))],
    'FloatProperty': [(FSub(2.5), FSub(2.5)), (2.5, 2.5), (3, 3.0), ('1.5', 1.5), ('x', CE)],
    'DateProperty': _date_cases(),
    'DatetimeProperty': _dt_cases(),
}
TYPES = {
    'IntProperty': int, 'LongProperty': int, 'IntegerProperty': int,
    'NumberProperty': (int, float, complex, decimal.Decimal,
                       fractions.Fraction),
    'StringProperty': str, 'UnicodeProperty': str, 'FloatProperty': float,
    'DateProperty': D, 'DatetimeProperty': DT,
}


@scenario('C33', 400, 6000)
def typed(c):
    import normalize.property.types as T
    nm = c.pick(sorted(FIXED))
    P = getattr(normalize, nm)
    kw = {}
    if c.coin(0.2):
        kw['required'] = True
    if c.coin(0.2):
        kw['json_name'] = 'x'
    if c.coin(0.2):
        kw['traits'] = ['safe']
    cls = type('TP', (Record,), {'p': P(**kw)})
    v, want = c.pick(FIXED[nm])
    if c.coin(0.4):
        # generated inputs
        y, mo, d = c.int(1900, 2099), c.int(1, 12), c.int(1, 28)
        h, mi, s = c.int(0, 23), c.int(0, 59), c.int(0, 59)
        if nm == 'DateProperty':
            v, want = c.pick([
                (D(y, mo, d), D(y, mo, d)),
                (DT(y, mo, d, h, mi, s), D(y, mo, d)),
                (D(y, mo, d).isoformat(), D(y, mo, d)),
                (DT(y, mo, d, h, mi, s).isoformat(), D(y, mo, d))])
        elif nm == 'DatetimeProperty':
            v, want = c.pick([
                (DT(y, mo, d, h, mi, s), DT(y, mo, d, h, mi, s)),
                (D(y, mo, d), DT(y, mo, d)),
                (DT(y, mo, d, h, mi, s).isoformat(), DT(y, mo, d, h, mi, s)),
            ])
        elif nm == 'NumberProperty':
            n = c.int(-10**6, 10**6)
            v, want = c.pick([(str(n), n), (n, n), (n / 7., n / 7.),
                              (repr(n / 7.), n / 7.)])
        elif nm in ('IntProperty', 'IntegerProperty', 'LongProperty'):
            n = c.int(-10**6, 10**6)
            v, want = c.pick([(str(n), n), (n, n), (float(n), n)])
    c.note(nm, v, '->', want)
    mode = c.pick(['init', 'set'])
    if mode == 'init':
        tag, r = c.outcome(lambda: cls(p=v))
    else:
        ok = [a for a, b in FIXED[nm] if not is_err(b)][0]
        r = cls(p=ok)
        tag, e = c.outcome(lambda: setattr(r, 'p', v))
        if tag == 'err':
            r = e
    if is_err(want):
        c.check(tag == 'err' and isinstance(r, want.classes), 'accepted', v,
                srepr(r))
        return
    c.check(tag == 'ok', 'refused', v, srepr(r))
    c.eq(r.p, want, 'value')
    c.check(type(r.p) is type(want), 'type', type(r.p).__name__)
    if type(v) is type(want) and v == want:
        c.check(r.p is v, 'conforming value replaced')
    c.check(isinstance(r.p, TYPES[nm]), 'type', type(r.p).__name__)
    if nm == 'DateProperty':
        c.check(not isinstance(r.p, DT), 'a date slot holds a datetime')
    if nm in ('DateProperty', 'DatetimeProperty'):
        j = to_json(r)
        key = 'x' if 'json_name' in kw else 'p'
        c.eq(j, {key: want.isoformat()}, 'to_json')
        if getattr(want, 'microsecond', 0):
            return
        r2 = from_json(cls, j)
        c.eq(r2.p, want, 'json round trip')


@scenario('C33', 60, 400)
def numbers(c):
    """a number of another kind keeps its value"""
    import decimal
    import fractions
    n = c.int(-400, 400)
    class Reading(object):
        def __init__(self, v):
            self.v = v

        def __float__(self):
            return self.v / 4.

        def __int__(self):
            return self.v // 4
    v = c.pick([decimal.Decimal(n) / 4, fractions.Fraction(n, 8),
                decimal.Decimal(n), Reading(n)])
    cls = cached('numprop', lambda: type('NumP', (Record,), {
        'p': normalize.NumberProperty()}))
    c.note(srepr(v))
    r = cls(p=v)
    if isinstance(v, Reading):
        c.check(type(r.p) is float and r.p == n / 4., 'value', srepr(r.p))
    c.check(isinstance(v, Reading) or r.p == v, 'value', srepr(r.p))
    c.check(isinstance(r.p, (int, float, decimal.Decimal,
                             fractions.Fraction)), 'kind', srepr(r.p))


@scenario('C33', 60, 400)
def date_type(c):
    import normalize.property.types as T
    v = c.pick([D(2000, 1, 2), DT(2000, 1, 2), DT(2000, 1, 2, 3), 5, None,
                'x', DSub(2000, 1, 2), DTSub(2000, 1, 2), DTSub(2000, 1, 2,
                                                                3)])
    c.note(v)
    c.check(isinstance(v, T.date) == (isinstance(v, D) and
                                      not isinstance(v, DT)), 'date type', v)


@scenario('C07', 120, 800)
def lazy_without_default(c):
    """a lazy slot with nothing to compute is just an unset slot"""
    kw = dict(lazy=True)
    if c.coin(0.5):
        kw['isa'] = c.pick([str, int, list])
    style = c.pick(['plain', 'json', 'v1', 'v1default', 'ro'])
    none = MISSING
    if style == 'json':
        kw['json_name'] = 'jj'
    elif style == 'v1':
        none = kw['v1_none'] = c.pick([None, '', 0])
    elif style == 'v1default':
        none = kw['default'] = c.pick([None, '', 0, False])
    elif style == 'ro':
        kw['traits'] = ['ro']
    c.note(style, str(kw))
    from normalize.property import Property
    cls = type('LZ', (Record,), {'p': Property(**kw)})
    r = cls()
    for i in range(c.int(1, 3)):
        if none is MISSING:
            e = c.raises(AttributeError, lambda: r.p, 'read of an unset slot')
            c.check('LZ.p' in str(e), 'the error names the slot', str(e))
        else:
            c.check(r.p is none or r.p == none and type(r.p) is type(none),
                    'gives the none value', srepr(r.p))
        c.check('p' not in r.__dict__, 'reading sets nothing', r.__dict__)
