"""C17..C19 and C34: JSON marshalling against an independent oracle that works
from the declared schema."""
import copy
import json
import random
import normalize.exc as exc
from normalize import *          # noqa
from normalize import Record, Property, FieldSelector
from normalize.coll import list_of
from normalize.record.json import (
    JsonRecordDict, NCAutoJsonRecord, AutoJsonRecord, from_json, to_json)
from core import scenario, srepr
from gen import cached

BIG = 2 ** 50


class Field(object):
    def __init__(self, name, kind, jname, extr, T=None, codec=False,
                 prop=None):
        self.name, self.kind, self.jname, self.extr = name, kind, jname, extr
        self.T, self.codec, self.prop = T, codec, prop


class Schema(object):
    def __init__(self, cls, fields, js):
        self.cls, self.fields, self.js = cls, fields, js


def enc(v):
    return 'v%s' % json.dumps(v)


def dec(s):
    if not isinstance(s, str) or not s.startswith('v'):
        raise ValueError('not encoded: %r' % (s,))
    return json.loads(s[1:])


def schema(rng, uid, depth):
    """a random record class with its declared JSON mapping"""
    js = rng.random() < 0.7
    fields, body = [], {}
    for i, name in enumerate('abcdefg'[:rng.randint(1, 6)]):
        kinds = ['int', 'str', 'any', 'float']
        if depth:
            kinds += ['rec', 'rec', 'jlist', 'jdict', 'list', 'jlist']
        kind = rng.choice(kinds + ['ints', 'intd'])
        r = rng.random()
        jname = name if r < 0.4 else None if r < 0.5 else 'J' + name \
            if r < 0.9 else rng.choice(['with space', 'é', 'x.y', '0']) + name
        extr = rng.random() < 0.15
        codec = kind in ('int', 'any') and rng.random() < 0.3
        kw = {}
        if jname != name:
            kw['json_name'] = jname
        elif rng.random() < 0.3:
            kw['json_name'] = name
        if extr:
            kw['extraneous'] = True
        if codec:
            kw['json_in'], kw['json_out'] = dec, enc
        T = None
        if kind in ('rec', 'jlist', 'jdict', 'list'):
            T = schema(rng, '%s%s' % (uid, name), depth - 1)
            if kind == 'list' and not T.js:
                kind = 'jlist'
        if kind in ('int', 'str', 'float'):
            kw['isa'] = {'int': int, 'str': str, 'float': float}[kind]
            p = Property(**kw)
        elif kind == 'any':
            p = Property(**kw)
        elif kind == 'rec':
            p = Property(isa=T.cls, **kw)
        elif kind == 'jlist':
            p = JsonListProperty(of=T.cls, **kw)
        elif kind == 'jdict':
            p = JsonDictProperty(of=T.cls, **kw)
        elif kind == 'list':
            p = ListProperty(of=T.cls, **kw)
        elif kind == 'ints':
            p = rng.choice([ListProperty, JsonListProperty])(of=int, **kw)
        else:
            p = rng.choice([DictProperty, JsonDictProperty])(of=int, **kw)
        body[name] = p
        fields.append(Field(name, kind, jname, extr, T, codec, p))
    cls = type('S' + uid, (JsonRecord if js else Record,), body)
    return Schema(cls, fields, js)


def schemas(c):
    k = c.int(0, 59)
    return cached(('schema', k), lambda: schema(
        random.Random('schema%d' % k), str(k), 2 if k % 3 else 1))


def gval(c, f):
    """(model value)"""
    if f.kind == 'int':
        return c.pick([0, 1, -5, BIG, BIG + 1, -BIG - 7, 2 ** 70, 12])
    if f.kind == 'str':
        return c.pick(['', 'x', 'é"\\', '{"a":1}', '0'])
    if f.kind == 'float':
        return c.pick([0.0, 1.5, -2.25])
    if f.kind == 'any':
        return c.pick([None, True, False, 0, 'x', [1, [2]], {'k': [None]},
                       [], {}, 3.5, BIG, [True]])
    if f.kind == 'rec':
        return gmodel(c, f.T)
    if f.kind in ('jlist', 'list'):
        return [gmodel(c, f.T) for _ in range(c.int(0, 2))]
    if f.kind == 'jdict':
        return dict((k, gmodel(c, f.T)) for k in c.sample(
            ['k1', 'k2', 'é', ''], c.int(0, 2)))
    if f.kind == 'ints':
        return [c.pick([0, 4, -1, BIG + 3]) for _ in range(c.int(0, 3))]
    return dict((k, c.int(0, 5)) for k in c.sample('pqr', c.int(0, 2)))


def gmodel(c, S):
    vals = {}
    for f in S.fields:
        if c.coin(0.7):
            vals[f.name] = gval(c, f)
    unknown = {}
    if S.js and c.coin(0.4):
        for k in c.sample(['zz', 'Unknown Key', 'y'], c.int(1, 2)):
            unknown[k] = c.pick([1, None, 'x', [1, {'q': None}], {'r': [2]}])
        for f in S.fields:
            if f.jname is None and c.coin(0.3):
                unknown[f.name] = 'not the slot'
    return ('rec', S, vals, unknown)


def build(m):
    """the real object, through python constructors only"""
    if isinstance(m, tuple) and m and m[0] == 'rec':
        _, S, vals, unknown = m
        kw = dict((k, build(v)) for k, v in vals.items())
        if unknown:
            kw['unknown_json_keys'] = copy.deepcopy(unknown)
        return S.cls(**kw)
    if isinstance(m, list):
        return [build(x) for x in m]
    if isinstance(m, dict):
        return dict((k, build(v)) for k, v in m.items())
    return m


def plain(v):
    """JSON form of plain data"""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return str(v) if abs(v) > BIG else v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return dict((k, plain(x)) for k, x in v.items())
    return v


def jout(m, extraneous, top=True, merge=None):
    """expected JSON form of a model record.  merge: whether unknown keys are
    merged at this level (json_data does, to_json does not at the top)"""
    _, S, vals, unknown = m
    out = {}
    for f in S.fields:
        if f.name not in vals or f.jname is None or (
                f.extr and not extraneous):
            continue
        v = vals[f.name]
        if f.codec:
            w = enc(v)
        elif f.kind == 'rec':
            w = jout(v, extraneous)
        elif f.kind in ('jlist', 'list'):
            w = [jout(x, extraneous) for x in v]
        elif f.kind == 'jdict':
            w = dict((k, jout(x, extraneous)) for k, x in v.items())
        else:
            w = plain(v)
        out[f.jname] = w
    if S.js and extraneous and merge is not False:
        for k, v in unknown.items():
            out.setdefault(k, plain(v))
    return out


def jin(m):
    """an input document for the model (everything the schema can carry)"""
    return jout(m, True)


def invisible(m):
    """model without what JSON does not carry (json_name None)"""
    if isinstance(m, tuple) and m and m[0] == 'rec':
        _, S, vals, unknown = m
        keep = dict((f.name, invisible(vals[f.name])) for f in S.fields
                    if f.name in vals and f.jname is not None)
        return ('rec', S, keep, unknown)
    if isinstance(m, list):
        return [invisible(x) for x in m]
    if isinstance(m, dict):
        return dict((k, invisible(v)) for k, v in m.items())
    return m


def view(r, m):
    """compare a real value with the model, slot by slot; first difference or
    None"""
    if isinstance(m, tuple) and m and m[0] == 'rec':
        _, S, vals, unknown = m
        if type(r) is not S.cls:
            return 'type %s, want %s' % (type(r).__name__, S.cls.__name__)
        for f in S.fields:
            has = hasattr(r, f.name)
            if has != (f.name in vals):
                return '%s.%s %s' % (S.cls.__name__, f.name,
                                     'set' if has else 'not set')
            if has:
                bad = view(getattr(r, f.name), vals[f.name])
                if bad:
                    return '.%s%s' % (f.name, bad)
        if S.js:
            u = getattr(r, 'unknown_json_keys', {}) or {}
            if u != unknown:
                return ' unknown keys %s, want %s' % (srepr(u),
                                                      srepr(unknown))
        return None
    if isinstance(m, list) and not isinstance(r, list):
        r = [v for k, v in r.itertuples()]
    elif isinstance(m, dict) and not isinstance(r, dict):
        r = dict(r.itertuples())
    if isinstance(m, (list, tuple)):
        if not isinstance(r, (list, tuple)) or len(r) != len(m):
            return ' = %s, want %s' % (srepr(r), srepr(m))
        for i, (x, y) in enumerate(zip(r, m)):
            bad = view(x, y)
            if bad:
                return '[%d]%s' % (i, bad)
        return None
    if isinstance(m, dict):
        if not isinstance(r, dict) or set(r) != set(m):
            return ' = %s, want keys %s' % (srepr(r), sorted(m))
        for k in m:
            bad = view(r[k], m[k])
            if bad:
                return '[%r]%s' % (k, bad)
        return None
    if type(r) is not type(m) or r != m:
        return ' = %s, want %s' % (srepr(r), srepr(m))


def show(m):
    if isinstance(m, tuple) and m and m[0] == 'rec':
        return '%s(%s%s)' % (m[1].cls.__name__, ', '.join(
            '%s=%s' % (k, show(v)) for k, v in sorted(m[2].items())),
            ' unknown=%r' % m[3] if m[3] else '')
    if isinstance(m, list):
        return '[%s]' % ', '.join(show(x) for x in m)
    if isinstance(m, dict):
        return '{%s}' % ', '.join('%r: %s' % (k, show(v))
                                  for k, v in m.items())
    return repr(m)


@scenario('C17', 700, 12000)
def round_trip(c):
    S = schemas(c)
    m = gmodel(c, S)
    c.note(show(m))
    r = build(m)
    c.check(view(r, m) is None, 'construction', view(r, m))
    how = c.pick(['json_data', 'to_json']) if not S.js else 'json_data'
    jd = r.json_data(extraneous=True) if S.js else to_json(r)
    before = copy.deepcopy(jd)
    text = json.dumps(jd)
    src = c.pick([jd, text, text.encode('utf-8'), bytearray(
        text.encode('utf-8')), json.loads(text)])
    fns = [lambda: from_json(S.cls, src)]
    if S.js:
        fns += [lambda: S.cls(src), lambda: S.cls.from_json(src)]
    tag, r2 = c.outcome(c.pick(fns))
    c.check(tag == 'ok', 'from_json raised', srepr(r2), 'on', text)
    want = invisible(m)
    c.check(view(r2, want) is None, how, 'round trip', view(r2, want), text)
    if show(want) == show(m):
        c.check(r2 == r, 'not equal after the round trip', text)
    c.check(jd == before, 'input document changed')
    jd2 = r2.json_data(extraneous=True) if S.js else to_json(r2)
    c.eq(jd2, before, 'second marshalling')


@scenario('C17', 300, 4000)
def coll_round_trip(c):
    S = schemas(c)
    L = cached(('JL', S.cls.__name__), lambda: type('JLX', (JsonRecordList,), {
        'itemtype': S.cls}))
    D = cached(('JD', S.cls.__name__), lambda: type('JDX', (JsonRecordDict,), {
        'itemtype': S.cls}))
    ms = [gmodel(c, S) for _ in range(c.int(0, 3))]
    c.note(show(ms))
    if c.coin():
        o = L(values=[build(m) for m in ms])
        want = [jout(m, True) for m in ms]
        T, m2 = L, [invisible(m) for m in ms]
    else:
        ks = c.sample(['a', 'B c', 'é', '1'], len(ms))
        o = D(values=dict((k, build(m)) for k, m in zip(ks, ms)))
        want = dict((k, jout(m, True)) for k, m in zip(ks, ms))
        T, m2 = D, dict((k, invisible(m)) for k, m in zip(ks, ms))
    jd = o.json_data(extraneous=True)
    c.eq(jd, want, 'collection JSON')
    src = c.pick([jd, json.dumps(jd), json.dumps(jd).encode('utf-8')])
    o2 = c.pick([T, T.from_json, lambda x: from_json(T, x)])(src)
    c.check(type(o2) is T, 'type')
    c.check(view(o2, m2) is None, view(o2, m2))


@scenario('C18', 700, 12000)
def output_shape(c):
    S = schemas(c)
    m = gmodel(c, S)
    c.note(show(m))
    r = build(m)
    ex = c.coin()
    jd = to_json(r, extraneous=ex)
    want = jout(m, ex, merge=False)
    c.eq(jd, want, 'to_json extraneous=%s' % ex)
    if S.js:
        jd = r.json_data(extraneous=ex)
        c.eq(jd, jout(m, ex), 'json_data extraneous=%s' % ex)
        c.eq(r.json_data(), jout(m, False), 'json_data')
    json.dumps(jd)
    c.check(view(r, m) is None, 'marshalling changed the record')
    for f in S.fields:
        if f.name in m[2] and f.jname is not None:
            c.eq(to_json(r, ex, f.name), want.get(
                f.jname, jout(m, True, merge=False)[f.jname]),
                'to_json of slot', f.name) if not f.extr else None
    # plain values
    v = c.pick([1, BIG, BIG + 1, -BIG, -BIG - 1, 2 ** 64, 'x', None, 1.5,
                True, (1, 2), [BIG + 5], {'a': (1,)}, {'b': {'c': 2 ** 60}},
                frozenset([3])])
    c.eq(to_json(v), plain(list(v) if isinstance(v, frozenset) else v),
         'to_json of', v)
    c.raises(TypeError, lambda: to_json(object()), 'to_json(object)')


@scenario('C18', 100, 1000)
def hooks(c):
    """values with a json_data method are asked for their own form"""
    seen = []

    class Own(object):
        def json_data(self):
            seen.append('own')
            return {'own': 1}

    class OwnEx(object):
        def json_data(self, extraneous=False):
            seen.append(extraneous)
            return {'ownex': extraneous}
    cls = cached('hookrec', lambda: type('HookRec', (JsonRecord,), {
        'p': Property(), 'l': Property(),
        'x': Property(extraneous=True, json_name='X')}))
    ex = c.coin()
    r = cls(p=Own(), l=[OwnEx(), Own()], x=OwnEx())
    want = {'p': {'own': 1}, 'l': [{'ownex': ex}, {'own': 1}]}
    if ex:
        want['X'] = {'ownex': True}
    c.note(ex)
    c.eq(to_json(r, ex), want, 'hooks')
    c.eq(seen.count('own'), 2, 'calls')


@scenario('C18', 150, 1500)
def same_names(c):
    """different classes of one name each have their own JSON form"""
    def mk(kind):
        body = {'a': Property(isa=int),
                'b': Property(isa=int, extraneous=True)}
        if kind == 1:
            body['json_data'] = lambda self: {'own': 1}
        elif kind == 2:
            body['json_data'] = lambda self, extraneous=False: {
                'ex': bool(extraneous)}
        elif kind == 3:
            body['c'] = Property(json_name='C')
        I = type('Item', (JsonRecord,), body)
        L = type('ItemL', (JsonRecord,), {'i': Property(isa=I),
                                          'l': Property()})
        return I, L
    kinds = [c.int(0, 3) for _ in range(c.int(2, 4))]
    pairs = [mk(k) for k in kinds]
    c.note(kinds)
    for _ in range(c.int(2, 6)):
        j = c.int(0, len(kinds) - 1)
        ex = c.coin()
        k, (I, L) = kinds[j], pairs[j]
        c.note(j, ex)
        kw = {'a': 1, 'b': 2}
        if k == 3:
            kw['c'] = 3
        w = {'own': 1} if k == 1 else {'ex': ex} if k == 2 else {'a': 1}
        if ex and k in (0, 3):
            w['b'] = 2
        if k == 3:
            w['C'] = 3
        r = L(i=I(**kw), l=[I(**kw)])
        c.eq(r.json_data(extraneous=ex), {'i': w, 'l': [w]}, 'form')
        c.eq(to_json(r, ex), {'i': w, 'l': [w]}, 'to_json')


@scenario('C18', 150, 1500)
def lazy_slots(c):
    """a lazy slot with a default is set: it is computed and included,
    whatever its value; one without a default only once it has a value"""
    v = c.pick([0, '', False, [], 1, 'x', None, {}, 0.0])
    how = c.pick(['constant', 'function', 'method', 'none'])
    ran = []

    def fn():
        ran.append(1)
        return v
    kw = {'lazy': True}
    if how == 'constant':
        kw['default'] = v
    elif how == 'function':
        kw['default'] = fn
    elif how == 'method':
        kw['default'] = lambda self: fn()
    if c.coin(0.3):
        kw['json_name'] = 'P'
    if c.coin(0.3):
        kw['json_out'] = lambda x: [x]
    base = c.pick([JsonRecord, Record])
    cls = type('LZ', (base,), {'p': Property(**kw), 'q': Property()})
    given = c.coin(0.3)
    r = cls(**dict({'q': 1}, **({'p': 5} if given else {})))
    read = c.coin(0.3) and (given or how != 'none')
    if read:
        r.p
    c.note(how, v, given, read, sorted(kw), base.__name__)
    want = {'q': 1}
    if given or how != 'none':
        x = 5 if given else v
        want[kw.get('json_name', 'p')] = [x] if 'json_out' in kw else x
    for _ in range(2):
        got = to_json(r)
        c.eq(got, want, 'to_json')
        c.check(all(type(got[k]) is type(want[k]) for k in want), 'types')
    c.check(len(ran) == (0 if given or how in ('constant', 'none') else 1),
            'computed', len(ran))


@scenario('C19', 200, 3000)
def converters(c):
    """json_in is applied once to every value of its key, whatever it is"""
    seen = []

    def jin_(v):
        seen.append(v)
        return [v]

    def jout_(v):
        return v[0]
    jn = c.pick(['a', 'J', 'é x'])
    kw = {'json_in': jin_, 'json_name': jn}
    if c.coin():
        kw['json_out'] = jout_
    if c.coin(0.3):
        kw['isa'] = list
    if c.coin(0.3):
        kw['default'] = lambda: 'dflt' if 'isa' not in kw else ['dflt']
    base = c.pick([JsonRecord, Record])
    cls = type('CV', (base,), {'a': Property(**kw),
                               'b': Property(isa=int)})
    v = c.pick([None, 0, False, '', [], {}, 0.0, 1, 'x', [0], {'k': None},
                True])
    doc = {jn: v, 'b': 4}
    c.note(sorted(kw), base.__name__, v)
    for f in ([lambda: from_json(cls, doc)] + (
            [lambda: cls(dict(doc)), lambda: cls(json.dumps(doc))]
            if base is JsonRecord else [])):
        del seen[:]
        r = f()
        c.eq(seen, [v], 'json_in calls')
        c.eq(r.a, [v], 'converted')
        c.eq(r.b, 4, 'other')
    del seen[:]
    r = from_json(cls, {'b': 1})
    c.eq(seen, [], 'json_in called for a missing key')
    c.eq(getattr(r, 'a', None), None if 'default' not in kw else
         kw['default'](), 'missing key')


@scenario('C19', 700, 12000)
def input_keys(c):
    """documents with unknown keys, precedence of keywords, no aliasing"""
    S = schemas(c)
    m = gmodel(c, S)
    doc = jin(m)
    text = json.dumps(doc)
    c.note(text)
    if S.js:
        before = copy.deepcopy(doc)
        r = S.cls(doc)
        want = invisible(m)
        c.check(view(r, want) is None, view(r, want))
        c.eq(doc, before, 'document changed')
        # later changes to the document do not reach the record
        for k, v in list(doc.items()):
            if k in m[3]:
                if isinstance(v, list):
                    v.append(99)
                elif isinstance(v, dict):
                    v['late'] = 99
        c.check(view(r, want) is None, 'aliases the document:',
                view(r, want))
        doc = before
        # keyword arguments win over the document
        for f in S.fields:
            if f.kind == 'str' and f.jname is not None and (
                    f.name in m[2]):
                r = S.cls(copy.deepcopy(doc), **{f.name: 'kw'})
                c.eq(getattr(r, f.name), 'kw', 'keyword wins')
                break
        r2 = S.cls(text)
        r3 = S.cls(text.encode('utf-8'))
        c.check(view(r2, want) is None and view(r3, want) is None,
                'text/bytes input')
        for bad in (5, [1], [], True, 1.5):
            c.raises(exc.JsonRecordCoerceError, lambda: S.cls(bad),
                     'document', srepr(bad))
        e = S.cls({})
        c.check(view(e, ('rec', S, {}, {})) is None, 'empty document')
    else:
        r = from_json(S.cls, copy.deepcopy(doc))
        want = invisible(m)
        c.check(view(r, want) is None, view(r, want))
        doc['zz unknown'] = 1
        c.raises(exc.PropertyNotKnown, lambda: from_json(S.cls, doc),
                 'unknown key of a plain record')
    for badtype in (int, list):
        c.raises(exc.CastTypeError, lambda: from_json(badtype, {}),
                 'from_json type')


@scenario('C19', 150, 1500)
def keywords_win(c):
    """a slot given by keyword, whatever its value, is not taken from the
    document, and its key is not unknown"""
    names = ['a', 'b', 'd']
    jn = {n: c.pick([n, n.upper()]) for n in names}
    cls = type('KW', (JsonRecord,), {
        n: Property(**({} if jn[n] == n else {'json_name': jn[n]}))
        for n in names})
    doc = {jn[n]: c.pick([1, 'x', None, 0, [2]]) for n in names
           if c.coin(0.8)}
    if c.coin(0.3):
        doc['zz'] = 9
    kw = {n: c.pick([None, 0, False, '', 5, 'k']) for n in names
          if c.coin(0.4)}
    c.note(sorted(doc.items(), key=repr), sorted(kw.items(), key=repr))
    r = cls(dict(doc), **kw)
    for n in names:
        if n in kw or jn[n] in doc:
            want = kw[n] if n in kw else doc[jn[n]]
            got = getattr(r, n)
            c.check(got == want and type(got) is type(want), 'slot', n, got)
        else:
            c.check(not hasattr(r, n), 'set from nowhere', n)
    c.eq(getattr(r, 'unknown_json_keys', {}), {'zz': 9} if 'zz' in doc
         else {}, 'unknown')


@scenario('C19', 60, 600)
def shared_names(c):
    """several slots reading the same key, or the key which is another's
    name"""
    names = ['a', 'b', 'c', 'x']
    jn = dict((n, c.pick(['a', 'b', 'x', 'y', None, 'own'])) for n in names)
    base = c.pick([Record, JsonRecord])
    ns = {}
    for n in names:
        kw = {} if jn[n] == 'own' else {'json_name': jn[n]}
        ns[n] = JsonProperty(**kw) if c.coin() or kw else Property()
    cls = type('S', (base,), ns)
    doc = dict((k, c.int(0, 9)) for k in ('a', 'b', 'c', 'x', 'y', 'z')
               if c.coin())
    c.note(base.__name__, jn, doc)
    want, used = {}, set()
    for n in names:
        k = n if jn[n] == 'own' else jn[n]
        if k is not None and k in doc:
            want[n] = doc[k]
            used.add(k)
    tag, r = c.outcome(lambda: from_json(cls, doc))
    if base is Record and set(doc) - used:
        c.check(tag != 'ok', 'unknown keys accepted')
        return
    c.check(tag == 'ok', 'reading raised', srepr(r))
    got = dict((n, getattr(r, n)) for n in names if n in r.__dict__)
    c.eq(got, want, 'slots')
    if base is JsonRecord:
        c.eq(dict(getattr(r, 'unknown_json_keys', None) or {}),
             dict((k, v) for k, v in doc.items() if k not in used),
             'unknown keys')


@scenario('C19', 500, 8000)
def error_paths(c):
    """a value which cannot be converted is reported with its place"""
    S = schemas(c)
    m = gmodel(c, S)
    doc = jin(m)
    # choose a place to break: path of JSON keys to a record, then a field
    places = []

    def walk(mm, d, path):
        _, T, vals, _u = mm
        for f in T.fields:
            if f.jname is None:
                continue
            if f.codec:
                places.append((d, f.jname, path + [f.jname], 'codec'))
            elif f.kind in ('int', 'float') and path:
                places.append((d, f.jname, path, 'isa'))
            if f.name in vals:
                v = vals[f.name]
                if f.kind == 'rec':
                    walk(v, d[f.jname], path + [f.jname])
                elif f.kind == 'jlist':
                    for i, x in enumerate(v):
                        walk(x, d[f.jname][i], path + [f.jname, i])
                elif f.kind == 'jdict':
                    for k, x in v.items():
                        walk(x, d[f.jname][k], path + [f.jname, k])
    walk(m, doc, [])
    if not places:
        c.trivial = True
        return
    d, key, path, kind = c.pick(places)
    d[key] = {'not': 'a number'}
    before = copy.deepcopy(doc)
    c.note(json.dumps(doc), path, kind)
    e = c.raises(exc.JsonConversionError, lambda: from_json(S.cls, doc),
                 'broken document')
    c.eq(e.error_fs.selectors, path, 'reported place')
    if kind == 'codec':
        c.check(isinstance(e.sub_exception, ValueError), 'cause',
                srepr(e.sub_exception))
    else:
        c.check(isinstance(e.sub_exception, exc.CoerceError), 'cause',
                srepr(e.sub_exception))
    c.eq(doc, before, 'document changed')


@scenario('C19', 300, 4000)
def coll_inputs(c):
    S = schemas(c)
    L = cached(('JL', S.cls.__name__), lambda: type('JLX', (JsonRecordList,), {
        'itemtype': S.cls}))
    D = cached(('JD', S.cls.__name__), lambda: type('JDX', (JsonRecordDict,), {
        'itemtype': S.cls}))
    IL = cached('JLint', lambda: type('JLint', (JsonRecordList,), {
        'itemtype': int}))
    ms = [gmodel(c, S) for _ in range(c.int(1, 3))]
    docs = [jin(m) for m in ms]
    c.note(show(ms))
    T = c.pick([L, D])
    ks = c.sample(['a', 'B c', 'é', '1'], len(ms))
    doc = docs if T is L else dict(zip(ks, docs))
    before = copy.deepcopy(doc)
    want = [invisible(m) for m in ms]
    want = want if T is L else dict(zip(ks, want))
    for src in (doc, json.dumps(doc), json.dumps(doc).encode()):
        o = T(src)
        c.check(view(o, want) is None, view(o, want))
    c.eq(doc, before, 'document changed')
    for bad in (5, {'a': 1} if T is L else [1], True):
        c.raises(exc.JsonCollectionCoerceError, lambda: T(bad), 'document',
                 srepr(bad))
    i = c.int(0, len(ms) - 1)
    k = i if T is L else ks[i]
    doc[k] = 5
    e = c.raises(exc.JsonConversionError, lambda: T(doc), 'bad item')
    c.eq(e.error_fs.selectors, [k], 'place')
    c.eq(list(IL([1, '2'])), [1, 2], 'scalar items')
    # already-built items are kept
    if T is L and S.js:
        r = build(ms[0])
        o = L([r])
        c.check(o[0] is r, 'instance items')


# ------------------------------------------------------------------ C34
def autoclasses():
    def mk():
        class A(AutoJsonRecord):
            known_one = Property(isa=int, json_name='knownOne')
            ro = Property(traits=['ro'])

        class N(NCAutoJsonRecord):
            known_one = Property(isa=int, json_name='knownOne')
            ro = Property(traits=['ro'])
        return AutoJsonRecord, A, NCAutoJsonRecord, N
    return cached('autoclasses', mk)


def camel(c):
    segs = [c.pick(['foo', 'x', 'b1', 'bar', 'q2z'])] + [
        c.pick(['Foo', 'X', 'B1', 'Bar', 'Zed'])
        for _ in range(c.int(0, 2))]
    return ''.join(segs)


def snake(k):
    out = k[0]
    prev_sub = False
    for a, b in zip(k, k[1:]):
        if b.isupper() and (a.islower() or a.isdigit()) and not prev_sub:
            out += '_' + b.lower()
            prev_sub = True
        else:
            out += b
            prev_sub = False
    return out


def autodoc(c, depth=2):
    d = {}
    for _ in range(c.int(0, 4)):
        r = c.rng.random()
        if depth and r < 0.25:
            v = autodoc(c, depth - 1)
        elif depth and r < 0.45:
            v = [autodoc(c, depth - 1) for _ in range(c.int(1, 2))]
        else:
            v = c.pick([1, None, 'x', [], [1, 2], True, 2.5])
        d[camel(c)] = v
    return d


def autocheck(c, r, doc, nc, path=''):
    for k, v in doc.items():
        a = k if nc else snake(k)
        if a in type(r).properties:
            continue
        c.check(hasattr(r, a), 'attribute', a, 'of', path)
        got = getattr(r, a)
        if isinstance(v, dict):
            c.check(isinstance(got, AutoJsonRecord), path, k)
            autocheck(c, got, v, nc, path + '.' + k)
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            c.eq(len(got), len(v), path, k)
            for i, x in enumerate(v):
                c.check(isinstance(got[i], AutoJsonRecord), path, k)
                autocheck(c, got[i], x, nc, path + '.%s[%d]' % (k, i))
        else:
            c.eq(got, v, path, k)


@scenario('C34', 500, 8000)
def auto_records(c):
    A0, A, N0, N = autoclasses()
    cls = c.pick([A0, A, N0, N])
    nc = issubclass(cls, NCAutoJsonRecord)
    doc = autodoc(c)
    c.note(cls.__name__, json.dumps(doc))
    before = copy.deepcopy(doc)
    r = cls(doc)
    autocheck(c, r, doc, nc)
    c.eq(doc, before, 'document changed')
    c.eq(r.json_data(), doc, 'round trip')
    c.eq(cls(json.dumps(doc)).json_data(), doc, 'from text')
    # dynamic attributes: a dictionary model
    model = {}
    r = cls()
    for _ in range(c.int(1, 8)):
        n = c.pick(['foo', 'foo_bar', 'x1', 'some_thing_else'])
        op = c.pick(['set', 'set', 'get', 'del', 'has'])
        c.note(op, n)
        if op == 'set':
            v = c.pick([1, None, [1], {'a': 1}])
            setattr(r, n, v)
            model[n] = v
        elif op == 'get':
            if n in model:
                c.eq(getattr(r, n), model[n], 'get')
            else:
                c.raises(AttributeError, lambda: getattr(r, n), 'get')
        elif op == 'del':
            if n in model:
                delattr(r, n)
                del model[n]
            else:
                c.raises(AttributeError, lambda: delattr(r, n), 'del')
        else:
            c.eq(hasattr(r, n), n in model, 'has')
        c.eq(r.unknown_json_keys, model, 'unknown keys')

    def out(k):
        return k if nc else ''.join(
            w if i == 0 else w[0].upper() + w[1:]
            for i, w in enumerate(k.split('_')))
    c.eq(r.json_data(), dict((out(k), v) for k, v in model.items()),
         'json_data')
    # declared properties keep their own rules
    if cls in (A, N):
        c.raises(exc.CoerceError, lambda: setattr(r, 'known_one', 'x'),
                 'declared property')
        r.known_one = '4'
        c.eq(r.known_one, 4, 'declared property')
        c.eq(r.json_data()['knownOne'], 4, 'declared json name')
        c.check('known_one' not in r.unknown_json_keys, 'stored twice')
        c.raises(exc.ReadOnlyAttributeError, lambda: setattr(r, 'ro', 1),
                 'read only')
        del r.known_one
        c.raises(AttributeError, lambda: r.known_one, 'deleted')
    c.eq(cls().unknown_json_keys, {}, 'no sharing between records')
