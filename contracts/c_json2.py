"""JSON: nested conversions, text, record types, collections of records."""
import json
import z3
import normalize.exc as exc
import normalize.record.json as NJ
import normalize.coll as NC
import normalize.selector as NS
from normalize.record import Record, OhPickle
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from pv.execute import EXTRA
from .world import *        # noqa
from .world import B_ as B
from .c_json import only_known, sel, q, k_
from pv.interp import HEAP_BASE as HB      # noqa

jj = z3.Int('jj')


def summary(E, kind):
    """a function under its own contract: any result, any exception"""
    return lambda E, args, kw: E.opaque(kind, kind, args, kw)


def one(E, tag, r, kind):
    """the only call, and its outcome is ours"""
    c = E.trace[-1:]
    only_known(E, kind)
    return B(len(E.trace) == 1 and c[0][0] == kind and
             c[0][3][0] == tag and c[0][3][1] is r)


@contract(('C17', 'C19'), 'value of a slot from JSON',
          covers=('typed', 'untyped', 'record'))
def initializer(E):
    E.sh.summaries[NJ.from_json] = summary(E, 'from_json()')
    x = E.case(lambda: E.some_dict('D'), lambda: E.some_list('L'),
               lambda: E.text('T'), lambda: E.integer('I'), lambda: None)()
    how = E.case('none', 'json type', 'record', 'collection', 'other')
    if how == 'none':
        E.cover('untyped')
        tag, r = E.run(NJ._json_to_value_initializer, x, None)
        E.prove('without a type the value itself', B(
            tag == 'ok' and r is x and not E.trace))
    elif how == 'json type':
        E.cover('typed')
        base = E.case(NJ.JsonRecord, NJ.JsonRecordList, NJ.JsonRecordDict)
        T = E.new(HClass(base, 'T', {'from_json': E.ext('FJ')}))
        tag, r = E.run(NJ._json_to_value_initializer, x, T)
        E.prove('a type which reads JSON reads the value', z3.And(
            one(E, tag, r, 'call'), B(
                E.trace and E.trace[0][1] is T.overrides['from_json'] and
                len(E.trace[0][2]) == 1 and E.trace[0][2][0] is x)))
    elif how == 'record':
        T = E.new(HClass(Record, 'T'))
        tag, r = E.run(NJ._json_to_value_initializer, x, T)
        if isinstance(x, HDict):
            E.cover('record')
            E.prove('a document of a record type is converted to it', z3.And(
                one(E, tag, r, 'from_json()'), B(
                    E.trace and E.trace[0][2][0] is T and
                    E.trace[0][2][1] is x)))
        else:
            E.prove('what is no document is left to the slot', B(
                tag == 'ok' and r is x and not E.trace))
    elif how == 'collection':
        T = E.new(HClass(E.case(NC.ListCollection, NC.DictCollection), 'T'))
        tag, r = E.run(NJ._json_to_value_initializer, x, T)
        E.prove('plain collections build themselves', B(
            tag == 'ok' and r is x and not E.trace))
    else:
        T = E.case(str, int, dict, list)
        tag, r = E.run(NJ._json_to_value_initializer, x, T)
        E.prove('other types: the value itself', B(
            tag == 'ok' and r is x and not E.trace))


@contract(('C19', 'C35'), 'conversion failures name the location',
          covers=('nested', 'plain'))
def box(E):
    ctx = E.case(lambda: E.text('KEY'), lambda: E.integer('POS'))()
    how = E.case('nested', 'plain')
    if how == 'nested':
        inner = E.some_list('SEL')
        fs = E.new(HInst(NS.FieldSelector, {'selectors': inner}))
        sub = E.ext('SUB')
        x = E.new(HInst(exc.JsonConversionError, {
            'error_fs': fs, 'sub_exception': sub}))
        n0, a0 = inner.n, inner.arr
    else:
        x = E.case(lambda: E.new(HInst(ValueError, {'args': ()})),
                   lambda: E.new(HInst(exc.ReadOnlyAttributeError, {
                       'args': ()})))()
    for f in ('validate_property_index',):
        if hasattr(NS, f):
            pass
    tag, r = E.run(NJ._box_ingress_error, ctx, x)
    ok = tag == 'ok' and isinstance(r, HInst) and \
        r.cls is exc.JsonConversionError
    E.prove('a conversion error', B(ok))
    if not ok:
        return
    f2 = r.attrs['error_fs']
    l = f2.attrs.get('selectors') if isinstance(f2, HInst) else None
    E.prove('its location is a selector', B(isinstance(l, HList)))
    if how == 'nested':
        E.cover('nested')
        E.prove('the location: this key, then that of the cause', z3.And(
            l.n == n0 + 1, sel(l.arr, 0) == E.lift(ctx), z3.ForAll(
                [jj], z3.Implies(z3.And(0 <= jj, jj < n0),
                                 sel(l.arr, jj + 1) == sel(a0, jj)))))
        E.prove('the innermost cause is kept', B(
            r.attrs['sub_exception'] is sub))
        E.prove('the nested error is not changed', z3.And(
            inner.n == n0, inner.arr == a0))
    else:
        E.cover('plain')
        E.prove('the location: this key', z3.And(
            l.n == 1, sel(l.arr, 0) == E.lift(ctx)))
        E.prove('the cause is kept', B(r.attrs['sub_exception'] is x))


@contract(('C17', 'C19'), 'JSON text is loaded', assumes=(
    'json.loads and bytes.decode are the standard library\'s',),
    covers=('text', 'bytes', 'data'))
def decode(E):
    def loads(E, args, kw):
        return E.opaque('loads', json.loads, args, kw)
    E.sh.summaries[json.loads] = loads
    how = E.case('text', 'bytes', 'data')
    if how == 'text':
        E.cover('text')
        x = E.text('T')
        tag, r = E.run(NJ._decode_and_parse_json, x)
        E.prove('text is loaded as JSON', z3.And(
            one(E, tag, r, 'loads'),
            B(E.trace and E.trace[0][2] == (x,))))
    elif how == 'bytes':
        E.cover('bytes')
        dec = []

        def decode(E, sv, args, kw):
            E.prove('as UTF-8', B(
                not kw and list(args) in ([], ['utf-8'], ['utf8'])))
            t = E.text('DECODED')
            dec.append(t)
            return t
        x = E.ext('BY', Tag('bytes', E.case(bytes, bytearray),
                            methods={'decode': decode}))
        tag, r = E.run(NJ._decode_and_parse_json, x)
        E.prove('bytes are decoded, then loaded', z3.And(
            one(E, tag, r, 'loads'), B(
                len(dec) == 1 and E.trace and
                E.trace[0][2] == (dec[0],))))
    else:
        E.cover('data')
        x = E.case(lambda: E.some_dict('D'), lambda: E.some_list('L'),
                   lambda: E.integer('I'), lambda: None,
                   lambda: E.flag('B'))()
        tag, r = E.run(NJ._decode_and_parse_json, x)
        E.prove('data is left alone', B(
            tag == 'ok' and r is x and not E.trace))


def some_data(E):
    return E.case(lambda: E.some_dict('DATA'), lambda: E.some_list('DATAL'),
                  lambda: E.integer('DATAI'))()


def parsed(E):
    """_decode_and_parse_json by its contract"""
    y = some_data(E)

    def parse(E, args, kw):
        x = args[0]
        if isinstance(x, (HDict, HList, HInst)) or x is None:
            return x
        E.trace.append(('parse', None, tuple(args), ('ok', y)))
        return y
    E.sh.summaries[NJ._decode_and_parse_json] = parse
    return y


@contract(('C17', 'C19'), 'from_json',
          covers=('json record', 'record', 'no record'))
def from_json(E):
    how = E.case('text', 'data')
    y = parsed(E)
    x = E.text('X') if how == 'text' else y
    want = y
    if how == 'data' and isinstance(y, SV):
        x = y
    kind = E.case('json', 'plain', 'other')
    if kind == 'other':
        E.cover('no record')
        T = E.case(dict, list, str, object)
        tag, r = E.run(NJ.from_json, T, x)
        E.prove('only record types can be read', B(
            tag == 'raise' and isinstance(r, HInst) and
            r.cls is exc.CastTypeError and r.attrs['badtype'] is T))
        return
    made = []

    def make(E, args, kw):
        if kind == 'json':
            E.prove('a JSON record gets the data', B(
                len(args) == 1 and args[0] is want and not kw))
        else:
            E.prove('a record gets exactly the arguments of the document', B(
                not args and list(kw) == [EXTRA] and same_dict(
                    kw[EXTRA], kws)))
        return E.opaque('new', None, (), {})
    T = E.new(HClass({'json': NJ.JsonRecord, 'plain': Record}[kind], 'T'))
    E.sh.summaries[T] = make
    kws = E.some_dict('KWS', keytag='str')

    def convert(E, args, kw):
        E.prove('the document is converted for that type', B(
            args[0] is T and args[1] is want and len(args) == 2 and not kw))
        r = E.opaque('convert', None, (), {})
        return kws
    E.sh.summaries[NJ.json_to_initkwargs] = convert
    tag, r = E.run(NJ.from_json, T, x)
    only_known(E, 'parse', 'convert', 'new')
    E.cover('json record' if kind == 'json' else 'record')
    done = [t[0] for t in E.trace if t[0] != 'parse']
    if tag == 'raise':
        E.prove('only a failure of the steps is reported', B(
            E.trace and E.trace[-1][3][0] == 'raise' and
            E.trace[-1][3][1] is r))
    else:
        E.prove('the new record is returned', B(
            done[-1:] == ['new'] and E.trace[-1][3][1] is r))
        E.prove('each step once', B(done == (
            ['new'] if kind == 'json' else ['convert', 'new'])))


def same_dict(a, b):
    return a is b or (isinstance(a, HDict) and a.dom.eq(b.dom) and
                      a.val.eq(b.val))


# ------------------------------------------------------------- JsonRecord
@contract(('C17', 'C19'), 'construct a JSON record', assumes=(
    'JSON input is data or text, not an unpickling marker',),
    covers=('data', 'keywords', 'refused'))
def json_init(E):
    base = E.case(NJ.JsonRecord, NJ.JsonRecordList, NJ.JsonRecordDict)
    sup = [k.__dict__['__init__'] for k in base.__mro__[1:]
           if '__init__' in k.__dict__][0]
    kw = E.some_dict('KW', keytag='str')
    for nm in ('self', 'json_data'):
        E.assume(z3.Not(sel(kw.dom, E.lift(nm))))
    conv = E.some_dict('CONV', keytag='str')
    y = parsed(E)
    started = []

    def convert(E, self_, args, k):
        E.prove('the class converts the parsed data, with the keywords', B(
            len(args) == 2 and args[0] is y and not k and
            same_dict(args[1], kw)))
        E.opaque('convert', None, (), {})
        return conv
    T = E.new(HClass(base, 'T', {'json_to_initkwargs': E.ext(
        'J2K', Tag('j2k', call=convert))}))
    o = E.new(HInst(T, {}))

    def superinit(E, args, k):
        started.append(k)
        E.prove('then the record is built from the arguments', B(
            args[0] is o and len(args) == 1 and list(k) == [EXTRA] and
            same_dict(k[EXTRA], want)))
        return E.opaque('init', None, (), {})
    E.sh.summaries[sup] = superinit
    how = E.case('text', 'data', 'keywords')
    want = kw if how == 'keywords' else conv
    a = {'text': lambda: [E.text('X')], 'data': lambda: [y],
         'keywords': lambda: E.case([], [None])}[how]()
    tag, r = E.run(base.__dict__['__init__'], o, *a, **{EXTRA: kw}) \
        if isinstance(EXTRA, str) else runx(
            E, base.__dict__['__init__'], o, kw, a)
    only_known(E, 'parse', 'convert', 'init')
    if tag == 'raise':
        E.cover('refused')
        E.prove('only a failure of the steps is reported', B(
            E.trace and E.trace[-1][3] == ('raise', r)))
    else:
        E.cover('keywords' if how == 'keywords' else 'data')
        E.prove('the record is built once', B(
            tag == 'ok' and len(started) == 1))


def runx(E, f, o, kw, args=()):
    try:
        return 'ok', E.call(f, [o] + list(args), {EXTRA: kw})
    except PyRaise as r:
        return 'raise', r.value


@contract(('C17', 'C19'), 'class hooks of JSON records')
def json_hooks(E):
    y = parsed(E)
    x = E.case(lambda: E.text('X'), lambda: y)()
    what = E.case('initkwargs', 'from_json')
    made = []
    T = E.new(HClass(NJ.JsonRecord, 'T'))
    if what == 'initkwargs':
        kw = E.some_dict('KW', keytag='str')

        def conv(E, args, k):
            E.prove('the parsed document, for the class', B(
                len(args) == 3 and args[0] is T and args[1] is y and
                args[2] is kw and not k))
            return E.opaque('convert', None, (), {})
        E.sh.summaries[NJ.json_to_initkwargs] = conv
        f = NJ.JsonRecord.__dict__['json_to_initkwargs'].__func__
        tag, r = E.run(f, T, x, kw)
        only_known(E, 'parse', 'convert')
    else:
        def new(E, args, k):
            E.prove('the constructor gets the data', B(
                len(args) == 1 and args[0] is x and not k))
            return E.opaque('new', None, (), {})
        E.sh.summaries[T] = new
        f = NJ.JsonRecord.__dict__['from_json'].__func__
        tag, r = E.run(f, T, x)
        only_known(E, 'new')
    E.prove('its result is the result', B(
        E.trace and E.trace[-1][3] == (tag, r)))


# ------------------------------------------------- JSON collections, reading
MFJ = z3.Function('MEMBERFROMJSON', V, V)


@contract(('C17', 'C19'), 'collection document to arguments', assumes=(
    'reading the same item twice gives the same value',),
    covers=('read', 'refused', 'not a document'), limit=200)
def coll_initkwargs(E):
    base = E.case(NJ.JsonRecordList, NJ.JsonRecordDict)
    lst = base is NJ.JsonRecordList
    f = base.__dict__['json_to_initkwargs'].__func__
    member = E.case('json', 'record')
    M = E.new(HClass(Record if member == 'record' else NJ.JsonRecord, 'M', {
        } if member == 'record' else {'from_json': E.ext('MFJ', Tag(
            'mfj', call=lambda E, s, a, k: read(E, a, k)))}))

    def read(E, a, k):
        E.prove('one item at a time', B(len(a) == 1 and not k))
        r = SV(MFJ(E.lift(a[0])))
        if E.branch(E.fresh('raises', BoolS)):
            ex = SV(E.fresh('exc'))
            E.assume(is_obj(ex.e))
            E.assume(INST(ex.e, E.lift(Exception)))
            E.trace.append(('item', None, tuple(a), ('raise', ex)))
            raise PyRaise(ex)
        E.assume(z3.Implies(is_obj(r.e), V.ref(r.e) < 1000000))
        E.trace.append(('item', None, tuple(a), ('ok', r)))
        return r

    def fj(E, args, kw):
        E.prove('for the item type', B(args[0] is M))
        return read(E, args[1:], kw)
    E.sh.summaries[NJ.from_json] = fj
    at = []

    def box(E, args, kw):
        E.trace.append(('boxed', None, tuple(args), ('ok', None)))
        return E.new(HInst(exc.JsonConversionError, {
            'context': args[0], 'cause': args[1]}))
    E.sh.summaries[NJ._box_ingress_error] = box
    C = E.new(HClass(base, 'C', {'itemtype': M}))
    how = E.case('document', 'none', 'other', 'given')
    kw = E.some_dict('KW', keytag='str') if E.case(False, True) else \
        E.dict_from_known([])
    vs = E.lift('values')
    conv = lambda x: z3.If(z3.And(     # noqa
        is_obj(x), INST(x, E.lift(M))), x, MFJ(x))
    kd, kv = kw.dom, kw.val
    given = z3.And(sel(kd, vs), z3.Not(is_none(sel(kv, vs))))
    if how == 'given':
        E.assume(given)
        tag, r = E.run(f, C, some_data(E), kw)
        E.prove('values given explicitly win', z3.And(
            B(tag == 'ok' and r is kw), kw.dom == kd, kw.val == kv))
        return
    E.assume(z3.Not(given))
    if how == 'other':
        x = E.case(lambda: E.integer('X'), lambda: E.text('X'),
                   (lambda: E.some_dict('XD')) if lst else
                   (lambda: E.some_list('XL')))()
        tag, r = E.run(f, C, x, kw)
        E.cover('not a document')
        E.prove('anything but a collection document is refused', B(
            tag == 'raise' and isinstance(r, HInst) and
            r.cls is exc.JsonCollectionCoerceError and
            r.attrs['passed'] is x and r.attrs['colltype'] is C))
        return
    if how == 'none':
        J = None
    elif lst:
        J = E.some_list('J')
        jn, ja = J.n, J.arr
    else:
        J = E.some_dict('J')
        jn, ja = J.dom, J.val

    def cands(E, ctx, i, b0):
        fs = []
        kl = key_loop(E, ctx)
        for loc in sorted(b0, key=str):
            o = E.heap[HB + loc[1]] if loc[0] == 'heap' else None
            if lst and isinstance(o, HList):
                fs += [o.n == i, z3.ForAll([jj], z3.Implies(
                    z3.And(0 <= jj, jj < i),
                    sel(o.arr, jj) == conv(sel(ja, jj))))]
            elif not lst and isinstance(o, HDict) and kl:
                K, X, key = kl
                done = z3.And(sel(key, q), X(q) < i)
                fs += [z3.ForAll([q], sel(o.dom, q) == done),
                       z3.ForAll([q], z3.Implies(done, sel(
                           o.val, q) == conv(sel(ja, q))))]
        return fs
    E.sh.loop_cands = [('items', cands)]
    tag, r = E.run(f, C, J, kw)
    only_known(E, 'item', 'boxed')
    if tag == 'raise':
        E.cover('refused')
        t = E.trace
        good = len(t) > 1 and t[-1][0] == 'boxed' and \
            t[-2][3][0] == 'raise' and t[-1][2][1] is t[-2][3][1] and \
            isinstance(r, HInst) and r.cls is exc.JsonConversionError
        E.prove('only the failure of an item is reported, with its cause',
                B(good))
        if good:
            c = E.lift(t[-1][2][0])
            if lst:
                E.prove('and its position', z3.And(
                    is_int(c), 0 <= V.i(c), V.i(c) < jn,
                    E.lift(t[-2][2][0]) == sel(ja, V.i(c))))
            else:
                E.prove('and its key', z3.And(
                    sel(jn, c), E.lift(t[-2][2][0]) == sel(ja, c)))
        return
    E.cover('read')
    E.prove('the other arguments are kept', z3.And(
        B(isinstance(r, HDict)), z3.ForAll([q], z3.Implies(
            q != vs, z3.And(sel(r.dom, q) == sel(kd, q),
                            sel(r.val, q) == sel(kv, q))))))
    E.prove('there are values', sel(r.dom, vs))
    v = E.dict_val(r, 'values')
    if how == 'none':
        E.prove('no document: an empty collection', v.n == 0 if isinstance(
            v, HList) else z3.ForAll([q], z3.Not(sel(v.dom, q))))
        return
    E.prove('a new container', B(v is not J and isinstance(
        v, HList if lst else HDict)))
    if lst:
        E.prove('one value for each item, in order, converted if needed',
                z3.And(v.n == jn, z3.ForAll([jj], z3.Implies(
                    z3.And(0 <= jj, jj < jn), sel(v.arr, jj) == conv(
                        sel(ja, jj))))))
        E.prove('the document is not changed', z3.And(
            J.n == jn, J.arr == ja))
    else:
        E.prove('one value for each item under its key, converted if needed',
                z3.ForAll([q], z3.And(
                    sel(v.dom, q) == sel(jn, q), z3.Implies(
                        sel(jn, q), sel(v.val, q) == conv(sel(ja, q))))))
        E.prove('the document is not changed', z3.And(
            J.dom == jn, J.val == ja))


# --------------------------------------------------- unknown keys on output
TOJ = z3.Function('UNKNOWNTOJSON', V, V, V)
KOUT = z3.Function('KEYOUT', V, V)
KIN = z3.Function('KEYIN', V, V)
KWIT = z3.Function('KEYOUTOF', V, V)


def convert_out(E, kw_):
    """convert_json_key_out: some function of the key"""
    def call(E, s, a, k):
        x = E.lift(a[0])
        E.assume(is_str(KOUT(x)))
        return SV(KOUT(x))
    return E.ext('KOUTF', Tag('kout', call=call))


@contract(('C17', 'C18', 'C34'), 'unknown keys on output', assumes=(
    'no two unknown keys convert to the same JSON key',
    'converting a value gives the same result for the same value',),
    covers=('merged', 'left out', 'refused'), limit=200)
def unknown_out(E):
    base = E.case(NJ.JsonRecord, NJ.AutoJsonRecord, NJ.NCAutoJsonRecord)
    auto = base is not NJ.JsonRecord
    has = E.case(True, False) if not auto else True
    ex = E.val('EX')
    pex = E.val('PROPEXTRANEOUS')
    props = E.dict_from_known([('unknown_json_keys', E.new(HInst(
        NJ.JsonProperty, {'extraneous': pex})))])
    own = {'properties': props}
    if base is NJ.AutoJsonRecord:
        own['convert_json_key_out'] = convert_out(E, None)
    T = E.new(HClass(base, 'T', own))
    U = E.some_dict('UNKNOWN', keytag='str')
    ud, uv = U.dom, U.val
    E.assume(z3.ForAll([q], z3.Implies(sel(ud, q), is_str(q)),
                       patterns=[sel(ud, q)]))
    o = E.new(HInst(T, {}, E.dict_from_known(
        [('unknown_json_keys', U)] if has else [])))
    jd = E.some_dict('JD', keytag='str')
    d0, v0 = jd.dom, jd.val
    kout = KOUT if base is NJ.AutoJsonRecord else (lambda k: k)
    if base is NJ.AutoJsonRecord:
        E.assume(z3.ForAll([q], z3.Implies(sel(ud, q), KWIT(
            KOUT(q)) == q), patterns=[KOUT(q)]))
    src = KWIT if base is NJ.AutoJsonRecord else (lambda k: k)

    def conv(E, args, kw):
        x, e = args[0], args[1] if len(args) > 1 else True
        if x is o:
            E.prove('the slots are written with the same options', B(
                e is ex and len(args) == 2))
            E.opaque('slots', None, (), {})
            return jd
        E.prove('unknown values too', B(e is ex and len(args) == 2))
        r = SV(TOJ(E.lift(x), E.lift(e)))
        if E.branch(E.fresh('raises', BoolS)):
            err = SV(E.fresh('exc'))
            E.assume(is_obj(err.e))
            E.trace.append(('value', None, tuple(args), ('raise', err)))
            raise PyRaise(err)
        E.assume(z3.Implies(is_obj(r.e), V.ref(r.e) < 1000000))
        E.trace.append(('value', None, tuple(args), ('ok', r)))
        return r
    E.sh.summaries[NJ.to_json] = conv
    E.sh.summaries[NJ._json_data] = conv

    def cands(E, ctx, i, b0):
        kl = key_loop(E, ctx)
        if kl is None:
            return None
        K, X, key = kl
        fs = []
        for loc in sorted(b0, key=str):
            x = E.heap[HB + loc[1]] if loc[0] == 'heap' else None
            if isinstance(x, HDict):
                w = src(k_)
                done = z3.And(sel(key, w), X(w) < i, kout(w) == k_)
                fs += [z3.ForAll([k_], sel(x.dom, k_) == z3.Or(
                           sel(d0, k_), done)),
                       z3.ForAll([k_], z3.Implies(
                           sel(d0, k_), sel(x.val, k_) == sel(v0, k_))),
                       z3.ForAll([k_], z3.Implies(
                           z3.And(done, z3.Not(sel(d0, k_))),
                           sel(x.val, k_) == TOJ(sel(uv, w), E.lift(ex))))]
        return fs
    E.sh.loop_cands = [('unknown', cands)]
    tag, r = E.run(base.json_data, o, ex)
    only_known(E, 'slots', 'value')
    E.prove('the record is not changed', z3.And(U.dom == ud, U.val == uv))
    if tag == 'raise':
        E.cover('refused')
        E.prove('only a conversion that fails is reported', B(
            E.trace and E.trace[-1][3] == ('raise', r)))
        return
    E.prove('the document of the slots, completed', B(r is jd))
    merged = z3.And(B(has), z3.Or(truth(ex.e), z3.Not(truth(pex.e))))
    w = src(k_)
    here = z3.And(merged, sel(ud, w), kout(w) == k_)
    E.cover('merged' if not E.valid(z3.Not(merged)) else 'left out')
    E.prove('exactly the unknown keys are added', z3.ForAll(
        [k_], sel(r.dom, k_) == z3.Or(sel(d0, k_), here)))
    E.prove('slots win over unknown keys', z3.ForAll([k_], z3.Implies(
        sel(d0, k_), sel(r.val, k_) == sel(v0, k_))))
    E.prove('unknown values are written converted', z3.ForAll(
        [k_], z3.Implies(z3.And(here, z3.Not(sel(d0, k_))),
                         sel(r.val, k_) == TOJ(sel(uv, w), E.lift(ex)))))


# -------------------------------------------------------- dynamic attributes
@contract('C34', 'dynamic attributes', covers=('read', 'written', 'deleted',
                                                'slot', 'missing'))
def dynamic(E):
    base = E.case(NJ.AutoJsonRecord, NJ.NCAutoJsonRecord)
    P_ = E.some_dict('PROPS', keytag='str')
    pt = Tag('prop', methods={'__get__': lambda E, s, a, k: E.opaque(
        'slot get', s, a, k)})
    E.assume(z3.ForAll([q], z3.Implies(
        sel(P_.dom, q), is_obj(sel(P_.val, q)))))
    P_.valtag = pt
    T = E.new(HClass(base, 'T', {'properties': P_}))
    U = E.some_dict('UNKNOWN', keytag='str')
    ud, uv = U.dom, U.val
    o = E.new(HInst(T, {}, E.dict_from_known([('unknown_json_keys', U)])))
    E.assume(sel(P_.dom, E.lift('unknown_json_keys')))
    nm = E.text('NAME')
    E.assume(nm.e != E.lift('unknown_json_keys'))
    slots = []

    def slot(kind, name, v):
        slots.append((kind, name, v))
        return E.opaque(kind, None, (), {})
    o.desc_hook = slot
    is_slot = sel(P_.dom, nm.e)
    what = E.case('get', 'set', 'delete')
    v = E.val('VALUE')
    if what == 'get':
        tag, r = E.run(base.__getattr__, o, nm)
        only_known(E, 'slot get')
        if E.trace:
            E.cover('slot')
            E.prove('slots are read as slots', z3.And(is_slot, B(
                E.trace[-1][1].e.eq(sel(P_.val, nm.e)) and
                E.trace[-1][2][0] is o and E.trace[-1][3] == (tag, r))))
        elif tag == 'ok':
            E.cover('read')
            E.prove('other attributes are the keys', z3.And(
                z3.Not(is_slot), sel(ud, nm.e),
                E.lift(r) == sel(uv, nm.e)))
        else:
            E.cover('missing')
            E.prove('a key which is not there is no attribute', z3.And(
                z3.Not(is_slot), z3.Not(sel(ud, nm.e)), B(
                    isinstance(r, HInst) and r.cls is AttributeError)))
        E.prove('reading changes nothing', z3.And(
            U.dom == ud, U.val == uv))
    elif what == 'set':
        tag, r = E.run(base.__setattr__, o, nm, v)
        only_known(E, 'set')
        if E.trace:
            E.cover('slot')
            E.prove('slots are written as slots', z3.And(is_slot, B(
                slots == [('set', nm, v)] and E.trace[-1][3][0] == tag)))
            E.prove('and touch no key', z3.And(U.dom == ud, U.val == uv))
        else:
            E.cover('written')
            E.prove('other attributes become keys', z3.And(
                B(tag == 'ok'), z3.Not(is_slot), z3.ForAll([q], z3.And(
                    sel(U.dom, q) == z3.Or(q == nm.e, sel(ud, q)),
                    sel(U.val, q) == z3.If(q == nm.e, v.e, sel(uv, q))))))
    else:
        tag, r = E.run(base.__delattr__, o, nm)
        only_known(E, 'delete')
        if E.trace:
            E.cover('slot')
            E.prove('slots are deleted as slots', z3.And(is_slot, B(
                slots == [('delete', nm, None)] and
                E.trace[-1][3][0] == tag)))
            E.prove('and touch no key', z3.And(U.dom == ud, U.val == uv))
        elif tag == 'ok':
            E.cover('deleted')
            E.prove('the key is deleted, no other', z3.And(
                z3.Not(is_slot), sel(ud, nm.e), z3.ForAll([q], z3.And(
                    sel(U.dom, q) == z3.And(q != nm.e, sel(ud, q)),
                    z3.Implies(q != nm.e, sel(U.val, q) == sel(uv, q))))))
        else:
            E.cover('missing')
            E.prove('a key which is not there is no attribute', z3.And(
                z3.Not(is_slot), z3.Not(sel(ud, nm.e)), B(
                    isinstance(r, HInst) and r.cls is AttributeError)))
            E.prove('a failed deletion changes nothing', z3.And(
                U.dom == ud, U.val == uv))


@contract('C34', 'dynamic values')
def upgrade(E):
    base = E.case(NJ.AutoJsonRecord, NJ.NCAutoJsonRecord)
    made = []

    def lists(E, args, kw):
        E.prove('items of the same kind of record', B(args[0] is base))
        return E.ext('LISTTYPE', Tag('listtype', call=lambda E, s, a, k: (
            E.opaque('list', s, a, k))))
    E.sh.summaries[base] = lambda E, a, k: E.opaque('record', base, a, k)
    E.sh.summaries[NJ.list_of] = lists
    dt = Tag('dictvalue', dict)
    how = E.case('dict', 'list', 'other')
    if how == 'dict':
        x = E.some_dict('D')
    elif how == 'list':
        x = E.some_list('L')
        n, a = x.n, x.arr
    else:
        x = E.case(lambda: E.integer('I'), lambda: E.text('T'),
                   lambda: None, lambda: E.flag('F'))()
    tag, r = E.run(base.__dict__.get(
        'auto_upgrade_any', NJ.AutoJsonRecord.__dict__[
            'auto_upgrade_any']).__func__, base, x)
    only_known(E, 'record', 'list')
    if how == 'dict':
        E.prove('a document becomes a record', z3.And(
            one(E, tag, r, 'record'), B(
                E.trace and E.trace[0][2] == (x,))))
    elif how == 'other':
        E.prove('other values stay', B(tag == 'ok' and r is x))
    else:
        first = E.truth_inst(SV(sel(a, 0)), dict)
        if E.trace:
            E.prove('a list of documents becomes a list of records', z3.And(
                n > 0, first, one(E, tag, r, 'list'), B(
                    E.trace[0][2] == (x,))))
        else:
            E.prove('other lists stay', z3.And(
                B(tag == 'ok' and r is x), z3.Not(z3.And(n > 0, first))))
