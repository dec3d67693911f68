"""JSON: reading and writing records."""
import z3
import normalize.exc as exc
import normalize.record.json as NJ
import normalize.property.json as PJ
import normalize.selector as NS
from normalize.record import Record as NR_Record
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from pv.execute import EXTRA
from .world import *        # noqa
from .world import B_ as B

q, k_ = z3.Const('q', V), z3.Const('k_', V)
PJSON = z3.Function('PJSONNAME', V, V)      # the JSON name of a property
PVT = z3.Function('PVALUETYPE', V, V)
JN = z3.Function('KEYOF', V, V)             # slot name -> key in the document
FJ = z3.Function('FROMJSON', V, V, V)       # what property.from_json gives
VI = z3.Function('INITIALIZER', V, V, V)    # _json_to_value_initializer
WIT = z3.Function('FIRSTREADER', V, V)      # the first slot reading a key
DC = strf('deepcopy', V, V)


def sel(a, k):
    return z3.Select(a, k)


def only_known(E, *kinds):
    """every call of something unknown was one the contract knows"""
    for t in E.trace:
        if t[0] not in kinds:
            raise Unsupported('a call this contract does not describe: %s %s'
                              % (t[0], t[1]))


# ------------------------------------------------------------- JsonProperty
class Slot:
    """a JSON property with arbitrary settings"""
    def __init__(self, E, cls=None):
        self.name = E.text('NAME')
        self.jin = E.val('JIN')
        self.jout = E.val('JOUT')
        for f in (self.jin, self.jout):
            E.assume(z3.Or(is_none(f.e), z3.And(
                is_obj(f.e), truth(f.e))))
        self.jn = E.case('default', 'none', 'name')
        v = {'default': lambda: PJ._default, 'none': lambda: None,
             'name': lambda: E.text('JN')}[self.jn]()
        self.jname = v
        self.p = E.new(HInst(cls or PJ.JsonProperty, {
            'name': self.name, '_json_name': v, 'json_in': self.jin,
            'json_out': self.jout}))


@contract(('C18', 'C19'), 'JSON name of a slot')
def json_name(E):
    for cls in kinds(('json_name',), json=True):
        break
    s = Slot(E, cls)
    tag, r = 'ok', None
    try:
        r = E.getattr_(s.p, 'json_name')
    except PyRaise as e:
        tag = 'raise'
    E.prove('the declared name, or the name of the slot', z3.And(
        B(tag == 'ok'), E.lift(r) == E.lift(
            s.name if s.jn == 'default' else s.jname)))


@contract(('C17', 'C19'), 'property from_json', covers=('converted', 'as is'))
def prop_from_json(E):
    for cls in kinds(('from_json',), json=True):
        s = Slot(E, cls)
        x = E.val('X')
        n = len(E.trace)
        tag, r = E.run(res(cls, 'from_json'), s.p, x)
        calls = E.trace[n:]
        given = truth(s.jin.e)
        if calls:
            E.cover('converted')
            E.prove('the input function gets the value, once', z3.And(
                given, B(len(calls) == 1 and calls[0][1] is s.jin and
                         len(calls[0][2]) == 1 and calls[0][2][0] is x)))
            E.prove('what it gives or raises is the result', B(
                calls[0][3][0] == tag and calls[0][3][1] is r))
        else:
            E.cover('as is')
            E.prove('without an input function the value itself', z3.And(
                z3.Not(given), B(tag == 'ok' and r is x)))


@contract(('C17', 'C18'), 'property to_json', covers=('converted', 'general'))
def prop_to_json(E):
    for cls in kinds(('to_json',), json=True):
        s = Slot(E, cls)
        x, ex = E.val('X'), E.val('EX')
        f = E.ext('F')
        E.assume(truth(f.e))
        how = E.case('func', 'default')
        if how == 'default':
            E.sh.summaries[NJ.to_json] = lambda E, args, kw: E.opaque(
                'to_json', None, args, kw)
        n = len(E.trace)
        tag, r = E.run(res(cls, 'to_json'), s.p, x, ex,
                       *([f] if how == 'func' else []))
        calls = E.trace[n:]
        given = truth(s.jout.e)
        E.prove('one conversion', B(len(calls) == 1))
        c = calls[0]
        E.prove('what it gives or raises is the result', B(
            c[3][0] == tag and c[3][1] is r))
        if c[1] is s.jout:
            E.cover('converted')
            E.prove('the output function gets the value', z3.And(
                given, B(len(c[2]) == 1 and c[2][0] is x)))
        else:
            E.cover('general')
            E.prove('otherwise the general conversion of the value',
                    z3.And(z3.Not(given), B(
                        (c[1] is f if how == 'func' else
                         c[0] == 'to_json') and len(c[2]) == 2 and
                        c[2][0] is x and c[2][1] is ex)))


# -------------------------------------------------------- reading a document
class JsonWorld(RecordWorld):
    def __init__(self, E, base=NJ.JsonRecord, **kw):
        super().__init__(E, base=base, **kw)
        self.isjson = lambda p: INST(p, E.lift(PJ.JsonProperty))
        self.tag.attrs.update({
            'json_name': self.a_json_name,
            'valuetype': lambda E, e: SV(PVT(e)),
        })
        self.tag.methods['from_json'] = self.m_from_json

        def readable(q):
            p = sel(self.pval, q)
            return z3.Implies(self.isjson(p), z3.Not(is_none(PJSON(p))))
        self.readable = readable
        E.assume(z3.ForAll([q], z3.Implies(sel(self.pdom, q), z3.And(
            JN(q) == z3.If(self.isjson(sel(self.pval, q)),
                           PJSON(sel(self.pval, q)), q),
            z3.Or(is_none(JN(q)), is_str(JN(q))))), patterns=[JN(q)]))
        E.assume(z3.ForAll([q], z3.Implies(sel(self.pdom, q), z3.And(
            JN(q) == JN(q), is_str(q))), patterns=[sel(self.pdom, q)]))

    def a_json_name(self, E, e):
        r = PJSON(e)
        E.assume(z3.Or(is_none(r), is_str(r)))
        E.assume(z3.Implies(self.isjson(e), r == JN(PNAME(e))))
        return SV(r)

    def fallible(self, E, kind, sv, args, r):
        if E.branch(E.fresh('raises', BoolS)):
            ex = SV(E.fresh('exc'))
            E.assume(is_obj(ex.e))
            E.assume(INST(ex.e, E.lift(Exception)))
            E.trace.append((kind, sv, tuple(args), ('raise', ex)))
            raise PyRaise(ex)
        E.trace.append((kind, sv, tuple(args), ('ok', r)))
        return r

    def m_from_json(self, E, sv, args, kw):
        x = E.lift(args[0])
        r = FJ(sv.e, x)
        E.assume(z3.Implies(is_obj(r), V.ref(r) < 1000000))
        return self.fallible(E, 'from_json', sv, args, SV(r))

    def initializer(self, E, args, kw):
        v, vt = args
        return self.fallible(E, 'initializer', v, args, SV(VI(
            E.lift(v), E.lift(vt))))

    def value(self, q, x):
        p = sel(self.pval, q)
        return VI(z3.If(self.isjson(p), FJ(p, x), x), PVT(p))


@contract(('C17', 'C19'), 'document to arguments', assumes=(
    'json_in and nested conversions give the same result for the same value',
    'copy.deepcopy gives an equal, independent copy'),
    covers=('read', 'refused', 'not a document'), limit=200)
def initkwargs(E):
    W = JsonWorld(E)
    how = E.case('document', 'none', 'other')
    kw = E.case('none', 'given')
    if how == 'other':
        x = E.case(lambda: E.integer('X'), lambda: E.some_list('L'),
                   lambda: E.text('T'), lambda: E.flag('F'),
                   lambda: E.ext('O'))()
        if isinstance(x, SV):
            E.assume(z3.Not(INST(x.e, E.lift(dict))))
        tag, r = E.run(NJ.json_to_initkwargs, W.R, x)
        E.cover('not a document')
        E.prove('anything but a document is refused, saying so', B(
            tag == 'raise' and isinstance(r, HInst) and
            r.cls is exc.JsonRecordCoerceError and
            r.attrs['passed'] is x and r.attrs['recordtype'] is W.R))
        return
    if how == 'none':
        tag, r = E.run(NJ.json_to_initkwargs, W.R, None)
        E.prove('no document, no arguments', B(
            tag == 'ok' and isinstance(r, HDict)))
        E.prove('no document, no arguments', z3.ForAll(
            [q], z3.Not(sel(r.dom, q))))
        return
    J = E.some_dict('J', keytag='str')
    jd, jv = J.dom, J.val
    E.assume(z3.ForAll([q], z3.Implies(sel(jd, q), is_str(q)),
                       patterns=[sel(jd, q)]))
    K = E.some_dict('KW', keytag='str') if kw == 'given' else None
    kd, kv = (K.dom, K.val) if K is not None else (
        z3.K(V, z3.BoolVal(False)), z3.K(V, none))
    n, KE, X = E.enum(W.pdom)
    # the first slot which reads a key
    reads = lambda q: z3.And(sel(W.pdom, q), W.readable(q))   # noqa
    E.assume(z3.ForAll([q], z3.Implies(reads(q), z3.And(
        reads(WIT(JN(q))), JN(WIT(JN(q))) == JN(q),
        X(WIT(JN(q))) <= X(q))), patterns=[JN(q)]))
    used = lambda k: z3.And(reads(WIT(k)), JN(WIT(k)) == k)    # noqa
    # no slot is called like the parameter for unknown keys
    E.assume(z3.Not(z3.And(
        reads(E.lift('unknown_json_keys')), B(True))))
    E.sh.summaries[NJ._json_to_value_initializer] = W.initializer
    E.sh.summaries[NJ._box_ingress_error] = boxed
    E.sh.loop_cands = [('read', read_invariants(
        W, J, jd, jv, kd, kv, reads, used, X))]
    tag, r = E.run(NJ.json_to_initkwargs, W.R, J,
                   *([K] if K is not None else []))
    only_known(E, 'from_json', 'initializer', 'boxed')
    E.prove('the document is not modified', z3.And(
        J.dom == jd, J.val == jv))
    if tag != 'ok':
        E.cover('refused')
        E.prove('a failure of a conversion is reported with its key', B(
            isinstance(r, HInst) and r.cls is exc.JsonConversionError and
            bool(E.trace) and E.trace[-1][0] == 'boxed' and
            len(E.trace) > 1 and E.trace[-2][3][0] == 'raise' and
            E.trace[-1][2][1] is E.trace[-2][3][1]))
        return
    E.cover('read')
    uk = E.lift('unknown_json_keys')
    E.prove('the arguments', B(isinstance(r, HDict)))
    unknown = z3.Exists([k_], z3.And(sel(jd, k_), z3.Not(used(k_))))
    E.prove('exactly the slots whose key is there get an argument, besides '
            'those given', z3.ForAll([q], z3.Implies(q != uk, sel(
                r.dom, q) == z3.Or(sel(kd, q), z3.And(
                    reads(q), sel(jd, JN(q)))))))
    E.prove('the value found under the key, converted', z3.ForAll(
        [q], z3.Implies(z3.And(q != uk, reads(q), sel(jd, JN(q)),
                               z3.Not(sel(kd, q))),
                        sel(r.val, q) == W.value(q, sel(jv, JN(q))))))
    E.prove('arguments given win', z3.ForAll([q], z3.Implies(
        z3.And(q != uk, sel(kd, q)), sel(r.val, q) == sel(kv, q))))
    E.prove('unknown keys are passed on iff there are any', z3.Implies(
        z3.Not(sel(kd, uk)), sel(r.dom, uk) == unknown))
    u = r.known_uk = E.dict_val(r, 'unknown_json_keys')
    E.prove('unknown keys, with copies of their values', z3.Implies(
        unknown, unknown_is(E, u, jd, jv, used)))


def unknown_is(E, u, jd, jv, used):
    if not isinstance(u, HDict):
        return z3.Not(z3.BoolVal(True)) if not isinstance(u, SV) else \
            z3.BoolVal(False)
    return z3.ForAll([k_], z3.And(
        sel(u.dom, k_) == z3.And(sel(jd, k_), z3.Not(used(k_))),
        z3.Implies(sel(u.dom, k_), sel(u.val, k_) == DC(sel(jv, k_)))))


def boxed(E, args, kw):
    h = E.new(HInst(exc.JsonConversionError, {
        'context': args[0], 'cause': args[1]}))
    E.trace.append(('boxed', None, tuple(args), ('ok', h)))
    return h


def read_invariants(W, J, jd, jv, kd, kv, reads, used, X):
    def cands(E, ctx, i, base):
        kl = key_loop(E, ctx)
        if kl is None:
            return None
        K, X2, key = kl
        fs = []
        done = z3.And(sel(W.pdom, q), X(q) < i)
        for loc in sorted(base, key=str):
            if loc[0] != 'heap':
                continue
            o = E.heap[HB + loc[1]]
            b = base[loc]
            if isinstance(o, HSet):
                fs.append(z3.ForAll([k_], sel(o.dom, k_) == z3.And(
                    sel(jd, k_), z3.Not(z3.And(
                        used(k_), X(WIT(k_)) < i)))))
            elif isinstance(o, HDict) and key.eq(W.pdom):
                d0, v0 = b[1], b[2]
                here = z3.And(done, reads(q), sel(jd, JN(q)))
                fs += [
                    z3.ForAll([q], sel(o.dom, q) == z3.Or(
                        sel(d0, q), here)),
                    z3.ForAll([q], z3.Implies(
                        z3.And(here, z3.Not(sel(d0, q))),
                        sel(o.val, q) == W.value(q, sel(jv, JN(q))))),
                    z3.ForAll([q], z3.Implies(
                        sel(d0, q), sel(o.val, q) == sel(v0, q)))]
            elif isinstance(o, HDict):
                d0 = b[1]
                dk = z3.And(sel(key, q), X2(q) < i)
                fs += [z3.ForAll([q], sel(o.dom, q) == z3.Or(
                    sel(d0, q), dk)),
                    z3.ForAll([q], z3.Implies(dk, sel(o.val, q) == DC(
                        sel(jv, q))))]
        return fs
    return cands


from pv.interp import HEAP_BASE as HB      # noqa


# ---------------------------------------------------------- writing a record
PEMPTY = z3.Function('SLOTEMPTY', V, V, BoolS)    # slot_is_empty(record)
HASJN = z3.Function('HASJSONNAME', V, BoolS)
OUTJ = z3.Function('TOJSON', V, V, V, V)          # property.to_json
JD = z3.Function('JSONDATA', V, V, V)             # _json_data
WRT = z3.Function('WRITER', V, V)                 # key -> the slot written


class OutWorld(JsonWorld):
    """to_json of one record; reading a slot gives a value or AttributeError
    (contracts of __get__), its conversion is any function of the value"""
    def __init__(self, E, base=NR_Record, extraneous=None):
        super().__init__(E, base=base)
        self.extr = extraneous if extraneous is not None else E.val('EX')
        self.tag.methods.update({
            'slot_is_empty': lambda E, sv, a, kw: SV(vbool(
                PEMPTY(sv.e, E.lift(a[0])))),
            '__get__': self.m_get,
            '_to_json': self.m_to_json,
        })
        self.tag.attrs['to_json'] = self.a_to_json
        # a property converts iff it is a JSON property
        self.tag.attrs['json_name'] = self.a_json_name2
        oe = E.lift(self.obj)

        def out(q):
            p = sel(self.pval, q)
            return z3.And(
                sel(self.pdom, q),
                z3.Or(truth(self.extr.e), z3.Not(PEXTR(p))),
                z3.Not(PEMPTY(p, oe)), self.readable(q), RHAS(oe, q))
        self.out = out
        # no two slots are written under the same key
        E.assume(z3.ForAll([q], z3.Implies(
            z3.And(sel(self.pdom, q), self.readable(q)),
            WRT(JN(q)) == q), patterns=[JN(q)]))

    def a_json_name2(self, E, e):
        if not E.branch(self.isjson(e)):
            E.throw(AttributeError, 'json_name')
        return self.a_json_name(E, e)

    def a_to_json(self, E, e):
        if not E.branch(self.isjson(e)):
            E.throw(AttributeError, 'to_json')
        return BoundM(('tagm', self.tag, '_to_json'), SV(e, self.tag))

    def m_get(self, E, sv, args, kw):
        E.prove('only the record itself is read', B(args[0] is self.obj))
        return read_slot(E, self.obj, SV(PNAME(sv.e)))

    def conv(self, E, kind, sv, args, r):
        """a conversion: it may raise, but no AttributeError"""
        if E.branch(E.fresh('raises', BoolS)):
            ex = SV(E.fresh('exc'))
            E.assume(is_obj(ex.e))
            E.assume(z3.Not(INST(ex.e, E.lift(AttributeError))))
            E.trace.append((kind, sv, tuple(args), ('raise', ex)))
            raise PyRaise(ex)
        E.trace.append((kind, sv, tuple(args), ('ok', r)))
        return r

    def m_to_json(self, E, sv, args, kw):
        E.prove('conversion of the value with the same options', B(
            len(args) == 3 and args[1] is self.extr and
            args[2] is NJ._json_data))
        r = OUTJ(sv.e, E.lift(args[0]), E.lift(args[1]))
        return self.conv(E, 'to_json', sv, args, SV(r))

    def json_data(self, E, args, kw):
        r = JD(E.lift(args[0]), E.lift(args[1]))
        return self.conv(E, 'json_data', args[0], args, SV(r))

    def written(self, q):
        p = sel(self.pval, q)
        v = RVAL(self.E.lift(self.obj), q)
        return z3.If(self.isjson(p), OUTJ(p, v, self.extr.e),
                     JD(v, self.extr.e))


@contract(('C17', 'C18'), 'record to JSON', assumes=(
    'no two exported slots have the same JSON name',
    'converting a value raises no AttributeError',
    'slot_is_empty is true only of slots without a value (contracts '
    "'empty?')"), covers=('written', 'refused'), limit=200)
def record_to_json(E):
    W = OutWorld(E)
    E.sh.summaries[NJ._json_data] = W.json_data
    n, KE, X = E.enum(W.pdom)

    def cands(E, ctx, i, base):
        kl = key_loop(E, ctx)
        if kl is None or not kl[2].eq(W.pdom):
            return None
        fs = []
        done = lambda q: z3.And(sel(W.pdom, q), X(q) < i)    # noqa
        for loc in sorted(base, key=str):
            o = E.heap[HB + loc[1]] if loc[0] == 'heap' else None
            if isinstance(o, HDict):
                w = WRT(k_)
                fs += [z3.ForAll([k_], sel(o.dom, k_) == z3.And(
                           W.out(w), done(w), JN(w) == k_)),
                       z3.ForAll([q], z3.Implies(
                           z3.And(W.out(q), done(q)), z3.And(
                               sel(o.dom, JN(q)),
                               sel(o.val, JN(q)) == W.written(q))))]
        return fs
    E.sh.loop_cands = [('write', cands)]
    tag, r = E.run(NJ.to_json, readable(W, W.obj), W.extr)
    only_known(E, 'to_json', 'json_data')
    E.prove('the record is not changed', z3.And(
        W.d.dom == W.dom0, W.d.val == W.val0))
    if tag != 'ok':
        E.cover('refused')
        E.prove('only a conversion that fails is reported', B(
            bool(E.trace) and E.trace[-1][3][0] == 'raise' and
            E.trace[-1][3][1] is r))
        return
    E.cover('written')
    E.prove('a new dict', B(isinstance(r, HDict) and r is not W.d))
    E.prove('each set, exported slot is written under its name, converted',
            z3.ForAll([q], z3.Implies(W.out(q), z3.And(
                sel(r.dom, JN(q)), sel(r.val, JN(q)) == W.written(q)))))
    E.prove('nothing else is written', z3.ForAll([k_], z3.Implies(
        sel(r.dom, k_), z3.And(W.out(WRT(k_)), JN(WRT(k_)) == k_))))


@contract(('C17', 'C18'), 'plain value to JSON', assumes=(
    'nested conversions give the same result for the same value',))
def plain_to_json(E):
    ex = E.val('EX')
    calls = []

    def jd(E, args, kw):
        x, e = args
        E.prove('with the same options', B(e is ex))
        if E.branch(E.fresh('raises', BoolS)):
            v = SV(E.fresh('exc'))
            E.assume(is_obj(v.e))
            E.trace.append(('jd', None, tuple(args), ('raise', v)))
            raise PyRaise(v)
        return SV(JD(E.lift(x), E.lift(e)))
    E.sh.summaries[NJ._json_data] = jd
    how = E.case('none', 'text', 'flag', 'small', 'dict', 'list', 'tuple',
                 'list collection', 'mapping collection', 'other')
    jj = z3.Int('jj')
    x = {'none': lambda: None, 'text': lambda: E.text('X'),
         'flag': lambda: E.case(True, False),
         'small': lambda: E.integer('X'),
         'dict': lambda: E.some_dict('D'), 'list': lambda: E.some_list('L'),
         'tuple': lambda: (E.val('X'), E.val('Y')),
         'list collection': lambda: E.new(HInst(
             E.new(HClass(NJ.RecordList, 'C')), {
                 '_values': E.some_list('L')})),
         'mapping collection': lambda: E.new(HInst(
             E.new(HClass(NJ.RecordDict, 'C')), {
                 '_values': E.some_dict('D')})),
         'other': lambda: E.new(HInst(object))}[how]()
    src = x.attrs['_values'] if how.endswith('collection') else x

    def cands(E, ctx, i, base):
        kl = key_loop(E, ctx)
        fs = []
        for loc in sorted(base, key=str):
            o = E.heap[HB + loc[1]] if loc[0] == 'heap' else None
            if kl and isinstance(o, HDict) and isinstance(src, HDict):
                K, X, key = kl
                done = z3.And(sel(key, q), X(q) < i)
                fs += [z3.ForAll([q], sel(o.dom, q) == done),
                       z3.ForAll([q], z3.Implies(done, sel(
                           o.val, q) == JD(sel(src.val, q), ex.e)))]
        return fs
    E.sh.loop_cands = [('items', cands)]
    if how == 'small':
        a = V.i(x.e)
        E.sh.summaries[str] = lambda E, args, kw: SV(V.vstr(strf(
            'str', V, IntS)(E.lift(args[0]))))
    tag, r = E.run(NJ.to_json, x, ex)
    if how in ('none', 'text', 'flag'):
        E.prove('JSON values stand for themselves', B(
            tag == 'ok' and r is x))
    elif how == 'small':
        big = z3.Or(V.i(x.e) > 2 ** 50, V.i(x.e) < -2 ** 50)
        E.prove('numbers stand for themselves unless too big for a JSON '
                'number', z3.And(B(tag == 'ok'), E.lift(r) == z3.If(
                    big, V.vstr(strf('str', V, IntS)(x.e)), x.e)))
    elif how == 'other':
        E.prove('anything else is refused', B(
            tag == 'raise' and isinstance(r, HInst) and r.cls is TypeError))
    elif tag == 'raise':
        E.prove('only a conversion that fails is reported', B(
            bool(E.trace) and E.trace[-1][3] == ('raise', r)))
    elif isinstance(src, HDict):
        E.prove('each item converted, under its key', z3.And(
            B(isinstance(r, HDict) and r is not src), z3.ForAll(
                [q], z3.And(sel(r.dom, q) == sel(src.dom, q), z3.Implies(
                    sel(src.dom, q), sel(r.val, q) == JD(
                        sel(src.val, q), ex.e))))))
    else:
        if isinstance(src, tuple):
            n, at = len(src), lambda j: z3.If(
                j == 0, src[0].e, src[1].e)
        else:
            n, at = src.n, lambda j: sel(src.arr, j)
        E.prove('each item converted, in order', z3.And(
            B(isinstance(r, HList) and r is not src), r.n == n,
            z3.ForAll([jj], z3.Implies(z3.And(0 <= jj, jj < r.n), sel(
                r.arr, jj) == JD(at(jj), ex.e)))))
