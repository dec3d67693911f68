"""Subtypes, ready-made property types, placeholders."""
import datetime
import numbers
import types
import z3
import normalize.exc as exc
from normalize.subtype import subtype as ST
import normalize.property.types as PT
import normalize.empty as NE
import normalize.coll as NC
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from pv.execute import EXTRA
from .world import *        # noqa
from .world import B_ as B
from .c_json import only_known, sel, q, k_
from .c_json2 import one, summary


# ------------------------------------------------------------------ subtype
@contract('C31', 'subtype membership', covers=('member', 'no member'))
def membership(E):
    of = E.ext('OF')
    nw = E.case(1, 2)
    ws = tuple(E.ext('WHERE%d' % i) for i in range(nw))
    cls = E.ext('CLS', Tag('subtype', attrs={
        'of': lambda E, e: of, 'where_funcs': lambda E, e: ws}))
    x = E.val('X')
    f = ST.__dict__['__instancecheck__']
    tag, r = E.run(f, cls, x)
    only_known(E, 'call')
    E.prove('never raises', B(tag == 'ok'))
    E.prove('each constraint is asked about the value', B(all(
        any(t[1] is w for w in ws) and len(t[2]) == 1 and t[2][0] is x
        for t in E.trace)))
    said = [z3.And(*([B(t[3][0] == 'ok')] + ([truth(
        E.lift(t[3][1]))] if t[3][0] == 'ok' else [])))
        for w in ws for t in E.trace if t[1] is w][:nw]
    asked = all(any(t[1] is w for t in E.trace) for w in ws)
    member = z3.And(INST(x.e, of.e), B(asked), *said)
    res_ = r if isinstance(r, bool) else None
    rt = B(r) if res_ is not None else truth(E.lift(r))
    E.prove('true iff it is of the type and every constraint holds',
            rt == member)
    if not asked:
        E.prove('unless it is not of the type or one constraint fails',
                z3.Or(z3.Not(INST(x.e, of.e)), z3.Not(z3.And(
                    *(said or [z3.BoolVal(True)])))))
    E.cover('member' if E.valid(member) else 'no member')


def new_of(E, T, of):
    """the constructor every subtype gets, for an arbitrary subtype"""
    f = PT.date.__dict__['__new__']
    f = getattr(f, '__func__', f)
    cells = {'of': of, 'cls_a': [T]}
    names = f.__code__.co_freevars
    for n in names:
        if n not in cells:
            raise Unsupported('the constructor uses %s' % n)
    return types.FunctionType(
        f.__code__, f.__globals__, f.__name__, f.__defaults__,
        tuple(types.CellType(cells[n]) for n in names))


@contract('C31', 'subtype construction', assumes=(
    'isinstance of a subtype is a fixed predicate of the value '
    "(contract 'subtype membership')",), covers=(
    'as is', 'coerced', 'not coerced', 'no coerce function', 'raised'))
def construction(E):
    T, of = E.ext('T'), E.ext('OF')
    E.assume(INST(T.e, E.lift(type)))
    co = E.case(lambda: None, lambda: E.ext('CO'))()
    if co is not None:
        E.assume(truth(co.e))
    cls = E.ext('CLS', Tag('subtype', attrs={
        'coerce': lambda E, e: (co,)}))
    x = E.val('X')
    tag, r = E.run(new_of(E, T, of), cls, x)
    only_known(E, 'call')
    ok = INST(x.e, T.e)
    if E.trace:
        t = E.trace[0]
        E.prove('a value which is no member is coerced, once', z3.And(
            z3.Not(ok), B(len(E.trace) == 1 and t[1] is co and
                          len(t[2]) == 1 and t[2][0] is x)))
        if t[3][0] == 'raise':
            E.cover('raised')
            E.prove('its error is reported', B(
                tag == 'raise' and r is t[3][1]))
        elif tag == 'ok':
            E.cover('coerced')
            E.prove('what it gives is a member, and the result', z3.And(
                INST(E.lift(r), T.e), B(r is t[3][1])))
        else:
            E.cover('not coerced')
            E.prove('what is no member is refused, saying what', z3.And(
                z3.Not(INST(t[3][1].e, T.e)), B(
                    isinstance(r, HInst) and
                    r.cls is exc.SubtypeCoerceError and
                    r.attrs['passed'] is x and
                    r.attrs['coerced'] is t[3][1] and
                    r.attrs['subtype'] is T)))
    elif tag == 'ok':
        E.cover('as is')
        E.prove('only members are returned', z3.And(B(r is x), ok))
    else:
        E.cover('no coerce function')
        E.prove('only without a coerce function', z3.And(
            z3.Not(ok), B(co is None and isinstance(r, HInst) and
                          r.cls is exc.SubtypeNoCoerceFunc and
                          r.attrs['passed'] is x)))


@contract('C31', 'subtype of a type only')
def of_what(E):
    of = E.case(lambda: E.val('OF'), lambda: E.text('S'), lambda: None,
                lambda: E.integer('I'))()
    if isinstance(of, SV):
        E.assume(z3.Not(z3.And(is_obj(of.e), INST(of.e, E.lift(type)))))
    tag, r = E.run(ST.__dict__['__new__'].__func__, ST,
                   'x', of, E.ext('W'))
    E.prove('anything but a type is refused', B(
        tag == 'raise' and isinstance(r, HInst) and
        r.cls is exc.SubtypeOfWhat and r.attrs['of'] is of))


# -------------------------------------------------------- ready-made types
def conversions(E, *classes):
    """built-in constructors: the value, or an exception of their own"""
    def make(cls):
        def f(E, args, kw):
            if E.branch(E.fresh('fails', BoolS)):
                h = E.new(HInst(E.case(ValueError, OverflowError), {
                    'args': ()}))
                E.trace.append((cls.__name__, cls, tuple(args),
                                ('raise', h)))
                raise PyRaise(h)
            r = E.ext('MADE%d' % len(E.trace), Tag('made', cls))
            E.trace.append((cls.__name__, cls, tuple(args), ('ok', r)))
            return r
        return f
    for c in classes:
        E.sh.summaries[c] = make(c)


@contract('C33', 'numbers from other values', covers=('int', 'float'))
def number(E):
    conversions(E, int, float)
    how = E.case('text', 'other')
    x = E.text('T') if how == 'text' else E.case(
        lambda: E.ext('X'), lambda: None)()
    if how != 'text' and isinstance(x, SV):
        E.assume(z3.Not(INST(x.e, E.lift(str))))
    tag, r = E.run(PT.NumberProperty().coerce, x)
    only_known(E, 'int', 'float')
    ts = E.trace
    E.prove('of the value itself', B(all(t[2] == (x,) for t in ts)))
    E.prove('the outcome is that of the last conversion', B(
        ts and ts[-1][3] == (tag, r)))
    if how == 'text':
        E.prove('an integer if it is one, otherwise a float', B(
            [t[0] for t in ts] == ['int'] and not (
                tag == 'raise' and r.cls is ValueError) or
            [t[0] for t in ts] == ['int', 'float'] and
            ts[0][3][0] == 'raise' and ts[0][3][1].cls is ValueError))
    else:
        E.prove('a float', B([t[0] for t in ts] == ['float']))
    E.cover(ts[-1][0])


@contract('C33', 'dates and times from other values', assumes=(
    'datetime.datetime(y, m, d, H, M, S) gives a datetime',
    'parse_datetime gives a datetime or raises'),
    covers=('date', 'text', 'refused', 'truncated'))
def dates(E):
    E.sh.summaries[PT.parse_datetime] = lambda E, a, k: dt_of(
        E, 'parse', a)
    day = E.ext('DAY', Tag('day', datetime.date))

    def dt_of(E, kind, a):
        if E.branch(E.fresh('raises', BoolS)):
            ex = SV(E.fresh('exc'))
            E.assume(is_obj(ex.e))
            E.trace.append((kind, None, tuple(a), ('raise', ex)))
            raise PyRaise(ex)
        r = E.ext('DT%d' % len(E.trace), Tag(
            'dt', datetime.datetime, methods={
                'date': lambda E, s, a, k: truncated(E, s)}))
        E.trace.append((kind, None, tuple(a), ('ok', r)))
        return r

    def truncated(E, s):
        E.trace.append(('date()', s, (), ('ok', day)))
        return day
    parts = tuple(E.integer('P%d' % i) for i in range(9))
    E.sh.summaries[datetime.datetime] = lambda E, a, k: dt_of(E, 'new', a)
    what = E.case('time', 'day')
    co = {'time': PT.DatetimeProperty, 'day': PT.DateProperty}[what]().coerce
    how = E.case('date', 'datetime', 'text', 'other')
    x = {'date': lambda: E.ext('D', Tag('date', datetime.date, methods={
            'timetuple': lambda E, s, a, k: parts})),
         'datetime': lambda: E.ext('DTIN', Tag('dt', datetime.datetime,
                                               methods={
            'date': lambda E, s, a, k: truncated(E, s)})),
         'text': lambda: E.text('T'),
         'other': lambda: E.case(lambda: E.integer('I'), lambda: None,
                                 lambda: E.new(HInst(object)))()}[how]()
    if how == 'date':
        E.assume(z3.Not(INST(x.e, E.lift(datetime.datetime))))
        E.assume(z3.Not(HASATTR(x.e, E.lift('date'))))
    tag, r = E.run(co, x)
    only_known(E, 'parse', 'new', 'date()')
    ks = [t[0] for t in E.trace if t[0] != 'date()']
    if what == 'day':
        cut = [t for t in E.trace if t[0] == 'date()']
        if tag == 'ok':
            E.cover('truncated')
            E.prove('the day of the time', B(
                r is day and len(cut) == 1))
            src = x if how == 'datetime' else None
            E.prove('of the right time', B(
                cut[0][1] is (x if how == 'datetime' else
                              E.trace[0][3][1])))
        if how == 'datetime':
            E.prove('a time is truncated', B(tag == 'ok' and not ks))
            return
    elif how == 'datetime':
        return
    if how == 'date':
        E.cover('date')
        E.prove('a day: its midnight', B(
            ks == ['new'] and E.trace[0][2] == parts[:6] and
            E.trace[0][3][0] == tag))
    elif how == 'text':
        E.cover('text')
        E.prove('text is parsed', B(
            ks == ['parse'] and E.trace[0][2] == (x,) and
            E.trace[0][3][0] == tag))
    else:
        E.cover('refused')
        E.prove('anything else is refused', B(
            tag == 'raise' and isinstance(r, HInst) and
            r.cls is ValueError and not ks))
    if what == 'time' and how in ('date', 'text'):
        E.prove('the outcome is the result', B(E.trace[0][3] == (tag, r)))


HOLDS = (('IntProperty', int), ('LongProperty', int),
         ('IntegerProperty', numbers.Integral),
         ('NumberProperty', numbers.Number), ('StringProperty', str),
         ('FloatProperty', float), ('UnicodeProperty', str),
         ('DatetimeProperty', datetime.datetime))


@contract('C33', 'what the ready-made types hold')
def holds(E):
    """closed obligations: the declared type of each (that a slot only holds
    values of its declared type is C01-C03)"""
    for name, T in HOLDS:
        for kw in ({}, {'required': True}, {'default': None}):
            try:
                p = getattr(PT, name)(**kw)
            except exc.NormalizeError:
                p = None
            E.prove('%s holds %s' % (name, T.__name__),
                    B(p is None or p.valuetype is T))
    D = PT.DateProperty().valuetype
    E.prove('DateProperty holds days: a subtype of date', B(
        type(D) is ST and D.of is datetime.date))
    x = E.ext('X')
    tag, r = E.run(ST.__dict__['__instancecheck__'], D, x)
    rt = B(r) if isinstance(r, bool) else truth(E.lift(r))
    E.prove('of which times are no members', z3.And(B(tag == 'ok'), rt ==
            z3.And(INST(x.e, E.lift(datetime.date)),
                   z3.Not(INST(x.e, E.lift(datetime.datetime))))))


@contract('C33', 'integers from other values')
def integers(E):
    conversions(E, int)
    x = E.val('X')
    tag, r = E.run(PT.IntegerProperty().coerce, x)
    E.prove('int() of the value', B(
        len(E.trace) == 1 and E.trace[0][2] == (x,) and
        E.trace[0][3] == (tag, r)))


@contract('C33', 'text is only text')
def texts(E):
    x = E.val('X')
    co = PT.UnicodeProperty().coerce
    E.sh.summaries[str] = lambda E, a, k: a[0]
    tag, r = E.run(co, x)
    E.prove('text stays, anything else is left for the type check', z3.And(
        B(tag == 'ok'), E.lift(r) == x.e))


@contract('C33', 'constructor conversions')
def constructors(E):
    T, c = E.case((PT.IntProperty, int), (PT.FloatProperty, float),
                  (PT.LongProperty, int))
    conversions(E, c)
    x = E.val('X')
    tag, r = E.run(T().coerce, x)
    E.prove('the constructor of the type, on the value', B(
        len(E.trace) == 1 and E.trace[0][2] == (x,) and
        E.trace[0][3] == (tag, r)))


# -------------------------------------------------------------- placeholders
class PH:
    """a placeholder of k types"""
    def __init__(self, E, k=None):
        self.E = E
        self.k = k
        self.made = []
        E.sh.summaries[NE.placeholder] = self.placeholder
        self.names = []

    def placeholder(self, E, args, kw):
        r = E.ext('PH%d' % len(self.made))
        self.made.append((args[0], r))
        return r

    def of(self, types_, attrs=None, member=None):
        E = self.E
        return E.new(HInst(NE.EmptyVal, {
            '_typetuple': types_,
            '_attrs': attrs if attrs is not None else E.dict_from_known([]),
            '_member_type': member}))


@contract('C32', 'placeholders are false and immutable')
def ph_false(E):
    W = PH(E)
    ts = E.case(lambda: any, lambda: (), lambda: (int,),
                lambda: (str, dict))()
    o = W.of(ts)
    tag, r = E.run(NE.EmptyVal.__bool__, o)
    E.prove('always false', B(tag == 'ok' and r is False))
    nm = E.text('NAME')
    for n in ('_typetuple', '_attrs', '_member_type'):
        E.assume(nm.e != E.lift(n))
    before = dict(o.attrs)
    tag, r = E.run(NE.EmptyVal.__setattr__, o, nm, E.val('V'))
    E.prove('attributes cannot be set', B(
        tag == 'raise' and isinstance(r, HInst) and
        r.cls is exc.BadAssignment))
    tag, r = E.run(NE.EmptyVal.__setitem__, o, E.val('I'), E.val('V'))
    E.prove('items cannot be set', B(
        tag == 'raise' and isinstance(r, HInst) and
        r.cls is exc.BadAssignment))
    E.prove('refused assignments change nothing', B(all(
        o.attrs[k] is before[k] for k in before)))


@contract('C32', 'placeholder of anything')
def ph_any(E):
    W = PH(E)
    o = W.of(any)
    nm = E.text('NAME')
    for f, args in ((NE.EmptyVal.__getattr__, (nm,)),
                    (NE.EmptyVal.__getitem__, (E.val('I'),)),
                    (NE.EmptyVal.__call__, (E.val('A'), E.val('B'))),
                    (NE.EmptyVal.__call__, ())):
        tag, r = E.run(f, o, *args)
        E.prove('anything asked of it gives itself', B(
            tag == 'ok' and r is o and not E.trace))


def ph_types(E, k):
    """k arbitrary types: attributes exist or not, have value types or not"""
    Ts = tuple(E.ext('T%d' % i) for i in range(k))
    for T in Ts:       # classes have names
        E.assume(INST(T.e, E.lift(type)))
        E.assume(HASATTR(T.e, E.lift('__name__')))
    return Ts


@contract('C32', 'attributes of a placeholder', assumes=(
    'placeholder(types) is the placeholder of those types (bounded part)',
    'at most two types (unions of more are covered by the bounded part)'),
    covers=('found', 'missing', 'cached'), limit=200)
def ph_attr(E):
    W = PH(E)
    k = E.case(1, 2)
    Ts = ph_types(E, k)
    if k == 2:
        E.assume(Ts[0].e != Ts[1].e)
    nm = E.case('one', 'other')
    dyn = [z3.Bool('DYN%d' % i) for i in range(k)]
    E.sh.summaries[NE._defines] = lambda E, a, kw: defines(E, a, Ts, dyn)
    cached = E.case(False, True)
    c = E.ext('CACHED')
    o = W.of(Ts, E.dict_from_known([('one', c)] if cached else []))
    for T in Ts:
        a = GETATTR(T.e, E.lift(nm))
        v = GETATTR(a, E.lift('valuetype'))
        E.assume(z3.Implies(is_obj(a), V.ref(a) < 1000))
        E.assume(z3.Or(is_none(v), is_obj(v)))
        E.assume(z3.Implies(is_obj(v), z3.And(V.ref(v) < 1000, z3.Not(
            INST(v, E.lift(tuple))))))
    tag, r = E.run(NE.EmptyVal.__getattr__, o, nm)
    only_known(E)
    if cached and nm == 'one':
        E.cover('cached')
        E.prove('the same placeholder every time', B(
            tag == 'ok' and r is c and not W.made))
        return
    key = E.lift(nm)
    has = [z3.And(HASATTR(T.e, key), z3.Not(is_none(GETATTR(
        T.e, key)))) for T in Ts]
    known = z3.Or(*[z3.Or(h, d) for h, d in zip(has, dyn)])
    if tag == 'raise':
        E.cover('missing')
        E.prove('only an attribute no type has is refused', z3.And(
            z3.Not(known), B(isinstance(r, HInst) and
                             r.cls is exc.NoSuchAttribute and
                             r.attrs['attribute'] == nm)))
        return
    E.cover('found')
    E.prove('the attribute is one of a type', known)
    E.prove('one placeholder, remembered', B(
        len(W.made) == 1 and r is W.made[0][1]))
    E.prove('and the others kept', z3.And(
        E.lift(E.dict_val(o.attrs['_attrs'], nm)) == r.e,
        B(not cached or E.dict_val(o.attrs['_attrs'], 'one') is c)))
    ph_made(E, W.made[0][0], [
        (z3.Or(h, d), hint(E, T, key, h)) for T, h, d in zip(Ts, has, dyn)])


def ph_made(E, arg, want):
    """the types a placeholder is made for: those wanted, each once"""
    anye = E.lift(any)
    ws = [(c, z3.If(h[0], h[1], anye) if isinstance(h, tuple) else h)
          for c, h in want]
    if isinstance(arg, tuple):
        n, at = z3.IntVal(len(arg)), [E.lift(x) for x in arg]
    else:
        e = E.lift(arg)
        E.prove('a tuple of types', is_tup(e))
        n, at = V.n(e), [sel(V.items(e), i) for i in range(len(want))]
    m = len(at)
    E.prove('no more types than are hinted', z3.And(0 <= n, n <= len(want)))
    E.prove('only types which are hinted', z3.And(*[z3.Implies(
        i < n, z3.Or(*[z3.And(c, at[i] == w) for c, w in ws]))
        for i in range(m)]))
    E.prove('all of them', z3.And(*[z3.Implies(c, z3.Or(*[
        z3.And(i < n, at[i] == w) for i in range(m)])) for c, w in ws]))
    E.prove('each once', z3.And(z3.BoolVal(True), *[z3.Implies(
        i < n, at[i] != at[k]) for i in range(m) for k in range(i)]))


def hint(E, T, key, h):
    """the type hint of an attribute: its valuetype, or anything"""
    a = GETATTR(T.e, key)
    vt = z3.And(h, is_obj(a), HASATTR(a, E.lift('valuetype')), truth(
        GETATTR(a, E.lift('valuetype'))))
    return vt, GETATTR(a, E.lift('valuetype'))


def defines(E, a, Ts, dyn):
    i = [t is a[0] for t in Ts].index(True)
    return SV(vbool(dyn[i]))


@contract('C32', 'items of a placeholder', assumes=(
    'at most two types (unions of more are covered by the bounded part)',),
    covers=('found', 'missing', 'cached'))
def ph_item(E):
    W = PH(E)
    k = E.case(1, 2)
    Ts, want = [], []
    for i in range(k):
        how = E.case('collection', 'subscriptable', 'neither')
        if how == 'collection':
            it = E.ext('IT%d' % i)
            E.assume(z3.Not(INST(it.e, E.lift(tuple))))
            Ts.append(E.new(HClass(E.case(
                NC.ListCollection, NC.DictCollection), 'C%d' % i, {
                    'itemtype': it})))
            want.append((z3.BoolVal(True), it.e))
        elif how == 'subscriptable':
            Ts.append(E.case(dict, list))
            want.append((z3.BoolVal(True), E.lift(any)))
        else:
            Ts.append(E.case(int, object))
    c = E.case(lambda: None, lambda: E.ext('CACHED'))()
    o = W.of(tuple(Ts), member=c)
    i = E.val('I')
    tag, r = E.run(NE.EmptyVal.__getitem__, o, i)
    sl = E.truth_inst(i, slice)
    if E.valid(sl):
        E.cover('slice')
        E.prove('a slice of it is empty, too', B(tag == 'ok' and r is o))
        return
    E.prove('only a slice of it is itself', z3.And(
        z3.Not(sl), B(r is not o)))
    if c is not None:
        E.cover('cached')
        E.prove('the same placeholder every time', B(
            tag == 'ok' and r is c and not W.made))
    elif not want:
        E.cover('missing')
        E.prove('only what no type can do is refused', B(
            tag == 'raise' and isinstance(r, HInst) and
            r.cls is exc.NotSubscriptable))
    else:
        E.cover('found')
        E.prove('a placeholder, remembered', z3.And(B(
            tag == 'ok' and len(W.made) == 1 and r is W.made[0][1]),
            E.lift(E.getattr_(o, '_member_type')) == E.lift(r)))
        if W.made:
            ph_made(E, W.made[0][0], want)


@contract('C32', 'parts and calls of a placeholder')
def ph_call(E):
    W = PH(E)
    k = E.case(1, 2, 3)
    Ts = ph_types(E, k)
    for i in range(k):
        for j in range(i):
            E.assume(Ts[i].e != Ts[j].e)
    dyn = [z3.Bool('DYN%d' % i) for i in range(k)]
    E.sh.summaries[NE._defines] = lambda E, a, kw: defines(E, a, Ts, dyn)
    o = W.of(Ts)
    tag, r = E.run(NE.EmptyVal.__call__, o, *E.case([], [E.val('A')]))
    if tag == 'raise':
        E.prove('only what no type can do is refused', z3.And(
            z3.Not(z3.Or(*dyn)), B(isinstance(r, HInst) and
                                   r.cls is exc.NotCallable)))
    else:
        E.prove('one type can be called', z3.Or(*dyn))
        E.prove('it could give anything', B(
            len(W.made) == 1 and W.made[0][1] is r and
            W.made[0][0] is any))


@contract('C32', 'placeholder of a type')
def ph_of(E):
    """one placeholder for each tuple of types"""
    t = E.case(any, int, (int,), (int, str), (int, any), (any,), ())
    want = any if t is any or isinstance(t, tuple) and any in t else \
        t if isinstance(t, tuple) else (t,)
    a, b = NE.placeholder(t), NE.placeholder(t)
    E.prove('the same one every time', B(a is b))
    E.prove('of exactly those types, or of anything', B(
        a._typetuple == want and type(a) is NE.EmptyVal))
