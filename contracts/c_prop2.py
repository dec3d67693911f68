"""Reading, initialising, defaults and declaration of properties: C01, C03,
C04, C05, C06, C07."""
import z3
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from .world import *        # noqa
from .c_prop import store_outcome, justified, ASSUME, B

LAZY_ASSUME = ASSUME + (
    'the default function does not touch the record',)


def default_calls(W):
    return W.calls(W.default)


def default_value(E, W, where):
    """(value or None, z3 condition under which it is a call): what the
    declared default yields on this path, and its postconditions"""
    dc = default_calls(W)
    calla = z3.And(is_obj(W.default), CALLABLE(W.default))
    E.prove(where + ': a callable default is called once, others never',
            z3.If(calla, B(len(dc) == 1), B(len(dc) == 0)))
    for a, out in dc:
        E.prove(where + ': the default gets the record iff it takes it',
                z3.If(W.is_method,
                      z3.And(B(len(a) == 1 and a[0] is W.obj)),
                      B(len(a) == 0)))
    if dc:
        return dc[0][1]
    return ('ok', SV(W.default))


for _cls in kinds(('__get__',)):
    def _mk(cls):
        lazy = 'lazy' in cls.traits
        v1 = 'v1' in cls.traits
        props = ('C02', 'C07') + (('C06',) if lazy else ()) + (
            ('C05',) if 'ro' in cls.traits else ())

        @contract(props, 'get %s' % cls.__name__, assumes=LAZY_ASSUME)
        def get(E):
            W = World(E, cls)
            if lazy:
                E.assume(z3.Or(W.has_default, z3.Not(CALLABLE(
                    E.lift(NONE_)))))
            tag, r = E.run(res(cls, '__get__'), W.prop, W.obj, W.R)
            calls = len(E.trace)
            if not E.feasible(z3.Not(W.was_set())):
                E.cover('read of a set slot')
                E.prove('a set slot is returned as it is', z3.And(
                    B(tag == 'ok'), E.lift(r) == W.old() if tag == 'ok'
                    else B(False)))
                E.prove('a set slot: nothing changes, nothing is called',
                        z3.And(W.unchanged(), B(calls == 0)))
                return
            E.prove('unset on this path', z3.Not(W.was_set()))
            if not lazy or not E.feasible(W.has_default):
                E.cover('read of an unset slot')
                E.prove('an unset slot: nothing changes, nothing is called',
                        z3.And(W.unchanged(), B(calls == 0)))
                if v1:
                    E.prove('an unset slot gives the none value',
                            z3.And(B(tag == 'ok'), E.lift(r) == W.v1_none
                                   if tag == 'ok' else B(False)))
                else:
                    E.prove('an unset slot raises AttributeError', B(
                        tag == 'raise' and isinstance(r, HInst) and
                        r.cls is AttributeError))
                return
            out = default_value(E, W, 'lazy')
            if out[0] == 'raise':
                E.cover('the default raised')
                E.prove('an error of the default passes through', z3.And(
                    B(tag == 'raise'), E.lift(r) == out[1].e))
                E.prove('a failed computation stores nothing',
                        W.unchanged())
                return
            store_outcome(E, W, out[1], tag, r, 'lazy')
            if tag == 'ok':
                E.prove('the stored value is returned',
                        E.lift(r) == W.now())

        @contract(('C07', 'C09'), 'class get %s' % cls.__name__)
        def cget(E):
            W = World(E, cls, obj=False)
            tag, r = E.run(res(cls, '__get__'), W.prop, None, W.R)
            E.prove('read through the class gives the property',
                    B(tag == 'ok' and r is W.prop))
    _mk(_cls)


for _cls in kinds(('init_prop',)):
    def _mk2(cls):
        lazy = 'lazy' in cls.traits

        def finish(E, W, v, tag, r, where):
            """postcondition of initialising the slot with v"""
            co, ck = W.calls(W.coerce), W.calls(W.check)
            needs = z3.And(W.typed, z3.Not(INST(v.e, W.vt)))
            E.prove(where + ': coerce only if the type is wrong',
                    z3.Implies(z3.Not(needs), B(len(co) == 0)))
            E.prove(where + ': coerce at most once', B(len(co) <= 1))
            swallowed = []
            for a, out in co:
                # user functions do not produce the internal marker
                E.assume(E.lift(NONE_) != (
                    out[1].e if out[0] == 'ok' else
                    GETATTR(out[1].e, E.lift('coerced'))))
                E.prove(where + ': coerce gets the value',
                        z3.And(B(len(a) == 1), E.lift(a[0]) == v.e))
                if out[0] == 'ok':
                    swallowed.append(is_none(out[1].e))
                else:
                    swallowed.append(z3.And(
                        E.truth_inst(out[1], exc.SubtypeCoerceError),
                        is_none(GETATTR(out[1].e, E.lift('coerced')))))
            # a coerce function which gives None drops optional slots
            drop = z3.And(needs, z3.Not(W.required), z3.Not(INST(
                none, W.vt)), *(swallowed or [B(False)]))
            nothing = v.e == E.lift(NONE_)
            if tag == 'ok':
                E.cover(where + ': done')
                E.prove(where + ': nothing else changed',
                        W.others_unchanged())
                E.prove(where + ': slot set unless dropped', z3.Or(
                    drop, nothing, z3.And(W.now_set(),
                                          W.conforming(W.now()))))
                E.prove(where + ': a dropped slot is unchanged', z3.Implies(
                    z3.And(z3.Not(nothing), drop), W.unchanged()))
                E.prove(where + ': nothing to store: unchanged', z3.Implies(
                    nothing, z3.And(W.unchanged(), z3.Not(W.required))))
                stored = z3.And(z3.Not(drop), z3.Not(nothing))
                E.prove(where + ': a value of the type is stored as is',
                        z3.Implies(z3.And(stored, z3.Not(needs)),
                                   W.now() == v.e))
                if co and co[0][1][0] == 'ok':
                    E.prove(where + ': what coerce returned is stored',
                            z3.Implies(z3.And(stored, needs),
                                       W.now() == co[0][1][1].e))
                E.prove(where + ': the check was called if declared',
                        z3.Implies(z3.And(W.has_check, stored),
                                   B(len(ck) >= 1)))
                for a, out in ck:
                    E.prove(where + ': the stored value was accepted',
                            z3.And(B(out[0] == 'ok' and len(a) == 1),
                                   E.lift(a[0]) == W.now(),
                                   truth(out[1].e) if out[0] == 'ok'
                                   else B(False)))
                E.prove(where + ': required untyped slots refuse None',
                        z3.Not(z3.And(stored, W.required, z3.Not(W.typed),
                                      is_none(W.now()))))
            else:
                E.cover(where + ': raised')
                E.prove(where + ': a failure changes nothing', W.unchanged())
                E.prove(where + ': None from coerce is not an error for an '
                        'optional slot', z3.Not(z3.And(drop, z3.Not(
                            nothing))))
                if isinstance(r, HInst) and issubclass(
                        r.cls, exc.PropertyRequired):
                    E.prove(where + ': required error is justified',
                            W.required)
                else:
                    justified(E, W, v, r, where, co, ck, needs)

        @contract(('C01', 'C03'), 'init value %s' % cls.__name__,
                  assumes=ASSUME)
        def init(E):
            W = World(E, cls)
            v = E.val('v')
            E.assume(v.e != E.lift(P._Default))
            E.assume(v.e != E.lift(NONE_))
            tag, r = E.run(res(cls, 'init_prop'), W.prop, W.obj, v)
            finish(E, W, v, tag, r, 'value')

        @contract(('C01', 'C03', 'C04', 'C06') if lazy else
                  ('C01', 'C03', 'C04'), 'init default %s' % cls.__name__,
                  assumes=LAZY_ASSUME)
        def initd(E):
            W = World(E, cls)
            tag, r = E.run(res(cls, 'init_prop'), W.prop, W.obj)
            if lazy:
                E.cover('lazy')
                E.prove('construction leaves a lazy slot alone', z3.And(
                    B(tag == 'ok'), W.unchanged(), B(not E.trace)))
                return
            E.assume(z3.Not(CALLABLE(E.lift(NONE_))))
            out = default_value(E, W, 'default')
            if out[0] == 'raise':
                E.prove('an error of the default passes through', z3.And(
                    B(tag == 'raise'), E.lift(r) == out[1].e))
                E.prove('a failed default stores nothing', W.unchanged())
                return
            finish(E, W, out[1], tag, r, 'default')
    _mk2(_cls)


for _cls in kinds(('eager_init',)):
    def _mk3(cls):
        @contract('C04', 'eager %s' % cls.__name__)
        def eager(E):
            W = World(E, cls, obj=False)
            tag, r = E.run(res(cls, 'eager_init'), W.prop)
            E.prove('answers', B(tag == 'ok'))
            t = E.truth(r)
            t = B(t) if isinstance(t, bool) else t
            if 'lazy' in cls.traits:
                E.prove('lazy slots are not initialised eagerly', z3.Not(t))
            else:
                E.prove('eager iff required or with a default',
                        t == z3.Or(W.required, W.has_default))
    _mk3(_cls)


for _cls in kinds(('slot_is_empty',)):
    def _mk4(cls):
        @contract(('C18', 'C07'), 'empty? %s' % cls.__name__)
        def empty_(E):
            W = World(E, cls)
            tag, r = E.run(res(cls, 'slot_is_empty'), W.prop, W.obj)
            E.prove('answers', B(tag == 'ok'))
            E.prove('changes nothing', z3.And(W.unchanged(),
                                              B(not E.trace)))
            t = E.truth(r)
            t = B(t) if isinstance(t, bool) else t
            want = z3.Not(W.was_set())
            if 'lazy' in cls.traits:
                want = z3.And(want, z3.Not(W.has_default))
            if 'v1' in cls.traits:
                want = z3.And(want, z3.Not(W.v1_up))
            E.prove('empty iff a read would find no value', t == want)
    _mk4(_cls)


def _func_info(E, args, kw):
    """what Property.func_info answers (introspection of a callable): any
    (is_method, required argument count)"""
    m, n = E.flag('FI_method'), E.integer('FI_nargs')
    E.assume(n.e.arg(0) >= 0)
    return (m, n)


@contract(('C01', 'C04', 'C08'), 'new property', assumes=(
    'inspect.getfullargspec (through Property.func_info) is not modelled: '
    'its answer is arbitrary',
    'the deprecated one-argument default (walks the stack to warn) is '
    'covered by the bounded part only'))
def new_prop(E):
    for c in (P.Property,):
        E.sh.summaries[c.__dict__['func_info']] = _func_info
    o = E.new(HInst(P.Property))
    a = {n: E.val('A' + n) for n in (
        'isa', 'coerce', 'check', 'required', 'default', 'extraneous',
        'empty_attr', 'doc')}
    m, n = z3.Bool('FI_method'), z3.Int('FI_nargs')
    isc = z3.And(is_obj(a['default'].e), CALLABLE(a['default'].e))
    E.assume(z3.Not(z3.And(isc, z3.Not(m), n == 1)))
    E.assume(z3.Not(CALLABLE(E.lift(NONE_))))
    E.assume(z3.Implies(isc, HASATTR(a['default'].e,
                                     E.lift('__module__'))))
    tag, r = E.run(P.Property.__dict__['__init__'], o, **a)
    cw = z3.And(truth(a['coerce'].e), z3.Not(truth(a['isa'].e)))
    ds = z3.And(isc, n != 0)
    if tag == 'ok':
        E.cover('accepted')
        E.prove('accepted only if consistent', z3.Not(z3.Or(cw, ds)))
        co = E.lift(o.attrs['coerce'])
        vt = E.lift(o.attrs['valuetype'])
        E.prove('type kept', vt == a['isa'].e)
        E.prove('coerce is the given one or the type', co == z3.If(
            truth(a['coerce'].e), a['coerce'].e, a['isa'].e))
        E.prove('invariant: typed slots have a coerce function',
                truth(vt) == truth(co))
        for at, an in (('check', 'check'), ('required', 'required'),
                       ('default', 'default'),
                       ('extraneous', 'extraneous'),
                       ('empty_attr', 'empty_attr'), ('__doc__', 'doc')):
            E.prove('argument %s in effect' % an,
                    E.lift(o.attrs[at]) == a[an].e)
        E.prove('a callable default records whether it takes the record',
                z3.Implies(isc, B('default_is_method' in o.attrs) if
                           'default_is_method' not in o.attrs else
                           truth(E.lift(o.attrs['default_is_method'])) == m))
        E.prove('starts unbound', B(o.attrs['name'] is None and
                                    o.attrs['class_'] is None))
    else:
        E.cover('refused')
        E.prove('a definition error for the right reason', z3.Or(
            z3.And(cw, B(isinstance(r, HInst) and
                         r.cls is exc.CoerceWithoutType)),
            z3.And(ds, B(isinstance(r, HInst) and
                         r.cls is exc.DefaultSignatureError))))
