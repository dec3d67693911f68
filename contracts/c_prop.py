"""Property and its descriptors: C01-C07."""
import z3
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from .world import *        # noqa

B = z3.BoolVal
ASSUME = (
    'user callbacks (coerce, check, default, constraints) do not change the '
    'record being initialised, and answer isinstance/== the same throughout '
    'one call',
    'isa is a class or a tuple of classes, check/coerce are None or objects; '
    'classes have a __name__, a text',
)


def eqv(E, a, e):
    """a (value) is the object denoted by e"""
    return E.lift(a) == e


def store_outcome(E, W, v, tag, r, where, init=False, silent=None):
    """postcondition of a checked store of v which ended in (tag, r)"""
    co, ck = W.calls(W.coerce), W.calls(W.check)
    ve = v.e
    inst = INST(ve, W.vt)
    needs = z3.And(W.typed, z3.Not(inst))
    # the coerce function is called exactly when needed, once, on v
    E.prove(where + ': coerce only if the type is wrong',
            z3.Implies(z3.Not(needs), B(len(co) == 0)))
    E.prove(where + ': coerce at most once', B(len(co) <= 1))
    for a, out in co:
        E.prove(where + ': coerce gets the value',
                z3.And(B(len(a) == 1), E.lift(a[0]) == ve))
    if tag == 'ok':
        E.cover(where + ': stored')
        w = W.now()
        if silent is not None and z3.is_true(z3.simplify(B(silent(W)))):
            return
        E.prove(where + ': slot set', W.now_set())
        E.prove(where + ': stored value has the type', W.conforming(w))
        E.prove(where + ': a value of the type is stored as is',
                z3.Implies(z3.Not(needs), w == ve))
        E.prove(where + ': coerce was called if needed',
                z3.Implies(needs, B(len(co) == 1)))
        if co:
            a, out = co[0]
            if out[0] == 'ok':
                E.prove(where + ': what coerce returned is stored',
                        z3.Implies(needs, w == out[1].e))
            else:
                E.prove(where + ': only a subtype error supplies a value',
                        z3.And(E.truth_inst(out[1], exc.SubtypeCoerceError),
                               w == GETATTR(out[1].e, E.lift('coerced'))))
        E.prove(where + ': the check was called if declared',
                z3.Implies(W.has_check, B(len(ck) >= 1)))
        for a, out in ck:
            E.prove(where + ': the stored value was checked and accepted',
                    z3.And(B(out[0] == 'ok' and len(a) == 1),
                           E.lift(a[0]) == w,
                           truth(out[1].e) if out[0] == 'ok' else B(False)))
        E.prove(where + ': nothing else changed', W.others_unchanged())
        E.prove(where + ': required untyped slots refuse None', z3.Not(
            z3.And(W.required, z3.Not(W.typed), is_none(w))))
    else:
        E.cover(where + ': raised')
        E.prove(where + ': a failed store changes nothing', W.unchanged())
        justified(E, W, v, r, where, co, ck, needs)


def justified(E, W, v, r, where, co, ck, needs):
    """an error is one of the documented ones and is there for a reason"""
    from_check = [o for a, o in ck if o[0] == 'raise']
    if from_check and isinstance(r, SV):
        E.prove(where + ': an error of the check function passes through',
                r.e == from_check[0][1].e)
        return
    E.prove(where + ': error class', B(isinstance(r, HInst) and issubclass(
        r.cls, (exc.CoerceError, exc.ValueCoercionError,
                exc.ValueCheckError, exc.PropertyRequired))))
    if not isinstance(r, HInst):
        return
    E.prove(where + ': error names the slot',
            B(r.attrs.get('prop') is W.prop))
    if 'passed' in r.attrs and issubclass(r.cls, exc.CoercionError):
        E.prove(where + ': coercion error carries the passed value',
                E.lift(r.attrs['passed']) == v.e)
        E.prove(where + ': coercion error only if the type is wrong', needs)
        E.prove(where + ': coercion error only after coerce failed',
                z3.And(B(len(co) == 1), *(
                    [z3.Not(INST(co[0][1][1].e, W.vt))]
                    if co and co[0][1][0] == 'ok' else [])))
    elif issubclass(r.cls, exc.ValueCheckError):
        E.prove(where + ': check error only if the check refused',
                z3.And(B(len(ck) >= 1 and ck[-1][1][0] == 'ok'),
                       z3.Not(truth(ck[-1][1][1].e)) if ck and
                       ck[-1][1][0] == 'ok' else B(False)))
    elif issubclass(r.cls, exc.PropertyRequired):
        E.prove(where + ': required error only for required slots',
                W.required)


def cases(cs):
    return sorted(cs, key=lambda c: c.__name__)


for _cls in kinds(('__set__',), safe=True, ro=False):
    def _mk(cls):
        v1 = 'v1' in cls.traits

        @contract(('C01', 'C02', 'C03') + (('C07',) if v1 else ()),
                  'set %s' % cls.__name__, assumes=ASSUME)
        def assign(E):
            W = World(E, cls)
            v = E.val('v')
            tag, r = E.run(res(cls, '__set__'), W.prop, W.obj, v)
            if not v1:
                return store_outcome(E, W, v, tag, r, 'assignment')
            v1_assign(E, W, v, tag, r)
    _mk(_cls)


for _cls in kinds(('__delete__',), safe=True, ro=False):
    def _mk1(cls):
        @contract(('C02', 'C07'), 'delete %s' % cls.__name__, assumes=ASSUME)
        def delete(E):
            W = World(E, cls)
            tag, r = E.run(res(cls, '__delete__'), W.prop, W.obj)
            if tag == 'ok':
                E.cover('deleted')
                E.prove('the slot is empty', z3.Not(W.now_set()))
                E.prove('it was set', W.was_set())
                E.prove('it is optional', z3.Not(W.required))
                E.prove('nothing else changed', W.others_unchanged())
            else:
                E.cover('refused')
                E.prove('a failed deletion changes nothing', W.unchanged())
                E.prove('refused only if required or unset',
                        z3.Or(W.required, z3.Not(W.was_set())))
                E.prove('error class', B(isinstance(r, HInst) and issubclass(
                    r.cls, (exc.PropertyRequired, AttributeError))))
    _mk1(_cls)


def v1_assign(E, W, v, tag, r):
    co, ck = W.calls(W.coerce), W.calls(W.check)
    for a, out in ck:
        # a check function which raises CoercionError itself is out of scope
        if out[0] == 'raise':
            E.assume(z3.Not(E.truth_inst(out[1], exc.CoercionError)))
    needs = z3.And(W.typed, z3.Not(INST(v.e, W.vt)))
    nonelike = z3.Or(is_none(v.e), peq(v.e, W.v1_none))
    E.prove('coerce only if the type is wrong',
            z3.Implies(z3.Not(needs), B(len(co) == 0)))
    E.prove('coerce at most once', B(len(co) <= 1))
    if tag == 'ok':
        E.cover('stored')
        E.prove('a value of the type is stored as is', z3.Implies(
            z3.Not(needs), z3.And(W.now_set(), W.now() == v.e)))
        E.prove('the slot is empty or holds a conforming value', z3.Implies(
            W.now_set(), W.conforming(W.now())))
        E.prove('emptied only by a none value which is not of the type',
                z3.Implies(z3.Not(W.now_set()), z3.And(needs, nonelike,
                                                       z3.Not(W.required))))
        E.prove('nothing else changed', W.others_unchanged())
        for a, out in ck:
            E.prove('only an accepted value is stored', z3.And(
                B(out[0] == 'ok'), E.lift(a[0]) == W.now(),
                truth(out[1].e) if out[0] == 'ok' else B(False)))
        E.prove('the check was called if declared and a value is stored',
                z3.Implies(z3.And(W.has_check, W.now_set()), B(len(ck) == 1)))
    else:
        E.cover('raised')
        E.prove('a failed store changes nothing', W.unchanged())
        E.prove('an optional slot accepts a none value whose type is wrong',
                z3.Or(z3.Not(z3.And(needs, nonelike)), W.required,
                      B(isinstance(r, SV)),
                      B(isinstance(r, HInst) and issubclass(
                          r.cls, exc.ValueCheckError))))


for _cls in kinds(('__set__', '__delete__'), ro=True):
    def _mk2(cls):
        @contract('C05', 'read-only %s' % cls.__name__, assumes=ASSUME)
        def ro(E):
            W = World(E, cls)
            op = E.case('set', 'delete')
            if op == 'set':
                f = res(cls, '__set__')
                a = [W.prop, W.obj, E.val('v')]
            else:
                f = res(cls, '__delete__')
                a = [W.prop, W.obj]
            E.prove(op + ': there is a %s method' % op, B(f is not None))
            if f is None:
                return
            tag, r = E.run(f, *a)
            E.cover(op)
            E.prove(op + ': raises the read-only error', B(
                tag == 'raise' and isinstance(r, HInst) and
                r.cls is exc.ReadOnlyAttributeError))
            E.prove(op + ': changes nothing', W.unchanged())
            E.prove(op + ': calls nothing', B(not E.trace))
    _mk2(_cls)


for _cls in kinds(('__get__',), ro=True):
    def _mk3(cls):
        @contract('C05', 'read-only read %s' % cls.__name__, assumes=ASSUME)
        def ro_get(E):
            W = World(E, cls)
            tag, r = E.run(res(cls, '__get__'), W.prop, W.obj, W.R)
            E.prove('a set slot is returned as it is', z3.Implies(
                W.was_set(), z3.And(B(tag == 'ok'),
                                    E.lift(r) == W.old() if tag == 'ok'
                                    else B(False))))
            E.prove('a set slot is unchanged by a read', z3.Implies(
                W.was_set(), z3.And(W.unchanged(), B(not E.trace))))
            E.prove('no other slot changes', W.others_unchanged())
            E.cover('read')
    _mk3(_cls)
