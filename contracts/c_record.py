"""Record: construction, equality, state."""
import z3
import normalize.record as NR
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from pv.execute import EXTRA
from .world import *        # noqa

B = B_
q = z3.Const('q', V)


def sel(a, k):
    return z3.Select(a, k)


def conforming(W):
    return z3.ForAll([q], z3.Implies(sel(W.d.dom, q), z3.And(
        sel(W.pdom, q), PCONF(sel(W.pval, q), sel(W.d.val, q)))))


def init_invariants(W, init):
    def cands(E, ctx, i, base):
        kl = key_loop(E, ctx)
        if kl is None:
            return None
        K, X, key = kl
        g = base.get(('heap', W.G.uid))
        if g is None:
            return None
        d0, v0 = g[1], g[2]
        done = z3.And(sel(key, q), X(q) < i)
        G = W.G
        return [
            z3.ForAll([q], sel(G.dom, q) == z3.Or(sel(d0, q), done)),
            z3.ForAll([q], z3.Implies(done, sel(W.pdom, q))),
            z3.ForAll([q], z3.Implies(done, sel(G.val, q) ==
                                      sel(init.val, q))),
            z3.ForAll([q], z3.Implies(done, sel(G.val, q) == DEFAULTED)),
            z3.ForAll([q], z3.Implies(sel(d0, q), sel(G.val, q) ==
                                      sel(v0, q))),
            conforming(W),
            z3.ForAll([q], z3.Implies(z3.And(done, PREQ(sel(W.pval, q))),
                                      sel(W.d.dom, q))),
            z3.ForAll([q], z3.Implies(sel(W.d.dom, q), sel(G.dom, q))),
        ]
    return cands


@contract(('C01', 'C04'), 'construct a record', assumes=(
    'Property.init_prop meets its contract (verified for the descriptors of '
    "the library as 'init value'/'init default')",
    'RecordMeta lists exactly the eager slots (checked by the bounded part)',
), covers=('constructed', 'refused'))
def construct(E):
    W = RecordWorld(E, set_slots=False)
    E.assume(z3.ForAll([q], z3.Implies(z3.And(
        sel(W.pdom, q), PREQ(sel(W.pval, q))), sel(W.edom, q)),
        patterns=[sel(W.pdom, q)]))
    how = E.case('mapping', 'keywords', 'both')
    init = E.some_dict('INIT', keytag='str')
    # the names the constructor's own parameters take are not slots
    for nm in ('self', 'init_dict'):
        E.assume(z3.Not(sel(init.dom, E.lift(nm))))
    E.sh.loop_cands = [('init', init_invariants(W, init))]
    f = NR.Record.__dict__['__init__']
    if how == 'mapping':
        tag, r = E.run(f, W.obj, init)
    elif how == 'keywords':
        tag, r = E.run(f, W.obj, **{EXTRA: init}) if isinstance(
            EXTRA, str) else runx(E, f, W.obj, init)
    else:
        x = E.some_dict('KW', keytag='str')
        for nm in ('self', 'init_dict'):
            E.assume(z3.Not(sel(x.dom, E.lift(nm))))
        kx, ki = z3.Const('kx', V), z3.Const('ki', V)
        E.assume(z3.And(sel(x.dom, kx), sel(init.dom, ki)))
        tag, r = runx(E, f, W.obj, x, [init])
        E.prove('both a mapping and keywords: refused', B(
            tag == 'raise' and isinstance(r, HInst) and
            r.cls is exc.AmbiguousConstruction))
        E.prove('both: nothing initialised', B(W.G.known == [] or not [
            t for t in E.trace if t[0] == 'init']))
        return
    G = W.G
    if tag == 'ok':
        E.cover('constructed')
        E.prove('every slot held conforms to its declaration', conforming(W))
        E.prove('every argument is a declared slot', z3.ForAll(
            [q], z3.Implies(sel(init.dom, q), sel(W.pdom, q))))
        E.prove('every argument initialises its slot with its value',
                z3.ForAll([q], z3.Implies(sel(init.dom, q), z3.And(
                    sel(G.dom, q), sel(G.val, q) == sel(init.val, q)))))
        E.prove('eager slots without an argument get their default',
                z3.ForAll([q], z3.Implies(z3.And(
                    sel(W.edom, q), z3.Not(sel(init.dom, q))), z3.And(
                        sel(G.dom, q), sel(G.val, q) == DEFAULTED))))
        E.prove('no other slot is touched', z3.ForAll([q], z3.Implies(
            z3.Or(sel(G.dom, q), sel(W.d.dom, q)), z3.Or(
                sel(init.dom, q), sel(W.edom, q)))))
        E.prove('every required slot has a value', z3.ForAll(
            [q], z3.Implies(z3.And(sel(W.pdom, q), PREQ(sel(W.pval, q))),
                            sel(W.d.dom, q))))
    else:
        E.cover('refused')
        if isinstance(r, HInst):
            E.prove('refused: unknown argument', B(
                r.cls is exc.PropertyNotKnown))
            if r.cls is exc.PropertyNotKnown:
                k = E.lift(r.attrs['propname'])
                E.prove('the error names an argument which is no slot',
                        z3.And(sel(init.dom, k), z3.Not(sel(W.pdom, k))))
        else:
            last = [t for t in E.trace if t[0] == 'init'][-1:]
            E.prove('any other error is that of a slot', B(
                bool(last) and last[0][3][0] == 'raise' and
                last[0][3][1] is r))


def runx(E, f, o, extra, args=()):
    try:
        return 'ok', E.call(f, [o] + list(args), {EXTRA: extra})
    except PyRaise as r:
        return 'raise', r.value


@contract(('C11',), 'unpickled construction')
def ohpickle(E):
    W = RecordWorld(E, set_slots=False)
    tag, r = E.run(NR.Record.__dict__['__init__'], W.obj,
                   E.new(HInst(NR.OhPickle)))
    E.prove('the unpickling constructor does nothing', B(
        tag == 'ok' and not E.trace))


SLOTS_ASSUME = (
    'reading a slot twice during one comparison gives the same value, or '
    'AttributeError both times (contracts of __get__), and raises nothing '
    'else',
    '== of slot values is symmetric, reflexive on the same object and the '
    'negation of !=',
    'the class used as unset marker is equal only to itself',
)


def same_slots(W, a, b):
    ae, be = W.E.lift(a), W.E.lift(b)
    return z3.ForAll([q], z3.Implies(
        z3.And(sel(W.pdom, q), z3.Not(PEXTR(sel(W.pval, q)))), z3.Or(
            z3.And(z3.Not(RHAS(ae, q)), z3.Not(RHAS(be, q))),
            z3.And(RHAS(ae, q), RHAS(be, q),
                   peq(RVAL(ae, q), RVAL(be, q))))))


def two_records(E):
    W = RecordWorld(E)
    o2, d2 = W.instance('D2')
    for o in (W.obj, o2):
        readable(W, o)
        oe = E.lift(o)
        E.assume(z3.ForAll([q], RVAL(oe, q) != E.lift(NR._Unset),
                           patterns=[RVAL(oe, q)]))
    return W, o2, d2


@contract('C10', 'record ==', assumes=SLOTS_ASSUME,
          covers=('equal', 'different'))
def record_eq(E):
    W, o2, d2 = two_records(E)
    tag, r = E.run(NR.Record.__dict__['__eq__'], W.obj, o2)
    E.prove('answers', B(tag == 'ok'))
    t = E.truth(r)
    t = B(t) if isinstance(t, bool) else t
    E.prove('answers a truth value', B(isinstance(r, (bool, SV))))
    E.cover('equal' if r is True else 'different')
    E.prove('equal iff every slot that is not extraneous is unset in both '
            'or equal in both', t == same_slots(W, W.obj, o2))
    E.prove('comparing changes neither', z3.And(
        W.d.dom == W.dom0, W.d.val == W.val0, B(not E.trace)))


@contract('C10', 'record !=', assumes=SLOTS_ASSUME)
def record_ne(E):
    W, o2, d2 = two_records(E)
    tag, r = E.run(NR.Record.__dict__['__ne__'], W.obj, o2)
    E.prove('answers', B(tag == 'ok'))
    t = E.truth(r)
    t = B(t) if isinstance(t, bool) else t
    E.prove('!= is the negation of ==', t == z3.Not(
        same_slots(W, W.obj, o2)))


@contract('C10', 'record == itself', assumes=SLOTS_ASSUME)
def record_refl(E):
    W, o2, d2 = two_records(E)
    tag, r = E.run(NR.Record.__dict__['__eq__'], W.obj, W.obj)
    E.prove('reflexive', B(tag == 'ok' and r is True))


@contract('C10', 'record == something else', assumes=SLOTS_ASSUME)
def record_other(E):
    W, o2, d2 = two_records(E)
    k = E.case('none', 'text', 'number', 'list', 'object', 'record')
    if k == 'record':
        W2 = RecordWorld(E, pre='O')
        x = readable(W2, W2.obj)
    else:
        x = {'none': lambda: None, 'text': lambda: E.text('X'),
             'number': lambda: E.integer('X'),
             'list': lambda: E.some_list('X'),
             'object': lambda: E.new(HInst(object))}[k]()
    tag, r = E.run(NR.Record.__dict__['__eq__'], W.obj, x)
    E.prove('never equal to something of another class',
            B(tag == 'ok' and r is False))


@contract('C11', 'state of a record')
def state(E):
    W = RecordWorld(E)
    tag, st = E.run(NR.Record.__dict__['__getstate__'], W.obj)
    E.prove('the state is given', B(tag == 'ok' and isinstance(st, HDict)))
    E.prove('the state holds exactly the slots that are set', z3.And(
        z3.ForAll([q], z3.And(
            sel(st.dom, q) == sel(W.dom0, q), z3.Implies(
                sel(W.dom0, q), sel(st.val, q) == sel(W.val0, q)))),
        W.d.dom == W.dom0, W.d.val == W.val0))
    o2, d2 = W.instance('D2', set_slots=False)
    tag, r = E.run(NR.Record.__dict__['__setstate__'], o2, st)
    E.prove('the state is taken', B(tag == 'ok'))
    E.prove('the restored record has exactly the same slots', z3.ForAll(
        [q], z3.And(sel(d2.dom, q) == sel(W.dom0, q), z3.Implies(
            sel(W.dom0, q), sel(d2.val, q) == sel(W.val0, q)))))
    E.prove('the original is as it was', z3.And(
        W.d.dom == W.dom0, W.d.val == W.val0))
    # independence
    E.dict_set(d2, E.text('K'), E.val('NEW'))
    E.prove('a later assignment to the copy does not show', z3.And(
        W.d.dom == W.dom0, W.d.val == W.val0))
    tag, r = E.run(NR.Record.__dict__['__getnewargs__'], W.obj)
    E.prove('unpickling constructs without initialising', B(
        tag == 'ok' and isinstance(r, tuple) and len(r) == 1 and
        isinstance(r[0], HInst) and r[0].cls is NR.OhPickle))
