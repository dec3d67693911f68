"""Record classes: the slots of a class are its own and those of its bases."""
import z3
import normalize.property as NP
import normalize.record.meta as RM
import normalize.exc as exc
from pv.contract import contract
from pv.terms import *      # noqa
from pv.values import *     # noqa
from .world import *        # noqa
from .world import B_ as B
from .c_json import sel, q, k_      # noqa
from .c_sel import j
from .c_sel2 import invariant, is_a
from .c_visit import same
from pv.interp import HEAP_BASE as HB      # noqa

ISP = z3.Function('IS_PROPERTY', V, BoolS)
BOUND = z3.Function('WAS_BOUND', V, BoolS)
EAGER = z3.Function('EAGER', V, BoolS)
EXTR = z3.Function('EXTRA_', V, BoolS)


# bases that are record classes, and whether there is another
KINDS = ((0, False),)


class Meta:
    pass


def meta_world(E, kind):
    W = Meta()
    W.attrs = E.some_dict('ATTRS', keytag='str')
    W.adom, W.aval = W.attrs.dom, W.attrs.val
    W.pt = None
    nb, plain = KINDS[kind]
    W.slots = [E.some_dict('BASE%d' % i, keytag='str')
               for i in range(nb)]
    W.bd = [(d.dom, d.val) for d in W.slots]
    W.bases = tuple([SV(E.ext('B%d' % i).e, Tag('base%d' % i, attrs={
        'properties': lambda E, e, d=d: d}, strict=True))
        for i, d in enumerate(W.slots)] + ([SV(E.ext('PLAIN').e, Tag(
            'plain', strict=True))] if plain else []))
    W.named = E.new(HDict(z3.K(V, z3.BoolVal(False)), z3.K(V, none)))
    W.bind = E.new(HDict(z3.K(V, z3.BoolVal(False)), z3.K(V, none)))

    def put(g, k, v):
        E.mut(g)
        g.dom = z3.Store(g.dom, k, z3.BoolVal(True))
        g.val = z3.Store(g.val, k, v)

    def set_name(E, s, args, kw):
        E.prove('only slots declared here are named', z3.Not(BOUND(s.e)))
        put(W.named, E.lift(args[0]), s.e)

    def bind(E, s, args, kw):
        put(W.bind, s.e, E.lift(args[0]))
    W.pt = Tag('prop', NP.Property, attrs={
        'bound': lambda E, e: E.sbool(BOUND(e)),
        'extraneous': lambda E, e: E.sbool(EXTR(e)),
        'name': lambda E, e: SV(strf('pname', V, V)(e)),
    }, methods={
        'set_name': set_name, 'bind': bind,
        'aux_props': lambda E, s, a, k: (),
        'eager_init': lambda E, s, a, k: E.sbool(EAGER(s.e))}, sticky=True)
    E.sh.typing.append((ISP, W.pt))

    def isi(E, args, kw):
        v, T = args
        if T is NP.Property:
            return E.sbool(ISP(E.lift(v)))
        if T is str:
            return E.sbool(is_str(E.lift(v)))
        raise Unsupported('isinstance(_, %r)' % (T,))

    E.sh.summaries[isinstance] = isi
    for d in W.slots:
        d.valtag = W.pt
    W.made = []
    W.cls = SV(E.ext('CLASS').e)

    def new(E, args, kw):
        W.made.append(args)
        return W.cls
    E.sh.summaries[type.__new__] = new
    return W


def cands_for(W):
    def cands(E, ctx, i, base):
        kl = key_loop(E, ctx)
        out = []
        kn, KX = None, None
        if kl is not None:
            K, X, key = kl
            done = z3.And(sel(key, q), X(q) < i)
        for loc in base:
            if loc[0] != 'heap':
                continue
            o = E.heap.get(HB + loc[1])
            if not isinstance(o, HDict):
                continue
            g = base[loc]
            d0, v0 = g[1], g[2]
            if kl is None:
                continue
            isp = ISP(sel(W.aval, q))
            un = z3.Not(BOUND(sel(W.aval, q)))
            own = z3.And(done, isp)
            out += [
                # the slots of one base
                z3.ForAll([q], sel(o.dom, q) == z3.Or(sel(d0, q), done)),
                z3.ForAll([q], z3.Implies(done, z3.Not(sel(d0, q)))),
                z3.ForAll([q], z3.Implies(z3.And(sel(d0, q)), sel(
                    o.val, q) == sel(v0, q))),
            ] + [z3.ForAll([q], z3.Implies(done, sel(o.val, q) == sel(
                v, q))) for _, v in W.bd] + [
                # those declared here
                z3.ForAll([q], sel(o.dom, q) == z3.Or(sel(d0, q), own)),
                z3.ForAll([q], z3.Implies(own, sel(o.val, q) == sel(
                    W.aval, q))),
                z3.ForAll([q], z3.Implies(z3.And(sel(d0, q), z3.Not(own)),
                                          sel(o.val, q) == sel(v0, q))),
                z3.ForAll([q], sel(o.dom, q) == z3.And(own, un)),
                z3.ForAll([q], z3.Implies(z3.And(own, un), sel(
                    o.val, q) == sel(W.aval, q))),
            ]
        if kl is not None:
            for nm in ('properties', 'eager_properties'):
                e = E.lift(nm)
                out.append(z3.Not(z3.And(sel(key, e), X(e) < i)))
        return out
    return cands


def declare(E, kind):
    W = meta_world(E, kind)
    pk = E.lift('primary_key')
    E.assume(z3.Not(sel(W.adom, pk)))
    E.sh.loop_cands = [('meta', cands_for(W))]
    nm = E.text('CLASSNAME')
    tag, r = E.run(RM.RecordMeta.__new__, RM.RecordMeta, nm, W.bases,
                   W.attrs)
    if tag == 'raise':
        if is_a(E, r, exc.MultipleInheritanceClash):
            E.cover('clash')
            E.prove('a clash iff two bases have a slot of one name',
                    z3.Exists([q], z3.And([sel(d, q) for d, _ in W.bd]))
                    if len(W.bd) == 2 else B(False))
        else:
            E.cover('reserved')
            E.prove('refused: a reserved name', B(is_a(
                E, r, exc.ReservedPropertyName)))
            E.prove('iff there is one', z3.Or(
                sel(W.adom, E.lift('properties')),
                sel(W.adom, E.lift('eager_properties'))))
        return
    E.cover('declared')
    E.prove('one class is made', B(len(W.made) == 1))
    E.prove('no reserved name', z3.Not(z3.Or(
        sel(W.adom, E.lift('properties')),
        sel(W.adom, E.lift('eager_properties')))))
    if len(W.bd) == 2:
        E.prove('no two bases have a slot of one name', z3.ForAll(
            [q], z3.Not(z3.And([sel(d, q) for d, _ in W.bd]))))
    mk = W.made[0]
    E.prove('of this kind, name and bases', z3.And(
        B(mk[0] is RM.RecordMeta), same(E, mk[1], nm), B(
            mk[2] is W.bases)))
    at = mk[3]
    E.prove('attributes', B(isinstance(at, HDict)))
    entry = lambda nm: E.unlift(sel(at.val, E.lift(nm)))    # noqa
    P, eager, key = entry('properties'), entry('eager_properties'), entry(
        'primary_key')
    ok = isinstance(P, HDict) and isinstance(eager, HSet)
    E.prove('its slots', B(ok))
    if not ok:
        return
    own = z3.And(sel(W.adom, q), ISP(sel(W.aval, q)))
    E.prove('exactly its own slots and those of its bases', z3.ForAll(
        [q], sel(P.dom, q) == z3.Or([own] + [sel(d, q) for d, _ in W.bd])))
    E.prove('its own declarations win', z3.ForAll([q], z3.Implies(
        own, sel(P.val, q) == sel(W.aval, q))))
    for d, v in W.bd:
        E.prove('inherited slots are those of the base', z3.ForAll(
            [q], z3.Implies(z3.And(sel(d, q), z3.Not(own)), sel(
                P.val, q) == sel(v, q))))
    for o, (d, v) in zip(W.slots, W.bd):
        E.prove('the bases are as they were', z3.And(o.dom == d, o.val == v))
    E.prove('no key unless declared', B(key == ()) if isinstance(
        key, tuple) else z3.And(is_tup(E.lift(key)), V.n(E.lift(key)) == 0))
    un = z3.Not(BOUND(sel(W.aval, q)))
    special = [E.lift(x) for x in ('properties', 'eager_properties',
                                   'primary_key', '_sorted_properties')]
    E.prove('everything else of the class is as declared', z3.ForAll(
        [q], z3.Implies(z3.And([q != x for x in special]), z3.And(
            sel(at.dom, q) == sel(W.adom, q), z3.Implies(sel(
                W.adom, q), sel(at.val, q) == sel(W.aval, q))))))


@contract(('C09',), 'declaring a record class', covers=(
    'declared', 'reserved'))
def declare_0(E):
    declare(E, 0)
