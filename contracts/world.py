"""Pre-states shared by the contracts."""
import ast
import itertools
import types
import z3
import normalize
import normalize.exc as exc
import normalize.property as P
import normalize.property.meta as M
import normalize.property.json as PJ
import normalize.property.coll as PC
from normalize.record import Record
from pv.terms import *      # noqa
from pv.values import *     # noqa
from pv.interp import func_node
from pv.execute import EXTRA, _Ref

NONE_ = P._none
FUNCS = ('__get__', '__set__', '__delete__', '__init__', 'type_safe_value',
         'get_default', 'init_prop', 'eager_init', 'attribute_error_hook',
         'slot_is_empty', 'fullname', 'bound')


def res(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            return k.__dict__[name]
    return None


def is_prop_fn(f):
    return f is not None


_composed = None


def _all_classes():
    """every property class the library has or composes from its traits"""
    global _composed
    if _composed is None:
        base = ['safe', 'ro', 'lazy', 'v1', 'json', 'diffas']
        for n in range(1, 5):
            for ts in itertools.combinations(sorted(base), n):
                if 'v1' in ts and 'safe' not in ts:
                    continue
                if ts not in M.PROPERTY_TYPES:
                    try:
                        M.create_property_type_from_traits(ts)
                    except Exception:
                        pass
        _composed = sorted(
            set(c for ts, c in M.PROPERTY_TYPES.items()
                if c.__module__.startswith('normalize')),
            key=lambda c: (len(c.traits), c.traits))
    return _composed


def _names_in(f, acc):
    for x in ast.walk(f):
        if isinstance(x, ast.Attribute):
            acc.add(x.attr)


def reach(cls, names):
    """the method names reachable from the named ones by attribute access"""
    todo, seen = list(names), set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for k in cls.__mro__:
            f = k.__dict__.get(n)
            f = getattr(f, 'fget', f)
            if isinstance(f, types.FunctionType):
                acc = set()
                node = func_node(f)
                _names_in(node, acc)
                todo.extend(acc)
    return seen


def signature(cls, names):
    """which definitions (including those super() can reach) the methods and
    everything they use resolve to"""
    out = []
    for n in sorted(reach(cls, names)):
        fs = tuple(id(k.__dict__[n]) for k in cls.__mro__
                   if isinstance(k.__dict__.get(n), (
                       types.FunctionType, property, classmethod,
                       staticmethod)))
        if fs:
            out.append((n, fs))
    return tuple(out)


def prop_classes(names=FUNCS):
    """one class for each distinct resolution of the named methods"""
    seen = {}
    for cls in _all_classes():
        seen.setdefault(signature(cls, names), cls)
    return sorted(seen.values(), key=lambda c: (len(c.traits), c.traits))


def kinds(names=FUNCS, **want):
    """the classes for which each named trait is present (True) or not, one
    for each distinct resolution of the named methods"""
    seen = {}
    for c in _all_classes():
        if all((t in c.traits) == w for t, w in want.items()):
            seen.setdefault(signature(c, names), c)
    return sorted(seen.values(), key=lambda c: (len(c.traits), c.traits))


class World:
    """one record object `obj` with an arbitrary __dict__, and one property
    `prop` bound to it under an arbitrary name"""

    def __init__(self, E, cls, pre='', record=Record, obj=True):
        self.E = E
        self.pre = pre
        self.cls = cls
        self.name = E.text(pre + 'NAME')
        self.R = E.new(HClass(record, 'R'))
        vt = E.val(pre + 'VT')
        self.vt = vt.e
        self.typed = truth(self.vt)
        co = E.val(pre + 'COERCE')
        self.coerce = co.e
        ck = E.val(pre + 'CHECK')
        self.check = ck.e
        self.has_check = truth(ck.e)
        rq = E.val(pre + 'REQ')
        self.req_v = rq
        self.required = truth(rq.e)
        df = E.val(pre + 'DEFAULT')
        self.default = df.e
        self.has_default = df.e != E.lift(NONE_)
        ism = E.val(pre + 'ISM')
        self.is_method = truth(ism.e)
        for f in self.static(E, pre):
            E.assume(f)
        attrs = {
            'name': self.name, 'valuetype': vt, 'coerce': co, 'check': ck,
            'required': rq, 'default': df, 'default_is_method': ism,
            'class_': E.new(HInst(_Ref, {'o': self.R})),
            'extraneous': E.val(pre + 'EXTRANEOUS'),
            'empty_attr': E.val(pre + 'EMPTYATTR'), '__doc__': None,
        }
        if 'v1' in cls.traits:
            v1n = E.val(pre + 'V1NONE')
            attrs['v1_none'] = v1n
            up = E.flag(pre + 'V1UP')
            attrs['v1_upgraded'] = up
            self.v1_up = truth(up.e)
            self.v1_none = v1n.e
        if 'json' in cls.traits:
            attrs['_json_name'] = E.val(pre + 'JSONNAME')
            attrs['json_in'] = E.val(pre + 'JSONIN')
            attrs['json_out'] = E.val(pre + 'JSONOUT')
        self.prop = E.new(HInst(cls, attrs))
        if obj:
            self.d = E.some_dict(pre + 'D', keytag='str')
            self.obj = E.new(HInst(self.R, {}, self.d))
            self.dom0, self.val0 = self.d.dom, self.d.val

    _static = {}

    def static(self, E, pre):
        """the invariant of a Property object (established by
        Property.__init__: contract 'new property')"""
        if pre in self._static:
            return self._static[pre]
        vt, co, ck = self.vt, self.coerce, self.check
        j = z3.Int('jt')
        x = z3.Const('ex', V)
        nm = E.lift('__name__')
        it = z3.Select(V.items(vt), j)
        sce = E.lift(exc.SubtypeCoerceError)
        self._static[pre] = [
            z3.Or(is_none(vt), is_obj(vt), is_tup(vt)),
            z3.Implies(is_obj(vt), z3.Not(INST(vt, E.lift(tuple)))),
            z3.Implies(is_obj(vt), HASATTR(vt, nm)),
            z3.ForAll([j], z3.Implies(is_tup(vt), z3.And(
                is_obj(it), V.ref(it) >= 0, V.ref(it) < 1000,
                HASATTR(it, nm))), patterns=[it]),
            z3.Or(is_none(co), is_obj(co), is_tup(co)),
            z3.Implies(is_obj(co), HASATTR(co, nm)),
            z3.Implies(self.typed, truth(co)),
            z3.Implies(truth(co), self.typed),
            z3.Or(is_none(ck), is_obj(ck)),
            z3.ForAll([x], z3.Implies(
                INST(x, sce), HASATTR(x, E.lift('coerced'))),
                patterns=[INST(x, sce)]),
        ]
        return self._static[pre]

    # ---- observations
    @property
    def key(self):
        return self.name.e

    def was_set(self):
        return z3.Select(self.dom0, self.key)

    def old(self):
        return z3.Select(self.val0, self.key)

    def now_set(self):
        return z3.Select(self.d.dom, self.key)

    def now(self):
        return z3.Select(self.d.val, self.key)

    def unchanged(self):
        k = z3.Const('kk', V)
        return z3.ForAll([k], z3.And(
            z3.Select(self.d.dom, k) == z3.Select(self.dom0, k),
            z3.Implies(z3.Select(self.dom0, k),
                       z3.Select(self.d.val, k) == z3.Select(self.val0, k))))

    def others_unchanged(self):
        k = z3.Const('kk', V)
        return z3.ForAll([k], z3.Implies(k != self.key, z3.And(
            z3.Select(self.d.dom, k) == z3.Select(self.dom0, k),
            z3.Implies(z3.Select(self.dom0, k),
                       z3.Select(self.d.val, k) == z3.Select(self.val0, k)))))

    def conforming(self, v):
        """v has the declared type (what the value check says is in calls)"""
        return z3.Implies(self.typed, INST(v, self.vt))

    # ---- the ghost trace of calls
    def calls(self, fn):
        """[(args, outcome)] of the opaque calls of the function `fn` (a
        term); a call of an unknown function counts where it may be fn"""
        out = []
        for kind, f, a, r in self.E.trace:
            if kind == 'call' and isinstance(f, SV) and f.e.eq(fn):
                out.append((a, r))
        return out

    def n_other_calls(self):
        known = [self.coerce, self.check, self.default]
        return [t for t in self.E.trace if not (
            t[0] == 'call' and isinstance(t[1], SV) and
            any(t[1].e.eq(k) for k in known))]


# ---------------------------------------------------------------- records
PNAME = z3.Function('PNAME', V, V)          # the name of a property object
PREQ = z3.Function('PREQ', V, BoolS)        # required
PEXTR = z3.Function('PEXTR', V, BoolS)      # extraneous
PCONF = z3.Function('PCONF', V, V, BoolS)   # value conforms to the property
DEFAULTED = V.obj(z3.IntVal(-7))            # marker of the ghost state


def key_loop(E, ctx):
    """(K, X, key set) when the loop runs over an enumerated key set"""
    for n, K, X, key in E.enum_cache.values():
        if ctx.n is not None and (n.eq(ctx.n) or z3.simplify(n).eq(
                z3.simplify(ctx.n))):
            return K, X, key
    return None


class RecordWorld:
    """an arbitrary record class with an arbitrary finite set of properties,
    and one instance of it"""
    def __init__(self, E, base=Record, pre='', set_slots=True, own=None):
        self.E = E
        self.props = E.some_dict(pre + 'PROPS', keytag='str')
        P_ = self.props
        self.pdom, self.pval = P_.dom, P_.val
        q = z3.Const('q', V)
        E.assume(z3.ForAll([q], z3.Implies(
            z3.Select(self.pdom, q), z3.And(
                is_str(q), is_obj(z3.Select(self.pval, q)),
                V.ref(z3.Select(self.pval, q)) >= 0,
                V.ref(z3.Select(self.pval, q)) < 1000,
                PNAME(z3.Select(self.pval, q)) == q)),
            patterns=[z3.Select(self.pdom, q)]))
        self.tag = Tag('property', P.Property, attrs={
            'name': lambda E, e: SV(V.vstr(V.s(PNAME(e)))),
            'required': lambda E, e: SV(vbool(PREQ(e))),
            'extraneous': lambda E, e: SV(vbool(PEXTR(e))),
        }, methods={'init_prop': self.init_prop})
        P_.valtag = self.tag
        self.edom = z3.Const(pre + 'EAGER_dom', ArrVB)
        eager = E.new(HSet(self.edom))
        eager.keytag = 'str'
        # what RecordMeta collects: eager slots are slots; required ones are
        # eager
        E.assume(z3.ForAll([q], z3.Implies(
            z3.Select(self.edom, q), z3.Select(self.pdom, q)),
            patterns=[z3.Select(self.edom, q)]))
        self.R = E.new(HClass(base, pre + 'R', dict(own or {}, **{
            'properties': P_, 'eager_properties': eager})))
        self.obj, self.d = self.instance(pre + 'D', set_slots)
        self.dom0, self.val0 = self.d.dom, self.d.val
        self.G = E.new(HDict(z3.K(V, z3.BoolVal(False)), z3.K(V, none)))
        self.unknown_init = []

    def instance(self, name, set_slots=True):
        E = self.E
        if set_slots:
            d = E.some_dict(name, keytag='str')
            # a slot cannot have the name of a method (C09)
            E.assume(z3.And(*[
                z3.Not(z3.Select(d.dom, E.lift(n)))
                for n in sorted(set(dir(self.R.base))) if callable(
                    getattr(self.R.base, n, None))]))
        else:
            d = E.new(HDict(z3.K(V, z3.BoolVal(False)), z3.K(V, none)))
            d.keytag = 'str'
        return E.new(HInst(self.R, {}, d)), d

    # the contract of Property.init_prop (contracts 'init value' and 'init
    # default'), over the abstract predicates above
    def init_prop(self, E, sv, args, kw):
        p = sv.e
        nm = PNAME(p)
        o = args[0]
        v = args[1].e if len(args) > 1 and isinstance(args[1], SV) else (
            E.lift(args[1]) if len(args) > 1 else
            E.lift(kw['value']) if 'value' in kw else DEFAULTED)
        E.prove('each slot is initialised on the record itself',
                B_(o is self.obj))
        E.prove('each slot is initialised at most once',
                z3.Not(z3.Select(self.G.dom, nm)))
        E.mut(self.G)
        self.G.dom = z3.Store(self.G.dom, nm, z3.BoolVal(True))
        self.G.val = z3.Store(self.G.val, nm, v)
        if E.branch(E.fresh('init_raises', BoolS)):
            ex = SV(E.fresh('exc'))
            E.assume(is_obj(ex.e))
            E.trace.append(('init', sv, args, ('raise', ex)))
            raise PyRaise(ex)
        st = E.fresh('stored', BoolS)
        w = E.fresh('slot')
        E.assume(PCONF(p, w))
        E.assume(z3.Implies(PREQ(p), st))
        E.mut(self.d)
        self.d.known = None
        self.d.dom = z3.If(st, z3.Store(self.d.dom, nm, z3.BoolVal(True)),
                           self.d.dom)
        self.d.val = z3.If(st, z3.Store(self.d.val, nm, w), self.d.val)
        return None


def B_(x):
    return z3.BoolVal(bool(x))


# reading a slot through its property (contracts 'get ...'): it has a value or
# raises AttributeError; stable during one operation
RHAS = z3.Function('RHAS', V, V, BoolS)
RVAL = z3.Function('RVAL', V, V, V)


def read_slot(E, o, name):
    oe, ne = E.lift(o), E.lift(name)
    if not E.branch(RHAS(oe, ne)):
        E.throw(AttributeError, name)
    r = RVAL(oe, ne)
    E.assume(z3.Implies(is_obj(r), V.ref(r) < 1000000))
    return SV(r)


def readable(W, o):
    o.sym_attr = read_slot
    return o
