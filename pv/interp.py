"""Symbolic interpreter / verification-condition generator for Python.

It runs the abstract syntax of the *real* function objects imported from
/repo (methods are resolved on the real classes' MRO, globals and closure
cells are the real ones).  Every run of `Engine.run` explores one path; the
driver (contract.py) enumerates the paths by decision replay.  Loops over
unknown data are cut at an arbitrary iteration; what is known about the
earlier iterations is what the loop invariants say, and those are checked
initially and for preservation (candidates that fail are dropped, Houdini
style, and the function is explored again)."""
import ast
import builtins
import collections
import collections.abc
import sys
import types
import z3
from .terms import *      # noqa
from .values import *     # noqa

INTERN_BASE = 1000
HEAP_BASE = 1000000
_intern = {}
_intern_rev = {}
_keep = []


def intern(o):
    """a reference for a concrete Python object (by identity; floats and
    other plain numbers by value)"""
    k = ('f', repr(o)) if isinstance(o, (float, complex, bytes)) else id(o)
    if k not in _intern:
        _intern[k] = INTERN_BASE + len(_intern)
        _intern_rev[_intern[k]] = o
        _keep.append(o)
    return _intern[k]


_files = {}


def _tree(fn):
    if fn not in _files:
        with open(fn) as f:
            src = f.read()
        t = ast.parse(src, fn)
        idx = collections.defaultdict(list)
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    ln = n.decorator_list[0].lineno
                idx[ln].append(n)
        _files[fn] = (t, idx)
    return _files[fn]


def func_node(f):
    co = f.__code__
    _, idx = _tree(co.co_filename)
    cands = [n for n in idx.get(co.co_firstlineno, ())
             if (isinstance(n, ast.Lambda) and co.co_name == '<lambda>') or
             (isinstance(n, ast.FunctionDef) and n.name == co.co_name)]
    if len(cands) > 1:
        good = []
        for n in cands:
            if isinstance(n, ast.Lambda):
                c = compile(ast.Expression(n), '<x>', 'eval')
                c = [k for k in c.co_consts if isinstance(k, types.CodeType)][0]
                if c.co_code == co.co_code and c.co_names == co.co_names:
                    good.append(n)
            else:
                good.append(n)
        cands = good[:1]
    if not cands:
        raise Unsupported('no source for %s' % co.co_name)
    return cands[0]


def _own_nodes(node):
    """nodes of a function body, not descending into nested functions"""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.GeneratorExp, ast.ListComp, ast.SetComp,
                          ast.DictComp)):
            if isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp,
                              ast.DictComp)):
                stack.append(n.generators[0].iter)
            continue
        stack.extend(ast.iter_child_nodes(n))


_finfo = {}


def finfo(node):
    if node in _finfo:
        return _finfo[node]
    loc, glob, nonloc, is_gen = set(), set(), set(), False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    for n in _own_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.FunctionDef):
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonloc.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            is_gen = True
    _finfo[node] = (loc - glob - nonloc, glob, is_gen)
    return _finfo[node]


VTIMES = None


class LoopInfo:
    def __init__(self):
        self.writes = {}         # loc -> True
        self.dropped = set()
        self.dropped_at = 0
        self.effects = []        # [(pc_since, {loc: snapshot})]
        self.template = None
        self.tmpl_version = 0
        self.observed = {}       # loc -> list of end values
        self.ended = False
        self.note = ''


class LoopCtx:
    def __init__(self, key, info, i, born, decpos):
        self.key, self.info, self.i, self.born = key, info, i, born
        self.decpos = decpos
        self.fresh_n = 0


_quant = {}


def has_quantifier(c):
    """does a quantifier occur in c?  (remembered by node)"""
    if z3.is_quantifier(c):
        return True
    k = c.get_id()
    r = _quant.get(k)
    if r is None:
        if len(_quant) > 200000:
            _quant.clear()
        r = _quant[k] = (c, any([has_quantifier(x) for x in c.children()]))
    return r[1]


class Shared:
    """what persists over the paths of one function under verification"""
    def __init__(self):
        self.loops = {}
        self.dirty = False
        self.queue = []
        self.elem_preds = []     # (name, fn(eng, term)->Bool)
        self.typing = []         # (predicate of a term, tag)
        self.light = False       # branches decided without quantified facts
        self.templates = True    # invariants guessed from the effects
        self.ematch = False      # invariants hold by E-matching or not at all
        self.pair = None         # term of some tuples: (eng, tuple) -> term
        self.unpair = None       # ... and back: (eng, term) -> value or None
        self.memo = {}           # terms of a contract, built once
        self.merge = False       # and/or of plain tests without branching
        self.scalar_cands = []   # (name, fn(eng, ctx, value)->Bool or None)
        self.loop_cands = []     # (name, fn(eng, ctx)->Bool or None)
        self.summaries = {}      # function -> summary(eng, args, kw)
        self.no_inline = {}      # function -> reason
        self.unsupported = []
        self.functions = {}      # inlined/verified function names
        self.trusted = {}        # names of trusted models used
        self.native = set()
        self.solver_s = 0.0
        self.queries = 0


SAMPLE = {'none': None, 'vbool': True, 'vint': 1, 'vstr': 'a', 'vtup': ()}


OPAQUE = (SSeq, HGen, PyFunc, BoundM, BuiltinM, PSuper)


class Engine:
    def __init__(self, shared, prefix, timeout=5.0):
        self.sh = shared
        self.prefix = list(prefix)
        self.dpos = 0
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 400)
        self.solver.set('rlimit', 100000)
        self.nuid = 0
        self.birthc = 0
        self.nfresh = 0
        self.heap = {}
        self.loops = []
        self.spec = False
        self.trace = []
        self.yields = None
        self.depth = 0
        self.facts_done = set()
        self.inst_seen = {}
        self.obligations = []
        self.prove_timeout = timeout
        self.exc_stack = []
        self.enum_cache = {}
        self.body_of = None

    # ---------------------------------------------------------------- logic
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        c = simp(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.pc.append(c)
        if not (self.sh.light and has_quantifier(c)):
            # leaving some out only means exploring paths which cannot happen
            self.solver.add(c)

    def feasible(self, c):
        self.sh.queries += 1
        r = self.solver.check(c)
        return r != z3.unsat

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.spec:
            raise Unsupported('a branch while speculating')
        if self.dpos < len(self.prefix):
            v = self.prefix[self.dpos]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if t and f:
                self.sh.queue.append(self.prefix[:self.dpos] + [False])
                v = True
            elif t:
                v = True
            elif f:
                v = False
            else:
                raise Infeasible()
            self.prefix.append(v)
        self.dpos += 1
        self.assume(c if v else z3.Not(c))
        return v

    def choose(self, n):
        """non-deterministic choice among n alternatives"""
        if n == 1:
            return 0
        if self.spec:
            raise Unsupported('a choice while speculating')
        if self.dpos < len(self.prefix):
            v = self.prefix[self.dpos]
        else:
            for k in range(1, n):
                self.sh.queue.append(self.prefix[:self.dpos] + [k])
            v = 0
            self.prefix.append(v)
        self.dpos += 1
        return v

    def fresh(self, base, sort=None):
        sort = V if sort is None else sort
        if self.loops:
            l = self.loops[-1]
            l.fresh_n += 1
            dec = ''.join('%d' % int(x) for x in
                          self.prefix[l.decpos:self.dpos])
            name = '%s!%s.%d@%s' % (base, l.key[1], l.fresh_n, dec)
            idx = [c.i for c in self.loops]
            f = z3.Function(name, *([IntS] * len(idx) + [sort]))
            return f(*idx)
        self.nfresh += 1
        return z3.Const('%s!%d' % (base, self.nfresh), sort)

    def is_known(self, c):
        """is c implied by the path condition? (cheap)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.sh.queries += 1
        return self.solver.check(z3.Not(c)) == z3.unsat

    # ------------------------------------------------------------- heap/lift
    def new(self, o):
        self.nuid += 1
        self.birthc += 1
        o.uid = self.nuid
        o.birth = self.birthc
        self.heap[HEAP_BASE + o.uid] = o
        return o

    def mut(self, o):
        """called before a heap object is mutated"""
        for l in self.loops:
            if o.birth < l.born:
                loc = ('heap', o.uid)
                if loc not in l.info.writes:
                    l.info.writes[loc] = True
                    self.sh.dirty = True

    def lift(self, v):
        if isinstance(v, SV):
            return v.e
        if v is None:
            return none
        if isinstance(v, bool):
            return vbool(z3.BoolVal(v))
        if type(v) is int:
            return vint(z3.IntVal(v))
        if type(v) is str:
            return vstr(z3.IntVal(strid(v)))
        if type(v) is tuple:
            if self.sh.pair is not None:
                e = self.sh.pair(self, v)
                if e is not None:
                    return e
            arr = z3.K(IntS, none)
            for j, x in enumerate(v):
                arr = z3.Store(arr, j, self.lift(x))
            return vtup(z3.IntVal(len(v)), arr)
        if isinstance(v, Poison):
            raise Unsupported('stale loop variable used')
        if isinstance(v, HObj):
            return obj(z3.IntVal(HEAP_BASE + v.uid))
        if isinstance(v, (BoundM, BuiltinM, SSeq, PSuper)):
            o = self.heap.get(('w', id(v)))
            if o is None:
                self.nuid += 1
                o = HEAP_BASE + self.nuid
                self.heap[('w', id(v))] = o
                self.heap[o] = v
            return obj(z3.IntVal(o))
        e = obj(z3.IntVal(intern(v)))
        if intern(v) not in self.facts_done and (
                isinstance(v, (type, types.FunctionType,
                               types.BuiltinFunctionType)) or
                type(v).__module__.startswith('normalize')):
            self.facts_done.add(intern(v))
            try:
                self.assume(TRUTHO(e) == bool(v))
            except Exception:
                pass
            self.assume(CALLABLE(e) == callable(v))
        return e

    def unlift(self, e, tag=None):
        e = z3.simplify(e)
        c = con(e)
        if c == 'none':
            return None
        if c == 'vbool':
            if z3.is_true(e.arg(0)):
                return True
            if z3.is_false(e.arg(0)):
                return False
        elif c == 'vint' and z3.is_int_value(e.arg(0)):
            return e.arg(0).as_long()
        elif c == 'vstr' and z3.is_int_value(e.arg(0)):
            s = strval(e.arg(0).as_long())
            if s is not None:
                return s
        elif c == 'obj' and z3.is_int_value(e.arg(0)):
            r = e.arg(0).as_long()
            if r in self.heap:
                return self.heap[r]
            if r in _intern_rev:
                return _intern_rev[r]
        elif c == 'vtup' and z3.is_int_value(e.arg(0)):
            n = e.arg(0).as_long()
            if n <= 8:
                return tuple(self.unlift(z3.Select(e.arg(1), j))
                             for j in range(n))
        if tag == 'str':
            self.assume(is_str(e))
            return SV(vstr(V.s(e)))
        return SV(e, tag)

    def sbool(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return SV(vbool(c))

    def sint(self, i):
        if isinstance(i, int):
            return i
        i = z3.simplify(i)
        return i.as_long() if z3.is_int_value(i) else SV(vint(i))

    def as_int(self, v):
        """z3 Int of a value known to be an int (branches if unknown)"""
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SV):
            if con(v.e) == 'vint':
                return v.e.arg(0)
            if con(v.e) == 'vbool':
                return z3.If(v.e.arg(0), z3.IntVal(1), z3.IntVal(0))
            if self.branch(is_int(v.e)):
                return V.i(v.e)
        raise Unsupported('not an int: %r' % (v,))

    def refine(self, sv):
        """turn a term of unknown kind into a constructor application, by
        branching on its kind"""
        if not isinstance(sv, SV) or con(sv.e):
            return sv
        e = sv.e
        for t, mk in ((is_obj, None), (is_none, lambda: None),
                      (is_str, lambda: SV(vstr(V.s(e)), sv.tag)),
                      (is_int, lambda: SV(vint(V.i(e)))),
                      (is_bool, lambda: SV(vbool(V.b(e)))),):
            if self.branch(t(e)):
                return SV(e, sv.tag) if mk is None else mk()
        return SV(vtup(V.n(e), V.items(e)), sv.tag)

    # ---------------------------------------------------------- exceptions
    def throw(self, cls, *args, **kw):
        e = self.new(HInst(cls, dict(kw)))
        e.attrs['args'] = tuple(args)
        e.exc_args = args
        raise PyRaise(e)

    def exc_matches(self, value, classes):
        for c in classes:
            if isinstance(value, HInst):
                if isinstance(value.cls, type) and issubclass(value.cls, c):
                    return True
            elif isinstance(value, SV):
                if c in (Exception, BaseException):
                    return True
                if self.branch(self.inst_formula(value, c)):
                    return True
        return False

    # ------------------------------------------------------------ isinstance
    def inst_formula(self, v, T):
        """z3 Bool (or python bool) for isinstance(v, T)"""
        if isinstance(T, tuple):
            fs = [self.inst_formula(v, t) for t in T]
            if any(f is True for f in fs):
                return True
            fs = [f for f in fs if f is not False]
            return z3.Or(*fs) if fs else False
        if isinstance(T, SV):
            return INST(self.lift(v), T.e)
        if isinstance(T, HClass):
            if isinstance(v, HInst):
                c = v.cls
                return c is T
            if isinstance(v, SV) and con(v.e) in (None, 'obj'):
                return z3.And(is_obj(v.e), INST(v.e, self.lift(T)))
            return False
        if not isinstance(T, type):
            raise Unsupported('isinstance(_, %r)' % (T,))
        ic = type(T).__dict__.get('__instancecheck__')
        if ic is None and type(T) is not type:
            for k in type(T).__mro__:
                if '__instancecheck__' in k.__dict__:
                    ic = k.__dict__['__instancecheck__']
                    break
        if isinstance(ic, types.FunctionType) and \
                (ic.__module__ or '').startswith('normalize'):
            r = self.call(ic, [T, v], {})
            return self.truth(r)
        if isinstance(v, SV):
            c = con(v.e)
            if c in SAMPLE:
                return isinstance(SAMPLE[c], T)
            if v.tag is not None and v.tag.real is not None:
                if issubclass(v.tag.real, T):
                    return True
                if T in (str, int, float, bool, tuple, list, dict, set,
                         frozenset, bytes, bytearray, type(None)) and \
                        not issubclass(T, v.tag.real):
                    return False
            self.inst_facts(v.e, T)
            te = self.lift(T)
            if c == 'obj':
                return INST(v.e, te)
            kinds = [(is_none, None), (is_bool, True), (is_int, 1),
                     (is_str, 'a'), (is_tup, ())]
            fs = [k(v.e) for k, s in kinds if isinstance(s, T)]
            fs.append(z3.And(is_obj(v.e), INST(v.e, te)))
            return z3.Or(*fs)
        if isinstance(v, HInst):
            c = v.cls
            base = c.base if isinstance(c, HClass) else c
            if isinstance(base, SV):
                return INST(self.lift(v), self.lift(T))
            return issubclass(base, T)
        if isinstance(v, HList):
            return isinstance([], T)
        if isinstance(v, HDict):
            s = v.factory_sample if hasattr(v, 'factory_sample') else {}
            return isinstance(s, T)
        if isinstance(v, HSet):
            return isinstance(set(), T)
        if isinstance(v, HGen):
            return isinstance((x for x in ()), T)
        if isinstance(v, SSeq):
            return isinstance(iter(()), T)
        if isinstance(v, (PyFunc, BoundM, BuiltinM)):
            return isinstance(lambda: 0, T)
        if isinstance(v, HClass):
            return isinstance(v.base, T)
        return isinstance(v, T)

    LAYOUT = (list, dict, set, frozenset, tuple, str, int, float, bytes,
              types.GeneratorType, type)

    def inst_facts(self, e, T):
        """INST is monotone in the real class hierarchy; classes of
        incompatible layout are disjoint"""
        key = e.get_id()
        seen = self.inst_seen.setdefault(key, [e])
        if T in seen[1:]:
            return
        for U in seen[1:]:
            for a, b in ((T, U), (U, T)):
                try:
                    if issubclass(a, b):
                        self.assume(z3.Implies(
                            INST(e, self.lift(a)), INST(e, self.lift(b))))
                except TypeError:
                    pass
            la = [x for x in self.LAYOUT if issubclass(T, x)]
            lb = [x for x in self.LAYOUT if issubclass(U, x)]
            if la and lb and la[0] is not lb[0]:
                self.assume(z3.Not(z3.And(INST(e, self.lift(T)),
                                          INST(e, self.lift(U)))))
        seen.append(T)

    # -------------------------------------------------------------- truth
    def truth(self, v):
        """bool(v) as python bool or z3 Bool"""
        if isinstance(v, SV):
            if v.tag is not None and v.tag.real is not None and not any(
                    '__bool__' in k.__dict__ or '__len__' in k.__dict__
                    for k in v.tag.real.__mro__):
                return z3.Not(is_none(v.e)) if con(v.e) is None and False \
                    else True
            return truth(v.e)
        if isinstance(v, HList):
            return z3.simplify(v.n != 0)
        if isinstance(v, HDict):
            if v.known is not None:
                return bool(v.known)
            return self.nonempty(v.dom)
        if isinstance(v, HSet):
            if v.known is not None:
                return bool(v.known)
            return self.nonempty(v.dom)
        if isinstance(v, HInst):
            for nm in ('__bool__', '__len__'):
                f, owner = self.class_lookup(v.cls, nm)
                if f is not MISSING:
                    return self.truth(self.call(f, [v], {}))
            return True
        if isinstance(v, (HObj, BoundM, BuiltinM, SSeq)):
            return True
        if isinstance(v, Poison):
            raise Unsupported('stale loop variable used')
        if type(v).__module__.startswith('normalize') and \
                not isinstance(v, type):
            for k in type(v).__mro__:
                for nm in ('__bool__', '__len__'):
                    if nm in k.__dict__:
                        return self.truth(self.call(k.__dict__[nm], [v], {}))
        return bool(v)

    def nonempty(self, dom):
        b = self.fresh('nonempty', BoolS)
        w = self.fresh('witness')
        k = z3.Const('k', V)
        self.assume(z3.Implies(b, z3.Select(dom, w)))
        self.assume(z3.Implies(z3.Not(b), z3.ForAll(
            [k], z3.Not(z3.Select(dom, k)))))
        return b

    def test(self, v):
        return self.branch(self.truth(v))

    # ---------------------------------------------------------- equality
    def eq(self, a, b):
        """a == b as bool/z3 Bool"""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, HInst):
                f, owner = self.class_lookup(x.cls, '__eq__')
                if f is not MISSING and isinstance(f, types.FunctionType):
                    return self.truth(self.call(f, [x, y], {}))
                if isinstance(x.cls, type) or isinstance(x.cls, HClass):
                    return x is y
        if isinstance(a, HList) and isinstance(b, HList):
            if a is b:
                return True
            n1, n2 = a.conc_len(), b.conc_len()
            if n1 is not None and n2 is not None:
                if n1 != n2:
                    return False
                return z3.And(*[peq(z3.Select(a.arr, j), z3.Select(b.arr, j))
                                for j in range(n1)])
            j = z3.Int('j')
            return z3.And(a.n == b.n, z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < a.n),
                peq(z3.Select(a.arr, j), z3.Select(b.arr, j)))))
        if isinstance(a, HDict) and isinstance(b, HDict):
            k = z3.Const('k', V)
            return z3.ForAll([k], z3.And(
                z3.Select(a.dom, k) == z3.Select(b.dom, k),
                z3.Implies(z3.Select(a.dom, k), peq(
                    z3.Select(a.val, k), z3.Select(b.val, k)))))
        if isinstance(a, HSet) and isinstance(b, HSet):
            k = z3.Const('k', V)
            return z3.ForAll([k], z3.Select(a.dom, k) == z3.Select(b.dom, k))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            fs = [self.eq(x, y) for x, y in zip(a, b)]
            return self.conj(fs)
        if isinstance(a, (HList, HDict, HSet, PyFunc, HGen, HClass)) or \
                isinstance(b, (HList, HDict, HSet, PyFunc, HGen, HClass)):
            if isinstance(a, SV) or isinstance(b, SV):
                return peq(self.lift(a), self.lift(b))
            return a is b
        if isinstance(a, SV) or isinstance(b, SV):
            # reflected __eq__ of library objects
            for x, y in ((a, b), (b, a)):
                if isinstance(y, type) or isinstance(y, types.FunctionType) \
                        or isinstance(y, types.BuiltinFunctionType):
                    return self.lift(x) == self.lift(y)
            return peq(self.lift(a), self.lift(b))
        return a == b

    def conj(self, fs):
        if any(f is False for f in fs):
            return False
        fs = [f for f in fs if f is not True]
        return z3.And(*fs) if fs else True

    def same(self, a, b):
        """a is b"""
        if isinstance(a, SV) or isinstance(b, SV):
            if isinstance(a, SV) and isinstance(b, SV):
                ka, kb = con(a.e), con(b.e)
                if a.e.eq(b.e):
                    return True
                return a.e == b.e
            return self.lift(a) == self.lift(b)
        if isinstance(a, (BoundM,)) and isinstance(b, BoundM):
            return False
        if a is None or b is None or isinstance(a, HObj) or \
                isinstance(b, HObj):
            return a is b
        if type(a) in (int, str, bool, float, tuple) and type(a) == type(b):
            return a == b
        return a is b

    # ---------------------------------------------------------- class lookup
    def mro(self, cls):
        if isinstance(cls, HClass):
            return [cls] + self.mro(cls.base)
        return list(cls.__mro__)

    def class_lookup(self, cls, name):
        if isinstance(cls, SV):
            return MISSING, None
        for k in self.mro(cls):
            d = k.overrides if isinstance(k, HClass) else k.__dict__
            if name in d:
                return d[name], k
        return MISSING, None

    def bind(self, d, inst, cls):
        """descriptor protocol for a class attribute found on a class"""
        if isinstance(d, (types.FunctionType, PyFunc)):
            return BoundM(d, inst) if inst is not None else d
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, classmethod):
            return BoundM(d.__func__, cls)
        if isinstance(d, property):
            if inst is None:
                return d
            return self.call(d.fget, [inst], {})
        g = getattr(type(d), '__get__', None)
        if isinstance(g, types.FunctionType) and \
                (g.__module__ or '').startswith('normalize'):
            return self.call(g, [d, inst, cls], {})
        if isinstance(d, (types.WrapperDescriptorType,
                          types.MethodDescriptorType,
                          types.BuiltinFunctionType,
                          types.ClassMethodDescriptorType)):
            if inst is not None:
                return BoundM(d, inst)
            return d
        return d

    # ------------------------------------------------------------- getattr
    def getattr_(self, o, name, default=MISSING):
        try:
            return self.getattr0(o, name)
        except PyRaise as r:
            if default is not MISSING and self.exc_matches(
                    r.value, [AttributeError]):
                return default
            raise

    def getattr0(self, o, name):
        if isinstance(o, Poison):
            raise Unsupported('stale loop variable used')
        if isinstance(o, HInst):
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                if o.sdict is None:
                    o.sdict = self.dict_from_known(
                        [(k, v) for k, v in o.attrs.items()])
                    o.attrs_shared = True
                return o.sdict
            d, owner = self.class_lookup(o.cls, name)
            isdata = False
            if d is not MISSING and not isinstance(
                    d, (types.FunctionType, classmethod, staticmethod)):
                isdata = isinstance(d, property) or (
                    not isinstance(d, (SV, HObj)) and
                    hasattr(type(d), '__set__'))
            if isdata and not (isinstance(d, types.GetSetDescriptorType) and
                               name in o.attrs):
                return self.bind(d, o, o.cls)
            shared = getattr(o, 'attrs_shared', False)
            if shared:
                if self.branch(self.dict_has(o.sdict, name)):
                    return self.dict_val(o.sdict, name)
            elif name in o.attrs:
                return o.attrs[name]
            if o.sdict is not None and not shared:
                k = self.lift(name)
                if self.branch(z3.Select(o.sdict.dom, k)):
                    return self.unlift(z3.Select(o.sdict.val, k))
            if d is not MISSING:
                return self.bind(d, o, o.cls)
            ga, _ = self.class_lookup(o.cls, '__getattr__')
            if isinstance(ga, types.FunctionType) and not (
                    isinstance(o.cls, type) and
                    issubclass(o.cls, BaseException)):
                return self.call(ga, [o, name], {})
            self.throw(AttributeError, name)
        if isinstance(o, SV):
            return self.sv_getattr(o, name)
        if isinstance(o, HClass):
            if name == '__name__':
                return o.overrides.get('__name__', SV(vstr(z3.Int(
                    'name_%s' % o.name))))
            if name == '__dict__':
                raise Unsupported('__dict__ of an arbitrary class')
            d, owner = self.class_lookup(o, name)
            if d is MISSING:
                meta = type(o.base)
                try:
                    return getattr(o.base, name)
                except AttributeError:
                    self.throw(AttributeError, name)
            return self.bind(d, None, o)
        if isinstance(o, PSuper):
            mro = self.mro(o.cls)
            i = mro.index(o.start) + 1
            for k in mro[i:]:
                d = k.overrides if isinstance(k, HClass) else k.__dict__
                if name in d:
                    v = d[name]
                    inst = None if (o.obj is o.cls) else o.obj
                    if name == '__new__':
                        return v.__func__ if isinstance(v, staticmethod) else v
                    return self.bind(v, inst, o.cls)
            self.throw(AttributeError, name)
        if isinstance(o, (HList, HDict, HSet, HGen, SSeq)):
            sample = [] if isinstance(o, HList) else {} if isinstance(
                o, HDict) else set() if isinstance(o, HSet) else iter(())
            if name == '__class__':
                return type(sample)
            if not hasattr(sample, name):
                self.throw(AttributeError, name)
            if name == '__hash__' and isinstance(o, (HList, HDict, HSet)):
                return None
            return BuiltinM(o, name)
        if isinstance(o, (BoundM, BuiltinM, PyFunc)):
            if name == '__name__':
                return getattr(o, 'name', 'f')
            if name in ('__module__',):
                return 'normalize'
            if name == '__self__' and isinstance(o, BoundM):
                return o.self_
            raise Unsupported('attribute %s of a function' % name)
        # concrete python object
        if isinstance(o, type) and not isinstance(o, HClass):
            for k in o.__mro__:
                if name in k.__dict__:
                    d = k.__dict__[name]
                    if isinstance(d, (classmethod, staticmethod)) or (
                        isinstance(getattr(type(d), '__get__', None),
                                   types.FunctionType)):
                        return self.bind(d, None, o)
                    break
            try:
                return getattr(o, name)
            except AttributeError:
                self.throw(AttributeError, name)
        if isinstance(o, types.ModuleType):
            try:
                return getattr(o, name)
            except AttributeError:
                self.throw(AttributeError, name)
        if type(o).__module__.startswith('normalize'):
            d, owner = self.class_lookup(type(o), name)
            inst = getattr(o, '__dict__', {})
            if name in inst and not isinstance(d, property):
                return inst[name]
            if d is not MISSING:
                return self.bind(d, o, type(o))
        if isinstance(o, tuple) and name in ('count', 'index'):
            return BuiltinM(o, name)
        if isinstance(o, str) and callable(getattr(o, name, None)):
            return BuiltinM(o, name)
        try:
            r = getattr(o, name)
        except AttributeError:
            self.throw(AttributeError, name)
        return r

    def typed(self, o):
        """the tag of a value known to belong to a declared kind"""
        for pred, tag in self.sh.typing:
            if self.valid(pred(o.e)):
                return SV(o.e, tag)
        return o

    def sv_getattr(self, o, name):
        if o.tag is None and self.sh.typing:
            o = self.typed(o)
        t = o.tag
        if name == '__class__':
            return self.type_of(o)
        if t is not None:
            if name in t.attrs:
                return t.attrs[name](self, o.e)
            if name in t.methods:
                return BoundM(('tagm', t, name), o)
            if t.real is not None:
                d, owner = self.class_lookup(t.real, name)
                if d is not MISSING:
                    if isinstance(d, (types.FunctionType, property,
                                      classmethod, staticmethod)):
                        return self.bind(d, o, t.real)
                    if not t.strict and not isinstance(d, type):
                        pass
            if t.strict:
                self.throw(AttributeError, name)
        c = con(o.e)
        if c in SAMPLE:
            s = SAMPLE[c]
            if not hasattr(s, name):
                self.throw(AttributeError, name)
            if name == '__hash__':
                return BuiltinM(o, name)
            return BuiltinM(o, name)
        if c is None:
            o = self.refine(o)
            if not isinstance(o, SV) or con(o.e) in SAMPLE:
                return self.getattr0(o, name)
        k = self.lift(name)
        if not self.branch(HASATTR(o.e, k)):
            self.throw(AttributeError, name)
        r = GETATTR(o.e, k)
        if name == '__name__':
            self.assume(is_str(r))      # of classes and functions
        return SV(r)

    def hasattr_(self, o, name):
        """z3 Bool/bool"""
        if isinstance(o, SV) and con(o.e) in (None, 'obj') and \
                isinstance(name, str):
            t = o.tag
            if t is None or not (name in t.attrs or name in t.methods or
                                 t.real or t.strict):
                k = self.lift(name)
                if con(o.e) == 'obj':
                    return HASATTR(o.e, k)
                fs = [z3.And(is_obj(o.e), HASATTR(o.e, k))]
                for nm, tst in (('none', is_none), ('vbool', is_bool),
                                ('vint', is_int), ('vstr', is_str),
                                ('vtup', is_tup)):
                    if hasattr(SAMPLE[nm], name):
                        fs.append(tst(o.e))
                return z3.Or(*fs)
        if isinstance(name, SV):
            return HASATTR(self.lift(o), name.e)
        try:
            self.getattr0(o, name)
            return True
        except PyRaise as r:
            if self.exc_matches(r.value, [AttributeError]):
                return False
            raise

    def type_of(self, o):
        if isinstance(o, HInst):
            return o.cls
        if isinstance(o, HList):
            return list
        if isinstance(o, HDict):
            return dict
        if isinstance(o, HSet):
            return set
        if isinstance(o, HGen):
            return types.GeneratorType
        if isinstance(o, HClass):
            return type(o.base)
        if isinstance(o, SV):
            c = con(o.e)
            if c in SAMPLE:
                return type(SAMPLE[c])
            if c is None:
                r = self.refine(o)
                if not isinstance(r, SV) or con(r.e) in SAMPLE:
                    return self.type_of(r)
            tt = o.tag.attrs.get('__class__') if o.tag else None
            if tt:
                return tt(self, o.e)
            return SV(TYPE(o.e))
        if isinstance(o, (PyFunc, BoundM, BuiltinM)):
            return types.FunctionType
        return type(o)

    # ------------------------------------------------------------- setattr
    def setattr_(self, o, name, v):
        if isinstance(o, HInst):
            d, owner = self.class_lookup(o.cls, name)
            if isinstance(d, property):
                return self.call(d.fset, [o, v], {})
            if d is not MISSING and not isinstance(
                    d, (SV, HObj, types.FunctionType, classmethod,
                        staticmethod)):
                s = getattr(type(d), '__set__', None)
                if isinstance(s, types.FunctionType):
                    return self.call(s, [d, o, v], {})
            sa, _ = self.class_lookup(o.cls, '__setattr__')
            if isinstance(sa, types.FunctionType):
                return self.call(sa, [o, name, v], {})
            self.mut(o)
            o.attrs[name] = v
            if o.sdict is not None and getattr(o, 'attrs_shared', False):
                self.dict_set(o.sdict, name, v)
            return
        if isinstance(o, HClass):
            self.mut(o)
            o.overrides[name] = v
            return
        if isinstance(o, SV):
            h = getattr(self, 'effect_setattr', None)
            if h:
                return h(o, name, v)
            return self.effect('setattr', o, name, v)
        raise Unsupported('setattr on %r' % (o,))

    def effect(self, kind, o, *args):
        """a mutation of an object the function does not own: recorded; may
        raise"""
        if self.branch(self.fresh('%s_raises' % kind, BoolS)):
            ex = SV(self.fresh('exc'))
            self.assume(is_obj(ex.e))
            self.trace.append((kind, o, args, ('raise', ex)))
            raise PyRaise(ex)
        self.trace.append((kind, o, args, ('ok', None)))

    # --------------------------------------------------------------- dicts
    def dict_new(self):
        return self.new(HDict(z3.K(V, z3.BoolVal(False)), z3.K(V, none), []))

    def dict_from_known(self, pairs):
        d = self.dict_new()
        for k, v in pairs:
            self.dict_set(d, k, v)
        return d

    def _ck(self, k):
        return isinstance(k, (str, int, type(None), type, HObj)) or (
            isinstance(k, tuple) and all(self._ck(x) for x in k)) or (
            not isinstance(k, (SV, SSeq, Poison)))

    def dict_set(self, d, k, v):
        self.mut(d)
        ke = self.lift(k)
        if d.factory == 'counter' and con(self.lift(v)) != 'vint':
            raise Unsupported('a counter of something else')
        if d.known is not None:
            if self._ck(k) and all(self._ck(x) for x, _ in d.known):
                for j, (x, _) in enumerate(d.known):
                    if self.eq(x, k) is True:
                        d.known[j] = (x, v)
                        break
                else:
                    d.known.append((k, v))
            elif not d.known:
                d.known = [(k, v)]
            else:
                d.known = None
        d.dom = z3.Store(d.dom, ke, z3.BoolVal(True))
        d.val = z3.Store(d.val, ke, self.lift(v))

    def dict_has(self, d, k):
        if d.known is not None and self._ck(k) and \
                all(self._ck(x) for x, _ in d.known):
            return any(self.eq(x, k) is True for x, _ in d.known)
        return z3.simplify(z3.Select(d.dom, self.lift(k)))

    def dict_val(self, d, k):
        if d.known is not None:
            for x, v in d.known:
                if self._ck(k) and self._ck(x) and self.eq(x, k) is True:
                    return v
                if isinstance(x, SV) and isinstance(k, SV) and x.e.eq(k.e):
                    return v
        e = z3.Select(d.val, self.lift(k))
        tag = d.valtag(k) if callable(d.valtag) else d.valtag
        return self.unlift(e, tag)

    def dict_get(self, d, k, missing=None):
        """d[k]"""
        self.check_hashable(k)
        if d.factory == 'counter' and d.known is None:
            # only ints are ever stored (see dict_set)
            e = self.lift(k)
            return self.sint(z3.If(z3.Select(d.dom, e), V.i(
                z3.Select(d.val, e)), 0))
        if self.branch(self.dict_has(d, k)):
            return self.dict_val(d, k)
        if missing is not None:
            return missing()
        if d.factory is not None:
            if d.factory == 'counter':
                return 0
            v = self.call(d.factory, [], {})
            self.dict_set(d, k, v)
            return v
        self.throw(KeyError, k)

    def dict_del(self, d, k):
        if not self.branch(self.dict_has(d, k)):
            self.throw(KeyError, k)
        self.dict_drop(d, k)

    def dict_drop(self, d, k):
        self.mut(d)
        if d.known is not None:
            if self._ck(k) and all(self._ck(x) for x, _ in d.known):
                d.known = [(x, v) for x, v in d.known
                           if self.eq(x, k) is not True]
            else:
                d.known = None
        d.dom = z3.Store(d.dom, self.lift(k), z3.BoolVal(False))

    def check_hashable(self, k):
        if isinstance(k, (HList, HDict, HSet)):
            self.throw(TypeError, 'unhashable')

    def enum(self, dom):
        """an enumeration of a finite key set: (n, KEYS, IDX)"""
        key = z3.simplify(dom)
        for k, r in self.enum_cache.items():
            if r[3].eq(key):
                return r[:3]
        tag = 'dom%d' % len(self.enum_cache)
        idx = [c.i for c in self.loops]
        ss = [IntS] * len(idx)
        KEYSf = z3.Function(self._nm(tag + '_key'), *(ss + [IntS, V]))
        IDXf = z3.Function(self._nm(tag + '_idx'), *(ss + [V, IntS]))
        n = self.fresh(tag + '_n', IntS)
        D = self.fresh(tag + '_D', ArrVB)
        i, k = z3.Int('i'), z3.Const('k', V)
        self.assume(D == key)
        self.assume(n >= 0)
        K = lambda j: KEYSf(*(idx + [j]))        # noqa
        X = lambda q: IDXf(*(idx + [q]))         # noqa
        self.assume(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < n),
            z3.And(z3.Select(D, K(i)), X(K(i)) == i)), patterns=[K(i)]))
        self.assume(z3.ForAll([k], z3.Implies(
            z3.Select(D, k),
            z3.And(0 <= X(k), X(k) < n, K(X(k)) == k)),
            patterns=[z3.Select(D, k)]))
        if z3.is_const(key):
            self.assume(z3.ForAll([k], z3.Implies(
                z3.Select(key, k),
                z3.And(0 <= X(k), X(k) < n, K(X(k)) == k)),
                patterns=[z3.Select(key, k)]))
        self.enum_cache[tag] = (n, K, X, key)
        return n, K, X

    def _nm(self, base):
        if self.loops:
            l = self.loops[-1]
            dec = ''.join('%d' % int(x) for x in
                          self.prefix[l.decpos:self.dpos])
            l.fresh_n += 1
            return '%s!%s.%d@%s' % (base, l.key[1], l.fresh_n, dec)
        self.nfresh += 1
        return '%s!%d' % (base, self.nfresh)

    def dict_keys_seq(self, d):
        if d.known is not None:
            return [k for k, _ in d.known]
        n, K, X = self.enum(d.dom)
        kt = getattr(d, 'keytag', None)
        r = SSeq(n, lambda i: self.mkkey(K(i), kt), 'keys')
        r.eltag = kt
        return r

    def mkkey(self, e, kt):
        if kt is None and self.sh.unpair is not None:
            r = self.sh.unpair(self, e)
            if r is not None:
                return r
        if kt == 'str':
            self.assume(is_str(e))
            return SV(vstr(V.s(e)))
        return self.unlift(e, kt)

    def dict_items_seq(self, d):
        if d.known is not None:
            return [(k, v) for k, v in d.known]
        n, K, X = self.enum(d.dom)
        dom, val = d.dom, d.val
        kt = getattr(d, 'keytag', None)

        def fn(i):
            k = self.mkkey(K(i), kt)
            tag = d.valtag(k) if callable(d.valtag) else d.valtag
            return (k, self.unlift(z3.Select(val, K(i)), tag))
        return SSeq(n, fn, 'items')

    # --------------------------------------------------------------- lists
    def list_new(self, items=()):
        l = HList.of(list(items), self.lift)
        return self.new(l)

    def list_append(self, l, v):
        self.mut(l)
        l.arr = z3.Store(l.arr, l.n, self.lift(v))
        l.n = z3.simplify(l.n + 1)

    def list_item(self, l, j):
        return self.unlift(z3.Select(l.arr, j), l.eltag)

    def norm_index(self, i, n):
        """index normalisation with bounds check; raises IndexError"""
        i = self.as_int(i)
        if self.branch(i < 0):
            i = i + n
        if not self.branch(z3.And(i >= 0, i < n)):
            self.throw(IndexError, 'list index out of range')
        return z3.simplify(i)

    def clamp(self, v, n, default):
        if v is None:
            return default
        i = self.as_int(v)
        i = z3.If(i < 0, i + n, i)
        return z3.simplify(z3.If(i < 0, z3.IntVal(0), z3.If(i > n, n, i)))

    def slice_bounds(self, sl, n):
        lo, hi, st = sl
        if st is not None:
            raise Unsupported('slice step')
        a = self.clamp(lo, n, z3.IntVal(0))
        b = self.clamp(hi, n, n)
        b = z3.simplify(z3.If(b < a, a, b))
        return a, b

    def list_slice(self, l, sl):
        a, b = self.slice_bounds(sl, l.n)
        j = z3.Int('js')
        m = z3.simplify(b - a)
        if z3.is_int_value(m) and m.as_long() <= 6:
            arr = z3.K(IntS, none)
            for q in range(m.as_long()):
                arr = z3.Store(arr, q, z3.Select(l.arr, a + q))
        elif z3.is_int_value(a) and a.as_long() == 0:
            arr = l.arr
        else:
            arr = z3.Lambda([j], z3.Select(l.arr, j + a))
        r = self.new(HList(m, arr))
        r.eltag = l.eltag
        return r

    def list_splice(self, l, a, b, src):
        """l[a:b] = src (an HList)"""
        self.mut(l)
        j = z3.Int('jp')
        m = src.n
        old = l.arr
        l.arr = z3.Lambda([j], z3.If(
            j < a, z3.Select(old, j),
            z3.If(j < a + m, z3.Select(src.arr, j - a),
                  z3.Select(old, j - m - a + b))))
        l.n = z3.simplify(l.n - (b - a) + m)

    def to_hlist(self, it):
        """materialise an iterable into a new HList"""
        if isinstance(it, HList):
            r = self.new(HList(it.n, it.arr))
            r.eltag = it.eltag
            return r
        if isinstance(it, SSeq):
            r = self.seq_list(it)
            if r is not None:
                return r
        if isinstance(it, HSet) and it.known is None:
            n, K, X = self.enum(it.dom)
            kt = getattr(it, 'keytag', None)
            r = self.seq_list(SSeq(n, lambda i: self.mkkey(K(i), kt)))
            if r is not None:
                r.eltag = kt
                return r
        r = self.list_new()
        self.iterate(it, lambda v: self.list_append(r, v), ('list', ))
        return r

    def seq_list(self, it):
        """the list of a sequence known by length and element function"""
        n = z3.simplify(it.n) if not isinstance(it.n, int) else \
            z3.IntVal(it.n)
        if z3.is_int_value(n):
            return None
        jb = z3.Int('jm')
        mark, pos = len(self.pc), self.dpos
        self.solver.push()
        try:
            e = self.lift(it.fn(jb))
        finally:
            self.solver.pop()
        if self.dpos != pos:
            raise Unsupported('sequence element with cases')
        facts = self.pc[mark:]
        del self.pc[mark:]
        arr = self.fresh('seq', ArrIV)
        self.assume(z3.ForAll([jb], z3.Implies(
            z3.And(0 <= jb, jb < n),
            z3.And(z3.Select(arr, jb) == e, *facts)),
            patterns=[z3.Select(arr, jb)]))
        r = self.new(HList(n, arr))
        r.eltag = getattr(it, 'eltag', None)
        return r

    # ------------------------------------------------------------- iterate
    def iterate(self, it, body, site):
        """run body(value) for every element"""
        if isinstance(it, Poison):
            raise Unsupported('stale loop variable used')
        if isinstance(it, HGen):
            if it.used:
                return
            it.used = True
            mark = object()

            def on_value(v):
                try:
                    return body(v)
                except (PyRaise, Ret, Brk, Cont, Tunnel) as e:
                    t = Tunnel(e)
                    t.mark = mark
                    raise t
            try:
                it.start(on_value)
            except Tunnel as t:
                if getattr(t, 'mark', None) is mark:
                    raise t.inner
                raise
            return
        if isinstance(it, HList):
            n = it.conc_len()
            if n is not None and n <= 12:
                for j in range(n):
                    body(self.list_item(it, z3.IntVal(j)))
                return
            arr, tag = it.arr, it.eltag
            return self.sym_loop(
                site, it.n,
                lambda i: self.unlift(z3.Select(arr, i), tag), body)
        if isinstance(it, HDict):
            return self.iterate(self.dict_keys_seq(it), body, site)
        if isinstance(it, HSet):
            if it.known is not None:
                for x in list(it.known):
                    body(x)
                return
            n, K, X = self.enum(it.dom)
            kt = getattr(it, 'keytag', None)
            return self.sym_loop(site, n, lambda i: self.mkkey(K(i), kt),
                                 body)
        if isinstance(it, SSeq):
            n = z3.simplify(it.n) if not isinstance(it.n, int) else \
                z3.IntVal(it.n)
            if z3.is_int_value(n) and n.as_long() <= 12:
                for j in range(n.as_long()):
                    body(it.fn(z3.IntVal(j)))
                return
            return self.sym_loop(site, n, it.fn, body)
        if isinstance(it, HInst):
            f, _ = self.class_lookup(it.cls, '__iter__')
            if f is not MISSING:
                return self.iterate(self.call(f, [it], {}), body, site)
            self.throw(TypeError, 'not iterable')
        if isinstance(it, SV):
            c = con(it.e)
            if c == 'vtup':
                n, items = it.e.arg(0), it.e.arg(1)
                return self.sym_loop(
                    site, n, lambda i: self.unlift(z3.Select(items, i)), body)
            if c in ('none', 'vint', 'vbool'):
                self.throw(TypeError, 'not iterable')
            if it.tag is not None and '__iter__' in it.tag.methods:
                return self.iterate(
                    it.tag.methods['__iter__'](self, it, [], {}), body, site)
            if c is None and not self.branch(is_obj(it.e)):
                r = self.refine(it)
                if isinstance(r, SV) and con(r.e) == 'vstr':
                    raise Unsupported('iterating an unknown string')
                return self.iterate(r, body, site)
            b = HASATTR(it.e, self.lift('__iter__'))
            if not self.branch(z3.Or(b, HASATTR(
                    it.e, self.lift('__getitem__')))):
                self.throw(TypeError, 'not iterable')
            n = LEN(it.e)
            self.assume(n >= 0)
            et = getattr(it.tag, 'eltag', None) if it.tag else None
            return self.sym_loop(
                site, n, lambda i: self.unlift(ITEM(it.e, i), et), body)
        if isinstance(it, (list, tuple, dict, set, frozenset, range, str)):
            seq = sorted(it, key=repr) if isinstance(it, (set, frozenset)) \
                else list(it)
            for x in seq:
                body(x)
            return
        if isinstance(it, (type({}.keys()), type({}.values()),
                           type({}.items()))):
            for x in list(it):
                body(x)
            return
        if it is None or isinstance(it, (int, float)):
            self.throw(TypeError, 'not iterable')
        raise Unsupported('iterating %r' % (it,))

    # ---------------------------------------------------------- loops (VC)
    def snapshot(self, loc):
        if loc[0] == 'var':
            sc = self.scopes[loc[1]]
            return sc.vars.get(loc[2], MISSING)
        o = self.heap[HEAP_BASE + loc[1]]
        if isinstance(o, HList):
            return ('L', o.n, o.arr)
        if isinstance(o, HDict):
            return ('D', o.dom, o.val, o.known)
        if isinstance(o, HSet):
            return ('S', o.dom, o.known)
        if isinstance(o, HInst):
            return ('I', dict(o.attrs))
        if isinstance(o, HClass):
            return ('I', dict(o.overrides))
        if isinstance(o, HGen):
            return ('G', o.used)
        raise Unsupported('loop mutates %r' % (o,))

    def sym_loop(self, site, n, item, body):
        sh = self.sh
        decs = tuple(self.prefix[:self.dpos])
        key = (site, 'L%s' % abs(hash((str(site), decs, len(self.loops)))))
        key = (key[0], 'L' + self.loop_name(site, decs))
        info = sh.loops.get(key[1])
        if info is None:
            info = sh.loops[key[1]] = LoopInfo()
            info.note = str(site)
        ctx = LoopCtx(key, info, None, self.birthc + 1, None)
        self.birthc += 1
        ctx.n = n
        ctx.item = item
        if info.dropped_at != len(info.writes):
            # judged while not all the loop changes was known
            info.dropped, info.dropped_at = set(), len(info.writes)
        locs = sorted(info.writes, key=str)
        base = {loc: self.snapshot(loc) for loc in locs}
        ctx.base = base
        # establish candidates
        cands0 = self.loop_candidates(ctx, info, base, z3.IntVal(0), locs)
        for cid, f in cands0:
            if cid in info.dropped:
                continue
            if not self.valid(f):
                info.dropped.add(cid)
                sh.dirty = True
        which = self.choose(2)
        if which == 0:
            i = self.fresh('i', IntS)
            # the index itself is a constant (function of outer indices)
            self.assume(z3.And(i >= 0, i < n))
            if not self.feasible(z3.BoolVal(True)):
                raise Infeasible()
            self.havoc(ctx, locs, base, i)
            for cid, f in self.loop_candidates(ctx, info, base, i, locs):
                if cid not in info.dropped:
                    self.assume(f)
            ctx.i = i
            ctx.decpos = self.dpos
            ctx.pcpos = len(self.pc)
            self.loops.append(ctx)
            depth = len(self.loops)
            try:
                v = item(i)
                body(v)
            except (Brk, Ret, PyRaise, Tunnel):
                del self.loops[depth - 1:]
                info.effects.append(('exit', self.pc[ctx.pcpos:], i, None))
                raise
            except (PathEnd, Infeasible, Unsupported):
                raise
            del self.loops[depth - 1:]
            # normal end of the iteration
            end = {loc: self.snapshot(loc) for loc in
                   sorted(info.writes, key=str) if loc in base}
            info.effects.append(('normal', self.pc[ctx.pcpos:], i, end,
                                 ctx.start))
            for loc, v in end.items():
                if loc[0] == 'var':
                    self.observe(info, loc, v)
            for cid, f in self.loop_candidates(ctx, info, base, i + 1, locs):
                if cid in info.dropped:
                    continue
                if not self.valid(f):
                    info.dropped.add(cid)
                    sh.dirty = True
            raise PathEnd()
        else:
            m = z3.If(n > 0, n, z3.IntVal(0))
            self.havoc(ctx, locs, base, None)
            self.assume(n >= 0)
            for cid, f in self.loop_candidates(ctx, info, base, n, locs):
                if cid not in info.dropped:
                    self.assume(f)
            if not self.feasible(z3.BoolVal(True)):
                raise Infeasible()

    def loop_name(self, site, decs):
        s = '%s|%s' % (site, ''.join('%d' % int(x) for x in decs))
        h = 0
        for ch in s:
            h = (h * 131 + ord(ch)) % (1 << 48)
        return '%x' % h

    def observe(self, info, loc, v):
        if v is MISSING:
            return
        obs = info.observed.setdefault(loc, [])
        if isinstance(v, (HList, HDict, HInst, HSet)):
            v = ('ref', v.uid)
        elif isinstance(v, SV):
            v = self.obs_of(v)
        elif isinstance(v, tuple) and any(isinstance(x, SV) for x in v):
            v = ('tup',) + tuple(self.obs_of(x) if isinstance(
                x, SV) else ('c', x) for x in v)
        else:
            if isinstance(v, OPAQUE) and any(
                    o[0] == 'opq' or o[0] == 'c' and isinstance(
                        o[1], OPAQUE) and o[1] is not v for o in obs):
                # another sequence, function, ... each time: not described
                v = ('opq', None)
            else:
                v = ('c', v)
        if v not in obs:
            obs.append(v)
            self.sh.dirty = True

    def valid(self, f):
        if f is True:
            return True
        if f is False:
            return False
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        import time
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set('timeout', 800)
        s.set('smt.mbqi', False)
        s.add(*self.pc)
        s.add(z3.Not(f))
        self.sh.queries += 1
        r = s.check()
        if r == z3.unknown and not (
                self.sh.ematch and 'incomplete' in s.reason_unknown()):
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*self.pc)
            s.add(z3.Not(f))
            self.sh.queries += 1
            r = s.check()
        self.sh.solver_s += time.time() - t0
        if VTIMES is not None:
            VTIMES.append((round(time.time() - t0, 3), str(r)))
        return r == z3.unsat

    def havoc(self, ctx, locs, base, i):
        info = ctx.info
        start = {}
        for loc in locs:
            if loc[0] == 'var':
                sc = self.scopes[loc[1]]
                b = base[loc]
                if b is MISSING or isinstance(b, Poison):
                    sc.vars[loc[2]] = POISON
                    continue
                obs = info.observed.get(loc, [])
                sc.vars[loc[2]] = self.havoc_value(loc, b, obs)
            else:
                o = self.heap[HEAP_BASE + loc[1]]
                nm = 'h%s' % loc[1]
                if isinstance(o, HList):
                    o.n = self.fresh(nm + '_n', IntS)
                    o.arr = self.fresh(nm + '_arr', ArrIV)
                    self.assume(o.n >= 0)
                elif isinstance(o, HDict):
                    o.dom = self.fresh(nm + '_dom', ArrVB)
                    o.val = self.fresh(nm + '_val', ArrVV)
                    o.known = None
                elif isinstance(o, HSet):
                    o.dom = self.fresh(nm + '_dom', ArrVB)
                    o.known = None
                elif isinstance(o, HInst):
                    for a in list(o.attrs):
                        o.attrs[a] = SV(self.fresh(nm + '_' + a))
                elif isinstance(o, HGen):
                    raise Unsupported('generator consumed inside a loop')
            start[loc] = self.snapshot(loc)
        ctx.start = start

    def havoc_value(self, loc, b, obs):
        kinds = set()
        if any(v[0] == 'opq' or v[0] == 'c' and isinstance(
                v[1], OPAQUE) for v in [self.obs_of(b)] + list(obs)):
            return b if all(v[0] == 'c' and v[1] is b for v in obs) \
                else POISON
        for v in [self.obs_of(b)] + list(obs):
            if v[0] == 'sv':
                kinds.add(v[1])
            elif v[0] == 'c':
                c = v[1]
                kinds.add('vbool' if isinstance(c, bool) else
                          'vint' if isinstance(c, int) else
                          'vstr' if isinstance(c, str) else
                          'none' if c is None else None)
            else:
                kinds.add('ref')
        nm = 'v_%s' % loc[2]
        if kinds == {'vint'}:
            return SV(vint(self.fresh(nm, IntS)))
        if kinds == {'vbool'}:
            return SV(vbool(self.fresh(nm, BoolS)))
        if kinds == {'vstr'}:
            return SV(vstr(self.fresh(nm, IntS)))
        if kinds == {'ref'}:
            if len(obs) <= 1 and all(x == self.obs_of(b) for x in obs):
                return b
        if isinstance(b, SV) and b.tag is not None and b.tag.sticky and \
                all(len(x) == 3 and x[2] == b.tag.name for x in obs):
            return SV(self.fresh(nm), b.tag)
        return SV(self.fresh(nm))

    def obs_of(self, v):
        if isinstance(v, (HList, HDict, HInst, HSet)):
            return ('ref', v.uid)
        if isinstance(v, SV):
            if v.tag is not None and v.tag.sticky:
                return ('sv', con(v.e), v.tag.name)
            return ('sv', con(v.e))
        return ('c', v)

    def loop_candidates(self, ctx, info, base, i, locs):
        """[(id, formula)] over the current state, for `i` iterations done"""
        out = []
        j = z3.Int('j')
        q = z3.Const('q', V)
        for loc in locs:
            if loc[0] == 'var':
                sc = self.scopes[loc[1]]
                b = base[loc]
                cur = sc.vars.get(loc[2], MISSING)
                if b is MISSING or cur is MISSING or isinstance(
                        b, Poison) or isinstance(cur, Poison):
                    continue
                try:
                    be, ce = self.lift(b), self.lift(cur)
                except Unsupported:
                    continue
                out.append((('same', loc), ce == be))
                if con(be) == 'vint' and con(ce) == 'vint':
                    out.append((('inc', loc), ce.arg(0) == be.arg(0) + i))
                consts = [v[1] for v in info.observed.get(loc, [])
                          if v[0] == 'c' and isinstance(
                              v[1], (int, str, bool, type(None)))]
                if consts and all(v[0] == 'c' for v in
                                  info.observed.get(loc, [])):
                    out.append((('oneof', loc, str(consts)), z3.Or(
                        ce == be, *[ce == self.lift(x) for x in consts])))
                for nm, fn in self.sh.scalar_cands:
                    f = fn(self, ctx, i, be, ce)
                    if f is not None:
                        out.append((('sc', nm, loc), f))
            else:
                o = self.heap[HEAP_BASE + loc[1]]
                b = base[loc]
                if isinstance(o, HList) and o.ghost:
                    pass
                elif isinstance(o, HList):
                    n0, a0 = b[1], b[2]
                    out.append((('len=', loc), o.n == n0))
                    out.append((('len>=', loc), o.n >= n0))
                    out.append((('len+i', loc), o.n == n0 + i))
                    out.append((('prefix', loc), z3.ForAll([j], z3.Implies(
                        z3.And(0 <= j, j < n0),
                        z3.Select(o.arr, j) == z3.Select(a0, j)))))
                    for nm, fn in self.sh.elem_preds:
                        f = fn(self, z3.Select(o.arr, j))
                        if f is not None:
                            out.append((('elem', nm, loc), z3.ForAll(
                                [j], z3.Implies(
                                    z3.And(n0 <= j, j < o.n), f),
                                patterns=[z3.Select(o.arr, j)])))
                elif isinstance(o, (HDict, HSet)):
                    d0 = b[1]
                    out.append((('grows', loc), z3.ForAll([q], z3.Implies(
                        z3.Select(d0, q), z3.Select(o.dom, q)))))
                    if isinstance(o, HDict):
                        for nm, fn in self.sh.elem_preds:
                            f = fn(self, z3.Select(o.val, q), q)
                            if f is not None:
                                out.append((('dval', nm, loc), z3.ForAll(
                                    [q], z3.Implies(
                                        z3.Select(o.dom, q), f))))
                elif isinstance(o, HInst):
                    for a, v0 in b[1].items():
                        if a in o.attrs:
                            try:
                                out.append((
                                    ('attr', a, loc),
                                    self.lift(o.attrs[a]) == self.lift(v0)))
                            except Unsupported:
                                pass
        out.extend(self.template_candidates(ctx, info, base, i, locs))
        for nm, fn in self.sh.loop_cands:
            f = fn(self, ctx, i, base)
            if f is not None:
                if isinstance(f, list):
                    for q2, g in enumerate(f):
                        out.append((('lc', nm, q2), g))
                else:
                    out.append((('lc', nm), f))
        return out

    # templates: closed forms read off the loop body of the previous round
    def make_template(self, info):
        """called between rounds"""
        tm = []
        idx = None
        if not any(w[0] == 'heap' for w in info.writes) and \
                not any(e[0] == 'exit' for e in info.effects):
            return None
        for e in info.effects:
            if e[0] == 'normal':
                _, pcs, i, end, start = e
                idx = i
                tm.append((pcs, end, start))
        if idx is None:
            return None
        return (idx, tm)

    def template_candidates(self, ctx, info, base, i, locs):
        out = []
        T = info.template
        if not T:
            return out
        idx, tm = T
        ver = info.tmpl_version
        j = z3.Int('j')
        # carried symbols: constants of the havoced state
        carried = set()
        for pcs, end, start in tm:
            for loc, s in start.items():
                for t in self.terms_of(s):
                    if z3.is_app(t) and t.num_args() == 0 and \
                            t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        carried.add(t.decl().name())
                    elif z3.is_app(t):
                        carried |= free_consts(t) - self.base_consts(base)

        def usable(t):
            return not (free_consts(t) & carried)

        def at(t, k):
            return z3.substitute(t, (idx, k))
        conds = []
        good = True
        for pcs, end, start in tm:
            c = [p for p in pcs if not z3.is_quantifier(p) and
                 not self.has_quant(p)]
            if not all(usable(p) for p in c):
                good = False
                break
            conds.append(z3.And(*c) if c else z3.BoolVal(True))
        if not good:
            return out
        any_normal = z3.Or(*conds) if len(conds) > 1 else conds[0]
        if not z3.is_true(z3.simplify(any_normal)):
            out.append((('normal', ver), z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < i), at(any_normal, j)))))
        for loc in locs:
            if loc[0] != 'heap':
                continue
            o = self.heap[HEAP_BASE + loc[1]]
            if isinstance(o, HList):
                # append exactly one element on every normal path
                val = None
                ok = True
                for c, (pcs, end, start) in reversed(list(zip(conds, tm))):
                    if loc not in end or loc not in start:
                        ok = False
                        break
                    sn, sa = start[loc][1], start[loc][2]
                    en, ea = end[loc][1], end[loc][2]
                    if not z3.is_true(z3.simplify(en == sn + 1)):
                        ok = False
                        break
                    t = z3.simplify(z3.Select(ea, sn))
                    if not usable(t):
                        ok = False
                        break
                    val = t if val is None else z3.If(c, t, val)
                if ok and val is not None:
                    n0 = base[loc][1]
                    out.append((('map', loc, ver), z3.ForAll(
                        [j], z3.Implies(
                            z3.And(0 <= j, j < i),
                            z3.Select(o.arr, n0 + j) == at(val, j)))))
        return out

    def base_consts(self, base):
        s = set()
        for b in base.values():
            for t in self.terms_of(b):
                s |= free_consts(t)
        return s

    def has_quant(self, p):
        return has_quantifier(p)

    def terms_of(self, s):
        if isinstance(s, SV):
            return [s.e]
        if isinstance(s, tuple) and s and s[0] in ('L', 'D', 'S'):
            return [t for t in s[1:] if z3.is_expr(t)]
        return []
