"""Statement and expression execution, calls and the models of builtins."""
import ast
import builtins
import collections
import collections.abc
import copy as copymod
import inspect
import re
import string
import types
import weakref
import z3
from .terms import *      # noqa
from .values import *     # noqa
from .interp import (Engine, func_node, finfo, intern, SAMPLE, _own_nodes)

MAX_DEPTH = 40


class Model:
    """a modelled function: fn(engine, args, kwargs)"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<model %s>' % self.name


class Frame:
    __slots__ = ('scope', 'globs', 'closure', 'on_yield', 'first', 'name',
                 'glob_names')

    def __init__(self, scope, globs, closure, name):
        self.scope, self.globs, self.closure = scope, globs, closure
        self.on_yield = None
        self.first = MISSING
        self.name = name
        self.glob_names = ()


_FIELD = re.compile(r'%[^a-zA-Z%]*[a-zA-Z]')
PURE = {len, abs, min, max, sum, sorted, repr, str, int, float, bool, tuple,
        isinstance, issubclass, callable, hasattr, getattr, ord, chr, type,
        id, any, all, round, divmod, hash, format, bytes,
        inspect.getfullargspec, re.sub, re.match, re.split, re.finditer,
        re.compile}


def is_conc(v, depth=0):
    """a value which native code may be given"""
    if isinstance(v, (SV, HObj, SSeq, BoundM, BuiltinM, PSuper, Poison,
                      Model)):
        return False
    if isinstance(v, (tuple, list, set, frozenset)):
        return depth < 6 and all(is_conc(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return depth < 6 and all(is_conc(x, depth + 1)
                                 for x in list(v.values()) + list(v))
    return True


def positional(f, args, kw):
    """arguments given by keyword which could as well be given by position
    (a contract of a function judges what it is given, not how)"""
    if not kw or EXTRA in kw:
        return args, kw
    co = f.__code__
    args, kw = list(args), dict(kw)
    for n in co.co_varnames[:co.co_argcount][len(args):]:
        if n not in kw:
            break
        args.append(kw.pop(n))
    return args, kw


class Exec(Engine):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.scopes = {}
        self.glob_over = {}      # (module name, name) -> value
        self.bounded = 0         # refutation mode: loops unrolled this often
        self.cut = 0             # loops cut on this path

    # -------------------------------------------------------------- scopes
    def scope(self, parent=None):
        self.nuid += 1
        self.birthc += 1
        s = Scope(parent, self.nuid, self.birthc)
        self.scopes[s.uid] = s
        return s

    def set_var(self, sc, name, v):
        for l in self.loops:
            if sc.birth < l.born:
                loc = ('var', sc.uid, name)
                if loc not in l.info.writes:
                    l.info.writes[loc] = True
                    self.sh.dirty = True
        sc.vars[name] = v

    def lookup(self, fr, name):
        sc = fr.scope
        while sc is not None:
            if name in sc.vars:
                v = sc.vars[name]
                if v is POISON:
                    raise Unsupported('variable %s after a loop' % name)
                return v
            sc = sc.parent
        if fr.closure and name in fr.closure:
            try:
                return fr.closure[name].cell_contents
            except ValueError:
                pass
        mod = fr.globs.get('__name__')
        if (mod, name) in self.glob_over:
            return self.glob_over[mod, name]
        if name in fr.globs:
            return fr.globs[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.throw(NameError, name)

    def store(self, fr, name, v):
        sc = fr.scope
        if sc.locals is not None and name not in sc.locals:
            if name in fr.glob_names:
                raise Unsupported('assignment to global %s' % name)
            s = sc.parent
            while s is not None:
                if name in s.vars:
                    return self.set_var(s, name, v)
                s = s.parent
        self.set_var(sc, name, v)

    # ---------------------------------------------------------- statements
    def block(self, fr, stmts):
        for s in stmts:
            self.stmt(fr, s)

    def stmt(self, fr, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(fr, s)

    def s_Expr(self, fr, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(fr, s.value)

    def s_Pass(self, fr, s):
        pass

    def s_Assign(self, fr, s):
        v = self.ev(fr, s.value)
        for t in s.targets:
            self.assign(fr, t, v)

    def s_AnnAssign(self, fr, s):
        if s.value is not None:
            self.assign(fr, s.target, self.ev(fr, s.value))

    def s_AugAssign(self, fr, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            self.store(fr, t.id, self.augop(s.op, cur, self.ev(fr, s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(fr, t.value)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr,
                          self.augop(s.op, cur, self.ev(fr, s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(fr, t.value)
            k = self.index_value(fr, t.slice)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(s.op, cur, self.ev(fr, s.value)))
        else:
            raise Unsupported('augmented assignment')

    def augop(self, op, cur, v):
        if isinstance(op, ast.Add) and isinstance(cur, HList):
            self.call(BuiltinM(cur, 'extend'), [v], {})
            return cur
        if isinstance(op, ast.BitOr) and isinstance(cur, HSet):
            self.call(BuiltinM(cur, 'update'), [v], {})
            return cur
        return self.binop(op, cur, v)

    def assign(self, fr, t, v):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(fr, t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(fr, t.value)
            self.setitem(o, self.index_value(fr, t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x, y in zip(t.elts, self.unpack(v, len(t.elts))):
                self.assign(fr, x, y)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                self.throw(ValueError, 'unpack')
            return list(v)
        if isinstance(v, HList):
            if not self.branch(v.n == n):
                self.throw(ValueError, 'unpack')
            return [self.list_item(v, z3.IntVal(j)) for j in range(n)]
        if isinstance(v, SV):
            c = con(v.e)
            if c is None:
                if self.branch(is_tup(v.e)):
                    v = SV(vtup(V.n(v.e), V.items(v.e)), v.tag)
                    c = 'vtup'
                else:
                    raise Unsupported('unpacking %r' % (v,))
            if c == 'vtup':
                if not self.branch(v.e.arg(0) == n):
                    self.throw(ValueError, 'unpack')
                return [self.unlift(z3.Select(v.e.arg(1), j))
                        for j in range(n)]
            raise Unsupported('unpacking %r' % (v,))
        if isinstance(v, (list, str)) and len(v) == n:
            return list(v)
        raise Unsupported('unpacking %r' % (v,))

    def s_If(self, fr, s):
        if self.test(self.ev(fr, s.test)):
            self.block(fr, s.body)
        else:
            self.block(fr, s.orelse)

    def s_For(self, fr, s):
        it = self.ev(fr, s.iter)
        site = self.site(s)

        def body(v):
            self.assign(fr, s.target, v)
            try:
                self.block(fr, s.body)
            except Cont:
                pass
        try:
            self.iterate(it, body, site)
        except Brk:
            return
        self.block(fr, s.orelse)

    def s_While(self, fr, s):
        for k in range(30):
            c = self.truth(self.ev(fr, s.test))
            c = c if isinstance(c, bool) else z3.simplify(c)
            if not isinstance(c, bool) and not z3.is_true(c) and \
                    not z3.is_false(c):
                if not self.bounded:
                    raise Unsupported('while loop')
                if k >= self.bounded:
                    raise PathEnd()
            if not self.branch(c):
                break
            try:
                self.block(fr, s.body)
            except Cont:
                pass
            except Brk:
                return
        else:
            raise Unsupported('while loop')
        self.block(fr, s.orelse)

    def site(self, node):
        return ('%d:%d' % (node.lineno, node.col_offset),
                type(node).__name__)

    def s_Break(self, fr, s):
        raise Brk()

    def s_Continue(self, fr, s):
        raise Cont()

    def s_Return(self, fr, s):
        raise Ret(None if s.value is None else self.ev(fr, s.value))

    def s_Raise(self, fr, s):
        if s.exc is None:
            if not self.exc_stack:
                self.throw(RuntimeError, 'No active exception to reraise')
            raise PyRaise(self.exc_stack[-1])
        e = self.ev(fr, s.exc)
        if isinstance(e, type):
            e = self.call(e, [], {})
        if isinstance(e, BaseException):
            h = self.new(HInst(type(e), dict(getattr(e, '__dict__', {}))))
            h.attrs['args'] = e.args
            e = h
        if s.cause is not None:
            self.ev(fr, s.cause)
        raise PyRaise(e)

    def s_Try(self, fr, s):
        try:
            self.try_inner(fr, s)
        except (PyRaise, Ret, Brk, Cont, Tunnel):
            if s.finalbody:
                self.block(fr, s.finalbody)
            raise
        else:
            if s.finalbody:
                self.block(fr, s.finalbody)

    def try_inner(self, fr, s):
        try:
            self.block(fr, s.body)
        except PyRaise as r:
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    t = self.ev(fr, h.type)
                    ts = list(t) if isinstance(t, tuple) else [t]
                    for x in ts:
                        if not isinstance(x, type):
                            raise Unsupported('except %r' % (x,))
                    ok = self.exc_matches(r.value, ts)
                if ok:
                    if h.name:
                        self.store(fr, h.name, r.value)
                    self.exc_stack.append(r.value)
                    try:
                        self.block(fr, h.body)
                    finally:
                        self.exc_stack.pop()
                    return
            raise
        self.block(fr, s.orelse)

    def s_Delete(self, fr, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                sc = fr.scope
                if t.id not in sc.vars:
                    raise Unsupported('del of a name')
                self.set_var(sc, t.id, POISON)
            elif isinstance(t, ast.Attribute):
                self.delattr_(self.ev(fr, t.value), t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.ev(fr, t.value)
                self.delitem(o, self.index_value(fr, t.slice))
            else:
                raise Unsupported('del')

    def s_Global(self, fr, s):
        pass

    def s_Nonlocal(self, fr, s):
        pass

    def s_Assert(self, fr, s):
        if not self.test(self.ev(fr, s.test)):
            self.throw(AssertionError)

    def s_Import(self, fr, s):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if not a.asname:
                m = importlib.import_module(a.name.split('.')[0])
            self.store(fr, a.asname or a.name.split('.')[0], m)

    def s_ImportFrom(self, fr, s):
        import importlib
        if s.level:
            base = fr.globs['__package__'] or ''
            parts = base.split('.')
            base = '.'.join(parts[:len(parts) - s.level + 1])
            name = base + ('.' + s.module if s.module else '')
        else:
            name = s.module
        m = importlib.import_module(name)
        for a in s.names:
            if (name, a.name) in self.glob_over:
                self.store(fr, a.asname or a.name,
                           self.glob_over[name, a.name])
            else:
                self.store(fr, a.asname or a.name, getattr(m, a.name))

    def s_FunctionDef(self, fr, s):
        if s.decorator_list:
            raise Unsupported('decorated nested function')
        self.store(fr, s.name, self.make_func(fr, s, s.name))

    def make_func(self, fr, node, name):
        d = [self.ev(fr, x) for x in node.args.defaults]
        kd = {}
        for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if x is not None:
                kd[a.arg] = self.ev(fr, x)
        f = PyFunc(node, fr.scope, fr.globs, d, kd, name)
        f.closure = fr.closure
        return self.new(f)

    # --------------------------------------------------------- expressions
    def ev(self, fr, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(fr, e)

    def e_Constant(self, fr, e):
        return e.value

    def e_Name(self, fr, e):
        return self.lookup(fr, e.id)

    def e_Attribute(self, fr, e):
        return self.getattr_(self.ev(fr, e.value), e.attr)

    def e_Subscript(self, fr, e):
        o = self.ev(fr, e.value)
        return self.getitem(o, self.index_value(fr, e.slice))

    def index_value(self, fr, s):
        if isinstance(s, ast.Slice):
            return PSlice(*[None if x is None else self.ev(fr, x)
                            for x in (s.lower, s.upper, s.step)])
        return self.ev(fr, s)

    def e_Slice(self, fr, s):
        return self.index_value(fr, s)

    def e_Tuple(self, fr, e):
        return tuple(self.elts(fr, e.elts))

    def e_List(self, fr, e):
        if len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred):
            return self.to_hlist(self.ev(fr, e.elts[0].value))
        return self.list_new(self.elts(fr, e.elts))

    def elts(self, fr, xs):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.conc_seq(self.ev(fr, x.value)))
            else:
                out.append(self.ev(fr, x))
        return out

    def e_Set(self, fr, e):
        return self.set_from(self.elts(fr, e.elts))

    def e_Dict(self, fr, e):
        d = self.dict_new()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.call(BuiltinM(d, 'update'), [self.ev(fr, v)], {})
            else:
                self.dict_set(d, self.ev(fr, k), self.ev(fr, v))
        return d

    def plain(self, fr, x):
        """the value of a test that has no effect, cannot fail and needs no
        branching; None if it is not known to be one"""
        if isinstance(x, ast.Constant):
            return x.value if x.value is not None else None
        if isinstance(x, ast.Name):
            v = self.ev(fr, x)
            return None if isinstance(v, Poison) else v
        if isinstance(x, ast.Attribute):
            o = self.plain(fr, x.value)
            if isinstance(o, HInst) and x.attr in o.attrs and isinstance(
                    o.attrs[x.attr], (SV, bool)) and self.class_lookup(
                        o.cls, x.attr)[0] is MISSING:
                return o.attrs[x.attr]
            if isinstance(o, SV) and o.tag is not None and \
                    x.attr in o.tag.attrs:
                return self.getattr_(o, x.attr)
            return None
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            v = self.plain(fr, x.operand)
            if v is None:
                return None
            t = self.truth(v)
            return not t if isinstance(t, bool) else self.sbool(z3.Not(t))
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            a, b = self.plain(fr, x.left), self.plain(fr, x.comparators[0])
            if isinstance(x.comparators[0], ast.Constant) and \
                    x.comparators[0].value is None and a is not None and \
                    isinstance(x.ops[0], (ast.Is, ast.IsNot)):
                return self.compare(x.ops[0], a, None)
            if a is None or b is None:
                return None
            simple = isinstance(x.ops[0], (ast.Is, ast.IsNot)) or (
                isinstance(x.ops[0], (ast.Eq, ast.NotEq)) and all(
                    isinstance(y, (SV, str, int, bool, type))
                    for y in (a, b)))
            return self.compare(x.ops[0], a, b) if simple else None
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == 'isinstance' and len(x.args) == 2 and \
                not x.keywords and self.ev(fr, x.func) is isinstance:
            a, b = self.plain(fr, x.args[0]), self.plain(fr, x.args[1])
            if isinstance(a, SV) and isinstance(b, (type, tuple)) and \
                    all(isinstance(t, type) for t in (
                        b if isinstance(b, tuple) else (b,))):
                return self.call(isinstance, [a, b], {})
            return None
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == 'type' and len(x.args) == 1 and \
                not x.keywords and self.ev(fr, x.func) is type:
            a = self.plain(fr, x.args[0])
            return self.call(type, [a], {}) if isinstance(a, SV) else None
        if isinstance(x, ast.BoolOp):
            return self.merged(fr, x)
        return None

    def merged(self, fr, e):
        vs = []
        for x in e.values:
            v = self.plain(fr, x)
            if not (isinstance(v, bool) or (
                    isinstance(v, SV) and con(v.e) == 'vbool')):
                return None
            vs.append(v)
        fs = [z3.BoolVal(v) if isinstance(v, bool) else v.e.arg(0)
              for v in vs]
        return self.sbool(z3.And(*fs) if isinstance(e.op, ast.And) else
                          z3.Or(*fs))

    def e_BoolOp(self, fr, e):
        if self.sh.merge and not self.spec:
            self.spec = True
            n = len(self.trace)
            try:
                v = self.merged(fr, e)
            except (Unsupported, PyRaise):
                v = None
            finally:
                self.spec = False
            if v is not None and len(self.trace) == n:
                return v
            del self.trace[n:]
        v = None
        for j, x in enumerate(e.values):
            v = self.ev(fr, x)
            if j == len(e.values) - 1:
                return v
            t = self.test(v)
            if isinstance(e.op, ast.And):
                if not t:
                    return v
            elif t:
                return v
        return v

    def e_UnaryOp(self, fr, e):
        v = self.ev(fr, e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return not t if isinstance(t, bool) else self.sbool(z3.Not(t))
        if isinstance(e.op, ast.USub):
            if is_conc(v):
                return -v
            return self.sint(-self.as_int(v))
        raise Unsupported('unary operator')

    def e_IfExp(self, fr, e):
        return self.ev(fr, e.body if self.test(self.ev(fr, e.test))
                       else e.orelse)

    def e_Lambda(self, fr, e):
        return self.make_func(fr, e, '<lambda>')

    def e_Compare(self, fr, e):
        left = self.ev(fr, e.left)
        for j, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(fr, r)
            v = self.compare(op, left, right)
            if j == len(e.ops) - 1:
                return v
            if not self.test(v):
                return v
            left = right

    def compare(self, op, a, b):
        n = type(op).__name__
        if n == 'Eq':
            return self.sbool(self.eq(a, b))
        if n == 'NotEq':
            for x, y in ((a, b),):
                if isinstance(x, HInst):
                    f, _ = self.class_lookup(x.cls, '__ne__')
                    if isinstance(f, types.FunctionType):
                        return self.call(f, [x, y], {})
            r = self.eq(a, b)
            return self.sbool(not r if isinstance(r, bool) else z3.Not(r))
        if n == 'Is':
            return self.sbool(self.same(a, b))
        if n == 'IsNot':
            r = self.same(a, b)
            return self.sbool(not r if isinstance(r, bool) else z3.Not(r))
        if n in ('In', 'NotIn'):
            r = self.contains(b, a)
            if n == 'NotIn':
                r = not r if isinstance(r, bool) else z3.Not(r)
            return self.sbool(r)
        if is_conc(a) and is_conc(b):
            try:
                return {'Lt': lambda: a < b, 'LtE': lambda: a <= b,
                        'Gt': lambda: a > b, 'GtE': lambda: a >= b}[n]()
            except TypeError:
                self.throw(TypeError, 'order')
        a, b = self.refine_num(a), self.refine_num(b)
        if self.intlike(a) and self.intlike(b):
            x, y = self.as_int(a), self.as_int(b)
            return self.sbool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y,
                               'GtE': x >= y}[n])
        ka, kb = self.kind(a), self.kind(b)
        if ka and kb and (ka != kb or ka == 'none'):
            self.throw(TypeError, 'order')
        x, y = self.lift(a), self.lift(b)
        if n == 'Lt':
            return self.sbool(LTO(x, y))
        if n == 'Gt':
            return self.sbool(LTO(y, x))
        raise Unsupported('ordering %r and %r' % (a, b))

    def kind(self, v):
        if isinstance(v, SV):
            c = con(v.e)
            return c if c != 'obj' else None
        return {bool: 'vint', int: 'vint', str: 'vstr', tuple: 'vtup',
                type(None): 'none'}.get(type(v))

    def refine_num(self, v):
        if isinstance(v, SV) and con(v.e) is None:
            return self.refine(v)
        return v

    def intlike(self, v):
        if isinstance(v, SV):
            return con(v.e) in ('vint', 'vbool')
        return isinstance(v, int)

    def contains(self, c, k):
        """k in c, as bool / z3 Bool"""
        if isinstance(c, HDict):
            self.check_hashable(k)
            return self.dict_has(c, k)
        if isinstance(c, HSet):
            self.check_hashable(k)
            if c.known is not None and self._ck(k) and \
                    all(self._ck(x) for x in c.known):
                return any(self.eq(x, k) is True for x in c.known)
            return z3.simplify(z3.Select(c.dom, self.lift(k)))
        if isinstance(c, HList):
            n = c.conc_len()
            if n is not None and n <= 8:
                fs = [self.eqor(self.list_item(c, z3.IntVal(j)), k)
                      for j in range(n)]
                if any(f is True for f in fs):
                    return True
                fs = [f for f in fs if f is not False]
                return z3.Or(*fs) if fs else False
            j = z3.Int('jc')
            ke = self.lift(k)
            return z3.Exists([j], z3.And(
                0 <= j, j < c.n, peq(z3.Select(c.arr, j), ke)))
        if isinstance(c, (tuple, list, set, frozenset)):
            fs = [self.eqor(x, k) for x in c]
            if any(f is True for f in fs):
                return True
            fs = [f for f in fs if f is not False]
            return z3.Or(*fs) if fs else False
        if isinstance(c, HInst):
            f, _ = self.class_lookup(c.cls, '__contains__')
            if f is not MISSING:
                return self.truth(self.call(f, [c, k], {}))
            raise Unsupported('containment in %r' % (c,))
        if isinstance(c, (dict, str, types.MappingProxyType)):
            if is_conc(k):
                try:
                    return k in c
                except TypeError:
                    self.throw(TypeError, 'unhashable')
            if isinstance(c, dict):
                fs = [self.eqor(x, k) for x in c]
                if any(f is True for f in fs):
                    return True
                fs = [f for f in fs if f is not False]
                return z3.Or(*fs) if fs else False
            raise Unsupported('containment in a string')
        if isinstance(c, SV):
            if c.tag is not None and '__contains__' in c.tag.methods:
                return self.truth(c.tag.methods['__contains__'](
                    self, c, [k], {}))
            if con(c.e) == 'vtup':
                j = z3.Int('jc')
                return z3.Exists([j], z3.And(
                    0 <= j, j < c.e.arg(0),
                    peq(z3.Select(c.e.arg(1), j), self.lift(k))))
            if con(c.e) in (None, 'obj'):
                if con(c.e) is None and not self.branch(is_obj(c.e)):
                    raise Unsupported('containment in %r' % (c,))
                return CONTAINS(c.e, self.lift(k))
        raise Unsupported('containment in %r' % (c,))

    def eqor(self, x, k):
        s = self.same(x, k)
        if s is True:
            return True
        return self.eq(x, k)

    def e_BinOp(self, fr, e):
        return self.binop(e.op, self.ev(fr, e.left), self.ev(fr, e.right))

    def binop(self, op, a, b):
        n = type(op).__name__
        if n == 'Mod' and (isinstance(a, str) or (
                isinstance(a, SV) and con(a.e) == 'vstr')):
            return self.format_(a, b)
        if is_conc(a) and is_conc(b):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b,
                        'Mult': lambda: a * b, 'Pow': lambda: a ** b,
                        'Mod': lambda: a % b, 'BitOr': lambda: a | b,
                        'BitAnd': lambda: a & b, 'FloorDiv': lambda: a // b,
                        'Div': lambda: a / b}[n]()
            except (TypeError, ZeroDivisionError, ValueError) as ex:
                self.throw(type(ex), 'operator')
        if isinstance(a, SV) and a.tag is not None and n == 'Add' and \
                '__add__' in a.tag.methods:
            return a.tag.methods['__add__'](self, a, [b], {})
        if isinstance(a, HInst):
            nm = {'Add': '__add__', 'Sub': '__sub__'}.get(n)
            f, _ = self.class_lookup(a.cls, nm) if nm else (MISSING, None)
            if isinstance(f, types.FunctionType):
                return self.call(f, [a, b], {})
        if n == 'Add' and isinstance(a, HList):
            if not isinstance(b, HList):
                if isinstance(b, SV) and con(b.e) in (None, 'obj'):
                    raise Unsupported('list + %r' % (b,))
                self.throw(TypeError, 'can only concatenate list')
            r = self.new(HList(a.n, a.arr))
            r.eltag = a.eltag
            self.list_extend_hl(r, b)
            return r
        if n == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, HSet) or isinstance(b, HSet):
            return self.set_op(n, a, b)
        sa, sb = self.kind(a), self.kind(b)
        if sa == 'vstr' and sb == 'vstr' and n == 'Add':
            return SV(vstr(CONCAT(self.lift(a).arg(0), self.lift(b).arg(0))))
        if n == 'Add' and all(isinstance(x, tuple) or isinstance(
                x, SV) and con(x.e) == 'vtup' for x in (a, b)):
            if a == () or b == ():
                return b if a == () else a
            x, y = self.lift(a), self.lift(b)
            j = z3.Int('jx')
            nx = z3.simplify(V.n(x))
            return SV(vtup(z3.simplify(nx + V.n(y)), z3.Lambda([j], z3.If(
                j < nx, z3.Select(V.items(x), j),
                z3.Select(V.items(y), j - nx)))))
        if self.intlike(a) and self.intlike(b):
            x, y = self.as_int(a), self.as_int(b)
            if n == 'Add':
                return self.sint(x + y)
            if n == 'Sub':
                return self.sint(x - y)
            if n == 'Mult':
                return self.sint(x * y)
        if isinstance(a, SV) and con(a.e) is None:
            a2 = self.refine(a)
            if not (isinstance(a2, SV) and con(a2.e) is None) and \
                    not (isinstance(a2, SV) and a2.e.eq(a.e)):
                return self.binop(op, a2, b)
        if isinstance(b, SV) and con(b.e) is None:
            b2 = self.refine(b)
            if not (isinstance(b2, SV) and b2.e.eq(b.e)):
                return self.binop(op, a, b2)
        raise Unsupported('operator %s on %r and %r' % (n, a, b))

    def list_extend_hl(self, l, b):
        m = b.conc_len()
        if m is not None and m <= 8:
            items = [z3.Select(b.arr, j) for j in range(m)]
            self.mut(l)
            for x in items:
                l.arr = z3.Store(l.arr, l.n, x)
                l.n = z3.simplify(l.n + 1)
            return
        self.mut(l)
        j = z3.Int('jx')
        old, n0, src = l.arr, l.n, b.arr
        l.arr = z3.Lambda([j], z3.If(j < n0, z3.Select(old, j),
                                     z3.Select(src, j - n0)))
        l.n = z3.simplify(n0 + b.n)

    def format_(self, a, b):
        """text formatting: an unknown string, determined by its inputs where
        those are known"""
        if isinstance(a, str):
            n = len(_FIELD.findall(a.replace('%%', '')))
            if isinstance(b, SV):
                # a tuple is taken apart: a value of unknown type may be one
                f = self.inst_formula(b, tuple)
                if f is True or f is not False and self.branch(f):
                    ln = self.fresh('fmtlen', IntS)
                    if self.branch(ln != n):
                        self.throw(TypeError, 'format')
            elif isinstance(b, tuple) and len(b) != n:
                self.throw(TypeError, 'format')
            elif not isinstance(b, (tuple, HDict, HInst, dict)) and n != 1:
                self.throw(TypeError, 'format')
            items = b if isinstance(b, tuple) else (b,)
            if all(type(x) in (str, int) for x in items):
                try:
                    return a % b
                except (TypeError, ValueError) as ex:
                    self.throw(type(ex), 'format')
        return SV(vstr(self.fresh('text', IntS)))

    def e_JoinedStr(self, fr, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(fr, v.value)
        return SV(vstr(self.fresh('text', IntS)))

    def e_NamedExpr(self, fr, e):
        v = self.ev(fr, e.value)
        self.assign(fr, e.target, v)
        return v

    # ----------------------------------------------------- comprehensions
    def comp(self, fr, gens, emit, site):
        sc = self.scope(fr.scope)
        f2 = Frame(sc, fr.globs, fr.closure, fr.name)
        f2.first, f2.on_yield = fr.first, fr.on_yield
        self.comp_gen(fr, f2, gens, 0, emit, site)

    def comp_gen(self, outer, f2, gens, j, emit, site, first=MISSING):
        g = gens[j]
        it = first if first is not MISSING else self.ev(
            outer if j == 0 else f2, g.iter)

        def body(v):
            self.assign(f2, g.target, v)
            for c in g.ifs:
                if not self.test(self.ev(f2, c)):
                    return
            if j + 1 < len(gens):
                self.comp_gen(outer, f2, gens, j + 1, emit, site)
            else:
                emit(f2)
        self.iterate(it, body, site + (j,))

    def e_ListComp(self, fr, e):
        l = self.list_new()
        self.comp(fr, e.generators,
                  lambda f2: self.list_append(l, self.ev(f2, e.elt)),
                  self.site(e))
        return l

    def e_SetComp(self, fr, e):
        st = self.set_from([])
        self.comp(fr, e.generators,
                  lambda f2: self.set_add(st, self.ev(f2, e.elt)),
                  self.site(e))
        return st

    def e_DictComp(self, fr, e):
        d = self.dict_new()
        self.comp(fr, e.generators,
                  lambda f2: self.dict_set(d, self.ev(f2, e.key),
                                           self.ev(f2, e.value)),
                  self.site(e))
        return d

    def e_GeneratorExp(self, fr, e):
        sc = self.scope(fr.scope)
        f2 = Frame(sc, fr.globs, fr.closure, fr.name)
        f2.first, f2.on_yield = fr.first, fr.on_yield
        src = self.ev(fr, e.generators[0].iter)     # evaluated eagerly

        def start(on_value):
            self.comp_gen(fr, f2, e.generators, 0,
                          lambda f3: on_value(self.ev(f3, e.elt)),
                          self.site(e), src)
        return self.new(HGen(start, 'genexpr'))

    def e_Yield(self, fr, e):
        v = None if e.value is None else self.ev(fr, e.value)
        if fr.on_yield is None:
            raise Unsupported('yield outside')
        fr.on_yield(v)
        return None

    def e_YieldFrom(self, fr, e):
        it = self.ev(fr, e.value)
        self.iterate(it, lambda v: fr.on_yield(v), self.site(e))
        return None

    def e_Call(self, fr, e):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                not e.args:
            cell = fr.closure.get('__class__') if fr.closure else None
            if cell is None or fr.first is MISSING:
                raise Unsupported('super()')
            return self.mk_super(cell.cell_contents, fr.first)
        f = self.ev(fr, e.func)
        args = self.elts(fr, e.args)
        kw = {}
        extra = None
        for k in e.keywords:
            if k.arg is not None:
                kw[k.arg] = self.ev(fr, k.value)
            else:
                d = self.ev(fr, k.value)
                if isinstance(d, HDict) and d.known is not None and all(
                        isinstance(x, str) for x, _ in d.known):
                    for x, v in d.known:
                        kw[x] = v
                elif isinstance(d, dict) and is_conc(d):
                    kw.update(d)
                elif isinstance(d, HDict):
                    extra = d
                elif isinstance(d, SV):
                    extra = self.sv_as_dict(d)
                else:
                    raise Unsupported('** of %r' % (d,))
        if extra is not None:
            kw = dict(kw)
            kw[EXTRA] = extra
        return self.call(f, args, kw)

    def sv_as_dict(self, d):
        raise Unsupported('** of an unknown mapping')

    def mk_super(self, start, o):
        if isinstance(o, (type, HClass)):
            cls = o
        else:
            cls = self.type_of(o)
            if isinstance(o, SV) and o.tag is not None and o.tag.real:
                cls = o.tag.real
        p = PSuper(cls, o, start)
        return p

    def conc_seq(self, v):
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, HList):
            n = v.conc_len()
            if n is not None:
                return [self.list_item(v, z3.IntVal(j)) for j in range(n)]
        if isinstance(v, HDict) and v.known is not None:
            return [k for k, _ in v.known]
        if isinstance(v, HSet) and v.known is not None:
            return list(v.known)
        if isinstance(v, SSeq):
            n = z3.simplify(v.n) if not isinstance(v.n, int) else \
                z3.IntVal(v.n)
            if z3.is_int_value(n):
                return [v.fn(z3.IntVal(j)) for j in range(n.as_long())]
        if isinstance(v, SV) and con(v.e) == 'vtup':
            n = z3.simplify(v.e.arg(0))
            if z3.is_int_value(n):
                return [self.unlift(z3.Select(v.e.arg(1), j))
                        for j in range(n.as_long())]
        if self.bounded and isinstance(v, (HList, SSeq, HSet)):
            out = []
            self.iterate(v, out.append, ('conc_seq',))
            return out
        raise Unsupported('* of %r' % (v,))

    # --------------------------------------------------------------- items
    def getitem(self, o, k):
        if isinstance(o, HList):
            if isinstance(k, PSlice):
                return self.list_slice(o, (k.lo, k.hi, k.st))
            k = self.index_arg(k)
            return self.list_item(o, self.norm_index(k, o.n))
        if isinstance(o, HDict):
            return self.dict_get(o, k)
        if isinstance(o, HInst):
            f, _ = self.class_lookup(o.cls, '__getitem__')
            if f is MISSING:
                self.throw(TypeError, 'not subscriptable')
            return self.call(f, [o, self.mk_slice(k)], {})
        if isinstance(o, tuple):
            if isinstance(k, PSlice) and is_conc((k.lo, k.hi, k.st)):
                return o[k.lo:k.hi:k.st]
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    self.throw(IndexError, 'tuple')
            i = self.norm_index(self.index_arg(k), z3.IntVal(len(o)))
            for j in range(len(o)):
                if self.branch(i == j):
                    return o[j]
            raise Infeasible()
        if isinstance(o, SV):
            return self.sv_getitem(o, k)
        if isinstance(o, (dict, list, str)) and not isinstance(k, PSlice) \
                and is_conc(k):
            try:
                return o[k]
            except (KeyError, IndexError, TypeError) as ex:
                self.throw(type(ex), k)
        if isinstance(o, (str, list)) and isinstance(k, PSlice) and \
                is_conc((k.lo, k.hi, k.st)):
            r = o[k.lo:k.hi:k.st]
            return self.list_new(r) if isinstance(r, list) else r
        if isinstance(o, dict):
            for x in list(o):
                r = self.eq(x, k)
                if self.branch(r if isinstance(r, bool) else r):
                    return o[x]
            self.throw(KeyError, k)
        if isinstance(o, HClass) or isinstance(o, type):
            raise Unsupported('subscript of a class')
        if type(o).__module__.startswith('normalize'):
            f, _ = self.class_lookup(type(o), '__getitem__')
            if f is not MISSING:
                return self.call(f, [o, self.mk_slice(k)], {})
        if o is None or isinstance(o, (int, float)):
            self.throw(TypeError, 'not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    def mk_slice(self, k):
        return k

    def index_arg(self, k):
        if isinstance(k, SV):
            k = self.refine(k)
            if isinstance(k, SV) and con(k.e) == 'obj':
                if self.branch(self.fresh('isindex', BoolS)):
                    raise Unsupported('index of unknown kind')
                self.throw(TypeError, 'indices must be integers')
            if isinstance(k, SV) and con(k.e) in ('vint', 'vbool'):
                return k
            if isinstance(k, bool) or isinstance(k, int):
                return k
            self.throw(TypeError, 'indices must be integers')
        if isinstance(k, int):
            return k
        if isinstance(k, PSlice):
            return k
        self.throw(TypeError, 'indices must be integers')

    def sv_getitem(self, o, k):
        if o.tag is not None and '__getitem__' in o.tag.methods:
            return o.tag.methods['__getitem__'](self, o, [k], {})
        c = con(o.e)
        if c is None:
            if self.branch(is_obj(o.e)):
                c = 'obj'
            else:
                r = self.refine(o)
                return self.getitem(r, k)
        if c == 'obj':
            if isinstance(k, PSlice):
                raise Unsupported('slice of an unknown object')
            ke = self.lift(k)
            if not self.branch(HASITEM(o.e, ke)):
                which = self.choose(3)
                self.throw((KeyError, IndexError, TypeError)[which], k)
            return SV(GETITEM(o.e, ke))
        if c == 'vtup':
            if isinstance(k, PSlice):
                l = HList(o.e.arg(0), o.e.arg(1))
                r = self.list_slice(self.new(l), (k.lo, k.hi, k.st))
                return SV(vtup(r.n, r.arr))
            i = self.norm_index(self.index_arg(k), o.e.arg(0))
            return self.unlift(z3.Select(o.e.arg(1), i))
        if c == 'vstr':
            raise Unsupported('subscript of a string')
        self.throw(TypeError, 'not subscriptable')

    def setitem(self, o, k, v):
        if isinstance(o, HList):
            if isinstance(k, PSlice):
                a, b = self.slice_bounds((k.lo, k.hi, k.st), o.n)
                src = self.to_hlist(v)
                return self.list_splice(o, a, b, src)
            i = self.norm_index(self.index_arg(k), o.n)
            self.mut(o)
            o.arr = z3.Store(o.arr, i, self.lift(v))
            return
        if isinstance(o, HDict):
            self.check_hashable(k)
            return self.dict_set(o, k, v)
        if isinstance(o, HInst):
            f, _ = self.class_lookup(o.cls, '__setitem__')
            if f is MISSING:
                self.throw(TypeError, 'no item assignment')
            self.call(f, [o, k, v], {})
            return
        if isinstance(o, SV):
            if o.tag is not None and '__setitem__' in o.tag.methods:
                o.tag.methods['__setitem__'](self, o, [k, v], {})
                return
            return self.effect('setitem', o, k, v)
        raise Unsupported('item assignment to %r' % (o,))

    def delitem(self, o, k):
        if isinstance(o, HList):
            if isinstance(k, PSlice):
                a, b = self.slice_bounds((k.lo, k.hi, k.st), o.n)
                return self.list_splice(o, a, b, self.list_new())
            i = self.norm_index(self.index_arg(k), o.n)
            return self.list_splice(o, i, z3.simplify(i + 1),
                                    self.list_new())
        if isinstance(o, HDict):
            return self.dict_del(o, k)
        if isinstance(o, HInst):
            f, _ = self.class_lookup(o.cls, '__delitem__')
            if f is MISSING:
                self.throw(TypeError, 'no item deletion')
            self.call(f, [o, k], {})
            return
        if isinstance(o, SV):
            return self.effect('delitem', o, k)
        raise Unsupported('item deletion of %r' % (o,))

    def delattr_(self, o, name):
        if isinstance(o, HInst):
            d, _ = self.class_lookup(o.cls, name) if isinstance(
                name, str) else (MISSING, None)
            if d is not MISSING and not isinstance(d, (SV, HObj)):
                f = getattr(type(d), '__delete__', None)
                if isinstance(f, types.FunctionType):
                    self.call(f, [d, o], {})
                    return
            da, _ = self.class_lookup(o.cls, '__delattr__')
            if isinstance(da, types.FunctionType):
                self.call(da, [o, name], {})
                return
            if isinstance(name, str) and name in o.attrs:
                self.mut(o)
                del o.attrs[name]
                return
            if o.sdict is not None:
                if not self.branch(self.dict_has(o.sdict, name)):
                    self.throw(AttributeError, name)
                return self.dict_drop(o.sdict, name)
            self.throw(AttributeError, name)
        if isinstance(o, SV):
            return self.effect('delattr', o, name)
        raise Unsupported('attribute deletion of %r' % (o,))

    # ---------------------------------------------------------------- sets
    def set_from(self, items):
        s = self.new(HSet(z3.K(V, z3.BoolVal(False)), []))
        for x in items:
            self.set_add(s, x)
        return s

    def set_add(self, s, x):
        self.check_hashable(x)
        self.mut(s)
        if s.known is not None:
            if self._ck(x) and all(self._ck(y) for y in s.known):
                if not any(self.eq(x, y) is True for y in s.known):
                    s.known = s.known + [x]
            elif not s.known:
                s.known = [x]
            else:
                s.known = None
        s.dom = z3.Store(s.dom, self.lift(x), z3.BoolVal(True))

    def set_drop(self, s, x):
        self.mut(s)
        if s.known is not None:
            if self._ck(x) and all(self._ck(y) for y in s.known):
                s.known = [y for y in s.known if self.eq(x, y) is not True]
            else:
                s.known = None
        s.dom = z3.Store(s.dom, self.lift(x), z3.BoolVal(False))

    def as_set(self, x):
        if isinstance(x, HSet):
            return x
        if isinstance(x, (set, frozenset)):
            return self.set_from(sorted(x, key=repr))
        if isinstance(x, HDict):
            r = self.new(HSet(x.dom, [k for k, _ in x.known]
                              if x.known is not None else None))
            r.keytag = getattr(x, 'keytag', None)
            return r
        if isinstance(x, SSeq) and getattr(x, 'dom', None) is not None:
            r = self.new(HSet(x.dom, None))
            r.keytag = getattr(x, 'keytag', None)
            return r
        s = self.set_from([])
        self.iterate(x, lambda v: self.set_add(s, v), ('set',))
        return s

    def set_op(self, n, a, b):
        a, b = self.as_set(a), self.as_set(b)
        if a.known is not None and b.known is not None and all(
                self._ck(x) for x in a.known + b.known):
            ina = lambda x: any(self.eq(x, y) is True for y in a.known)  # noqa
            inb = lambda x: any(self.eq(x, y) is True for y in b.known)  # noqa
            return self.set_from(
                [x for x in a.known if not inb(x)] if n == 'Sub' else
                [x for x in a.known if inb(x)] if n == 'BitAnd' else
                a.known + [x for x in b.known if not ina(x)])
        k = z3.Const('ks', V)
        f = {'Sub': z3.And(z3.Select(a.dom, k), z3.Not(z3.Select(b.dom, k))),
             'BitAnd': z3.And(z3.Select(a.dom, k), z3.Select(b.dom, k)),
             'BitOr': z3.Or(z3.Select(a.dom, k), z3.Select(b.dom, k))}.get(n)
        if f is None:
            raise Unsupported('set operator')
        r = self.new(HSet(self.defined_set(k, f), None))
        r.keytag = getattr(a, 'keytag', None)
        return r

    def defined_set(self, k, f):
        """a constant for the set {k | f}"""
        d = self.fresh('set', ArrVB)
        self.assume(z3.ForAll([k], z3.Select(d, k) == f,
                              patterns=[z3.Select(d, k)]))
        return d

    # --------------------------------------------------------------- calls
    def call(self, f, args, kw):
        self.depth += 1
        try:
            if self.depth > MAX_DEPTH:
                raise Unsupported('call depth')
            return self.call0(f, list(args), kw)
        finally:
            self.depth -= 1

    def call0(self, f, args, kw):
        if isinstance(f, Model):
            return f.fn(self, args, kw)
        if isinstance(f, BoundM):
            if isinstance(f.func, tuple) and f.func[0] == 'tagm':
                return f.func[1].methods[f.func[2]](self, f.self_, args, kw)
            if isinstance(f.func, (types.WrapperDescriptorType,
                                   types.MethodDescriptorType,
                                   types.BuiltinFunctionType,
                                   types.ClassMethodDescriptorType)):
                return self.call_slot(f.func, f.self_, args, kw)
            return self.call(f.func, [f.self_] + args, kw)
        if isinstance(f, PyFunc):
            return self.call_py(f, args, kw)
        if isinstance(f, types.FunctionType):
            return self.call_real(f, args, kw)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kw)
        if isinstance(f, (staticmethod, classmethod)):
            return self.call(f.__func__, args, kw)
        if isinstance(f, BuiltinM):
            return self.call_method(f.obj, f.name, args, kw)
        if isinstance(f, HClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, SV):
            return self.call_sv(f, args, kw)
        if isinstance(f, HInst):
            m, _ = self.class_lookup(f.cls, '__call__')
            if m is MISSING:
                self.throw(TypeError, 'not callable')
            return self.call(m, [f] + args, kw)
        if isinstance(f, weakref.ref):
            return f()
        try:
            s = self.sh.summaries.get(f)
        except TypeError:
            s = None
        if s is not None:
            return s(self, args, kw)
        try:
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, args, kw)
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        if isinstance(f, types.BuiltinFunctionType) and \
                getattr(f, '__self__', None) is not None and \
                not isinstance(f.__self__, types.ModuleType):
            o = f.__self__
            if isinstance(o, (dict, set, list)) and not (
                    is_conc(args) and is_conc(kw)) or isinstance(o, dict) \
                    and f.__name__ in ('items', 'keys', 'values', 'get'):
                return self.call_native_method(o, f.__name__, args, kw)
            if isinstance(o, (str, re.Pattern)) and is_conc(args):
                return self.native(f, args, kw)
        if f in PURE and is_conc(args) and is_conc(kw):
            return self.native(f, args, kw)
        if f is None or isinstance(f, (int, str, float, tuple, HList, HDict)):
            self.throw(TypeError, 'not callable')
        raise Unsupported('call of %r' % (f,))

    def native(self, f, args, kw):
        try:
            r = f(*args, **kw)
        except Exception as ex:
            h = self.new(HInst(type(ex), {}))
            h.attrs['args'] = ex.args
            raise PyRaise(h)
        if isinstance(r, list):
            return self.list_new(r)
        return r

    def call_sv(self, f, args, kw):
        if f.tag is not None and f.tag.call is not None:
            return f.tag.call(self, f, args, kw)
        if con(f.e) in SAMPLE:
            self.throw(TypeError, 'not callable')
        return self.opaque('call', f, args, kw)

    def opaque(self, kind, f, args, kw, pure=False):
        """an unknown function: it may raise any exception or return any
        value; the call is recorded in the ghost trace"""
        a = tuple(args) + tuple(kw[k] for k in sorted(kw, key=str)
                                if k is not EXTRA)
        if self.branch(self.fresh('raises', BoolS)):
            ex = SV(self.fresh('exc'))
            self.assume(is_obj(ex.e))
            self.trace.append((kind, f, a, ('raise', ex)))
            raise PyRaise(ex)
        r = SV(self.fresh('ret'))
        # a value from outside is not one of the objects created here
        self.assume(z3.Implies(is_obj(r.e), V.ref(r.e) < 1000000))
        self.trace.append((kind, f, a, ('ok', r)))
        return r

    def call_real(self, f, args, kw):
        s = self.sh.summaries.get(f)
        if s is not None and self.body_of is f:
            self.body_of = s = None
        if s is not None:
            self.sh.functions.setdefault(qual(f), 'contract')
            return s(self, *positional(f, args, kw))
        mod = f.__module__ or ''
        if mod.startswith('contracts') or mod == 'pv' or \
                mod.startswith('pv.'):
            raise Unsupported('call of %s' % f.__qualname__)
        if not mod.startswith('normalize'):
            m = MODELS.get(f)
            if m is not None:
                return m(self, args, kw)
            if f in PURE and is_conc(args) and is_conc(kw):
                return self.native(f, args, kw)
            raise Unsupported('call of %s.%s' % (mod, f.__qualname__))
        if f in self.sh.no_inline:
            raise Unsupported('%s: %s' % (qual(f), self.sh.no_inline[f]))
        self.sh.functions.setdefault(qual(f), 'body')
        node = func_node(f)
        closure = dict(zip(f.__code__.co_freevars, f.__closure__ or ()))
        return self.run_func(node, f.__globals__, closure, None,
                             list(f.__defaults__ or ()),
                             dict(f.__kwdefaults__ or {}), args, kw,
                             f.__name__)

    def call_py(self, f, args, kw):
        return self.run_func(f.node, f.globs, getattr(f, 'closure', None),
                             f.scope, f.defaults, f.kwdefaults, args, kw,
                             f.name)

    def run_func(self, node, globs, closure, parent, defaults, kwdefaults,
                 args, kw, name):
        sc = self.scope(parent)
        loc, gl, is_gen = finfo(node)
        sc.locals = loc
        fr = Frame(sc, globs, closure, name)
        fr.glob_names = gl
        self.bind_args(fr, node.args, defaults, kwdefaults, args, kw, name)
        if args:
            fr.first = args[0]
        if isinstance(node, ast.Lambda):
            return self.ev(fr, node.body)
        if is_gen:
            def start(on_value):
                fr.on_yield = on_value
                try:
                    self.block(fr, node.body)
                except Ret:
                    pass
            return self.new(HGen(start, name))
        try:
            self.block(fr, node.body)
        except Ret as r:
            return r.value
        return None

    def bind_args(self, fr, a, defaults, kwdefaults, args, kw, name):
        kw = dict(kw)
        extra = kw.pop(EXTRA, None)
        params = [x.arg for x in a.posonlyargs + a.args]
        vs = fr.scope.vars
        for p, v in zip(params, args):
            vs[p] = v
        if len(args) > len(params):
            if a.vararg is None:
                self.throw(TypeError, '%s: too many arguments' % name)
            vs[a.vararg.arg] = tuple(args[len(params):])
        elif a.vararg is not None:
            vs[a.vararg.arg] = ()
        dflt = dict(zip(params[len(params) - len(defaults):], defaults))
        dflt.update(kwdefaults)
        names = params[len(a.posonlyargs):] + [x.arg for x in a.kwonlyargs]
        if extra is not None:
            for p in kw:
                if self.branch(self.dict_has(extra, p)):
                    self.throw(TypeError, '%s: multiple values' % name)
        for p in names:
            if p in kw:
                if p in vs:
                    self.throw(TypeError, '%s: multiple values' % name)
                vs[p] = kw.pop(p)
            elif extra is not None and p not in vs:
                if self.branch(self.dict_has(extra, p)):
                    vs[p] = self.dict_val(extra, p)
                    extra = self.dict_copy(extra)
                    self.dict_drop(extra, p)
            elif extra is not None and p in vs and p != 'self':
                if self.branch(self.dict_has(extra, p)):
                    self.throw(TypeError, '%s: multiple values' % name)
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p not in vs:
                if p not in dflt:
                    self.throw(TypeError, '%s: missing %s' % (name, p))
                vs[p] = dflt[p]
        if a.kwarg is not None:
            if extra is None:
                vs[a.kwarg.arg] = self.dict_from_known(list(kw.items()))
            else:
                d = self.dict_copy(extra)
                for k, v in kw.items():
                    self.dict_set(d, k, v)
                vs[a.kwarg.arg] = d
        elif kw:
            self.throw(TypeError, '%s: unexpected keyword' % name)
        elif extra is not None:
            if self.branch(self.truth(extra)):
                self.throw(TypeError, '%s: unexpected keyword' % name)

    def dict_copy(self, d):
        r = self.new(HDict(d.dom, d.val,
                           None if d.known is None else list(d.known),
                           d.factory))
        r.valtag = d.valtag
        r.keytag = getattr(d, 'keytag', None)
        return r

    # -------------------------------------------------------- instantiation
    def instantiate(self, cls, args, kw):
        s = self.sh.summaries.get(cls)
        if s is not None:
            return s(self, args, kw)
        base = cls.base if isinstance(cls, HClass) else cls
        if isinstance(base, type) and issubclass(base, BaseException):
            return self.make_exc(cls, args, kw)
        if base in MODELS:
            return MODELS[base](self, args, kw)
        mod = getattr(base, '__module__', '') or ''
        if base is object and not args and not kw:
            return self.new(HInst(object))
        if not (mod.startswith('normalize') or mod.startswith('contracts')):
            if is_conc(args) and is_conc(kw) and base in PURE:
                return self.native(base, args, kw)
            raise Unsupported('instantiation of %s' % base)
        if isinstance(type(base), type) and type(base) is not type:
            mc, _ = self.class_lookup(type(base), '__call__')
            if isinstance(mc, types.FunctionType):
                return self.call(mc, [cls] + args, kw)
        nw, owner = self.class_lookup(cls, '__new__')
        if isinstance(nw, staticmethod):
            nw = nw.__func__
        if isinstance(nw, (types.FunctionType, PyFunc)):
            o = self.call(nw, [cls] + args, kw)
            if not (isinstance(o, HInst) and o.cls is cls):
                return o
        else:
            o = self.new(HInst(cls))
        init, _ = self.class_lookup(cls, '__init__')
        if isinstance(init, (types.FunctionType, PyFunc)):
            self.call(init, [o] + args, kw)
        elif args or kw:
            self.throw(TypeError, 'no arguments expected')
        return o

    def make_exc(self, cls, args, kw):
        base = cls.base if isinstance(cls, HClass) else cls
        kw = dict(kw)
        extra = kw.pop(EXTRA, None)
        if extra is not None:
            raise Unsupported('exception with unknown arguments')
        msg = getattr(base, 'message', None)
        if isinstance(msg, str) and base.__module__.startswith('normalize'):
            from normalize import exc
            for _, field, _, _ in string.Formatter().parse(msg):
                if field is None:
                    continue
                nm = re.split(r'[.\[]', field)[0]
                if nm == '' or nm.isdigit():
                    if int(nm or 0) >= len(args):
                        self.throw(exc.PositionalExceptionFormatError,
                                   typename=base.__name__)
                elif nm not in kw:
                    self.throw(exc.KeywordExceptionFormatError,
                               typename=base.__name__, missing=nm)
            init = base.__init__
            if init is not exc.StringFormatException.__init__:
                # a further constructor: run for its additional checks
                pass
            e = self.new(HInst(cls, dict(kw)))
            e.attrs['args'] = tuple(args)
            e.attrs['kwargs'] = self.dict_from_known(list(kw.items()))
            e.exc_args = tuple(args)
            return e
        e = self.new(HInst(cls, dict(kw)))
        e.attrs['args'] = tuple(args)
        e.exc_args = tuple(args)
        return e

    # -------------------------------------------------- slots of object etc
    def call_slot(self, d, o, args, kw):
        n = d.__name__
        if n == '__init__':
            return None
        if n == '__setattr__':
            name, v = args
            dd, _ = self.class_lookup(o.cls, name) if isinstance(
                o, HInst) and isinstance(name, str) else (MISSING, None)
            if isinstance(o, HInst):
                if dd is not MISSING and isinstance(
                        getattr(type(dd), '__set__', None),
                        types.FunctionType):
                    return self.call(type(dd).__set__, [dd, o, v], {})
                h = getattr(o, 'desc_hook', None)
                if h is not None:
                    return h('set', name, v)
                self.mut(o)
                if isinstance(name, str) and o.sdict is None:
                    o.attrs[name] = v
                elif o.sdict is not None:
                    self.dict_set(o.sdict, name, v)
                else:
                    raise Unsupported('object.__setattr__')
                return None
        if n == '__delattr__' and isinstance(o, HInst):
            name = args[0]
            h = getattr(o, 'desc_hook', None)
            if h is not None:
                return h('delete', name, None)
            if o.sdict is not None:
                if not self.branch(self.dict_has(o.sdict, name)):
                    self.throw(AttributeError, name)
                return self.dict_drop(o.sdict, name)
        if n == '__hash__':
            return self.py_hash(o)
        if n == '__new__':
            return self.new(HInst(args[0] if args else o))
        if n in ('__eq__',):
            return self.sbool(self.same(o, args[0]))
        if n in ('__repr__', '__str__'):
            return SV(vstr(self.fresh('text', IntS)))
        raise Unsupported('slot %s' % n)

    def py_hash(self, v):
        if isinstance(v, (HList, HDict, HSet)):
            self.throw(TypeError, 'unhashable')
        if isinstance(v, tuple):
            for x in v:
                self.py_hash(x)
        elif isinstance(v, SV):
            r = self.refine(v)
            if isinstance(r, SV) and con(r.e) == 'obj':
                if not self.branch(HASHABLE(r.e)):
                    self.throw(TypeError, 'unhashable')
        return SV(vint(HASHF(self.lift(v))))

    def call_native_method(self, o, name, args, kw):
        """method of a concrete dict/set/list with symbolic arguments"""
        if isinstance(o, dict):
            if name == 'get':
                d = args[1] if len(args) > 1 else None
                for x in list(o):
                    r = self.eq(x, args[0])
                    if self.branch(r):
                        return o[x]
                return d
            if name == 'items':
                return [(k, v) for k, v in o.items()]
            if name == 'keys':
                return list(o.keys())
            if name == 'values':
                return list(o.values())
        raise Unsupported('method %s of a %s' % (name, type(o).__name__))

    def call_method(self, o, name, args, kw):
        t = ('list' if isinstance(o, HList) else 'dict' if isinstance(
            o, HDict) else 'set' if isinstance(o, HSet) else
            'gen' if isinstance(o, (HGen, SSeq)) else
            'tuple' if isinstance(o, tuple) else
            'str' if isinstance(o, str) or (isinstance(o, SV) and con(
                o.e) == 'vstr') else None)
        if t == 'str':
            if is_conc(o) and is_conc(args) and is_conc(kw):
                return self.native(getattr(o, name), args, kw)
            return self.str_method(o, name, args, kw)
        if isinstance(o, SV):
            if name == '__hash__':
                return self.py_hash(o)
            raise Unsupported('method %s of %r' % (name, o))
        m = getattr(self, 'm_%s_%s' % (t, name), None)
        if m is None:
            raise Unsupported('method %s of %s' % (name, t))
        return m(o, *args, **kw)

    def str_method(self, o, name, args, kw):
        if name in ('format', 'join', 'replace', 'upper', 'lower', 'strip',
                    'rstrip', 'lstrip'):
            if name == 'join':
                self.iterate(args[0], lambda v: None, ('join',))
            if name in ('upper', 'lower', 'strip') and not args:
                return SV(vstr(strf(name, IntS, IntS)(self.lift(o).arg(0))))
            return SV(vstr(self.fresh('text', IntS)))
        if name in ('startswith', 'endswith'):
            return SV(vbool(strf(name, IntS, IntS, BoolS)(
                self.lift(o).arg(0), self.lift(args[0]).arg(0))))
        raise Unsupported('method %s of a string' % name)

    # list methods
    def m_list_append(self, l, v):
        self.list_append(l, v)

    def m_list_extend(self, l, it):
        src = self.to_hlist(it) if not isinstance(it, HList) else it
        self.list_extend_hl(l, src)

    def m_list_insert(self, l, i, v):
        a = self.clamp(i, l.n, None)
        self.list_splice(l, a, a, self.list_new([v]))

    def m_list_pop(self, l, i=-1):
        if not self.branch(l.n > 0):
            self.throw(IndexError, 'pop from empty list')
        j = self.norm_index(self.index_arg(i), l.n)
        v = self.list_item(l, j)
        if isinstance(i, int) and i == -1:
            self.mut(l)
            l.n = z3.simplify(l.n - 1)
        else:
            self.list_splice(l, j, z3.simplify(j + 1), self.list_new())
        return v

    def m_list_clear(self, l):
        self.mut(l)
        l.n = z3.IntVal(0)

    def m_list_reverse(self, l):
        self.mut(l)
        j = z3.Int('jr')
        old, n = l.arr, l.n
        c = l.conc_len()
        if c is not None:
            arr = old
            for q in range(c):
                arr = z3.Store(arr, q, z3.Select(old, c - 1 - q))
            l.arr = arr
        else:
            l.arr = z3.Lambda([j], z3.Select(old, n - 1 - j))

    def m_list_copy(self, l):
        return self.to_hlist(l)

    def m_list_count(self, l, v):
        self.trusted('list.count')
        return SV(vint(LCOUNT(l.n, l.arr, self.lift(v))))

    def m_list_sort(self, l, **kw):
        raise Unsupported('list.sort')

    # dict methods
    def m_dict_get(self, d, k, default=None):
        self.check_hashable(k)
        if self.branch(self.dict_has(d, k)):
            return self.dict_val(d, k)
        return default

    def m_dict_items(self, d):
        r = self.dict_items_seq(d)
        return r

    def m_dict_keys(self, d):
        r = self.dict_keys_seq(d)
        if isinstance(r, SSeq):
            r.dom = d.dom
            r.keytag = getattr(d, 'keytag', None)
        return r

    def m_dict_values(self, d):
        it = self.dict_items_seq(d)
        if isinstance(it, list):
            return [v for k, v in it]
        r = SSeq(it.n, lambda i: it.fn(i)[1], 'values')
        if not callable(d.valtag):
            r.eltag = d.valtag
        return r

    def m_dict_pop(self, d, k, *default):
        self.check_hashable(k)
        if self.branch(self.dict_has(d, k)):
            v = self.dict_val(d, k)
            self.dict_drop(d, k)
            return v
        if default:
            return default[0]
        self.throw(KeyError, k)

    def m_dict_popitem(self, d):
        if d.known is not None:
            if not d.known:
                self.throw(KeyError, 'popitem')
            k, v = d.known[-1]
            self.dict_drop(d, k)
            return (k, v)
        if not self.branch(self.truth(d)):
            self.throw(KeyError, 'popitem')
        # the last key in insertion order
        n, K, X = self.enum(d.dom)
        k = self.unlift(K(n - 1))
        v = self.dict_val(d, k)
        self.dict_drop(d, k)
        return (k, v)

    def m_dict_setdefault(self, d, k, v=None):
        if self.branch(self.dict_has(d, k)):
            return self.dict_val(d, k)
        self.dict_set(d, k, v)
        return v

    def m_dict_clear(self, d):
        self.mut(d)
        d.dom = z3.K(V, z3.BoolVal(False))
        d.known = []

    def m_dict_copy(self, d):
        return self.dict_copy(d)

    def m_dict_update(self, d, *args, **kw):
        if d.factory == 'counter':
            raise Unsupported('update of a counter')
        for a in args:
            if isinstance(a, HDict) and a.known is not None:
                for k, v in list(a.known):
                    self.dict_set(d, k, v)
            elif isinstance(a, HDict):
                self.mut(d)
                k = z3.Const('ku', V)
                od, ov = d.dom, d.val
                nd = self.fresh('upd_dom', ArrVB)
                nv = self.fresh('upd_val', ArrVV)
                self.assume(z3.ForAll([k], z3.Select(nd, k) == z3.Or(
                    z3.Select(od, k), z3.Select(a.dom, k)),
                    patterns=[z3.Select(nd, k)]))
                self.assume(z3.ForAll([k], z3.Select(nv, k) == z3.If(
                    z3.Select(a.dom, k), z3.Select(a.val, k),
                    z3.Select(ov, k)), patterns=[z3.Select(nv, k)]))
                d.dom, d.val, d.known = nd, nv, None
            elif isinstance(a, dict):
                for k, v in a.items():
                    self.dict_set(d, k, v)
            else:
                def body(p):
                    k, v = self.unpack(p, 2)
                    self.dict_set(d, k, v)
                self.iterate(a, body, ('dict.update',))
        for k, v in kw.items():
            if k is EXTRA:
                self.m_dict_update(d, v)
            else:
                self.dict_set(d, k, v)

    # set methods
    def m_set_add(self, s, x):
        self.set_add(s, x)

    def m_set_update(self, s, *its):
        for it in its:
            self.iterate(it, lambda v: self.set_add(s, v), ('set.update',))

    def m_set_remove(self, s, x):
        c = self.contains(s, x)
        if not self.branch(c):
            self.throw(KeyError, x)
        self.set_drop(s, x)

    def m_set_discard(self, s, x):
        self.set_drop(s, x)

    def m_set_intersection(self, s, o):
        return self.set_op('BitAnd', s, o)

    def m_set_union(self, s, o):
        return self.set_op('BitOr', s, o)

    def m_set_difference(self, s, o):
        return self.set_op('Sub', s, o)

    def m_set_issubset(self, s, o):
        o = self.as_set(o)
        k = z3.Const('ks', V)
        return self.sbool(z3.ForAll([k], z3.Implies(
            z3.Select(s.dom, k), z3.Select(o.dom, k))))

    def trusted(self, name):
        self.sh.trusted[name] = True

    # unrolled loops in refutation mode
    def sym_loop(self, site, n, item, body):
        if not self.bounded:
            self.cut += 1
            return super().sym_loop(site, n, item, body)
        k = self.choose(self.bounded + 1)
        self.assume(n == k if k else n <= 0)
        if not self.feasible(z3.BoolVal(True)):
            raise Infeasible()
        for j in range(k):
            body(item(z3.IntVal(j)))


class PSlice:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def __repr__(self):
        return 'slice(%r, %r, %r)' % (self.lo, self.hi, self.st)


EXTRA = '**extra**'
HASHF = z3.Function('HASHF', V, IntS)
LCOUNT = z3.Function('LCOUNT', IntS, ArrIV, V, IntS)


def qual(f):
    return '%s.%s' % (f.__module__, f.__qualname__)


# ------------------------------------------------------- models of builtins
MODELS = {}


def model(f):
    def deco(g):
        MODELS[f] = g
        return g
    return deco


@model(isinstance)
def _isinstance(E, args, kw):
    v, T = args
    if isinstance(v, PSlice):
        ts = T if isinstance(T, tuple) else (T,)
        return slice in ts or object in ts
    return E.sbool(E.inst_formula(v, flat(E, T)))


def flat(E, T):
    if isinstance(T, tuple):
        return tuple(flat(E, x) for x in T)
    return T


@model(issubclass)
def _issubclass(E, args, kw):
    c, T = args
    ts = T if isinstance(T, tuple) else (T,)
    fs = []
    for t in ts:
        if isinstance(c, SV):
            if c.tag is not None and c.tag.real is not None and \
                    isinstance(t, type) and isinstance(
                        getattr(c.tag, 'is_class', None), type):
                fs.append(issubclass(c.tag.is_class, t))
            else:
                E.subc_facts(c.e, t)
                fs.append(SUBC(c.e, E.lift(t)))
        elif isinstance(c, HClass):
            fs.append(c is t or (isinstance(t, type) and
                                 issubclass(c.base, t)))
        elif isinstance(c, type) and isinstance(t, type):
            fs.append(issubclass(c, t))
        elif isinstance(c, type):
            fs.append(SUBC(E.lift(c), E.lift(t)))
        else:
            E.throw(TypeError, 'issubclass() arg 1 must be a class')
    if any(f is True for f in fs):
        return True
    fs = [f for f in fs if f is not False]
    return E.sbool(z3.Or(*fs)) if fs else False


def subc_facts(self, e, T):
    key = ('s', e.get_id())
    seen = self.inst_seen.setdefault(key, [e])
    if not isinstance(T, type) or T in seen[1:]:
        return
    for U in seen[1:]:
        for a, b in ((T, U), (U, T)):
            if issubclass(a, b):
                self.assume(z3.Implies(SUBC(e, self.lift(a)),
                                       SUBC(e, self.lift(b))))
        la = [x for x in self.LAYOUT if issubclass(T, x)]
        lb = [x for x in self.LAYOUT if issubclass(U, x)]
        if la and lb and la[0] is not lb[0]:
            self.assume(z3.Not(z3.And(SUBC(e, self.lift(T)),
                                      SUBC(e, self.lift(U)))))
    seen.append(T)


Exec.subc_facts = subc_facts


@model(callable)
def _callable(E, args, kw):
    v = args[0]
    if isinstance(v, SV):
        if v.tag is not None and v.tag.call is not None:
            return True
        if con(v.e) in SAMPLE:
            return False
        return E.sbool(z3.And(is_obj(v.e), CALLABLE(v.e)))
    if isinstance(v, (PyFunc, BoundM, BuiltinM, HClass, Model)):
        return True
    if isinstance(v, HInst):
        return E.class_lookup(v.cls, '__call__')[0] is not MISSING
    if isinstance(v, (HObj, SSeq)):
        return False
    return callable(v)


@model(hasattr)
def _hasattr(E, args, kw):
    return E.sbool(E.hasattr_(args[0], args[1]))


@model(getattr)
def _getattr(E, args, kw):
    o, name = args[:2]
    if isinstance(name, SV):
        return E.getattr_sym(o, name, *args[2:])
    if not isinstance(name, str):
        E.throw(TypeError, 'attribute name must be string')
    return E.getattr_(o, name, *args[2:])


def getattr_sym(self, o, name, default=MISSING):
    if isinstance(o, SV):
        h = o.tag.attrs.get('*') if o.tag is not None else None
        if h is not None:
            try:
                return h(self, o.e, name)
            except PyRaise as r:
                if default is not MISSING and self.exc_matches(
                        r.value, [AttributeError]):
                    return default
                raise
        if not self.branch(HASATTR(o.e, name.e)):
            if default is not MISSING:
                return default
            self.throw(AttributeError, name)
        return SV(GETATTR(o.e, name.e))
    if isinstance(o, HInst) and getattr(o, 'sym_attr', None) is not None:
        try:
            return o.sym_attr(self, o, name)
        except PyRaise as r:
            if default is not MISSING and self.exc_matches(
                    r.value, [AttributeError]):
                return default
            raise
    raise Unsupported('getattr of an unknown name on %r' % (o,))


Exec.getattr_sym = getattr_sym


@model(setattr)
def _setattr(E, args, kw):
    o, name, v = args
    if isinstance(name, SV) and isinstance(o, HInst):
        h = getattr(o, 'sym_setattr', None)
        if h is None:
            raise Unsupported('setattr of an unknown name')
        return h(E, o, name, v)
    if isinstance(o, (type, types.ModuleType)):
        E.trace.append(('setattr', o, (name, v), ('ok', None)))
        return None
    E.setattr_(o, name, v)


@model(delattr)
def _delattr(E, args, kw):
    o, name = args
    E.delattr_(o, name)


@model(type)
def _type(E, args, kw):
    if len(args) == 3:
        name, bases, ns = args
        if isinstance(ns, HDict) and ns.known is not None and \
                len(bases) >= 1 and isinstance(bases[0], (type, HClass)):
            c = E.new(HClass(bases[0], 'type%d' % E.nuid,
                             {k: v for k, v in ns.known}))
            c.bases = bases
            c.overrides['__name__'] = name
            return c
        raise Unsupported('type() with three arguments')
    return E.type_of(args[0])


@model(len)
def _len(E, args, kw):
    v = args[0]
    if isinstance(v, HList):
        return E.sint(v.n)
    if isinstance(v, (HDict, HSet)):
        if v.known is not None:
            return len(v.known)
        n, K, X = E.enum(v.dom)
        return E.sint(n)
    if isinstance(v, SSeq):
        return E.sint(v.n)
    if isinstance(v, HInst):
        f, _ = E.class_lookup(v.cls, '__len__')
        if f is MISSING:
            E.throw(TypeError, 'no len()')
        return E.call(f, [v], {})
    if isinstance(v, SV):
        if v.tag is not None and '__len__' in v.tag.methods:
            return v.tag.methods['__len__'](E, v, [], {})
        c = con(v.e)
        if c is None:
            v = E.refine(v)
            if not isinstance(v, SV):
                return E.call(len, [v], {})
            c = con(v.e)
        if c == 'vtup':
            E.assume(v.e.arg(0) >= 0)
            return E.sint(v.e.arg(0))
        if c == 'vstr':
            n = STRLEN(v.e.arg(0))
            E.assume(n >= 0)
            E.assume((n == 0) == (v.e.arg(0) == 0))
            return E.sint(n)
        if c in ('none', 'vint', 'vbool'):
            E.throw(TypeError, 'no len()')
        if not E.branch(HASATTR(v.e, E.lift('__len__'))):
            E.throw(TypeError, 'no len()')
        n = LEN(v.e)
        E.assume(n >= 0)
        return E.sint(n)
    if is_conc(v) or isinstance(v, (tuple, list, dict)):
        try:
            return len(v)
        except TypeError:
            E.throw(TypeError, 'no len()')
    raise Unsupported('len of %r' % (v,))


@model(list)
def _list(E, args, kw):
    if not args:
        return E.list_new()
    if isinstance(args[0], list):
        return E.list_new(args[0])
    return E.to_hlist(args[0])


@model(tuple)
def _tuple(E, args, kw):
    if not args:
        return ()
    v = args[0]
    if isinstance(v, (tuple, list)):
        return tuple(v)
    if isinstance(v, SV) and con(v.e) == 'vtup':
        return v
    l = v if isinstance(v, HList) else E.to_hlist(v)
    n = l.conc_len()
    if n is not None:
        return tuple(E.list_item(l, z3.IntVal(j)) for j in range(n))
    return SV(vtup(l.n, l.arr))


@model(dict)
def _dict(E, args, kw):
    d = E.dict_new()
    if args:
        if isinstance(args[0], HDict):
            d = E.dict_copy(args[0])
            d.factory = None
        else:
            E.m_dict_update(d, args[0])
    for k, v in kw.items():
        if k is EXTRA:
            E.m_dict_update(d, v)
        else:
            E.dict_set(d, k, v)
    return d


@model(set)
@model(frozenset)
def _set(E, args, kw):
    if not args:
        return E.set_from([])
    s = E.as_set(args[0])
    r = E.new(HSet(s.dom, None if s.known is None else list(s.known)))
    r.keytag = getattr(s, 'keytag', None)
    return r


@model(iter)
def _iter(E, args, kw):
    v = args[0]
    if isinstance(v, (HGen, SSeq)):
        return v
    if isinstance(v, (list, tuple)):
        return E.new(HGen(lambda on: [on(x) for x in v], 'iter'))
    return E.new(HGen(lambda on: E.iterate(v, on, ('iter',)), 'iter'))


@model(all)
def _all(E, args, kw):
    def body(v):
        if not E.test(v):
            raise Brk()
    try:
        E.iterate(args[0], body, ('all',))
    except Brk:
        return False
    return True


@model(any)
def _any(E, args, kw):
    def body(v):
        if E.test(v):
            raise Brk()
    try:
        E.iterate(args[0], body, ('any',))
    except Brk:
        return True
    return False


@model(sum)
def _sum(E, args, kw):
    sc = E.scope()
    sc.vars['sum'] = 0

    def body(v):
        E.set_var(sc, 'sum', E.binop(ast.Add(), sc.vars['sum'], v))
    E.iterate(args[0], body, ('sum',))
    return sc.vars['sum']


@model(range)
def _range(E, args, kw):
    if is_conc(args):
        return range(*args)
    if len(args) == 1:
        a, b = z3.IntVal(0), E.as_int(args[0])
    elif len(args) == 2:
        a, b = E.as_int(args[0]), E.as_int(args[1])
    else:
        raise Unsupported('range step')
    return SSeq(z3.simplify(z3.If(b > a, b - a, z3.IntVal(0))),
                lambda i: E.sint(a + i), 'range')


@model(enumerate)
def _enumerate(E, args, kw):
    v = args[0]
    st = args[1] if len(args) > 1 else kw.get('start', 0)
    sc = E.scope()

    def start(on):
        E.set_var(sc, 'i', st)

        def body(x):
            i = sc.vars['i']
            E.set_var(sc, 'i', E.binop(ast.Add(), i, 1))
            on((i, x))
        E.iterate(v, body, ('enumerate',))
    return E.new(HGen(start, 'enumerate'))


@model(min)
def _min(E, args, kw):
    return _minmax(E, args, kw, True)


@model(max)
def _max(E, args, kw):
    return _minmax(E, args, kw, False)


def _minmax(E, args, kw, lo):
    if len(args) == 1:
        args = E.conc_seq(args[0])
    if all(isinstance(x, int) for x in args) and not kw:
        return min(args) if lo else max(args)
    if kw:
        raise Unsupported('min/max with key')
    r = E.as_int(args[0])
    for x in args[1:]:
        y = E.as_int(x)
        r = z3.If(y < r, y, r) if lo else z3.If(y > r, y, r)
    return E.sint(r)


@model(abs)
def _abs(E, args, kw):
    if is_conc(args):
        return E.native(abs, args, kw)
    i = E.as_int(args[0])
    return E.sint(z3.If(i < 0, -i, i))


@model(str)
def _str(E, args, kw):
    if not args:
        return ''
    v = args[0]
    if isinstance(v, str):
        return v
    if isinstance(v, int):
        return str(v)
    if isinstance(v, SV) and con(v.e) == 'vstr':
        return v
    if isinstance(v, SV) and con(v.e) == 'vint':
        return SV(vstr(strf('str_of_int', IntS, IntS)(v.e.arg(0))))
    return SV(vstr(E.fresh('text', IntS)))


@model(repr)
def _repr(E, args, kw):
    v = args[0]
    if isinstance(v, (str, int)) or v is None:
        return repr(v)
    return SV(vstr(strf('repr', V, IntS)(E.lift(v))))


@model(bool)
def _bool(E, args, kw):
    return E.sbool(E.truth(args[0])) if args else False


@model(hash)
def _hash(E, args, kw):
    v = args[0]
    if isinstance(v, HInst):
        f, _ = E.class_lookup(v.cls, '__hash__')
        if isinstance(f, types.FunctionType):
            return E.call(f, [v], {})
    return E.py_hash(v)


@model(super)
def _super(E, args, kw):
    return E.mk_super(args[0], args[1])


@model(sorted)
def _sorted(E, args, kw):
    v = args[0]
    if isinstance(v, (HDict, HSet)) and v.known is None and not kw:
        n, K, X = E.enum(v.dom)     # an arbitrary order
        kt = getattr(v, 'keytag', None)
        E.trusted('sorted(): returns its input in some order')
        return SSeq(n, lambda i: E.mkkey(K(i), kt), 'sorted')
    if isinstance(v, SSeq) and not kw:
        E.trusted('sorted(): returns its input in some order')
        return v
    if isinstance(v, HList) and v.conc_len() is None:
        # the same items in some order
        E.trusted('sorted(): returns its input in some order')
        p = E.fresh('perm', z3.ArraySort(IntS, IntS))
        u = E.fresh('unperm', z3.ArraySort(IntS, IntS))
        arr = E.fresh('sorted', ArrIV)
        j = z3.Int('jx')
        E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), z3.And(
            0 <= z3.Select(p, j), z3.Select(p, j) < v.n,
            0 <= z3.Select(u, j), z3.Select(u, j) < v.n,
            z3.Select(u, z3.Select(p, j)) == j,
            z3.Select(p, z3.Select(u, j)) == j,
            z3.Select(arr, j) == z3.Select(v.arr, z3.Select(p, j)))),
            patterns=[z3.Select(arr, j), z3.Select(u, j)]))
        l = E.new(HList(v.n, arr))
        l.eltag = getattr(v, 'eltag', None)
        return l
    seq = E.conc_seq(v)
    if not kw and is_conc(seq):
        try:
            return E.list_new(sorted(seq))
        except TypeError:
            E.throw(TypeError, 'order')
    raise Unsupported('sorted')


@model(copymod.deepcopy)
def _deepcopy(E, args, kw):
    E.trusted('copy.deepcopy: gives an equal, independent copy')
    v = args[0]
    if v is None or isinstance(v, (str, int, type)):
        return v
    return SV(strf('deepcopy', V, V)(E.lift(v)))


@model(id)
def _id(E, args, kw):
    return SV(vint(strf('id', V, IntS)(E.lift(args[0]))))


@model(collections.defaultdict)
def _defaultdict(E, args, kw):
    d = E.dict_new()
    d.factory = args[0] if args else None
    return d


@model(collections.Counter)
def _counter(E, args, kw):
    d = E.dict_new()
    d.factory = 'counter'
    return d


@model(zip)
def _zip(E, args, kw):
    def symbolic(a):
        return isinstance(a, SSeq) or (
            isinstance(a, HList) and a.conc_len() is None)
    if any(symbolic(a) for a in args) and all(isinstance(
            a, (SSeq, HList, list, tuple)) for a in args):
        ls = [E.to_hlist(a) if not symbolic(a) else a for a in args]
        n = ls[0].n
        for x in ls[1:]:
            n = z3.If(x.n < n, x.n, n)
        at = [x.fn if isinstance(x, SSeq) else (lambda i, arr=x.arr, t=x.eltag:
              E.unlift(z3.Select(arr, i), t)) for x in ls]
        return SSeq(z3.simplify(n), lambda i: tuple(f(i) for f in at), 'zip')
    seqs = [E.conc_seq(a) for a in args]
    return [tuple(x) for x in zip(*seqs)]


def _warn(E, args, kw):
    return None


import warnings  # noqa
MODELS[warnings.warn] = _warn
import weakref  # noqa


@model(weakref.ref)
def _ref(E, args, kw):
    o = args[0]
    return E.new(HInst(_Ref, {'o': o}))


class _Ref:
    def __call__(self):
        return self.o


MODELS[_Ref.__call__] = lambda E, a, k: a[0].attrs['o']
_Ref.__call__.__module__ = 'x'
