"""The logic: one z3 sort V for every Python value, and the observation
functions the engine uses for values it does not own."""
import z3

z3.set_param('smt.random_seed', 0)

_V = z3.Datatype('V')
_V.declare('none')
_V.declare('vbool', ('b', z3.BoolSort()))
_V.declare('vint', ('i', z3.IntSort()))
_V.declare('vstr', ('s', z3.IntSort()))          # interned / abstract strings
_V.declare('vtup', ('n', z3.IntSort()),
           ('items', z3.ArraySort(z3.IntSort(), z3.DatatypeSort('V'))))
_V.declare('obj', ('ref', z3.IntSort()))
V = _V.create()
IntS, BoolS = z3.IntSort(), z3.BoolSort()
ArrIV = z3.ArraySort(IntS, V)
ArrVV = z3.ArraySort(V, V)
ArrVB = z3.ArraySort(V, BoolS)

none = V.none
vbool, vint, vstr, vtup, obj = V.vbool, V.vint, V.vstr, V.vtup, V.obj

# observations of opaque values (assumed pure and stable during one call)
INST = z3.Function('INST', V, V, BoolS)          # isinstance(v, T)
SUBC = z3.Function('SUBC', V, V, BoolS)          # issubclass(c, T)
EQ = z3.Function('EQ', V, V, BoolS)              # a == b
TRUTHO = z3.Function('TRUTHO', V, BoolS)         # bool(o)
HASATTR = z3.Function('HASATTR', V, V, BoolS)
GETATTR = z3.Function('GETATTR', V, V, V)
HASITEM = z3.Function('HASITEM', V, V, BoolS)    # o[k] succeeds
GETITEM = z3.Function('GETITEM', V, V, V)
CONTAINS = z3.Function('CONTAINS', V, V, BoolS)  # k in o
LEN = z3.Function('LEN', V, IntS)
ITEM = z3.Function('ITEM', V, IntS, V)           # i-th item of iter(o)
TYPE = z3.Function('TYPE', V, V)
CALLABLE = z3.Function('CALLABLE', V, BoolS)
HASHABLE = z3.Function('HASHABLE', V, BoolS)
LTO = z3.Function('LT', V, V, BoolS)
CONCAT = z3.Function('CONCAT', IntS, IntS, IntS)
STRLEN = z3.Function('STRLEN', IntS, IntS)
STRF = {}


def strf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in STRF:
        STRF[key] = z3.Function('STR_' + name, *sorts)
    return STRF[key]


def is_none(e): return V.is_none(e)
def is_bool(e): return V.is_vbool(e)
def is_int(e): return V.is_vint(e)
def is_str(e): return V.is_vstr(e)
def is_tup(e): return V.is_vtup(e)
def is_obj(e): return V.is_obj(e)


def con(e):
    """name of the head constructor of a V term, or None"""
    if z3.is_app(e):
        n = e.decl().name()
        if n in ('none', 'vbool', 'vint', 'vstr', 'vtup', 'obj') and \
                e.sort() == V:
            return n
    return None


def num(e):
    return z3.If(is_int(e), V.i(e), z3.If(V.b(e), z3.IntVal(1), z3.IntVal(0)))


def peq(a, b):
    """Python ==, with reflexivity of == assumed for opaque values"""
    ca, cb = con(a), con(b)
    if a.eq(b):
        return z3.BoolVal(True)
    if ca in ('none', 'vstr', 'vint') and cb == ca:
        return a == b
    prim = ('none', 'vstr', 'vint', 'vbool')
    if ca in prim and cb in prim:
        if ca in ('vint', 'vbool') and cb in ('vint', 'vbool'):
            return num(a) == num(b)
        return z3.BoolVal(False)
    numeric = z3.And(z3.Or(is_int(a), is_bool(a)), z3.Or(is_int(b), is_bool(b)))
    opaque = z3.Or(is_obj(a), is_obj(b), is_tup(a), is_tup(b))
    return z3.Or(a == b, z3.And(numeric, num(a) == num(b)),
                 z3.And(opaque, EQ(a, b)))


_truth = {}


def truth(e):
    k = e.get_id()
    r = _truth.get(k)
    if r is None:
        if len(_truth) > 20000:
            _truth.clear()
        r = _truth[k] = (e, truth0(e))      # keeps e alive: ids are reused
    return r[1]


_simp = {}


def simp(e):
    k = e.get_id()
    r = _simp.get(k)
    if r is None:
        if len(_simp) > 50000:
            _simp.clear()
        r = _simp[k] = (e, z3.simplify(e))
    return r[1]


def truth0(e):
    c = con(e)
    if c == 'none':
        return z3.BoolVal(False)
    if c == 'vbool':
        return e.arg(0)
    if c == 'vint':
        return e.arg(0) != 0
    if c == 'vstr':
        return e.arg(0) != 0
    if c == 'vtup':
        return e.arg(0) != 0
    if c == 'obj':
        return TRUTHO(e)
    return z3.If(is_none(e), z3.BoolVal(False),
                 z3.If(is_bool(e), V.b(e),
                       z3.If(is_int(e), V.i(e) != 0,
                             z3.If(is_str(e), V.s(e) != 0,
                                   z3.If(is_tup(e), V.n(e) != 0, TRUTHO(e))))))


# string interning: "" is 0
_STR = {"": 0}
_STRREV = {0: ""}


def strid(s):
    if s not in _STR:
        _STR[s] = len(_STR)
        _STRREV[_STR[s]] = s
    return _STR[s]


def strval(i):
    return _STRREV.get(i)


def free_consts(e, acc=None, seen=None):
    """uninterpreted constants (arity 0) of a term"""
    if acc is None:
        acc, seen = set(), set()
    stack = [e]
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_app(t):
            if t.num_args() == 0:
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc.add(t.decl().name())
            else:
                stack.extend(t.children())
        elif z3.is_quantifier(t):
            stack.append(t.body())
    return acc
