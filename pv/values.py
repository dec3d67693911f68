"""Run-time values of the symbolic interpreter."""
import z3
from .terms import *      # noqa


class Unsupported(Exception):
    """a construct outside the verifier's reach: the obligation is undecided"""


class PathEnd(Exception):
    pass


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, value):
        self.value = value


class Ret(Exception):
    def __init__(self, value):
        self.value = value


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Tunnel(Exception):
    """control flow leaving a generator's consumer: not visible to the
    generator's own try/except"""
    def __init__(self, inner):
        self.inner = inner


class SV:
    """symbolic value; `tag` optionally declares what is known about it"""
    __slots__ = ('e', 'tag')

    def __init__(self, e, tag=None):
        self.e = e
        self.tag = tag

    def __repr__(self):
        return 'SV(%s%s)' % (self.e, ':%s' % self.tag if self.tag else '')


class Tag:
    """declared knowledge about an opaque value.
    real: the Python class it is an instance of (or None)
    attrs: name -> function(eng, term) -> value
    methods: name -> function(eng, sv, args, kw) -> value (abstract contract)
    """
    def __init__(self, name, real=None, attrs=None, methods=None,
                 strict=False, call=None, sticky=False):
        self.name, self.real = name, real
        self.attrs, self.methods = attrs or {}, methods or {}
        self.strict = strict     # no other attributes
        self.call = call
        self.sticky = sticky     # loop variables holding one keep the tag

    def __repr__(self):
        return self.name


class HObj:
    uid = 0
    birth = 0


class HInst(HObj):
    def __init__(self, cls, attrs=None, sdict=None):
        self.cls = cls           # real class or HClass
        self.attrs = attrs if attrs is not None else {}
        self.sdict = sdict       # HDict: the symbolic part of __dict__

    def __repr__(self):
        return '<HInst %s #%d>' % (
            getattr(self.cls, '__name__', self.cls), self.uid)


class HClass(HObj):
    """an arbitrary subclass of a real class"""
    def __init__(self, base, name, overrides=None):
        self.base, self.name = base, name
        self.overrides = overrides or {}

    def __repr__(self):
        return '<HClass %s(%s)>' % (self.name, self.base.__name__)


class HList(HObj):
    def __init__(self, n, arr, wrap=None):
        self.n, self.arr = n, arr
        self.eltag = None
        self.ghost = False       # a log: only the invariants given for it

    @staticmethod
    def of(items, lift):
        arr = z3.K(IntS, none)
        for j, x in enumerate(items):
            arr = z3.Store(arr, j, lift(x))
        return HList(z3.IntVal(len(items)), arr)

    def conc_len(self):
        n = z3.simplify(self.n)
        return n.as_long() if z3.is_int_value(n) else None

    def __repr__(self):
        return '<HList n=%s #%d>' % (self.n, self.uid)


class HDict(HObj):
    """keys: concrete python list of key values when the dict was built by
    literal/known insertions only, else None"""
    def __init__(self, dom, val, known=None, factory=None):
        self.dom, self.val = dom, val
        self.known = known       # list of (key value, value) or None
        self.factory = factory   # defaultdict/Counter default
        self.valtag = None

    def __repr__(self):
        return '<HDict #%d>' % self.uid


class HSet(HObj):
    def __init__(self, dom, known=None):
        self.dom = dom
        self.known = known


class SSeq:
    """a finite sequence known by length and element function"""
    def __init__(self, n, fn, note=''):
        self.n, self.fn, self.note = n, fn, note


class HGen(HObj):
    """a suspended generator: start(on_value) runs it"""
    def __init__(self, start, note=''):
        self.start = start
        self.used = False
        self.note = note


class PyFunc(HObj):
    """a closure created during symbolic execution"""
    def __init__(self, node, scope, globs, defaults, kwdefaults, name):
        self.node, self.scope, self.globs = node, scope, globs
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name


class BoundM:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class BuiltinM:
    """method of a modelled builtin object"""
    def __init__(self, obj_, name):
        self.obj, self.name = obj_, name


class PSuper:
    def __init__(self, cls, obj_, start):
        self.cls, self.obj, self.start = cls, obj_, start


class Poison:
    def __repr__(self):
        return '<unset or stale loop variable>'


POISON = Poison()
MISSING = object()


class Scope:
    def __init__(self, parent, uid, birth):
        self.vars = {}
        self.parent = parent
        self.uid, self.birth = uid, birth
        self.locals = None
        self.nonlocals = ()
