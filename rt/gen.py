"""Shared generators: property specifications with independent oracles."""
import datetime
import normalize
import normalize.exc as exc
from normalize import Record, Property, subtype

MISSING = type('MISSING', (), {'__repr__': lambda s: 'MISSING'})()


class Err(object):
    def __init__(self, *classes):
        self.classes = classes

    def __repr__(self):
        return 'Err(%s)' % '/'.join(c.__name__ for c in self.classes)


class Inner(Record):
    n = Property(isa=int, required=True)
    s = Property(isa=str)


class Weird(object):
    """plain user type with constructor coercion"""
    def __init__(self, x):
        if not isinstance(x, str):
            raise ValueError('Weird wants a str')
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Weird) and o.x == self.x

    def __hash__(self):
        return hash(self.x)

    def __repr__(self):
        return 'Weird(%r)' % self.x


Even = subtype('Even', of=int, where=lambda x: x % 2 == 0,
               coerce=lambda x: int(x) * 2)
Short = subtype('Short', of=str, where=lambda x: len(x) < 4)


def _tens(x):
    return int(x) * 10


def _noney(x):
    return None if x == 'drop' else int(x)


def _bad(x):
    return [x]


def _falsies(x):
    return [None, '', 0, [], (), {}, False, 0.0][len(repr(x)) % 8]


def _strish(x):
    if isinstance(x, (list, type(None))):
        raise KeyError('nope')
    return str(x)


class Spec(object):
    """isa/coerce/check plus the oracle of what a store does"""
    def __init__(self, name, isa=None, coerce=None, check=None, pool=()):
        self.name, self.isa, self.coerce, self.check = name, isa, coerce, check
        self.pool = pool

    def kwargs(self):
        kw = {}
        if self.isa is not None:
            kw['isa'] = self.isa
        if self.coerce is not None:
            kw['coerce'] = self.coerce
        if self.check is not None:
            kw['check'] = self.check
        return kw

    def conforms(self, v):
        return (self.isa is None or isinstance(v, self.isa)) and (
            self.check is None or bool(self.check(v)))

    def model(self, v, required=False, init=False):
        """what storing v must do: a value, MISSING (silently not set), or
        Err"""
        if v is None and required and self.isa is None:
            return Err(exc.PropertyRequired)
        if self.isa is not None and not isinstance(v, self.isa):
            f = self.coerce or self.isa
            try:
                new = f(v)
            except exc.SubtypeCoerceError as e:
                new = e.coerced
            except Exception:
                return Err(exc.CoerceError)
            if not isinstance(new, self.isa):
                if init and new is None and not required:
                    return MISSING
                if init and new is None and required:
                    return Err(exc.ValueCoercionError, exc.PropertyRequired)
                return Err(exc.ValueCoercionError)
            v = new
        if self.check is not None:
            try:
                ok = self.check(v)
            except Exception as e:
                return Err(type(e))
            if not ok:
                return Err(exc.ValueCheckError)
        return v


COMMON = [None, 0, 1, -3, 7, 8, True, '', 'a', '12', 'drop', 'hello', 2.5,
          [], [1], (), {}, {'n': 1}, {'n': 'x'}, {'n': '4', 's': 'q'}, Weird('w')]

SPECS = [
    Spec('any'),
    Spec('int', isa=int),
    Spec('str', isa=str),
    Spec('float', isa=float),
    Spec('list', isa=list),
    Spec('tens', isa=int, coerce=_tens),
    Spec('pos', isa=int, check=lambda v: v > 0),
    Spec('postens', isa=int, coerce=_tens, check=lambda v: v >= 10),
    Spec('noney', isa=int, coerce=_noney),
    Spec('badco', isa=int, coerce=_bad),
    Spec('falsyint', isa=int, coerce=_falsies),
    Spec('falsystr', isa=str, coerce=_falsies),
    Spec('falsyweird', isa=Weird, coerce=_falsies),
    Spec('falsychk', isa=(int, str), coerce=_falsies, check=lambda v: v == 0),
    Spec('union', isa=(int, str), coerce=_strish),
    Spec('even', isa=Even),
    Spec('short', isa=Short),
    Spec('shortco', isa=Short, coerce=lambda x: str(x)[:3]),
    Spec('weird', isa=Weird),
    Spec('inner', isa=Inner),
    Spec('truthy', check=lambda v: v),
    Spec('lenchk', isa=str, check=lambda v: len(v) % 2),
]
BYNAME = dict((s.name, s) for s in SPECS)


def value(c, spec=None):
    """a value biased towards the interesting ones for the spec"""
    v = c.pick(COMMON + [Inner(n=3), Inner(n=4, s='z')])
    if isinstance(v, (list, dict)):
        v = type(v)(v)
    if c.coin(0.2):
        v = c.int(-5, 25)
    elif c.coin(0.1):
        v = c.pick(['abcd', 'abc', 'zz', '20', '3', '-1'])
    return v


def is_err(m):
    return isinstance(m, Err)


def slots(rec, names):
    """observable state of a record: which slots are set, and to what"""
    out = {}
    for n in names:
        try:
            out[n] = getattr(rec, n)
        except AttributeError:
            pass
    return out


_cls = {}


def cached(key, mk):
    if key not in _cls:
        _cls[key] = mk()
    return _cls[key]
