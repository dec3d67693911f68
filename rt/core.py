"""Runtime-contract scenarios: bounded, seeded executions of the real code of
/repo against independent oracles.  One call of a scenario function is one
case; its random choices come from a generator seeded by (property, scenario,
seed, index), so a failing case is replayed by those four values."""
import random
import signal
import sys
import traceback
import warnings

warnings.simplefilter('ignore')
SCENARIOS = {}      # property -> [(name, fn, quick, thorough)]


def scenario(prop, quick=200, thorough=4000):
    def deco(fn):
        for p in (prop if isinstance(prop, tuple) else (prop,)):
            SCENARIOS.setdefault(p, []).append(
                (fn.__name__, fn, quick, thorough))
        return fn
    return deco


class Violation(Exception):
    pass


class Known(Exception):
    """the case reproduces a listed known finding"""
    def __init__(self, fid, what):
        self.fid, self.what = fid, what


class Case:
    def __init__(self, prop, name, seed, index):
        self.prop, self.name, self.seed, self.index = prop, name, seed, index
        self.rng = random.Random('%s/%s/%s' % (name, seed, index))
        self.log = []
        self.trivial = False
        self.checks = 0
        self.known = []

    # -- logging / checking
    def note(self, *a):
        self.log.append(' '.join(x if isinstance(x, str) else srepr(x)
                                 for x in a))

    def check(self, cond, *msg):
        self.checks += 1
        if not cond:
            raise Violation(' '.join(
                x if isinstance(x, str) else srepr(x) for x in msg))

    def eq(self, got, want, *what):
        self.checks += 1
        if not same(got, want):
            raise Violation('%s: got %s, want %s' % (
                ' '.join(x if isinstance(x, str) else srepr(x)
                         for x in what), srepr(got), srepr(want)))

    def raises(self, exc, fn, *what):
        self.checks += 1
        try:
            r = fn()
        except exc as e:
            return e
        except Exception as e:
            raise Violation('%s: raised %s (%s), expected %s' % (
                ' '.join(map(str, what)), type(e).__name__, safe_str(e), exc))
        raise Violation('%s: returned %s, expected %s' % (
            ' '.join(map(str, what)), srepr(r), exc))

    # -- random helpers
    def pick(self, seq):
        return self.rng.choice(list(seq))

    def coin(self, p=0.5):
        return self.rng.random() < p

    def int(self, a, b):
        return self.rng.randint(a, b)

    def sample(self, seq, k):
        return self.rng.sample(list(seq), k)

    def outcome(self, fn):
        """('ok', value) or ('err', exception)"""
        try:
            return ('ok', fn())
        except Exception as e:
            return ('err', e)


def safe_str(e):
    try:
        return str(e)[:200]
    except Exception:
        return '?'


def srepr(x):
    try:
        r = repr(x)
    except Exception as e:
        r = '<%s: repr raised %s>' % (type(x).__name__, type(e).__name__)
    return r if len(r) < 400 else r[:400] + '...'


def same(a, b):
    """equality that also distinguishes types of scalars"""
    if type(a) in (int, float, bool, str) or type(b) in (
            int, float, bool, str):
        return type(a) is type(b) and (a == b or a != a)
    if type(a) in (list, tuple) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is dict and type(b) is dict:
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


CASE_SECONDS = 30       # cases take milliseconds


class TooLong(BaseException):
    pass


def _too_long(*a):
    raise TooLong()


signal.signal(signal.SIGALRM, _too_long)


def run_case(prop, name, fn, seed, index):
    c = Case(prop, name, seed, index)
    try:
        signal.alarm(CASE_SECONDS)
        try:
            fn(c)
        finally:
            signal.alarm(0)
    except TooLong:
        return c, 'did not finish within %d s' % CASE_SECONDS
    except Known as k:
        c.known.append((k.fid, k.what))
        return c, None
    except Violation as v:
        return c, str(v)
    except RecursionError as e:
        return c, 'unexpected RecursionError'
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        return c, 'unexpected %s: %s (at %s:%s)' % (
            type(e).__name__, safe_str(e), tb.filename.split('/')[-1],
            tb.lineno)
    return c, None
