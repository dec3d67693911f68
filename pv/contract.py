"""Contracts: registration, exploration of all paths, discharging."""
import collections
import os
import sys
import time
import traceback
import z3
from .terms import *      # noqa
from .values import *     # noqa
from .interp import Shared
from .execute import Exec

CONTRACTS = []
MAX_ROUNDS = 14
MAX_PATHS = 6000


class Contract:
    def __init__(self, props, name, fn, opts):
        self.props, self.name, self.fn, self.opts = props, name, fn, opts


def contract(props, name=None, **opts):
    """register a harness: builds an arbitrary pre-state satisfying the
    precondition, runs the real code symbolically, states the postcondition"""
    if isinstance(props, str):
        props = (props,)

    def deco(fn):
        CONTRACTS.append(Contract(props, name or fn.__name__, fn, opts))
        return fn
    return deco


_vals = {}


def _val(name):
    if name not in _vals:
        e = z3.Const(name, V)
        _vals[name] = e, (
            z3.Implies(is_obj(e), z3.And(V.ref(e) >= 0,
                                         V.ref(e) < 1000000)),
            z3.Implies(is_tup(e), V.n(e) >= 0))
    return _vals[name]


class Verifier(Exec):
    """what harnesses see"""
    def __init__(self, sh, prefix, timeout, bounded=0):
        super().__init__(sh, prefix, timeout)
        self.bounded = bounded
        self.obls = []
        self.covers = []
        self.notes = {}

    # -------- stating obligations
    def prove(self, name, f):
        if isinstance(f, SV):
            f = truth(f.e)
        if f is True:
            f = z3.BoolVal(True)
        elif f is False:
            f = z3.BoolVal(False)
        self.obls.append((name, tuple(self.pc), f, self.cut))

    def cover(self, name):
        self.covers.append((name, tuple(self.pc)))

    # -------- running code
    def run(self, f, *args, **kw):
        """('ok', value) or ('raise', exception)"""
        try:
            return 'ok', self.call(f, list(args), kw)
        except PyRaise as r:
            return 'raise', r.value

    def run_body(self, f, *args, **kw):
        """run the body of a function whose contract its recursive calls
        are checked against"""
        self.body_of = f
        return self.run(f, *args, **kw)

    def drain(self, gen, on=None):
        """run a generator to its end"""
        out = []
        self.iterate(gen, on or out.append, ('drain',))
        return out

    # -------- building states
    def val(self, name='v', tag=None):
        """an arbitrary value from outside"""
        e, fs = _val(name)
        for f in fs:
            self.assume(f)
        return SV(e, tag)

    def ext(self, name='o', tag=None):
        """an arbitrary object (not None, a number, text or a tuple)"""
        v = self.val(name, tag)
        r = z3.Int(name + '_ref')
        self.assume(v.e == obj(r))
        self.assume(z3.And(r >= 0, r < 1000))   # no interned, no new object
        return SV(obj(r), tag)

    def text(self, name='s'):
        return SV(vstr(z3.Int(name)))

    def integer(self, name='n'):
        return SV(vint(z3.Int(name)))

    def flag(self, name):
        return SV(vbool(z3.Bool(name)))

    def some_dict(self, name, keytag=None, valtag=None):
        d = HDict(z3.Const(name + '_dom', ArrVB),
                  z3.Const(name + '_val', ArrVV), None)
        d.keytag, d.valtag = keytag, valtag
        return self.new(d)

    def some_list(self, name, eltag=None):
        l = HList(z3.Int(name + '_n'), z3.Const(name + '_arr', ArrIV))
        self.assume(l.n >= 0)
        l.eltag = eltag
        return self.new(l)

    def case(self, *alts):
        return alts[self.choose(len(alts))]

    def truth_inst(self, v, T):
        f = self.inst_formula(v, T)
        return z3.BoolVal(f) if isinstance(f, bool) else f

    def is_exc(self, e, cls):
        """bool/z3: is the raised thing an instance of cls"""
        return self.inst_formula(e, cls)


def _tainted(pc, f):
    names = set()
    for t in list(pc) + [f]:
        free_consts(t, names, set())
    return any(n.startswith('text') or n.startswith('set') and False
               for n in names)


def _hist(e):
    return e


class Result(dict):
    pass


def discharge(pc, f, timeout, stats):
    """'unsat' (proved) / 'sat' / 'unknown', backend, model"""
    f = z3.simplify(f)
    if z3.is_true(f):
        stats['simplifier'] = stats.get('simplifier', 0) + 1
        return 'unsat', None
    t0 = time.time()
    # by E-matching alone at first: soon done when it does it
    s = z3.SimpleSolver()
    s.set('timeout', min(2000, int(timeout * 1000)))
    s.set('smt.mbqi', False)
    s.set('smt.relevancy', 0)
    s.add(*pc)
    s.add(z3.Not(f))
    r = s.check()
    if r == z3.unknown:
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        s.add(*pc)
        s.add(z3.Not(f))
        r = s.check()
    stats['solver_s'] = stats.get('solver_s', 0.0) + time.time() - t0
    if r == z3.unsat:
        stats['z3'] = stats.get('z3', 0) + 1
        return 'unsat', None
    if r == z3.sat:
        return 'sat', s.model()
    # another configuration, then cvc5
    t0 = time.time()
    s2 = z3.SimpleSolver()
    s2.set('timeout', int(timeout * 1000))
    s2.set('smt.mbqi', False)
    s2.add(*pc)
    s2.add(z3.Not(f))
    r = s2.check()
    stats['solver_s'] += time.time() - t0
    if r == z3.unsat:
        stats['z3'] = stats.get('z3', 0) + 1
        return 'unsat', None
    t0 = time.time()
    r = cvc5_check(s, timeout)
    stats['solver_s'] += time.time() - t0
    if r == 'unsat':
        stats['cvc5'] = stats.get('cvc5', 0) + 1
        return 'unsat', None
    return 'unknown', None


def refute(pc, f, timeout, stats):
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.add(*pc)
    s.add(z3.Not(f))
    r = s.check()
    stats['solver_s'] = stats.get('solver_s', 0.0) + time.time() - t0
    return ('sat', s.model()) if r == z3.sat else (str(r), None)


def cvc5_check(s, timeout):
    import shutil
    import subprocess
    exe = shutil.which('cvc5')
    if not exe:
        return 'unknown'
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run([exe, '--tlimit=%d' % int(timeout * 1000),
                            '--lang=smt2', '-q', '-'], input=txt,
                           capture_output=True, text=True,
                           timeout=timeout + 5)
    except Exception:
        return 'unknown'
    out = p.stdout.strip().split('\n')[0] if p.stdout else ''
    return out if out in ('sat', 'unsat') else 'unknown'


def show_model(m, limit=14):
    if m is None:
        return []
    out = []
    for d in m.decls():
        if d.arity() == 0:
            s = '%s = %s' % (d.name(), m[d])
            if len(s) < 200:
                out.append(s)
    return sorted(out)[:limit]


def shape(t):
    """what tells one template from another; the terms live as long as it"""
    if z3.is_expr(t):
        return t.get_id()
    if isinstance(t, SV):
        return ('v', t.e.get_id(), str(t.tag))
    if isinstance(t, (list, tuple)):
        return tuple(shape(x) for x in t)
    if isinstance(t, dict):
        return tuple(sorted((str(k), shape(v)) for k, v in t.items()))
    return str(t)


def explore(c, sh, timeout, bounded, deadline, stats):
    """all paths of one harness; (obligations, covers, undecided, paths)"""
    undecided = []
    npaths = 0
    for rnd in range(MAX_ROUNDS):
        sh.dirty = False
        sh.queue = [[]]
        obls, covers, undecided = [], [], []
        for info in sh.loops.values():
            info.effects = []
        npaths = 0
        while sh.queue:
            if time.time() > deadline:
                undecided.append('%s: out of time' % c.name)
                return obls, covers, undecided, npaths, rnd + 1
            prefix = sh.queue.pop()
            npaths += 1
            if npaths > MAX_PATHS:
                undecided.append('%s: too many paths' % c.name)
                return obls, covers, undecided, npaths, rnd + 1
            E = Verifier(sh, prefix, timeout, bounded)
            try:
                c.fn(E)
            except (PathEnd, Infeasible):
                pass
            except Unsupported as u:
                undecided.append('%s: %s' % (c.name, u))
            except (PyRaise, Ret, Brk, Cont, Tunnel) as x:
                undecided.append('%s: harness left with %r %s' % (
                    c.name, x, getattr(getattr(x, 'value', None), 'attrs',
                                       '')))
            except (AttributeError, KeyError, TypeError, ValueError,
                    AssertionError, IndexError, z3.Z3Exception) as x:
                tb = traceback.extract_tb(x.__traceback__)[-1]
                if os.environ.get('PV_TRACE'):
                    traceback.print_exc()
                undecided.append('%s: engine: %s %s (%s:%s)' % (
                    c.name, type(x).__name__, x,
                    os.path.basename(tb.filename), tb.lineno))
            except RecursionError:
                undecided.append('%s: recursion' % c.name)
            obls.extend(E.obls)
            covers.extend(E.covers)
        if not sh.dirty and not bounded and sh.templates:
            for key, info in sorted(sh.loops.items()):
                t = E.make_template(info)
                st = shape(t)
                if t and st != getattr(info, 'tmpl_str', None) and \
                        info.tmpl_version < 3:
                    info.template, info.tmpl_str = t, st
                    info.tmpl_version += 1
                    sh.dirty = True
        if os.environ.get('PV_DEBUG'):
            print('  round', rnd, 'paths', npaths, 'dirty', sh.dirty,
                  'obls', len(obls), 'und', len(undecided),
                  file=sys.stderr)
        if not sh.dirty:
            break
    else:
        undecided.append('%s: invariants do not stabilise' % c.name)
    return obls, covers, undecided, npaths, rnd + 1


def verify(c, tier='quick', limit=None):
    t0 = time.time()
    timeout = c.opts.get('timeout', 6 if tier == 'quick' else 30)
    limit = limit or c.opts.get('limit', 120 if tier == 'quick' else 500)
    deadline = t0 + limit
    stats = {'solver_s': 0.0}
    sh = Shared()
    obls, covers, undecided, npaths, rounds = explore(
        c, sh, timeout, 0, deadline, stats)
    res = Result(name=c.name, vcs=0, discharged=0, failed=[],
                 undecided=sorted(set(undecided)), paths=npaths,
                 rounds=rounds, functions={}, trusted=[], names={},
                 covers={})
    seen = set()
    groups = collections.OrderedDict()
    for name, pc, f, cut in obls:
        k = (name, tuple(p.get_id() for p in pc), f.get_id())
        if k in seen:
            continue
        seen.add(k)
        groups.setdefault(name, []).append((pc, f, cut))
    suspicious = []
    for name, vcs in groups.items():
        n = ok = 0
        bad = 0
        for pc, f, cut in vcs:
            n += 1
            if time.time() > deadline + 60:
                res['undecided'].append('%s/%s: out of time' % (
                    c.name, name))
                break
            r, m = discharge(pc, f, timeout, stats)
            if r == 'unsat':
                ok += 1
                continue
            bad += 1
            if r == 'sat' and not cut and not _tainted(pc, f):
                res['failed'].append({
                    'name': '%s/%s' % (c.name, name), 'model': show_model(m),
                    'formula': str(z3.simplify(f))[:600]})
                break
            suspicious.append((name, r, cut, show_model(m)))
            if bad >= 3:
                break
        res['vcs'] += n
        res['discharged'] += ok
        res['names'][name] = [n, ok]
    failed = set(x['name'] for x in res['failed'])
    sus = collections.OrderedDict()
    for s in suspicious:
        if '%s/%s' % (c.name, s[0]) not in failed:
            sus.setdefault(s[0], s)
    if sus:
        # refutation with loops unrolled
        sh2 = Shared()
        o2, _, u2, _, _ = explore(c, sh2, timeout, 2, time.time() + 60,
                                  stats)
        until = time.time() + 60
        for name, pc, f, cut in o2:
            if name not in sus:
                continue
            if _tainted(pc, f):
                continue
            if time.time() > until:
                break
            r, m = refute(pc, f, min(timeout, 4), stats)
            if r == 'sat':
                res['failed'].append({
                    'name': '%s/%s' % (c.name, name),
                    'model': show_model(m), 'unrolled': 2,
                    'formula': str(z3.simplify(f))[:600]})
                del sus[name]
                if not sus:
                    break
    for name, s in sus.items():
        res['undecided'].append('%s/%s: %s%s' % (
            c.name, name, s[1], ' (not confirmed with loops unrolled)'
            if s[1] == 'sat' else ''))
    # covers: some path reaching each must be satisfiable
    cv = {}
    for name, pc in covers:
        if cv.get(name):
            continue
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*pc)
        cv[name] = s.check() != z3.unsat
    res['covers'] = cv
    for name, ok in cv.items():
        if not ok:
            res['undecided'].append('%s: cover %s is unreachable' % (
                c.name, name))
    for nm in c.opts.get('covers', ()):
        if nm not in cv:
            res['undecided'].append('%s: cover %s never reached' % (
                c.name, nm))
    res['functions'] = dict(sh.functions)
    res['trusted'] = sorted(sh.trusted)
    res['backends'] = {k: v for k, v in stats.items() if k != 'solver_s'}
    res['solver_s'] = round(stats['solver_s'] + sh.solver_s, 2)
    res['queries'] = sh.queries
    res['wall'] = round(time.time() - t0, 2)
    return res
