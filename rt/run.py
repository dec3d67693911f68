"""rt/run.py PROP --tier quick|thorough --seed N [--only scenario --index i]
prints one JSON object"""
import argparse
import importlib
import json
import os
import sys
import time
import resource
sys.dont_write_bytecode = True
resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NORMALIZE_REPO', '/repo')
sys.path[:0] = [REPO, HERE]
import core  # noqa

MODULES = ['s_prop', 's_record', 's_coll', 's_json', 's_selector', 's_diff',
           's_visitor', 's_misc']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--only')
    ap.add_argument('--index', type=int)
    ap.add_argument('--budget', type=float, default=0)
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    out = {'evaluations': 0, 'distinct': 0, 'checks': 0, 'violations': [],
           'known': {}, 'samples': [], 'scenarios': {}}
    try:
        import normalize
        out['normalize'] = normalize.__file__
        for m in MODULES:
            if os.path.exists(os.path.join(HERE, m + '.py')):
                importlib.import_module(m)
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        out['violations'].append({
            'scenario': 'import', 'seed': a.seed, 'index': 0,
            'what': 'declaring the scenario classes failed: %s: %s' % (
                type(e).__name__, core.safe_str(e)), 'log': tb.split('\n')})
        print(json.dumps(out))
        return
    t0 = time.time()
    scs = core.SCENARIOS.get(a.prop, [])
    if a.only:
        scs = [s for s in scs if s[0] == a.only]
    for name, fn, q, t in scs:
        n = int((q if a.tier == 'quick' else t) * a.scale)
        seen = set()
        rng = [a.index] if a.index is not None else range(n)
        st = time.time()
        fails = 0
        for i in rng:
            if a.budget and time.time() - st > a.budget / max(1, len(scs)):
                break
            c, bad = core.run_case(a.prop, name, fn, a.seed, i)
            out['evaluations'] += 1
            out['checks'] += c.checks
            key = hash(tuple(c.log)) if c.log else i
            if c.checks and not c.trivial:
                seen.add(key)
            for fid, what in c.known:
                out['known'].setdefault(fid, what)
            if i == 1 and len(out['samples']) < 6:
                out['samples'].append('%s: %s' % (
                    name, ' ; '.join(c.log)[:600]))
            if bad:
                out['violations'].append({
                    'scenario': name, 'seed': a.seed, 'index': i,
                    'what': bad, 'log': c.log[-60:]})
                fails += 1
                if fails >= 2:
                    break
        out['scenarios'][name] = len(seen)
        out['distinct'] += len(seen)
    out['wall_s'] = time.time() - t0
    print(json.dumps(out))


main()
