#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--replay FILE]

Decides one property of /repo's current tree:

1. the deductive verifier (pv/run.py) discharges the obligations of every
   function under contract for the property, from the current source;
2. the runtime-contract scenarios (rt/run.py) execute the real code on
   generated inputs: a bounded search for failing inputs, and the stand-in for
   the functions which are not under contract.

Writes evidence/PROP.json and, for a violation, replays/PROP-*.json."""
import argparse
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NORMALIZE_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = 'python3-vt'


def known_ids(prop):
    out = {}
    with open(os.path.join(HERE, 'known-findings.txt')) as f:
        for line in f:
            if line.startswith('known: property=%s id=' % prop):
                rest = line.split('id=', 1)[1].strip()
                fid, what = rest.split(' ', 1)
                out[fid] = what
    return out


def start_scenarios(prop, tier, seed, shards, scale, budget):
    env = dict(os.environ, NORMALIZE_REPO=REPO, PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1')
    return [subprocess.Popen(
        [PY, '-W', 'ignore', os.path.join(HERE, 'rt', 'run.py'), prop,
         '--tier', tier, '--seed', str(seed * 1000 + k), '--scale',
         str(scale), '--budget', str(budget)],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True,
        cwd=HERE) for k in range(shards)]


def collect(procs, timeout):
    total = {'evaluations': 0, 'distinct': 0, 'checks': 0, 'violations': [],
             'known': {}, 'samples': [], 'scenarios': {}}
    end = time.time() + timeout
    for p in procs:
        try:
            out, err = p.communicate(timeout=max(1, end - time.time()))
            r = json.loads(out.strip().split('\n')[-1])
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            total['violations'].append({
                'scenario': 'run', 'seed': 0, 'index': 0,
                'what': 'the scenarios did not finish', 'log': []})
            continue
        except Exception as e:
            total['violations'].append({
                'scenario': 'run', 'seed': 0, 'index': 0,
                'what': 'the interpreter running the scenarios died '
                '(exit %s): %s' % (p.returncode, e),
                'log': err.split('\n')[-20:]})
            continue
        for k in ('evaluations', 'distinct', 'checks'):
            total[k] += r[k]
        total['violations'] += r['violations']
        total['known'].update(r['known'])
        total['samples'] += r['samples']
        for k, v in r['scenarios'].items():
            total['scenarios'][k] = total['scenarios'].get(k, 0) + v
    return total


def start_prover(prop, tier):
    path = os.path.join(HERE, 'pv', 'run.py')
    if not os.path.exists(path):
        return None
    env = dict(os.environ, NORMALIZE_REPO=REPO, PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1')
    return subprocess.Popen([VT, '-W', 'ignore', path, prop, '--tier', tier],
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                            env=env, text=True, cwd=HERE)


def collect_prover(p, timeout):
    empty = {'obligations': 0, 'discharged': 0, 'failed': [],
             'undecided': [], 'functions': [], 'trusted': [],
             'solver_s': 0.0, 'backends': {}}
    if p is None:
        return empty
    try:
        out, err = p.communicate(timeout=timeout)
        return dict(empty, **json.loads(out.strip().split('\n')[-1]))
    except Exception as e:
        p.kill()
        try:
            err = p.communicate()[1]
        except Exception:
            err = ''
        empty['undecided'] = ['the verifier did not finish: %s %s' % (
            type(e).__name__, str(err)[-800:])]
        return empty


def write_replay(prop, kind, data):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, kind))
    with open(path, 'w') as f:
        json.dump(data, f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        r = json.load(f)
    print(json.dumps(r, indent=1))
    if r.get('scenario'):
        subprocess.call(
            [PY, '-W', 'ignore', os.path.join(HERE, 'rt', 'run.py'),
             r['property'], '--tier', 'quick', '--seed', str(r['seed']),
             '--only', r['scenario'], '--index', str(r['index'])],
            env=dict(os.environ, PYTHONHASHSEED='0'))
    elif r.get('obligations'):
        subprocess.call([VT, '-W', 'ignore', os.path.join(
            HERE, 'pv', 'run.py'), r['property']])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    manifest = {}
    try:
        with open(os.path.join(HERE, 'MANIFEST.json')) as f:
            manifest = dict((c['property'], c) for c in
                            json.load(f)['checks'])
    except Exception:
        pass
    level = manifest.get(prop, {}).get('level', 'other')
    pv = start_prover(prop, tier)
    if tier == 'quick':
        rt = collect(start_scenarios(prop, 'quick', seed, 6, 10, 22), 240)
    else:
        rt = collect(start_scenarios(prop, 'thorough', seed, 7, 2, 420), 800)
    pr = collect_prover(pv, 400 if tier == 'quick' else 800)
    if pr['failed'] and not rt['violations'] and tier == 'quick':
        # look longer for an input which makes the failed obligation visible
        rt2 = collect(start_scenarios(prop, 'thorough', seed + 7, 7, 1, 60),
                      200)
        rt2['evaluations'] += rt['evaluations']
        rt2['distinct'] += rt['distinct']
        rt2['checks'] += rt['checks']
        rt2['known'].update(rt['known'])
        rt = rt2

    known = known_ids(prop)
    bad = list(rt['violations'])
    for fid, what in sorted(rt['known'].items()):
        if fid in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (
                prop, fid, known[fid]))
        else:
            bad.append({'scenario': None, 'what': 'unlisted finding %s: %s' %
                        (fid, what), 'log': []})
    lines = []
    if bad:
        b = bad[0]
        path = write_replay(prop, 'input', dict(
            b, property=prop, failed_obligations=pr['failed'],
            others=[x['what'] for x in bad[1:6]],
            replay_cmd='python3 check.py --replay <this file>'))
        print('failing case: %s [%s seed=%s index=%s]' % (
            b['what'], b.get('scenario'), b.get('seed'), b.get('index')))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    elif pr['failed']:
        path = write_replay(prop, 'obligation', {
            'property': prop, 'obligations': pr['failed'],
            'note': 'the verifier refutes these obligations on the current '
            'source; no input of the bounded search shows the failure'})
        for o in pr['failed'][:5]:
            print('failed obligation: %s' % o.get('name'))
        lines.append('VIOLATION property=%s replay=%s '
                     'no-failing-input-found' % (prop, path))
    for u in pr['undecided']:
        print('UNDECIDED: %s' % (u if isinstance(u, str) else
                                 json.dumps(u)))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': pr['obligations'], 'discharged': pr['discharged'],
            'checker_cmd': '%s pv/run.py %s' % (VT, prop),
            'trusted_base': pr['trusted'] or ['none'],
            'functions_under_contract': pr['functions'],
            'backends': pr['backends'], 'solver_s': pr['solver_s'],
            'undecided': pr['undecided'],
            'bounded': {
                'what': 'runtime contracts on the real code, bounded by the '
                'number of generated cases; not counted as proved',
                'checks': rt['checks'],
                'distinct_per_scenario': rt['scenarios']},
            'evaluations': rt['evaluations'],
            'distinct_nontrivial': rt['distinct'],
            'rule': 'a case is one call of a scenario with a generator '
            'seeded by (scenario, seed, index); it is non-trivial if it made '
            'at least one check, and distinct if its log of operations and '
            'values differs from all others of its shard',
            'samples': rt['samples'][:6],
            'explanation': pr.get('explanation') or
            'deductive verification of the functions under contract, plus '
            'bounded runtime contracts for the rest of the mechanism',
        },
        'assumptions': pr['trusted'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(bad) + len(pr['failed']),
    }
    for k in ('vacuity', 'rounds', 'paths'):
        if k in pr:
            ev['coverage'][k] = pr[k]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged, %d cases (%d distinct), '
          '%.1f s' % (prop, tier, pr['discharged'], pr['obligations'],
                      rt['evaluations'], rt['distinct'], ev['wall_s']))
    for line in lines:
        print(line)
    sys.stdout.flush()
    sys.exit(1 if lines else 0)


main()
