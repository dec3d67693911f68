"""run.py PROP [--tier quick|thorough] [--only NAME]: verify the contracts of
one property (or ALL) against the current source; prints one JSON line."""
import argparse
import concurrent.futures
import glob
import importlib
import json
import multiprocessing
import os
import sys
import time
import warnings

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('NORMALIZE_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(1, ROOT)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)


def load():
    for f in sorted(glob.glob(os.path.join(ROOT, 'contracts', 'c_*.py'))):
        importlib.import_module(
            'contracts.' + os.path.basename(f)[:-3])
    from pv.contract import CONTRACTS
    return CONTRACTS


def work(arg):
    name, tier = arg
    import threading
    from pv.contract import CONTRACTS, verify
    c = [x for x in CONTRACTS if x.name == name][0]
    out = []
    threading.stack_size(512 * 1024 * 1024)

    def go():
        try:
            out.append(dict(verify(c, tier)))
        except Exception as e:
            import traceback
            out.append({'name': name, 'vcs': 0, 'discharged': 0,
                        'failed': [], 'undecided': ['%s: %s: %s' % (
                            name, type(e).__name__, e)], 'paths': 0,
                        'rounds': 0, 'functions': {}, 'trusted': [],
                        'names': {}, 'covers': {}, 'backends': {},
                        'solver_s': 0, 'wall': 0,
                        'tb': traceback.format_exc()})
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    total = {'obligations': 0, 'discharged': 0, 'failed': [],
             'undecided': [], 'functions': [], 'trusted': [],
             'solver_s': 0.0, 'backends': {}, 'vacuity': {}, 'rounds': {},
             'paths': 0, 'contracts': {}}
    try:
        cs = [c for c in load() if a.prop == 'ALL' or a.prop in c.props]
    except Exception as e:
        import traceback
        total['undecided'].append('the contracts do not load: %s %s' % (
            type(e).__name__, e))
        if a.v:
            traceback.print_exc()
        cs = []
    if a.only:
        cs = [c for c in cs if a.only in c.name]
    funcs, trusted = {}, set()
    rs = []
    if len(cs) == 1 or a.jobs == 1:
        rs = [work((c.name, a.tier)) for c in cs]
    elif cs:
        ctx = multiprocessing.get_context('fork')
        with concurrent.futures.ProcessPoolExecutor(
                min(a.jobs, len(cs)), mp_context=ctx,
                max_tasks_per_child=None) as ex:
            rs = list(ex.map(work, [(c.name, a.tier) for c in cs]))
    for r in rs:
        total['obligations'] += r['vcs']
        total['discharged'] += r['discharged']
        total['failed'] += r['failed']
        total['undecided'] += r['undecided']
        total['solver_s'] += r['solver_s']
        total['paths'] += r['paths']
        total['rounds'][r['name']] = r['rounds']
        total['contracts'][r['name']] = r['names']
        total['vacuity'].update(('%s/%s' % (r['name'], k), v)
                                for k, v in r['covers'].items())
        for k, v in r['backends'].items():
            total['backends'][k] = total['backends'].get(k, 0) + v
        for k, v in r['functions'].items():
            funcs.setdefault(k, set()).add(v)
        trusted.update(r['trusted'])
        for c in cs:
            if c.name == r['name']:
                trusted.update(c.opts.get('assumes', ()))
        if a.v:
            print('%-40s vcs %d/%d paths %d rounds %d %.1fs (solver %.1f)' % (
                r['name'], r['discharged'], r['vcs'], r['paths'],
                r['rounds'], r['wall'], r['solver_s']))
            for u in r['undecided']:
                print('     undecided', u)
            for f in r['failed']:
                print('     FAILED', f['name'], f.get('model'),
                      f.get('formula'))
            if r.get('tb'):
                print(r['tb'])
    total['functions'] = sorted('%s (%s)' % (k, '/'.join(sorted(v)))
                                for k, v in funcs.items())
    total['trusted'] = sorted(trusted)
    total['solver_s'] = round(total['solver_s'], 2)
    total['wall_s'] = round(time.time() - t0, 2)
    if a.v:
        print('undecided', len(total['undecided']), 'failed',
              len(total['failed']), 'wall', total['wall_s'])
    else:
        print(json.dumps(total))


main()
