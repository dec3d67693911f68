"""Small wrong versions of functions under contract: each is written into a
scratch copy and the contracts named are run against it; at least one
obligation has to fail.  (Sanity of the contracts; no check uses this.)

    python3 tools/mutants.py [part of the description...]
"""
import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from mutantlist import MUTANTS      # noqa


def one(m):
    what, path, old, new, contracts = m
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/normalize', d + '/normalize')
        p = os.path.join(d, 'normalize', path)
        s = open(p).read()
        if s.count(old) < 1:
            return what, 'TEXT NOT FOUND', []
        open(p, 'w').write(s.replace(old, new, 1))
        out = []
        for c in contracts:
            r = subprocess.run(
                ['python3-vt', os.path.join(HERE, 'pv/run.py'), 'ALL',
                 '--only', c, '-v'], env=dict(
                     os.environ, NORMALIZE_REPO=d), text=True,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out += [x.strip() for x in r.stdout.split('\n')
                    if 'FAILED' in x or ' undecided ' in x or 'Error' in x]
        fails = [x for x in out if 'FAILED' in x]
        return what, 'caught' if fails else 'undecided' if out else \
            'MISSED', (fails or out)
    finally:
        shutil.rmtree(d)


def main():
    sel = [m for m in MUTANTS if not sys.argv[1:] or any(
        a in m[0] for a in sys.argv[1:])]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for what, res, out in ex.map(one, sel):
            print('%-10s %s' % (res, what))
            for x in out[:2 if res == 'caught' else 4]:
                print('          ', x[:140])
            sys.stdout.flush()


main()
