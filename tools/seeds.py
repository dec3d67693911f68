"""Generates /verif/seeded/<id>/ from the table below, and confirms each in a
scratch copy of /repo: the patch applies, the stable tests pass, the demo exits
0 without the patch and nonzero with it.

    python3 tools/seeds.py [id...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           TZ="UTC")

SEEDS = {}


def seed(id, prop, file, old, new, needs, breaks, demo):
    assert id not in SEEDS, id
    edits = file if isinstance(file, list) else [(file, old, new)]
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks,
                     demo=demo)


exec(open(os.path.join(HERE, "tools", "seedlist.py")).read())


def run(cmd, cwd):
    return subprocess.run(
        cmd, cwd=cwd, env=dict(ENV, PYTHONPATH=cwd),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)


def original_lines():
    """lines which the fix commits added, per file: a patch may not touch
    them"""
    base = subprocess.check_output(
        ["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"],
        text=True).split()[0]
    return base


def make(id):
    s = SEEDS[id]
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="seed")
    try:
        wt = os.path.join(scratch, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", wt])
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(s["demo"].strip("\n") + "\n")
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\n'
                    'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 '
                    'PYTHONHASHSEED=0\n'
                    'exec /opt/venv/bin/python -W ignore '
                    '"$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["prop"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        demo = ["bash", os.path.join(d, "demo.sh")]
        r = run(demo, wt)
        if r.returncode:
            return "demo fails on the unchanged tree: " + \
                r.stdout.decode()[-600:]
        for file, old, new in s["edits"]:
            path = os.path.join(wt, "normalize", file)
            text = open(path).read()
            if text.count(old) != 1:
                return "%d matches in %s" % (text.count(old), file)
            open(path, "w").write(text.replace(old, new))
        diff = subprocess.check_output(["git", "-C", wt, "diff"])
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        # lines removed by the patch must be lines of the first commit
        fixed = subprocess.check_output(
            ["git", "-C", "/repo", "diff", "-U0", "d0216b0", "HEAD"],
            text=True)
        added = set(x[1:].strip() for x in fixed.split("\n")
                    if x.startswith("+") and not x.startswith("+++"))
        mine = [x[1:].strip() for x in diff.decode().split("\n")
                if x.startswith("-") and not x.startswith("---")]
        bad = [x for x in mine if x in added and len(x) > 12]
        warn = " (touches fix lines: %r)" % bad if bad else ""
        r = run(demo, wt)
        if not r.returncode:
            return "demo passes with the patch"
        out = os.path.join(scratch, "o.xml")
        r2 = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                  "--timeout=300", "--continue-on-collection-errors", "-o",
                  "junit_family=xunit2", "--junitxml=" + out], wt)
        o = os.path.join(scratch, "o.json")
        subprocess.check_call(["/usr/bin/python3", "/opt/vp/results.py", o,
                               "junit:" + out], stdout=subprocess.DEVNULL)
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        got = json.load(open(o))["passed"]
        missing = set(base) - set(got)
        if missing:
            return "tests fail: %s" % sorted(missing)[:3]
        return "ok" + warn + " | " + r.stdout.decode().strip().split(
            "\n")[-1][:100]
    finally:
        shutil.rmtree(scratch)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(SEEDS)
    for id in ids:
        res = make(id)
        print(id, res)
        if not res.startswith("ok"):
            shutil.rmtree(os.path.join(HERE, "seeded", id))
