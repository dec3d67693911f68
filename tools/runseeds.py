"""Applies each seeded change to /repo in turn, runs the check of its property
and undoes it. Prints what the check said.

    python3 tools/runseeds.py [id...]
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
missed = []
for id in ids:
    d = os.path.join(HERE, "seeded", id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    assert not subprocess.check_output(
        ["git", "-C", "/repo", "status", "--porcelain"])
    subprocess.check_call(
        ["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
    t = time.time()
    try:
        r = subprocess.run(
            ["python3", "check.py", prop], cwd=HERE, text=True,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
    ob = [x for x in r.stdout.split("\n") if "FAILED" in x]
    print("%-28s %s rc=%d %.0fs %s" % (
        id, prop, r.returncode, time.time() - t,
        (v[0][:110] if v else "MISSED")))
    for x in ob[:4]:
        print("      ", x[:150])
    sys.stdout.flush()
    if not v:
        missed.append(id)
print("missed", missed)
