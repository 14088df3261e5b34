#!/usr/bin/env python3
"""Development aid: turn planted bug specifications into seeded/<id>/ and confirm them in scratch copies.

seed.py SPEC.py [id...]: SPEC defines S = [dict(id, property, edits=[(path, old, new)], demo=python source,
needs, breaks)].  Writes seeded/<id>/ only if the tests pass with the change, and the demonstration passes
without it and fails with it; says which checks catch it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# run with cwd = the repository
exec env PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg %s "$(dirname "$0")/demo.py"
""" % PY
HEAD = """import os, sys, tempfile, shutil
sys.path.insert(0, os.getcwd())
import numpy as np
import toughio
assert os.path.dirname(os.path.dirname(os.path.abspath(toughio.__file__))) == os.getcwd()
tmp = tempfile.mkdtemp()
os.chdir(tmp)
import atexit
atexit.register(shutil.rmtree, tmp, True)

"""


def tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               PYVISTA_OFF_SCREEN="true", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH="/opt/vp/plugin",
               TMPDIR=d + "/tmp")
    os.makedirs(d + "/tmp")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "stable_ids", "-n", "4", "--dist", "worksteal",
                    "--timeout=60", "--tb=short", "--continue-on-collection-errors", "-o", "junit_family=xunit2",
                    "--junitxml=" + d + "/tmp/junit.xml", "test"], cwd=d + "/r", env=env, capture_output=True)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", d + "/tmp/o.json", "junit:" + d + "/tmp/junit.xml"], capture_output=True)
    o = json.load(open(d + "/tmp/o.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    return [x for x in b["stable"] if x not in o["passed"]]


def one(s):
    d = tempfile.mkdtemp(prefix="seed")
    out = os.path.join(HERE, "seeded", s["id"])
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/r"], check=True)
        t = d + "/out"
        os.makedirs(t)
        open(t + "/demo.py", "w").write(HEAD + s["demo"].lstrip("\n"))
        open(t + "/demo.sh", "w").write(DEMO)
        os.chmod(t + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(t + "/meta.json", "w"), indent=1)
        run = lambda: subprocess.run(["bash", t + "/demo.sh"], cwd=d + "/r", capture_output=True, text=True, timeout=280)
        r0 = run()
        if r0.returncode:
            return s["id"], "DEMO FAILS ON THE UNCHANGED TREE\n" + (r0.stdout + r0.stderr)[-600:]
        for path, old, new in s["edits"]:
            p = d + "/r/toughio/" + path
            src = open(p).read()
            if src.count(old) != 1:
                return s["id"], "EDIT APPLIES {} TIMES: {}".format(src.count(old), old[:80])
            open(p, "w").write(src.replace(old, new))
        diff = subprocess.run(["git", "diff", "--", "toughio"], cwd=d + "/r", capture_output=True, text=True).stdout
        open(t + "/patch.diff", "w").write(diff)
        # lines added by our own commits must not be what the change touches
        note = blame(d + "/r")
        r1 = run()
        if not r1.returncode:
            return s["id"], "DEMO PASSES WITH THE CHANGE"
        missing = tests(d)
        if missing:
            return s["id"], "TESTS FAIL: {}".format(missing[:4])
        r = subprocess.run([sys.executable, HERE + "/check.py", s["property"]], capture_output=True, text=True,
                           env=dict(os.environ, TOUGHIO_REPO=d + "/r", VERIF_EVID=d + "/ev"))
        got = "CAUGHT " + r.stdout.splitlines()[0][:200] if r.returncode == 1 else "missed (rc={}) {}".format(r.returncode, (r.stdout + r.stderr)[-200:])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(t, out)
        return s["id"], note + got + "   demo: " + (r1.stderr.strip().splitlines() or [""])[-1][:120]
    finally:
        shutil.rmtree(d)


def blame(r):
    """Warn when a removed line comes from one of our commits."""
    base = "1b257b4"
    bad = 0
    diff = subprocess.run(["git", "diff", "-U0", "--", "toughio"], cwd=r, capture_output=True, text=True).stdout
    path = None
    import re
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            path = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m and path:
            n = int(m.group(2) or 1)
            if n == 0:
                continue
            a = int(m.group(1))
            b = subprocess.run(["git", "blame", "-l", "-L", "{},{}".format(a, a + n - 1), "HEAD", "--", path], cwd=r,
                               capture_output=True, text=True).stdout
            for bl in b.splitlines():
                h = bl.split()[0].lstrip("^")
                if subprocess.run(["git", "merge-base", "--is-ancestor", h[:39], base], cwd=r, capture_output=True).returncode:
                    bad += 1
    return "[{} lines are ours] ".format(bad) if bad else ""


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    sel = sys.argv[2:]
    ss = [s for s in ns["S"] if not sel or s["id"] in sel]
    with ThreadPoolExecutor(3) as ex:
        for name, r in ex.map(one, ss):
            print("{:24} {}".format(name, r), flush=True)


main()
