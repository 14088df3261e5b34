#!/usr/bin/env python3
"""Development aid: apply textual edits to a scratch copy and run checks on it.

mut.py FILE [name...]: FILE defines M = [(name, [expected ids], [(path, old, new), ...]), ...];
expected [] means the checks must stay quiet.  RUN = ids to run for quiet ones.
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m, allids):
    name, exp, edits = m
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/toughio", d + "/toughio", ignore=shutil.ignore_patterns("__pycache__"))
        for path, old, new in edits:
            p = os.path.join(d, path if path.startswith("toughio/") else "toughio/" + path)
            s = open(p).read()
            if old not in s:
                return name, "EDIT DOES NOT APPLY: " + old[:60]
            open(p, "w").write(s.replace(old, new, 1))
        out = []
        for pid in (exp or allids):
            ev = os.path.join(d, "ev")
            r = subprocess.run([sys.executable, HERE + "/check.py", pid], capture_output=True, text=True,
                               env=dict(os.environ, TOUGHIO_REPO=d, VERIF_EVID=ev, VERIF_JOBS=os.environ.get("VERIF_JOBS", "2")))
            want = 1 if exp else 0
            if r.returncode != want:
                out.append("{} {}rc={} {}".format(pid, "MISSED " if exp else "FALSE ALARM ", r.returncode,
                                                  "\n".join((r.stdout + r.stderr).splitlines()[-(4 if exp else 6):])))
            elif exp:
                out.append("{} caught: {}".format(pid, ([l for l in r.stdout.splitlines() if ": toughio" in l] or r.stdout.splitlines())[0][:230]))
        return name, "; ".join(out) or "quiet"
    finally:
        shutil.rmtree(d)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    sel = sys.argv[2:]
    ms = [m for m in ns["M"] if not sel or any(x in m[0] for x in sel)]
    ids = sorted(f[:-3].upper() for f in os.listdir(HERE + "/checks") if f[0] == "c" and f.endswith(".py"))
    with ThreadPoolExecutor(int(os.environ.get("MUT", 4))) as ex:
        for name, r in ex.map(lambda m: one(m, ns.get("RUN") or ids), ms):
            print("{:28} {}".format(name, r))


main()
