#!/usr/bin/env python3
"""Development aid: one.py ID FILE NAME: run a check on one mutation and show everything."""
import os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[2]).read(), ns)
for name, exp, edits in ns["M"]:
    if sys.argv[3] in name:
        d = tempfile.mkdtemp(prefix="mut")
        shutil.copytree("/repo/toughio", d + "/toughio", ignore=shutil.ignore_patterns("__pycache__"))
        for path, old, new in edits:
            p = os.path.join(d, "toughio/" + path)
            s = open(p).read()
            if old not in s:
                print("does not apply", old)
            open(p, "w").write(s.replace(old, new, 1))
        subprocess.run([sys.executable, "/verif/check.py"] + sys.argv[1:2] + sys.argv[4:], env=dict(os.environ, TOUGHIO_REPO=d, VERIF_EVID="/tmp/w/ev", VERIF_DEBUG="1"))
        shutil.rmtree(d)
