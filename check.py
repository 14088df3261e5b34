#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property from /repo's current source."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from report import Report
    from repo import Broken

    rep = Report(pid, tier)
    try:
        importlib.import_module(pid.lower()).run(rep, tier)
    except Broken as e:
        # an anchor the property is about is gone: nothing can be said
        print("{}: cannot be analysed: {}".format(pid, e))
        return 2
    rc = rep.finish()
    if not rc and not any(r["discharged"] for r in rep.rules.values()):
        print("{}: nothing could be decided".format(pid))
    return rc


if __name__ == "__main__":
    import threading

    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def go():
        try:
            rc.append(main())
        except BaseException:
            tb = traceback.format_exc().splitlines()
            print("\n".join(tb[:3] + ["..."] + tb[-12:]))
            rc.append(2)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
