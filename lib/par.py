"""Independent pieces of analysis, shared between processes."""
import os
import pickle
import select
import sys
import traceback


def pmap(f, items, n=None):
    """[f(x) for x in items], in forked processes; an item whose analysis breaks gives None."""
    items = list(items)
    n = min(n or int(os.environ.get("VERIF_JOBS", 0)) or os.cpu_count() or 1, len(items)) or 1
    if len(items) < 2:
        return [guarded(f, x) for x in items]
    sys.stdout.flush()
    res = [None] * len(items)
    step = max(1, len(items) // 96)        # a process for every few items, so that memory is given back
    todo = [range(k, min(k + step, len(items))) for k in range(0, len(items), step)][::-1]
    live = {}
    while todo or live:
        while todo and len(live) < n:
            part = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                try:
                    os.close(r)
                    out = [(i, guarded(f, items[i])) for i in part]
                    with os.fdopen(w, "wb") as p:
                        pickle.dump(out, p)
                except BaseException:
                    traceback.print_exc()
                os._exit(0)
            os.close(w)
            live[r] = (pid, [])
        for r in select.select(list(live), [], [])[0]:
            pid, got = live[r]
            data = os.read(r, 1 << 20)
            if data:
                got.append(data)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            if got:
                for i, v in pickle.loads(b"".join(got)):
                    res[i] = v
    return res


def guarded(f, x):
    try:
        return f(x)
    except Exception:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return None
