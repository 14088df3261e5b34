"""C05: what a caller passes in is left as it was."""
import scen
from models import analysed, text_interp
from par import pmap


def observe(k):
    """(cells guarded, why it stops, what is not followed, [(path, difference, where)], [paths that may differ], functions)"""
    I = text_interp()
    op = scen.prepare(I, k)
    before = scen.reach(I, op.guard)
    n = len(I.effects)
    v, why = op.run(I)
    bad, may = [], []
    for path, old, new in scen.changed(I, before):
        d = scen.certain(I, new, old)
        if d is None:
            may.append(path)
            continue
        id = next(i for i, (p, c) in before.items() if p == path and c is old)
        bad.append((path, d, scen.writer_of(I, id, n)))
    return len(before), why and str(why), [str(o)[:200] for o in I.opaque], bad, may, sorted(I.inlined)


def run(rep, tier):
    rep.rule("V1", "no storage reachable from an argument holds anything else after the call than before it")
    rep.rule("V2", "a mesh asked not to be worked on in place, and the meshes given to writers and converters, are as they were, with every array attached to them")
    names = set()
    S = scen.SCEN + scen.more(tier)
    for (name, where, group, f, opts), r in zip(S, pmap(observe, S)):
        rule = "V2" if name.startswith("Mesh.") or "mesh" in name.split(" ")[0] else "V1"
        if r is None:
            rep.unknown(rule, where, "{}: not followed".format(name))
            continue
        n, why, opaque, bad, may, fns = r
        names.update(fns)
        rep.count("operations")
        rep.count("guarded objects", n)
        for path, d, at in bad:
            if opaque and at is None:
                rep.unknown(rule, where, "{}: {}".format(name, path))
                continue
            rep.bad(rule, at or where, "{} changes {}: {}".format(name, path, d), "{}|{}|{}".format(rule, name, path))
        for path in may:
            if path not in [b[0] for b in bad]:
                rep.unknown(rule, where, "{}: {} may differ".format(name, path))
        if why:
            rep.unknown(rule, where, "{}: stops: {}".format(name, why))
        elif opaque:
            rep.unknown(rule, where, "{}: not followed: {}".format(name, opaque[0]))
        elif not bad and not may:
            rep.ok(rule, "{}: {} objects".format(name, n), n)
    analysed(rep)
    rep.analysed["functions interpreted"] = len(names)
