"""C19: a call leaves nothing behind that later calls can see."""
import scen
from models import analysed, text_interp
from origin import attempt, tree
from par import pmap
from values import DictC, InstC, ListC, NONE


def filled(c):
    if isinstance(c, DictC):
        return bool(c.ent) or c.base is not None or c.loose
    if isinstance(c, ListC):
        return bool(c.segs)
    return True


def files(I):
    return {k: v for k, v in I.heap.items() if isinstance(k, tuple) and k[0] == "fs"}


def observe(s):
    """(cells of the library, why it stops, what is not followed, [(what, where)], [may], functions)"""
    I = text_interp()
    lib = scen.library(I)
    before = scen.reach(I, lib)
    names = scen.names_of(I)
    op = scen.prepare(I, s)
    n = len(I.effects)
    v, why = op.run(I)
    opaque = [str(o)[:200] for o in I.opaque]
    bad, may, kept = [], [], False
    private = {"{}.{}".format(m, k) for m, ns in names.items() for k in ns}
    for id, (path, old) in before.items():
        new = I.read(id)
        if new is old or new == old:
            continue
        d = scen.certain(I, new, old)
        if d is None:
            may.append(path)
            kept = True
        elif filled(old) or path not in private:
            bad.append((path, "{} changes {}: {}".format(s[0], path, d), scen.writer_of(I, id, n)))
        else:
            kept = True
    for m, ns in scen.names_of(I).items():
        for k, x in names.get(m, {}).items():
            y = ns.get(k)
            if y is not x and y != x and x != NONE:
                bad.append((m + "." + k, "{} binds {}.{} to another object".format(s[0], m, k), None))
    if v is not None and not why:
        own = scen.reach(I, [("the result", v)])
        args = scen.reach(I, op.guard) if not op.method else scen.reach(I, op.guard + [("the object", op.fn)])
        after = scen.reach(I, scen.library(I))
        for id, (path, c) in own.items():
            chain = [id]
            while I.up and chain[-1] in I.up:
                chain.append(I.up[chain[-1]][0])
            id = next((i for i in chain if i in after and i not in args), None)
            if id is not None:
                bad.append((after[id][0], "{} of {} is storage the library keeps as {}".format(path, s[0], after[id][0]), None))
    again = None
    if not why and not opaque and not bad:
        again = repeat(s, I, v)
        if again is None and kept:
            again = others(s, I)
    return len(before), why and str(why), opaque, bad, may, sorted(I.inlined), again


def repeat(s, I, v):
    """The same operation on equal arguments a second time: None when it gives the same."""
    a, fa = tree(I, v) if v is not None else None, files(I)
    for k in fa:
        I.heap.pop(k, None)
    op = scen.prepare(I, s)
    w, why = op.run(I)
    if I.opaque:
        return ("unknown", str(I.opaque[0])[:200])
    if why:
        return ("bad", "the second time it stops: {}".format(why))
    b, fb = tree(I, w) if w is not None else None, files(I)
    for k in fa:
        if fb.get(k) != fa[k]:
            return ("bad", "the second time file {} has another content".format(k[1]))
    if isinstance(a, (dict, list, int, float, str)) and repr(a) != repr(b) and "?" not in repr(a) and "#" not in repr(a):
        return ("bad", "the second time the result is another one")
    return None


def others(s, I):
    """Other operations of the same kind after this one, where the library keeps something of its own: None when they give what they give alone."""
    near = [o for o in scen.SCEN if o is not s and o[1] == s[1]][:6] + [o for o in scen.SCEN if o[2] == s[2] and o[1] != s[1]][::5][:8]
    for o in near:
        alone = text_interp()
        op = scen.prepare(alone, o)
        v, why = op.run(alone)
        if why or alone.opaque:
            continue
        for k in files(I):
            I.heap.pop(k, None)
        op = scen.prepare(I, o)
        w, why = op.run(I)
        if I.opaque:
            return ("unknown", str(I.opaque[0])[:200])
        if why:
            return ("bad", "{} after it stops: {}".format(o[0], why))
        fa, fb = files(alone), files(I)
        for k in fa:
            if fb.get(k) != fa[k]:
                return ("bad", "{} after it writes another content".format(o[0]))
        a, b = (tree(J, x) if x is not None else None for J, x in ((alone, v), (I, w)))
        if isinstance(a, (dict, list, int, float, str)) and repr(a) != repr(b) and "?" not in repr(a) and "#" not in repr(a):
            return ("bad", "{} after it gives another result".format(o[0]))
    return None


def run(rep, tier):
    rep.rule("S1", "tables, registries, type maps and default arguments hold the same after an operation as before, and module names stay bound to the same objects")
    rep.rule("S2", "no object handed to the caller is storage the library keeps")
    rep.rule("S3", "an operation on equal arguments gives the same result and the same file the second time")
    names = set()
    S = scen.SCEN + (scen.more(tier) if tier == "thorough" else [])
    for s, r in zip(S, pmap(observe, S)):
        name, where = s[:2]
        if r is None:
            rep.unknown("S1", where, "{}: not followed".format(name))
            continue
        n, why, opaque, bad, may, fns, again = r
        names.update(fns)
        rep.count("operations")
        rep.analysed["objects the library keeps"] = n
        for path, what, at in bad:
            rule = "S2" if "is storage" in what else "S1"
            if opaque and at is None and rule == "S1":
                rep.unknown(rule, where, what)
            else:
                rep.bad(rule, at or where, what, "{}|{}".format(rule, path))
        for path in may:
            rep.unknown("S1", where, "{}: {} may differ".format(name, path))
        if why or opaque:
            rep.unknown("S3", where, "{}: {}".format(name, why or opaque[0]))
        elif not bad:
            rep.ok("S1", "{}: {} objects".format(name, n), n)
            rep.ok("S2", name)
            if again is None:
                rep.ok("S3", name)
            elif again[0] == "unknown":
                rep.unknown("S3", where, "{}: {}".format(name, again[1]))
            else:
                rep.bad("S3", where, "{}: {}".format(name, again[1]), "S3|" + name)
    analysed(rep)
    rep.analysed["functions interpreted"] = len(names)
