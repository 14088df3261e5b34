"""C02: records follow TOUGH's fixed columns for every label length."""
from ev import strip
from iomodel import compatible, tokens
from models import analysed, interp, reader, writer
from spec_tough import SPEC, label, starts
from values import K

KIND = {"s": "t", "S": "t", "d": "i", "g": "i", "e": "r", "f": "r"}


def p2s(p):
    return ".".join(str(x) for x in p)


def c2s(c):
    return "columns {}-{} ({})".format(c[0] + 1, c[1], {"t": "text", "i": "integer", "r": "real"}.get(c[2], c[2]))


def variants(lay):
    """[(label length or None, [(start, end, kind)])] of a layout."""
    out = []
    for k, s in lay.items():
        try:
            tk = [(a, b, KIND.get(x, x)) for a, b, x, p in tokens(s)]
        except (ValueError, IndexError):
            return None
        k0 = k[0] if isinstance(k, tuple) else k
        out.append((k0, tk, s))
    return out


def fits(tk, spec, nlab):
    """Do the tokens of a 5-character (or label-free) layout follow the record?"""
    st = starts(spec)
    for i, (a, b, k) in enumerate(tk):
        if i >= len(st) or (a, b) != st[i][:2] or (k != st[i][2] and st[i][3]):
            return False
    return True


def label_ok(n, tk, spec, why):
    """Layout for labels of n characters: only the integer fields next to the label may shrink."""
    st = starts(spec)
    m = label(spec)
    if len(tk) != len(st):
        why.append("has {} fields instead of {}".format(len(tk), len(st)))
        return False
    if tk[0][0] != 0 or tk[0][1] != m * n:
        why.append("holds {} characters of label instead of {}".format(tk[0][1], m * n))
        return False
    for (a, b, k), (c, d, kk, p) in zip(tk[1:], st[1:]):
        if k != kk and p:
            why.append("field in columns {}-{} has another kind".format(a + 1, b))
            return False
    if len(tk) == 1:
        return True
    # fields taken from: the run of integer fields (and, for GENER, the code name keeps its width)
    j = 1
    while j < len(st) and (st[j][2] == "i" or st[j][2] == "t" and j + 1 < len(st) and st[j + 1][2] == "i" and j == 1):
        j += 1
    moved = sum(b - a for a, b, k in tk[:j])
    if moved != st[j - 1][1]:
        why.append("field {} starts in column {} instead of {}".format(j + 1, moved + 1, st[j - 1][1] + 1))
        return False
    for i in range(j, len(st)):
        if tk[i][:2] != st[i][:2]:
            why.append("field {} is in columns {}-{} instead of {}-{}".format(i + 1, tk[i][0] + 1, tk[i][1], st[i][0] + 1, st[i][1]))
            return False
    for i in range(1, j):
        w, w5 = tk[i][1] - tk[i][0], st[i][1] - st[i][0]
        if st[i][2] == "t" and w != w5:
            why.append("text field {} has {} characters instead of {}".format(i + 1, w, w5))
            return False
        if w < 1 or i < j - 1 and False:
            why.append("integer field {} has no room".format(i + 1))
            return False
    return True


def run(rep, tier):
    W, R = writer(), reader()
    rep.rule("L1", "every parameter is written in the columns and with the kind of TOUGH's record layout")
    rep.rule("L2", "every record is read with the columns and kinds of a record of its block")
    rep.rule("L3", "layouts for longer labels only shrink the integer fields next to the label; later fields keep their columns")
    rep.rule("L4", "records are at most 80 columns wide")
    rep.rule("L5", "real fields hold all the significant digits of their width")
    rep.rule("L6", "labels of 5 to 9 characters are supported wherever a record starts with one")
    seen = set()
    for blk in W.headers():
        spec = SPEC.get(blk)
        if spec is None:
            if any(o.kind == "rec" and o.layout for o in W.block_of(blk)):
                rep.unknown("L1", blk, "block not in the specification")
            continue
        where_of = {}
        for si, rec in enumerate(spec):
            for fi, f in enumerate(starts(rec)):
                for p in f[3]:
                    where_of.setdefault(p, []).append((si, fi, f))
        for o in W.block_of(blk):
            if o.kind != "rec" or o.blank:
                continue
            if not o.layout:
                rep.unknown("L1", o.where, "layout not resolved")
                continue
            vs = variants(o.layout)
            if vs is None:
                rep.bad("L1", o.where, "block {}: malformed layout {}".format(blk, o.layout), "L1|{}|malformed".format(blk))
                continue
            slots = W.slots(o)
            score = []
            for si, rec in enumerate(spec):
                names = [p for f in rec for p in f[2]]
                n = sum(1 for ps in slots.values() for p, d in ps if not d and any(exact(p, q) for q in names))
                st = starts(rec)
                m = 0
                for k, tk, s in vs:
                    m = max(m, sum(1 for i, ps in slots.items() if i < len(tk) and any(
                        (f[0], f[1]) == tk[i][:2] and exact(p, q) for p, d in ps if not d for f in st for q in f[3])))
                score.append((m, n, -si))
            m, n, si = max(score)
            if n:
                si = -si
            else:
                si = None
            rep.count("writer records")
            for k, tk, s in vs:
                if k == 0 and len(vs) > 1:
                    continue        # continuation layout of the same table
                for i, ps in sorted(slots.items()):
                    nond = {p for p, d in ps if not d}
                    if not nond or i >= len(tk):
                        continue
                    allowed = []
                    for p in nond:
                        for q, l in where_of.items():
                            if exact(p, q):
                                allowed += [x for x in l if si is None or x[0] == si]
                    if not allowed:
                        rep.unknown("L1", o.where, "block {}: '{}' is not in the specification".format(blk, "/".join(map(p2s, nond))))
                        continue
                    if k is not None and k != 5:
                        continue
                    got = tk[i]
                    good = any(got[:2] == f[:2] and got[2] == f[2] for _, _, f in allowed)
                    rep.check("L1", good, o.where if good else o.where, "block {}: '{}' is written in {}, TOUGH expects it in {}".format(
                        blk, "/".join(sorted(map(p2s, nond))), c2s(got), " or ".join(sorted({c2s(f) for _, _, f in allowed}))),
                        "L1|{}|{}|{}".format(blk, "/".join(sorted(map(p2s, nond))), c2s(got)))
            layout_rules(rep, blk, o.where, vs, spec, si, seen)
        for rd, lay, pc, where in R.records:
            if rd.args[0] != K(blk):
                continue
            vs = variants(lay)
            if vs is None:
                rep.bad("L2", where, "block {}: malformed layout {}".format(blk, lay), "L2|{}|malformed".format(blk))
                continue
            rep.count("reader records")
            k, tk, s = next((v for v in vs if v[0] in (None, 5)), vs[0])
            cands = [si for si, rec in enumerate(spec) if fits(tk, rec, label(rec))]
            rep.check("L2", cands, where, "block {}: the record is cut at {}, which is no record of this block".format(
                blk, ", ".join("{}-{}".format(a + 1, b) for a, b, _ in tk)), "L2|{}|{}".format(blk, s))
            layout_rules(rep, blk, where, vs, spec, cands[0] if cands else None, seen)
    analysed(rep)


def layout_rules(rep, blk, where, vs, spec, si, seen):
    for k, tk, s in vs:
        if (blk, k, s) in seen:
            continue
        seen.add((blk, k, s))
        rep.count("layouts")
        end = tk[-1][1]
        rep.check("L4", end <= 80, where, "block {}: layout {} is {} columns wide".format(blk, s, end), "L4|{}|{}".format(blk, k))
        for a, b, x, p in tokens(s):
            if x != "e":
                continue
            w = b - a
            good = p is not None and w - 7 <= p <= w - 6
            rep.check("L5", good, where, "block {}: real field {}.{} in columns {}-{}: a field of {} columns holds {} decimals".format(
                blk, w, p, a + 1, b, w, w - 7), "L5|{}|{}|{}".format(blk, k, a))
    if si is None or not label(spec[si]):
        return
    have = {k: tk for k, tk, s in vs if isinstance(k, int) and k >= 5}
    if not have:
        return
    key = (blk, "labels")
    for n in range(5, 10):
        if (key, n, str(have.get(n))) in seen:
            continue
        seen.add((key, n, str(have.get(n))))
        if n not in have:
            rep.bad("L6", where, "block {}: no layout for labels of {} characters".format(blk, n), "L6|{}|{}".format(blk, n))
            continue
        rep.ok("L6")
        why = []
        good = label_ok(n, have[n], spec[si], why)
        rep.check("L3", good, where, "block {}: the layout for labels of {} characters {}".format(blk, n, "; ".join(why)),
                  "L3|{}|{}".format(blk, n))


def exact(p, q):
    """p (extracted) names the parameter q of the specification; unknown positions match."""
    if len(p) < len(q) and all(x == "*" or isinstance(x, int) for x in q[len(p):]):
        return compatible(p, q) and True
    if len(p) > len(q):
        return all(x == "*" or isinstance(x, int) for x in p[len(q):]) and compatible(p[:len(q)], q)
    return len(p) == len(q) and compatible(p, q)
