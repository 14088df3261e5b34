"""C03: a value written into a fixed-width record stays in the columns of its field."""
import models
from c18 import chain, with_labels
from meshmodel import mesh
from origin import attempt, build, integer, real
from par import pmap
from roundtrip import Trip, Out, event, judge, place, text
from spec_tough import SPEC, starts
from toughcases import leaves, shapes, omissions
from tx import Size, pcs
from values import K, T

REALS = [Size(neg, 1, exp, huge) for exp in (2, 3) for neg in (False, True) for huge in (False, True)]
WT = "toughio/_io/input/tough"
WM = "toughio/_mesh/tough/_helpers.py"


def positions(line):
    """[(start, end, term)] of the numbers in a line, its length (None: not known), and its literal text."""
    pos, out, lits = 0, [], []
    for p in pcs(line):
        if isinstance(p, K):
            lits.append((pos, p.v))
            pos = None if pos is None else pos + len(p.v)
        else:
            w = p.args[2]
            out.append((pos, None if pos is None or w is None else pos + w, p.args[0]))
            pos = None if pos is None or w is None else pos + w
    return out, pos, lits


def name_of(t):
    if isinstance(t, T) and t.op == "fn" and t.args[0] == "int":
        t = t.args[1]
    return str(t.args[0]) if isinstance(t, T) and t.op == "scalar" and len(t.args) == 1 else None


def fields(name):
    """Columns TOUGH reserves for the parameter (labels of 5 characters), or None."""
    path = name.split(".")
    out = set()
    if path[0] == "generators" and path[-1].isdigit():
        # several generators of one element: one number of the list per record
        out |= fields(".".join(path[:-1]))
    for recs in SPEC.values():
        for r in recs:
            for a, b, k, ps in starts(r):
                for p in ps:
                    if len(p) == len(path) and all(str(x) in ("*", y) for x, y in zip(p, path)):
                        out.add((a, b, k))
    return out


class Case:
    pass


def observe(trip, P, wkw=None):
    """(Out, {(name, occurrence): (start, end)}, [long lines], literal texts) of one writing."""
    I = trip.I
    out = Out()
    lvl = I.begin()
    cols, long_, lits = [], [], []
    if trip.write(P, out, **(wkw or {})):
        for l in I.lines_of("F"):
            hs, n, ls = positions(l)
            lits.append(ls)
            if n is not None and n > 81:
                long_.append((n - 1, [name_of(t) for a, b, t in hs]))
            for a, b, t in hs:
                cols.append((name_of(t), a, b))
    I.rollback(lvl)
    out.functions = set(I.inlined)
    return out, cols, long_, lits


def table(cols):
    out = {}
    for n, a, b in cols:
        if n is not None:
            out.setdefault(n, []).append((a, b))
    return out


def run(rep, tier):
    rep.rule("W1", "every number of every parameter set occupies exactly the columns of its field")
    rep.rule("W2", "a number which needs more columns is written with fewer digits or refused; its record keeps its length and the fields after it their columns")
    rep.rule("W3", "text longer than its field is cut, the fields after it keep their columns")
    rep.rule("W4", "an absent value becomes blanks: nothing is printed for it and the fields after it keep their columns")
    rep.rule("W5", "numbers which fill their fields completely are read back from exactly these columns")
    rep.rule("W6", "numbers of an exported mesh stay in the columns of their fields")
    known(rep, tier)
    filled(rep, tier)
    digits(rep, tier)
    texts(rep, tier)
    absent(rep, tier)
    exported(rep, tier)
    rep.assumptions.append("numbers are represented by classes: sign, digits of an integer, digits of the exponent of a real; the length of formatted text is that of Python's format specification")
    models.analysed(rep)


def where(name):
    return place(tuple(name.split("."))) if name else WT


def settled(rep, rule, case, o):
    """Could the writing be followed?"""
    if o is None:
        rep.unknown(rule, case, "analysis of this case broke")
        return False
    out = o[0]
    if out.opaque:
        rep.unknown(rule, case, "; ".join(out.opaque[:2]))
        return False
    return True


def label_length(P):
    g = P.get("elements") or P.get("generators") or {}
    return max([5] + [len(k) for k in g])


def columns_ok(rep, rule, case, cols, L, base=None):
    """Compare with TOUGH's columns, and with the columns an ordinary number gets."""
    t = table(cols)
    n = 0
    for name, where_ in sorted(t.items()):
        spec = fields(name)
        for a, b in where_:
            if a is None or b is None:
                rep.unknown(rule, case, "columns of {} not known".format(name))
                continue
            near = L > 5 and any(k == "i" for _, _, k in spec) and name.split(".")[0] in ("elements", "connections", "generators")
            if spec and not near:
                n += 1
                if (a, b) not in {(x, y) for x, y, k in spec}:
                    rep.bad(rule, where(name), "{}: {} is written into columns {}-{} instead of {}".format(
                        case, name, a + 1, b, " or ".join("{}-{}".format(x + 1, y) for x, y, k in sorted(spec))), "{}|{}".format(rule, pattern(name)))
                    continue
            if base is not None and name in base and (not spec or near):
                n += 1
                if (a, b) not in base[name]:
                    rep.bad(rule, where(name), "{}: {} is written into columns {}-{} instead of {}".format(
                        case, name, a + 1, b, " or ".join("{}-{}".format(x + 1, y) for x, y in base[name])), "{}|{}".format(rule, pattern(name)))
    rep.ok(rule, case, n=max(1, n))


def pattern(name):
    return ".".join("*" if x.isdigit() or x[:3] in ("AAA", "ROC") else x for x in name.split("."))


def long_lines(rep, rule, case, long_):
    for n, names in long_:
        rep.bad(rule, where(next((x for x in names if x), None)), "{}: a record of {} characters is written ({})".format(
            case, n, ", ".join(x for x in names if x)[:200]), "{}|long|{}".format(rule, pattern(next((x for x in names if x), ""))))


def known(rep, tier):
    trip = Trip()
    cases = [(n, P, w) for n, P, w, r in shapes(trip.M, tier == "thorough")]
    for (n, P, w), o in zip(cases, pmap(lambda c: observe(trip, c[1], c[2]), cases)):
        if not settled(rep, "W1", n, o):
            continue
        rep.count("parameter sets written", 1)
        columns_ok(rep, "W1", n, o[1], label_length(P))
        long_lines(rep, "W1", n, o[2])


def filled(rep, tier):
    """All reals of one class at once, written and read back."""
    trip = Trip()
    I, M = trip.I, trip.M
    sets = [("labels of {} characters".format(L), M.full(L)) for L in ((5, 6, 7, 8, 9) if tier == "thorough" else (5, 9))]
    if tier == "thorough":
        sets += [(n, P) for n, P, w, r in shapes(M) if not w and not r]
    todo = [(n, P, z) for n, P in sets for z in REALS]

    def one(c):
        n, P, z = c
        I.real_size = z
        # the columns of ordinary numbers are those checked under W1
        o = observe(trip, P)
        out, t = trip.trip(P, None, {"label_length": label_length(P)})
        trip.compare(P, t, out)
        return o, out
    for (n, P, z), r in zip(todo, pmap(one, todo)):
        case = "{}, reals {}{}".format(n, z, "" if z.huge else " (small)")
        if r is None:
            rep.unknown("W2", case, "analysis of this case broke")
            continue
        o, out = r
        if not settled(rep, "W2", case, o):
            continue
        if o[0].error:
            if o[0].error[0] != "raise":
                rep.bad("W2", o[0].error[2], "{}: writing fails: {}".format(case, o[0].error[1]), "W2|fails|{}".format(o[0].error[2]))
            else:
                rep.unknown("W2", case, "refused: {}".format(o[0].error[1]))
            continue
        columns_ok(rep, "W2", case, o[1], label_length(P))
        long_lines(rep, "W2", case, o[2])
        for what, w in out.cut[:3]:
            rep.bad("W5", w, "{}: {} is cut when it is read".format(case, what), "W5|cut")
        for what, w in out.fused[:3]:
            rep.bad("W5", w, "{}: the texts of several numbers are read as one: {}".format(case, what), "W5|fused")
        if not out.cut and not out.fused:
            judge(rep, "W5", [(case, out)], write=False)


def digits(rep, tier):
    """Integers which fill their fields, and which do not fit."""
    trip = Trip()
    I, M = trip.I, trip.M
    todo = []
    for L in (5, 6, 7, 8, 9):
        P = M.full(L)
        # generators in tables hold more than one number per field
        o, cols, long_, lits = observe(trip, P)
        base = table(cols)
        terms = {name_of(v): v for k, v in leaves(P) if isinstance(v, T)}
        ints = [n for n in base if n in terms and I.is_int(terms[n])]
        for n in sorted(ints):
            wid = {b - a for a, b in base[n] if a is not None and b is not None}
            if len(wid) != 1:
                continue
            w = wid.pop()
            if L > 5 and n.split(".")[0] not in ("elements", "connections", "generators", "initial_conditions"):
                continue
            for z in (Size(False, w), Size(True, w - 1) if w > 1 else None, Size(False, w + 1), Size(True, w), Size(False, w + 3)):
                if z is not None and z.digits <= 6:
                    todo.append((L, P, n, terms[n], z, base, w))

    def one(c):
        L, P, n, t, z, base, w = c
        I.sizes = {t: z}
        return observe(trip, P)
    for (L, P, n, t, z, base, w), o in zip(todo, pmap(one, todo)):
        case = "labels of {} characters, {} {}".format(L, n, z)
        if not settled(rep, "W2", case, o):
            continue
        fit = z.digits + z.neg <= w
        if o[0].error:
            kind, why, wh = o[0].error
            if fit:
                rep.bad("W2", wh, "{}: a number which fits its field is refused ({})".format(case, why), "W2|refused|{}".format(pattern(n)))
            else:
                rep.ok("W2", case)
            continue
        columns_ok(rep, "W2", case, o[1], L, base)
        long_lines(rep, "W2", case, o[2])
        rep.count("integers of chosen length", 1)


# text parameters and what is written for them
def texts(rep, tier):
    trip = Trip()
    M = trip.M
    P = M.full()
    todo = []

    def put(path, v):
        def f(x, p):
            if not p:
                return v
            if isinstance(x, dict):
                return {k: f(y, p[1:]) if k == p[0] else y for k, y in x.items()}
            return [f(y, p[1:]) if i == int(p[0]) else y for i, y in enumerate(x)]
        return f(P, path)
    base = table(observe(trip, P)[1])
    for path, width in ((("generators", "AAA00", "name"), 5), (("generators", "AAA01", "name"), 5), (("generators", "AAA00", "type"), 4),
                        (("elements", "AAA00", "material"), 5), (("solver", "z_precond"), 2), (("solver", "o_precond"), 2),
                        (("output", "format"), 20)):
        for extra in (0, 1, 3, 30):
            s = "QWERTYUIOPASDFGHJKLZXCVBNMQWERTYUIOPASDFGHJKLZXCVBNM"[:width + extra]
            todo.append((".".join(path), put(path, s), s, width))
    k = "qwertyuiopasdfghjklzxcvbnm"

    def opt(*path):
        return integer(trip.I, ".".join(("output.variables", k) + path))
    for v in (opt(), [opt("0")], [opt("0"), opt("1")], [[opt("0", "0"), opt("0", "1")], [opt("1", "0"), opt("1", "1")]], None):
        todo.append(("output.variables", dict(P, output={"format": "CSV", "variables": {k: v}}), k.upper(), 20))
    for r, of in (("QWERTY", "ROCK2"), ("QWERTYUIOPASDFGH", "ROCK2"), ("QWERTYUIOPASDFGH", "ROCK1")):
        q = dict(P, rocks={r if k == of else k: v for k, v in P["rocks"].items()})
        todo.append(("rocks", q, r, 5))
    for (n, q, s, width), o in zip(todo, pmap(lambda c: observe(trip, c[1]), todo)):
        case = "{} of {} characters".format(n, len(s))
        if not settled(rep, "W3", case, o):
            continue
        if o[0].error:
            if o[0].error[0] == "raise":
                rep.ok("W3", case)
            else:
                rep.bad("W3", o[0].error[2], "{}: writing fails: {}".format(case, o[0].error[1]), "W3|{}".format(n))
            continue
        columns_ok(rep, "W3", case, o[1], 5, base)
        long_lines(rep, "W3", case, o[2])
        lits = [t for l in o[3] for _, t in l]
        rep.check("W3", any(s[:width] in t for t in lits), where(n), "{}: its first {} characters are not written".format(case, width), "W3|lost|{}".format(n))
        if len(s) > width:
            rep.check("W3", not any(s[:width + 1] in t for t in lits), where(n), "{}: more than the {} characters of its field are written".format(case, width),
                      "W3|spill|{}".format(n))


def absent(rep, tier):
    trip = Trip()
    cases = [(n, P, w) for n, P, w, r in omissions(trip.M)]
    bases = {}
    full = trip.M.full()
    base = table(observe(trip, full)[1])
    for (n, P, w), o in zip(cases, pmap(lambda c: observe(trip, c[1], c[2]), cases)):
        if not settled(rep, "W4", n, o) or o[0].error:
            continue
        columns_ok(rep, "W4", n, o[1], label_length(P), base if label_length(P) == 5 else None)
        long_lines(rep, "W4", n, o[2])
        said = [t for l in o[3] for _, t in l if "None" in t or "nan" in t.split()]
        rep.check("W4", not said, WT, "{}: {!r} is written for an absent value".format(n, said[0].strip()[:60] if said else ""), "W4|None")


# ---- mesh export ---------------------------------------------------------------------------

MESH = {"ELEME": [(20, 30), (50, 60), (60, 70), (70, 80)], "COORD": [(0, 20), (20, 40), (40, 60)],
        "CONNE": [(25, 30), (30, 40), (40, 50), (50, 60), (60, 70)], "INCON": [(15, 30), (30, 40), (40, 50), (50, 60)],
        "INCON2": [(0, 20), (20, 40), (40, 60), (60, 80)]}


def exported(rep, tier):
    I = models.text_interp()
    g = chain(3)
    n = len(g.cells)

    def one(c):
        L, nv, z = c
        lvl = I.begin()
        I.real_size = None

        def go(labs):
            m = mesh(I, g.blocks(), len(g.X), field_data=I.new_dict([(K("rock1"), I.nd((2,), [K(1), K(3)]))]))
            d = {"material": I.nd((n,), [K(1)] * n),
                 "initial_condition": I.nd((n, nv), [real("v.%d.%d" % (i, j)) for i in range(n) for j in range(nv)]),
                 "porosity": I.nd((n,), [real("p.%d" % i) for i in range(n)]),
                 "permeability": I.nd((n, 3), [real("k.%d.%d" % (i, j)) for i in range(n) for j in range(3)])}
            I.setattr(m, "cell_data", I.new_dict([(K(k), v) for k, v in d.items()]), None)
            I.real_size = z
            out = Out()
            v, e = attempt(I, I.call, I.getattr(m, "write_tough"), [K("MESH")], {"incon": K(True), "coord": K(True)}, None)
            out.opaque = [str(o)[:200] for o in I.opaque]
            if e is not None:
                out.error = event(e)
            res = []
            for f in ("MESH", "INCON"):
                blk, body = None, 0
                for l in I.lines_of(f) if not e else []:
                    hs, k, ls = positions(l)
                    if ls and ls[0][0] == 0 and "----" in ls[0][1]:
                        blk, body = ls[0][1][:5], 0
                        continue
                    if not hs and not "".join(t for _, t in ls).strip():
                        blk = None
                        continue
                    res.append((blk, [(a, b, isinstance(t, T) and t.op == "scalar" and str(t.args[0])) for a, b, t in hs], k))
            return out, res
        try:
            return with_labels(I, L, n, go)
        finally:
            I.rollback(lvl)
    todo = [(L, nv, z) for L in ((5, 6, 7, 8, 9) if tier == "thorough" else (5, 8)) for nv in (4, 6) for z in REALS if not z.huge]
    todo += [(5, 4, z) for z in REALS if z.huge and not z.neg]
    for (L, nv, z), r in zip(todo, pmap(one, todo)):
        case = "mesh with labels of {} characters, {} primary variables, reals {}".format(L, nv, z)
        if r is None:
            rep.unknown("W6", case, "analysis of this case broke")
            continue
        out, res = r
        if out.opaque:
            rep.unknown("W6", case, "; ".join(out.opaque[:2]))
            continue
        if out.error:
            if out.error[0] == "raise":
                rep.unknown("W6", case, "refused: " + out.error[1])
            else:
                rep.bad("W6", out.error[2], "{}: writing fails: {}".format(case, out.error[1]), "W6|fails")
            continue
        if not res:
            rep.unknown("W6", case, "nothing written")
        k = 0
        for blk, hs, length in res:
            allowed = set(MESH.get(blk, ()))
            if blk == "INCON":
                allowed = set(MESH["INCON2"]) if hs and hs[0][2] and str(hs[0][2]).startswith("v.") else allowed
            for a, b, nm in hs:
                if a is None or b is None:
                    rep.unknown("W6", case, "columns not known")
                    continue
                k += 1
                if (a, b) not in allowed:
                    rep.bad("W6", WM, "{}: a number of block {} is written into columns {}-{}, which is no field of its record".format(
                        case, blk, a + 1, b), "W6|{}".format(blk))
            if length is not None and length > 81:
                rep.bad("W6", WM, "{}: a record of {} characters is written in block {}".format(case, length - 1, blk), "W6|{}".format(blk))
        rep.ok("W6", case, n=max(1, k))
        rep.count("numbers of exported meshes", k)
