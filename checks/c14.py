"""C14: each result column is stored under the name that heads it."""
from models import analysed, text_interp
from origin import Arr, Unknown, attempt, build, ranked, real, tree
from par import pmap
from tx import hole
from values import K, Ref

LABELS = ["AAA00", "AAA 1", "BBB 2", "CCC 9"]
PAIRS = [("AAA00", "AAA 1"), ("AAA 1", "BBB 2"), ("BBB 2", "CCC 9")]


class Case:
    """An abstract result file: what it holds under which heading."""

    def __init__(self, name, rule, what, build, **read):
        self.name, self.rule, self.what, self.build, self.read = name, rule, what, build, read


def h(n, w=12):
    return hole(real(n), "e", w, True, False)


def values(s, cols, n):
    return {c: ["s{}.{}.{}".format(s, c, i) for i in range(n)] for c in cols}


# ---- files as the simulators print them -------------------------------------------------------------


def sim_csv(cols, kind, steps, blank=""):
    def make(I):
        labs = LABELS if kind == "element" else PAIRS
        head = ["ELEM"] if kind == "element" else ["ELEM1", "ELEM2"]
        P = [K(",".join('"{:>18}"'.format(x) for x in head + cols) + "\n" + ",".join('"{:>18}"'.format("(-)") for x in head + cols) + "\n")]
        out = []
        ts = ranked(I, *[real("t{}".format(s)) for s in range(steps or 1)])
        for s in range(steps or 1):
            if steps:
                P += [K('"TIME [sec]  '), hole(ts[s], "e", 14, True, False), K('"\n')]
            v = values(s, cols, len(labs))
            for i, l in enumerate(labs):
                P.append(K(",".join('"{:>18}"'.format(x) for x in ([l] if kind == "element" else l))))
                for c in cols:
                    P += [K(","), h(v[c][i], 20)]
                P.append(K("\n"))
            out.append((ts[s] if steps else None, list(labs), v))
        return P, out
    return make


def sim_petrasim(cols, steps):
    def make(I):
        P = [K(",".join("{:>18}".format(x) for x in ["TIME [sec]", "ELEM", "INDEX"] + cols) + "\n")]
        ts = ranked(I, *[real("t{}".format(s)) for s in range(steps)])
        out = []
        for s in range(steps):
            v = values(s, cols, len(LABELS))
            for i, l in enumerate(LABELS):
                P += [hole(ts[s], "e", 20, True, False), K(",{:>18},{:20d}".format(l, i + 1))]
                for c in cols:
                    P += [K(","), h(v[c][i], 20)]
                P.append(K("\n"))
            out.append((ts[s], list(LABELS), v))
        return P, out
    return make


def sim_tecplot(cols, steps, style):
    def make(I):
        P = [K(" TITLE = \"results\"\n")] if style else []
        P.append(K({0: " VARIABLES       =" + "".join("{:>18}".format(c) for c in cols),
                    1: " VARIABLES = " + ", ".join('"{}"'.format(c) for c in cols),
                    2: "variables=" + ",".join(cols)}[style] + "\n"))
        ts = ranked(I, *[real("t{}".format(s)) for s in range(steps)])
        out = []
        for s in range(steps):
            P += [K(' ZONE T="'), hole(ts[s], "e", 14, True, False), K({0: ' SEC"  I = {:8d}\n', 1: ' SEC", I={:d}\n', 2: ' SEC",  I= {:d}\n'}[style].format(len(LABELS)))]
            v = values(s, cols, len(LABELS))
            for i in range(len(LABELS)):
                P.append(K(" " * 18))
                for c in cols:
                    P.append(h(v[c][i], 20))
                P.append(K("\n"))
            out.append((ts[s], None, v))
        return P, out
    return make


def sim_listing(cols, kind, steps, length=5, fused=None, head="\n @@@@@@@@@@\n"):
    def make(I):
        labs = [l + "0123"[:length - 5] for l in LABELS]
        pairs = [(a + "0123"[:length - 5], b + "0123"[:length - 5]) for a, b in PAIRS]
        rows = labs if kind == "element" else pairs
        P = [K(head)]
        ts = ranked(I, *[real("t{}".format(s)) for s in range(steps)])
        out = []
        count = 0
        for s in range(steps):
            P += [K("\n some text\n\n TOTAL TIME     KCYC   ITER  ITERC   KON            DX1M        DX2M\n "), h(ts[s].args[0]),
                  K("      3      3      4   2    0.10  0.2 0.3\n\n @@@@@@@@@@\n")]
            P.append(K("\n {} INDEX {}\n                (PA)     (DEG-C)\n\n".format(
                "ELEM." if kind == "element" else "ELEM1 ELEM2", "".join("{:>12}".format(c) for c in cols))))
            v = values(s, cols, len(rows))
            for i, l in enumerate(rows):
                P.append(K(" {}{:6d}".format(l if kind == "element" else "{}  {}".format(*l), i + 1)))
                for j, c in enumerate(cols):
                    if fused is None:
                        P += [K(" "), h(v[c][i])]
                    else:  # Fortran's E12.5 fills its field with a negative number
                        count += 1
                        x = "{}{}.{:05d}E+0{}".format("-" if fused(i, j) else " ", 0, 10000 + 37 * count, count % 10)
                        P.append(K(x))
                        v[c][i] = float(x)
                P.append(K("\n"))
                if i == 1:  # the headings are repeated on a new page
                    P.append(K("\n {} INDEX {}\n                (PA)     (DEG-C)\n\n".format(
                        "ELEM." if kind == "element" else "ELEM1 ELEM2", "".join("{:>12}".format(c) for c in cols))))
            out.append((ts[s], list(rows), v))
            P.append(K("\n @@@@@@@@@@@@@@@@@@\n"))
        return P, out
    return make


def sim_save(nvar, length, userx):
    def make(I):
        labs = [l + "0123"[:length - 5] for l in LABELS]
        P = [K("INCON -- INITIAL CONDITIONS FOR    4 ELEMENTS AT TIME  0.100000E+01\n")]
        cols = ["X{}".format(i + 1) for i in range(nvar)]
        v = values(0, cols, len(labs))
        v["porosity"] = ["phi.{}".format(i) for i in range(len(labs))]
        if userx:
            v["userx"] = [["u{}.{}".format(k, i) for k in range(userx)] for i in range(len(labs))]
        for i, l in enumerate(labs):
            P += [K("{:{}}".format(l, max(length, 5)) + " " * (15 - length)), hole(real("phi.{}".format(i)), "e", 15, True, False)]
            if userx:
                for k in range(userx):
                    P.append(hole(real("u{}.{}".format(k, i)), "e", 10, True, False))
            P.append(K("\n"))
            for c in cols:
                P.append(h(v[c][i], 20))
            P.append(K("\n"))
        P.append(K("+++\n"))
        P += [K("    3    3    1 "), h("t"), K("\n")]
        return P, [(None, labs, v)]
    return make


def sim_history(cols, style, n):
    def make(I):
        names = ["TIME"] + cols
        P = [K({0: ",".join('"{:>18}"'.format(c) for c in names), 1: ",".join('"{}"'.format(c) for c in names),
                2: " ".join("{:>14}".format(c) for c in names)}[style] + "\n")]
        v = {c: ["{}.{}".format(c, i) for i in range(n)] for c in names}
        for i in range(n):
            for j, c in enumerate(names):
                P += [K("," if j and style < 2 else " "), h(v[c][i], 14)]
            P.append(K("\n"))
        return P, v
    return make


CASES = []
for steps in (0, 1, 2, 3):
    for cols in (["P"], ["X", "Y", "Z"], ["X", "Y", "Z", "P", "T", "SAT"], ["P", "T"]):
        CASES.append(Case("OUTPUT_ELEME.csv", "N1", "csv table of elements with {} time headings and columns {}".format(steps, cols), sim_csv(cols, "element", steps)))
        CASES.append(Case("OUTPUT_CONNE.csv", "N1", "csv table of connections with {} time headings and columns {}".format(steps, cols), sim_csv(cols, "connection", steps)))
for steps in (1, 2, 3):
    for cols in (["X", "Y", "Z", "P", "T"], ["P"], ["P", "T", "X"]):
        CASES.append(Case("O.csv", "N1", "petrasim table with {} times and columns {}".format(steps, cols), sim_petrasim(cols, steps)))
    for style in (0, 1, 2):
        for cols in (["X", "Y", "Z", "P", "T"], ["X", "Y", "P"], ["P", "X", "Y"]):
            CASES.append(Case("O.tec", "N1", "Tecplot table (style {}) with {} zones and columns {}".format(style, steps, cols), sim_tecplot(cols, steps, style)))
    for length in (5, 6, 7, 8, 9):
        for cols in (["P"], ["P", "T", "SG"]):
            for kind in ("element", "connection"):
                kw = {"connection": True} if kind == "connection" else {}
                for ll in ({}, {"label_length": length}):
                    CASES.append(Case("OUTPUT", "N1", "listing of {}s with {} times, columns {} and labels of {} characters {}".format(
                        kind, steps, cols, length, ll), sim_listing(cols, kind, steps, length, head="\n @@@@@@@@@@\n" if steps == 1 else "1      @@@@@@@@@@\n"), **dict(kw, **ll)))
for kind in ("element", "connection"):
    for tag, f in (("first column of every row", lambda i, j: j == 0), ("later column of every row", lambda i, j: j == 1), ("every", lambda i, j: True),
                   ("some of the later rows", lambda i, j: i == 2 and j == 1), ("the first row", lambda i, j: i == 0 and j == 1)):
        CASES.append(Case("OUTPUT", "N2", "listing of {}s in full-width columns, negative numbers in {}".format(kind, tag),
                          sim_listing(["P", "T", "SG"], kind, 2, 5, f), **({"connection": True} if kind == "connection" else {})))
for nvar in (1, 2, 4):
    for length in (5, 7):
        for ux in (0, 1, 5):
            CASES.append(Case("SAVE", "N1", "SAVE file of {} variables, {} permeability modifiers, labels of {} characters".format(nvar, ux, length), sim_save(nvar, length, ux)))
HIST = [(style, cols, n) for style in (0, 1, 2) for cols in (["P"], ["P", "T", "SAT"]) for n in (1, 2, 5)]


# ---- comparison -------------------------------------------------------------------------------------


def outputs(I, v):
    v = I.resolve(v)
    items = [v] if isinstance(v, Ref) and hasattr(I.read(v.id), "attrs") else I.concrete(v)
    if items is None:
        return None
    out = []
    for o in items:
        c = I.read(o.id) if isinstance(o, Ref) else None
        if c is None or not hasattr(c, "attrs"):
            return None
        out.append({k: tree(I, x) for k, x in c.attrs.items()})
    return out


def unsure(x):
    if isinstance(x, Unknown):
        return True
    if isinstance(x, dict):
        return any(unsure(y) for y in x.values())
    if isinstance(x, (list, tuple)):
        return any(unsure(y) for y in x)
    return getattr(x, "op", "scalar") not in ("scalar",)


def want_of(x):
    if isinstance(x, str):
        return real(x)
    return [want_of(y) for y in x] if isinstance(x, list) else x


def labels_of(x):
    return [list(y) if isinstance(y, (tuple, list)) else y for y in x] if isinstance(x, (list, tuple)) else x


def show(x):
    return str(x)[:160].replace("scalar", "")


def compare(got, want, kind=None):
    """Disagreements between read outputs and [(time, labels, {heading: values})]."""
    out = []
    if len(got) != len(want):
        return ["{} time steps are returned instead of {}".format(len(got), len(want))]
    for s, (g, (t, labs, v)) in enumerate(zip(got, want)):
        if kind and g.get("type") != kind:
            out.append("the results are said to be of type {!r} instead of {!r}".format(g.get("type"), kind))
        if g.get("time") != t:
            out.append("time of step {} is {} instead of {}".format(s, show(g.get("time")), show(t)))
        if labs is not None and labels_of(g.get("labels")) != labels_of(labs):
            out.append("labels of step {} are {} instead of {}".format(s, show(g.get("labels")), show(labs)))
        d = g.get("data")
        if not isinstance(d, dict) or set(d) != set(v):
            out.append("headings are {} instead of {}".format(sorted(map(str, d)) if isinstance(d, dict) else show(d), sorted(v)))
            continue
        for c in v:
            if d[c] != want_of(v[c]):
                out.append("{} of step {} is {} instead of {}".format(c, s, show(d[c]), show(want_of(v[c]))))
    return out


def run_case(k):
    c = CASES[k]
    I = text_interp()
    P, want = c.build(I)
    I.set_content(c.name, P)
    R = I.lookup_path("toughio.read_output")
    kw = {a: K(b) for a, b in c.read.items()}
    v, why = attempt(I, I.call, R, [K(c.name)], kw, None)
    if v is None:
        return ("fail", str(why)) if not I.opaque else ("opaque", str(I.opaque[:2]))
    got = outputs(I, v)
    if I.opaque or got is None or unsure([g for g in got]):
        return "opaque", str(I.opaque[:2]) + str(got)[:200]
    kind = "connection" if "onnection" in c.what else "element"
    d = compare(got, want, kind)
    fused = [e for e in I.effects if e.kind == "fused"]
    if d:
        return "bad", "; ".join(d[:3])
    if fused:
        return "opaque", "fused"
    # rows in the order asked for
    if kind == "element" and want[0][1] is not None:
        labs = want[0][1]
        perm = [2, 0, 3, 1]
        order = [labs[i] for i in perm]
        want2 = [(t, order, {c_: [x[i] for i in perm] for c_, x in v_.items()}) for t, _, v_ in want]
        for form in (list, tuple, lambda r: Arr(*r)):
            v, why = attempt(I, I.call, R, [K(c.name)], dict(kw, labels_order=build(I, form(order))), None)
            if v is None:
                if not I.opaque:
                    return "fail", "in a given order of labels: {}".format(why)
                continue
            got = outputs(I, v)
            if I.opaque or got is None or unsure(got):
                continue
            d = compare(got, want2, kind)
            if d:
                return "order", "in the order of labels {}: {}".format(order, "; ".join(d[:3]))
    return "ok", len(want)


def run_hist(k):
    style, cols, n = HIST[k]
    I = text_interp()
    P, want = sim_history(cols, style, n)(I)
    I.set_content("FOFT", P)
    v, why = attempt(I, I.call, I.lookup_path("toughio.read_history"), [K("FOFT")], {}, None)
    if v is None:
        return ("fail", str(why)) if not I.opaque else ("opaque", str(I.opaque[:2]))
    got = tree(I, v)
    if I.opaque or unsure(got) or not isinstance(got, dict):
        return "opaque", str(got)[:200]
    want = {c: want_of(x) for c, x in want.items()}
    if got != want:
        return "bad", "; ".join("{} is {} instead of {}".format(c, show(got.get(c)), show(want.get(c))) for c in sorted(set(got) | set(want)) if got.get(c) != want.get(c))
    return "ok", n


# ---- writers ---------------------------------------------------------------------------------------


def written_cases():
    out = []
    for fmt, name in (("csv", "O.csv"), ("csv", "RESULTS.CSV"), ("petrasim", "O.csv"), ("tecplot", "O.tec")):
        for kind in ("element",) + (("connection",) if fmt == "csv" else ()):
            for steps in (1, 2, 3):
                for cols in (["X", "Y", "Z", "P", "T"], ["P", "Z", "T", "X", "Y"], ["P", "X", "Y"], ["P", "T"], ["Z", "P"], ["T"]):
                    if fmt == "tecplot" and not {"X", "Y"} <= set(cols):
                        continue
                    for form in ("array", "list") if fmt != "tecplot" else ("array",):
                        for single in (False, True) if steps == 1 else (False,):
                            out.append((fmt, name, kind, steps, cols, form, single))
    return out


WRITTEN = written_cases()


def run_written(k):
    fmt, name, kind, steps, cols, form, single = WRITTEN[k]
    I = text_interp()
    O = I.lookup_path("toughio.Output")
    W = I.lookup_path("toughio.write_output")
    R = I.lookup_path("toughio.read_output")
    labs = LABELS if kind == "element" else PAIRS
    ts = ranked(I, *[real("t{}".format(s)) for s in range(steps)])
    mk = (lambda r: Arr(*r)) if form == "array" else list
    outs, want = [], []
    for s in range(steps):
        v = values(s, cols, len(labs))
        # dictionaries of different steps need not list their columns in the same order
        order = cols if s % 2 == 0 else cols[::-1]
        data = {c: mk([real(x) for x in v[c]]) for c in order}
        outs.append(I.instantiate(O, [K(kind), K("x"), ts[s], build(I, mk(list(labs))), build(I, data)], {}, None))
        want.append((ts[s], list(labs), v))
    arg = outs[0] if single else I.new_list(outs)
    _, why = attempt(I, I.call, W, [K(name), arg], {"file_format": K(fmt)}, None)
    if why is not None or I.opaque:
        return ("opaque", str(I.opaque[:2])) if I.opaque else ("fail", "cannot be written: {}".format(why))
    v, why = attempt(I, I.call, R, [K(name)], {}, None)
    if v is None:
        return ("fail", "cannot be read back: {}".format(why)) if not I.opaque else ("opaque", str(I.opaque[:2]))
    got = outputs(I, v)
    if I.opaque or got is None or unsure(got):
        return "opaque", str(I.opaque[:2]) + str(got)[:100]
    if fmt == "tecplot":
        want = [(t, None, v_) for t, _, v_ in want]
    d = [x for x in compare(got, want, kind)]
    if d:
        return "bad", "; ".join(d[:3])
    if any(g.get("format") != fmt for g in got):
        return "bad", "the file is recognised as {}".format(got[0].get("format"))
    return "ok", steps


def run(rep, tier):
    rep.rule("N1", "every value of a result file is returned under its own heading, time and label, whatever the number of columns, labels and times")
    rep.rule("N2", "columns of a listing that touch because a number fills its field are still told apart")
    rep.rule("N3", "what a writer puts under a heading is what the reader of the format finds there; times, labels and values of a step stay together")
    rep.rule("N4", "columns of a history file are returned under their own heading")
    rep.rule("N5", "rows asked for in a given order of labels are moved with all their values")
    where = {"csv": "toughio/_io/output/csv/_csv.py", "pet": "toughio/_io/output/petrasim/_petrasim.py", "Tec": "toughio/_io/output/tecplot/_tecplot.py",
             "lis": "toughio/_io/output/tough/_tough.py", "SAV": "toughio/_io/output/save/_save.py"}
    for c, r in zip(CASES, pmap(run_case, range(len(CASES)))):
        w = where[c.what[:3]]
        rep.count("result files read")
        verdict(rep, c.rule, w, c.what, r)
        if r and r[0] == "ok" and c.rule == "N1":
            rep.ok("N5", c.what)
    for (style, cols, n), r in zip(HIST, pmap(run_hist, range(len(HIST)))):
        rep.count("history files read")
        verdict(rep, "N4", "toughio/_io/output/_helpers.py read_history", "history file (style {}) with columns {} and {} rows".format(style, cols, n), r)
    for c, r in zip(WRITTEN, pmap(run_written, range(len(WRITTEN)))):
        rep.count("result files written and read")
        verdict(rep, "N3", where["csv" if c[0] == "csv" else "pet" if c[0] == "petrasim" else "Tec"],
                "{} file {} of {} {} results with columns {} given as {}{}".format(c[0], c[1], c[3], c[2], c[4], c[5], ", not in a list" if c[6] else ""), r)
    analysed(rep)


def verdict(rep, rule, where, what, r):
    if r is None or r[0] == "opaque":
        rep.unknown(rule, where, "{}: {}".format(what, r and r[1]))
    elif r[0] == "ok":
        rep.ok(rule, what)
    elif r[0] == "order":
        rep.bad("N5", where, "{}: {}".format(what, r[1]), "N5|" + what)
    elif r[0] == "fail":
        rep.bad(rule, where, "{} cannot be processed: {}".format(what, r[1]), "{}|{}|fail".format(rule, what))
    else:
        rep.bad(rule, where, "{}: {}".format(what, r[1]), "{}|{}".format(rule, what))
