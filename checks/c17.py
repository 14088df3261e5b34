"""C17: data attached to cells, points, labels and time steps moves with them.

Every entry of every attached array is a distinct symbol naming the entity it
belongs to; after an operation the symbols found at one place must all name the
entity that now stands there.
"""
import itertools

from export import block_lines, column, fail, literal, value_at, written
from geom import CantEval, centroid, close
from meshmodel import environment
from models import analysed, text_interp
from origin import Arr, attempt, build, real, tree
from par import pmap
from scen import LAB, coord, stand_in
from textmodel import Opaque
from tx import hole
from values import K, NONE, DictC, InstC, Ref, T, Tup

ME = "toughio/_mesh/_mesh.py"
NEW, OLD = "4.4.6", "2.3.10"
RULES = {
    "M1": "duplicate removal: every point and cell kept carries the data of one and the same original, every distinct one is kept once",
    "M2": "extrusion: every new point and cell carries all data of the base point and cell it stands over, layer by layer",
    "M3": "labels: after reordering by labels every value stands at the label it was read with",
    "M4": "time series: every time value keeps its own point and cell data, blocks keep their own rows",
    "M5": "conversion: every cell and point keeps its data across block splitting, concatenation and grouping by type",
    "M6": "materials: exactly the chosen cells change material and nothing else moves",
    "M7": "export: moving end materials moves material, centre, coordinates and initial conditions of a cell together",
    "M8": "command line: exported values stand on the cell or point they were computed for",
    "M9": "interpolation: the value at a point or cell comes from exactly the cells around it or its own points",
    "M10": "sets: after points or cells are renumbered a set still names the same points or cells",
}


class Obs:
    def __init__(self):
        self.out = []
        self.n = 0

    def check(self, rule, cond, msg, key):
        if cond is None:
            self.out.append((rule, None, msg, key))
        elif cond:
            self.n += 1
            self.out.append((rule, True, None, key))
        else:
            self.out.append((rule, False, msg, key))

    def stop(self, rule, why, opq, msg, key):
        """What a call that did not come back means."""
        if opq or isinstance(why, str):
            self.out.append((rule, None, "{}: {}".format(msg, opq[0] if opq else why)[:300], key))
        else:
            self.out.append((rule, False, "{}: stops: {}".format(msg, str(why)[:240]), key))


# ---- identity ----------------------------------------------------------------------------------


def tag(a, i, d=None):
    return real("{}@{}{}".format(a, i, "" if d is None else ".{}".format(d)))


def who(v):
    """(array, entity, component) symbols a value is made of; None when nothing is known of it."""
    out, todo = set(), [v]
    if not isinstance(v, T):
        return out
    while todo:
        x = todo.pop()
        if isinstance(x, T) and x.op == "scalar" and isinstance(x.args[0], str) and "@" in x.args[0]:
            n, e = x.args[0].split("@")
            e, _, c = e.partition(".")
            out.add((n, e, c))
        elif isinstance(x, T):
            todo += x.args
        elif isinstance(x, tuple):
            todo += x
    return out or None


def one(v, a, d=None):
    """The entity whose entry of array a a value is; None unknown, False certainly none."""
    if isinstance(v, T) and v.op == "scalar" and isinstance(v.args[0], str) and "@" in v.args[0]:
        n, e = v.args[0].split("@")
        e, _, c = e.partition(".")
        return e if n == a and c == ("" if d is None else str(d)) else False
    if isinstance(v, T):
        return None
    return False


def owner(name, row):
    """The entity a row of data belongs to (None unknown, False mixed)."""
    if isinstance(row, (list, tuple)):
        es = [one(x, name, d) for d, x in enumerate(row)]
    elif name == "material":
        return str(row - 100) if isinstance(row, int) else None if isinstance(row, T) else False
    else:
        es = [one(row, name)]
    if False in es:
        return False
    if None in es:
        return None
    return es[0] if len(set(es)) == 1 else False


def arrays(n, kind, pre=""):
    """Attached arrays of n entities: numbers, vectors, counts."""
    out = {pre + "pres": Arr(*[tag(pre + "pres", i) for i in range(n)]),
           pre + "vec": Arr(*[[tag(pre + "vec", i, d) for d in range(3)] for i in range(n)]),
           pre + "temp": Arr(*[tag(pre + "temp", i) for i in range(n)])}
    if kind == "cell":
        out["material"] = Arr(*[100 + i for i in range(n)])
    return out


def make(I, pts, blocks, extra=True, sets=False):
    """A mesh of numbered points (coordinates given) and tagged data."""
    M = I.lookup_path("toughio.Mesh")
    cells = I.new_list([Tup([K(t), build(I, Arr(*[tuple(r) for r in rows]))]) for t, rows in blocks])
    m = I.call(M, [build(I, Arr(*[tuple(p) for p in pts])), cells], {}, None)
    nc = sum(len(r) for _, r in blocks)
    I.setattr(m, "cell_data", build(I, arrays(nc, "cell")), None)
    I.setattr(m, "point_data", build(I, arrays(len(pts), "point", "p")), None)
    I.setattr(m, "field_data", build(I, {"rock1": Arr(1, 2), "rock2": Arr(2, 2)}), None)
    return m


class State:
    """What a mesh holds, as plain data."""

    def __init__(self, I, m):
        g = lambda n: tree(I, I.getattr(m, n))
        self.points = g("points")
        self.blocks = [(tree(I, I.getattr(b, "type")), tree(I, I.getattr(b, "data"))) for b in I.concrete(I.getattr(m, "cells")) or []]
        self.pdata, self.cdata = g("point_data"), g("cell_data")
        self.psets, self.csets = g("point_sets"), g("cell_sets")

    def ok(self):
        return isinstance(self.points, list) and self.blocks and all(isinstance(d, list) for _, d in self.blocks) and isinstance(
            self.pdata, dict) and isinstance(self.cdata, dict) and all(isinstance(x, list) for x in list(self.pdata.values()) + list(self.cdata.values()))

    def cells(self):
        return [(t, r, b) for b, (t, rows) in enumerate(self.blocks) for r in rows]


def owners(o, rule, kind, data, n, was, key):
    """[entity of each place], all arrays agreeing; None when not known."""
    out = []
    if set(data) != set(was):
        o.check(rule, False, "{} arrays {} become {}".format(kind, sorted(was), sorted(data)), key + "|names")
        return None
    for k, v in data.items():
        if len(v) != n:
            o.check(rule, False, "the {} array {!r} has {} rows for {} {}s".format(kind, k, len(v), n, kind), key + "|size")
            return None
    for i in range(n):
        es = {k: owner(k, v[i]) for k, v in data.items()}
        if None in es.values():
            o.check(rule, None, "{} {}: {}".format(kind, i, {k: repr(data[k][i])[:80] for k in es if es[k] is None}), key)
            return None
        bad = [k for k in es if es[k] is False]
        if bad or len(set(es.values())) != 1:
            o.check(rule, False, "{} {} carries {}".format(kind, i, ", ".join("{} of {}".format(
                k, "number {}".format(e) if e else repr(data[k][i])[:60]) for k, e in sorted(es.items()))), key + "|mixed")
            return None
        out.append(int(next(iter(es.values()))))
    o.check(rule, True, "", key)
    return out


def same_coords(a, b):
    return len(a) == len(b) and all(x == y or isinstance(x, (int, float)) and isinstance(y, (int, float)) and abs(x - y) < 1e-12 for x, y in zip(a, b))


def numbers(rows):
    return all(isinstance(x, (int, float)) for r in rows for x in (r if isinstance(r, list) else [r]))


# ---- M1, M10: duplicates ---------------------------------------------------------------------------

CUBE = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]


def moved(off):
    return [tuple(float(a + b) for a, b in zip(p, off)) for p in CUBE]


PRUNE = {
    "two cubes with their own points": (moved((5, 0, 0)) + moved((4, 0, 0)), [("hexahedron", [list(range(8)), list(range(8, 16))])]),
    "a repeated cell with its nodes turned": (moved((2, 1, 0)) + moved((1, 1, 0)),
                                             [("hexahedron", [[0, 1, 2, 3, 4, 5, 6, 7], [8, 9, 10, 11, 12, 13, 14, 15], [1, 2, 3, 0, 5, 6, 7, 4]])]),
    "a repeated cell and no repeated point": (moved((0, 3, 0)) + [(9.0, 9.0, 9.0)],
                                              [("hexahedron", [[0, 1, 2, 3, 4, 5, 6, 7], [0, 1, 2, 3, 4, 5, 6, 7]]), ("tetra", [[0, 1, 3, 8], [1, 2, 3, 8], [3, 0, 1, 8]])]),
    "two blocks sharing points": (moved((3, 0, 0)) + [(4.0, 0.0, 0.0), (4.0, 1.0, 0.0), (4.0, 1.0, 1.0), (4.0, 0.0, 1.0), (6.0, 0.5, 0.5), (-1.0, 0.5, 0.5)],
                                  [("pyramid", [[8, 9, 10, 11, 12], [0, 3, 7, 4, 13], [11, 8, 9, 10, 12]]), ("hexahedron", [[0, 1, 2, 3, 4, 5, 6, 7]])]),
    "nothing repeated": (moved((0, 0, 0))[::-1] + [(0.5, 0.5, 5.0)], [("pyramid", [[3, 2, 1, 0, 8]]), ("hexahedron", [[7, 6, 5, 4, 3, 2, 1, 0]])]),
    "triangles in the plane": ([(2.0, 0.0), (1.0, 0.0), (1.0, 1.0), (1.0, 0.0), (0.0, 0.0), (1.0, 1.0), (2.0, 0.0)],
                               [("triangle", [[0, 2, 1], [3, 5, 4], [1, 6, 5]])]),
}


def prune(case):
    name, inplace, sets = case
    pts, blocks = PRUNE[name]
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": NEW}
    m = make(I, pts, blocks)
    if sets:
        I.setattr(m, "point_sets", build(I, {"even": Arr(*range(0, len(pts), 2)), "last": [len(pts) - 1, 0]}), None)
        I.setattr(m, "cell_sets", build(I, {"ends": [[0, len(r) - 1] if len(r) > 1 else [0] for _, r in blocks], "late": [[len(r) - 1] for _, r in blocks]}), None)
    old = State(I, m)
    v, why = attempt(I, I.method, m, "prune_duplicates", [], {} if inplace else {"inplace": K(False)}, None)
    tell = "prune_duplicates({}) of {}".format("" if inplace else "inplace=False", name)
    if why is not None or I.opaque:
        o.stop("M1", why, I.opaque, tell, "M1|stop")
        return o.out, None
    new = State(I, m if inplace else v)
    if not new.ok() or not numbers(new.points):
        o.check("M1", None, tell + ": the pruned mesh is not known", "M1")
        return o.out, None
    O2 = Obs()
    po = owners(O2, "M1", "point", new.pdata, len(new.points), old.pdata, "M1|points")
    co = owners(O2, "M1", "cell", new.cdata, len(new.cells()), old.cdata, "M1|cells")
    o.out += [(r, c, m_ and tell + ": " + m_, k) for r, c, m_, k in O2.out]
    if po is not None:
        bad = [i for i, p in enumerate(new.points) if not same_coords(p, old.points[po[i]])]
        o.check("M1", not bad, tell + ": point {} at {} carries the data of the point at {}".format(*(bad and [bad[0], new.points[bad[0]], old.points[po[bad[0]]]] or [0, 0, 0])), "M1|points|moved")
    a, b = [tuple(p) for p in new.points], set(tuple(p) for p in old.points)
    o.check("M1", len(set(a)) == len(a) and set(a) == b, tell + ": {} points at {} places are kept for the {} places of the original".format(len(a), len(set(a)), len(b)), "M1|points|kept")
    if co is not None:
        oc, nc = old.cells(), new.cells()
        at = lambda s, r: [tuple(s.points[k]) if isinstance(k, int) and k < len(s.points) else None for k in r]
        bad = [i for i, (t, r, _) in enumerate(nc) if t != oc[co[i]][0] or at(new, r) != at(old, oc[co[i]][1])]
        o.check("M1", not bad, tell + ": cell {} carries the data of cell {} of the original, which has other nodes".format(*(bad and [bad[0], co[bad[0]]] or [0, 0])), "M1|cells|moved")
        k1 = sorted((t, sorted(at(new, r), key=repr)) for t, r, _ in nc)
        k2 = set((t, tuple(sorted(at(old, r), key=repr))) for t, r, _ in oc)
        o.check("M1", len(k1) == len(set((t, tuple(r)) for t, r in k1)) and set((t, tuple(r)) for t, r in k1) == k2,
                tell + ": {} cells are kept for {} different cells".format(len(k1), len(k2)), "M1|cells|kept")
    if sets:
        def places(s, v):
            return set(tuple(s.points[k]) if isinstance(k, int) and 0 <= k < len(s.points) else None for k in v)
        for k, v in old.psets.items():
            w = new.psets.get(k) if isinstance(new.psets, dict) else None
            if not isinstance(w, list) or not all(isinstance(x, int) for x in w):
                o.check("M10", False if w is None else None, tell + ": point set {!r} is lost".format(k), "M10|points")
                continue
            o.check("M10", places(old, v) == places(new, w), tell + ": the point set {!r} names points at {} instead of {}".format(
                k, sorted(places(new, w), key=repr)[:4], sorted(places(old, v), key=repr)[:4]), "M10|prune_duplicates|point_sets")

        def members(s, v):
            out = set()
            for (t, rows), ids in zip(s.blocks, v):
                for i in ids:
                    out.add((t, frozenset(tuple(s.points[k]) for k in rows[i])) if isinstance(i, int) and i < len(rows) else None)
            return out
        for k, v in old.csets.items():
            w = new.csets.get(k) if isinstance(new.csets, dict) else None
            if not isinstance(w, list) or not all(isinstance(x, list) for x in w):
                o.check("M10", False if w is None else None, tell + ": cell set {!r} is lost".format(k), "M10|cells")
                continue
            o.check("M10", members(old, v) == members(new, w), tell + ": the cell set {!r} names other cells".format(k), "M10|prune_duplicates|cell_sets")
    return o.out, sorted(I.inlined)


# ---- M2: extrusion -----------------------------------------------------------------------------------

FLAT = [(0.0, 0.0), (1.0, 0.25), (2.0, 0.5), (0.125, 1.0), (1.0, 1.5), (2.0, 1.75), (3.0, 1.0)]
FBLOCKS = {
    "quads and triangles": [("quad", [[0, 1, 4, 3], [1, 2, 5, 4]]), ("triangle", [[2, 6, 5]])],
    "triangles, lines and a quad": [("triangle", [[0, 1, 3], [1, 4, 3]]), ("line", [[0, 1], [1, 2]]), ("quad", [[1, 2, 5, 4]])],
    "two blocks of triangles": [("triangle", [[0, 1, 3]]), ("triangle", [[1, 4, 3], [1, 2, 4]])],
}
HEIGHTS = {"1.0": 1.0, "[1.5, 0.5]": [1.5, 0.5], "(2.0, 1.0, 0.25)": (2.0, 1.0, 0.25), "array (0.5, 0.5)": Arr(0.5, 0.5)}


def extrude(case):
    blk, h, axis, inplace, space, default = case
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": NEW}
    pts = FLAT
    if space:
        pts = [p[:axis] + (0.75,) + p[axis:] for p in FLAT]
    m = make(I, pts, FBLOCKS[blk])
    old = State(I, m)
    kw = {} if default else {"height": build(I, HEIGHTS[h]), "axis": K(axis)}
    if not inplace:
        kw["inplace"] = K(False)
    hs = [HEIGHTS[h]] if isinstance(HEIGHTS[h], float) else list(getattr(HEIGHTS[h], "rows", HEIGHTS[h]))
    v, why = attempt(I, I.method, m, "extrude_to_3d", [], kw, None)
    tell = "extrude_to_3d(height={}, axis={}) of {}{}".format(h, axis, blk, " in space" if space else "")
    if why is not None or I.opaque:
        o.stop("M2", why, I.opaque, tell, "M2|stop")
        return o.out, None
    new = State(I, m if inplace else v)
    if not new.ok() or not numbers(new.points):
        o.check("M2", None, tell + ": the extruded mesh is not known", "M2")
        return o.out, None
    O2 = Obs()
    po = owners(O2, "M2", "point", new.pdata, len(new.points), old.pdata, "M2|points")
    co = owners(O2, "M2", "cell", new.cdata, len(new.cells()), old.cdata, "M2|cells")
    o.out += [(r, c, m_ and tell + ": " + m_, k) for r, c, m_, k in O2.out]
    nh = len(hs)
    level = [0.0]
    for x in hs:
        level.append(level[-1] + x)
    if po is not None:
        base = [list(p[:axis]) + [0.75 if space else 0.0] + list(p[axis + 1 if space else axis:]) for p in pts]
        if not space and axis != 2:
            # the second coordinate takes the place of the extruded one
            base = []
            for p in pts:
                q = [p[0], p[1], 0.0]
                q[axis], q[2] = q[2], q[axis]
                base.append(q)
        place = {}
        bad = None
        for i, p in enumerate(new.points):
            lv = [k for k, z in enumerate(level) if same_coords(p, [c + (z if d == axis else 0.0) for d, c in enumerate(base[po[i]])])]
            if not lv:
                bad = bad or (i, p, base[po[i]])
            else:
                place[i] = (po[i], lv[0])
        o.check("M2", bad is None, tell + ": point {} at {} carries the data of the base point at {}".format(*(bad or (0, 0, 0))), "M2|points|moved")
        o.check("M2", bad is not None or sorted(place.values()) == sorted((i, k) for i in range(len(pts)) for k in range(nh + 1)),
                tell + ": not every base point is copied once to every layer", "M2|points|layers")
        if co is not None and bad is None:
            oc, nc = old.cells(), new.cells()
            wrong = None
            got = []
            for i, (t, r, _) in enumerate(nc):
                bt, br, _ = oc[co[i]]
                ns = [place.get(k, (None, None)) if isinstance(k, int) else (None, None) for k in r]
                ls = sorted(set(l for _, l in ns), key=repr)
                n = len(br)
                if [p for p, _ in ns] != list(br) * 2 or len(ls) != 2 or None in ls or ls[1] != ls[0] + 1 or len(set(l for _, l in ns[:n])) != 1:
                    wrong = wrong or (i, [p for p, _ in ns], co[i], list(br), ls)
                else:
                    got.append((co[i], ls[0]))
            o.check("M2", wrong is None, tell + ": cell {} stands over the base points {} and carries the data of base cell {} of points {} (layers {})".format(
                *(wrong or (0, 0, 0, 0, 0))), "M2|cells|moved")
            want = sorted((i, k) for i, (t, _, _) in enumerate(oc) if t in ("quad", "triangle") for k in range(nh))
            o.check("M2", wrong is not None or sorted(got) == want, tell + ": the layers of base cells are {} instead of {}".format(sorted(got), want), "M2|cells|layers")
    return o.out, sorted(I.inlined)


# ---- M3: labels --------------------------------------------------------------------------------------


def rows_out(labels, cols):
    """Data of an output: numbers and vectors named after the label they belong to."""
    d = {c: Arr(*[tag(c, l) for l in labels]) for c in cols}
    d["vec"] = Arr(*[[tag("vec", l, k) for k in range(2)] for l in labels])
    return d


def give(I, labels, form):
    return build(I, {"list": list, "tuple": tuple, "array": lambda r: Arr(*r)}[form](labels))


def out_of(I, labels, time="t", cols=("P", "T"), kind="element", form="array"):
    O = I.lookup_path("toughio.Output")
    return I.instantiate(O, [K(kind), K("csv"), real("time@" + time), give(I, labels, form), build(I, rows_out(labels, cols))], {}, None)


def by_label(I, o, rule, tell, v, want, key, cols):
    """Labels and data of an output agree, in the wanted order."""
    labs = tree(I, I.getattr(v, "labels"))
    data = tree(I, I.getattr(v, "data"))
    if not isinstance(labs, list) or not isinstance(data, dict):
        o.check(rule, None, tell + ": the result is not known", key)
        return
    o.check(rule, labs == list(want), tell + ": the labels are {} instead of {}".format(labs, list(want)), key + "|order")
    for c in cols:
        r = data.get(c)
        if not isinstance(r, list) or len(r) != len(labs):
            o.check(rule, False if isinstance(r, list) else None, tell + ": column {} has {} values for {} labels".format(c, len(r) if isinstance(r, list) else "?", len(labs)), key + "|size")
            continue
        es = [owner(c, x) for x in r]
        if None in es:
            o.check(rule, None, tell + ": column {} is not known".format(c), key)
            continue
        bad = [(l, e) for l, e in zip(labs, es) if l != e]
        o.check(rule, not bad, tell + ": {} at label {} is that of label {}".format(c, *(bad[0] if bad else (0, 0))), key + "|data")


L5 = ["AAA10", "AAA11", "AAA12", "AAB 1", "BAA99"]


def labels(case):
    kind, order, want, form = case
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": NEW}
    cols = ("P", "T", "vec")
    if kind == "reorder_labels":
        tell = "reorder_labels from {} to {} ({})".format(order, want, form)
        v, why = attempt(I, I.call, I.lookup_path("toughio._io.output._common.reorder_labels"), [out_of(I, order), give(I, want, form)], {}, None)
        if why is not None or I.opaque:
            o.stop("M3", why, I.opaque, tell, "M3|reorder_labels|stop")
        else:
            by_label(I, o, "M3", tell, v, want, "M3|reorder_labels", cols)
            t = tree(I, I.getattr(v, "time"))
            o.check("M3", t == real("time@t"), tell + ": the time becomes {}".format(t), "M3|reorder_labels|time")
    elif kind == "read_output":
        # every time step of the file has its own order
        tell = "read_output of a file in the orders {} with labels_order={} ({})".format(order, want, form)
        head = ["ELEM", "P", "T"]
        P = [K(",".join('"{:>18}"'.format(x) for x in head) + "\n" + ",".join('"{:>18}"'.format("(-)") for _ in head) + "\n")]
        for s, labs in enumerate(order):
            P.append(K('"TIME [sec]  {:.8E}"\n'.format(s + 1.0)))
            for l in labs:
                P.append(K('"{:>18}"'.format(l)))
                for c in ("P", "T"):
                    P += [K(","), hole(tag(c + str(s), l), "e", 20, True, False)]
                P.append(K("\n"))
        I.set_content("OUT.csv", P)
        v, why = attempt(I, I.call, I.lookup_path("toughio.read_output"), [K("OUT.csv")], {} if want is None else {"labels_order": give(I, want, form)}, None)
        steps = I.concrete(v) if v is not None else None
        if why is not None or I.opaque or steps is None:
            o.stop("M3", why or "nothing known", I.opaque, tell, "M3|read_output|stop")
        elif len(steps) != len(order):
            o.check("M3", False, tell + ": {} time steps".format(len(steps)), "M3|read_output|steps")
        else:
            for s, x in enumerate(steps):
                labs = tree(I, I.getattr(x, "labels"))
                data = tree(I, I.getattr(x, "data"))
                o.check("M3", labs == list(want or order[s]), tell + ": labels {} at time step {}".format(labs, s), "M3|read_output|order")
                t = tree(I, I.getattr(x, "time"))
                o.check("M3", None if isinstance(t, T) else t == s + 1.0, tell + ": time step {} has time {}".format(s, t), "M3|read_output|time")
                for c in ("P", "T"):
                    es = [owner(c + str(s), y) for y in data.get(c) or []] if isinstance(data, dict) else []
                    if None in es or not es or len(es) != len(labs):
                        o.check("M3", None, tell + ": column {} is not known".format(c), "M3|read_output")
                        continue
                    bad = [(l, y) for l, e, y in zip(labs, es, data[c]) if l != e]
                    o.check("M3", not bad, tell + ": {} of label {} at time step {} is {}".format(c, bad[0][0] if bad else 0, s, bad and bad[0][1]), "M3|read_output|data")
    return o.out, sorted(I.inlined)


def row_of(I, k):
    """k cubes in a row."""
    pts = [(float(i), float(j), float(k)) for i in range(k + 1) for j in range(2) for k in range(2)]
    n = lambda i, j, k: i * 4 + j * 2 + k
    return make(I, pts, [("hexahedron", [[n(i, 0, 0), n(i + 1, 0, 0), n(i + 1, 1, 0), n(i, 1, 0), n(i, 0, 1), n(i + 1, 0, 1), n(i + 1, 1, 1), n(i, 1, 1)] for i in range(k)])])


def mesh_read(case):
    """Results carried into a mesh."""
    order, steps, step, how = case
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": NEW}
    from scen import mesh
    if len(order) == 3:
        m = mesh(I)
        want = ["AAA10", "AAA11", "AAA12"]
    else:
        m = row_of(I, len(order))
        want = L5[: len(order)]
    q = I.lookup_path("toughio._mesh._common.labeler")
    I.hooks[q.qual] = lambda *a, **k: I.nd((len(order),), [K(x) for x in want])
    before = tree(I, I.getattr(m, "cell_data"))
    outs = [out_of(I, [want[i] for i in order], str(s), ("P{}".format(s), "T{}".format(s))) for s in range(steps)]
    arg = outs[0] if how == "one" else I.new_list(outs) if how == "list" else Tup(outs)
    tell = "Mesh.read_output({} of {} time steps in the order {}{})".format(how, steps, list(order), ", time_step={}".format(step) if step is not None else "")
    v, why = attempt(I, I.method, m, "read_output", [arg], {} if step is None else {"time_step": K(step)}, None)
    if why is not None or I.opaque:
        o.stop("M3", why, I.opaque, tell, "M3|Mesh.read_output|stop")
        return o.out, None
    after = tree(I, I.getattr(m, "cell_data"))
    if not isinstance(after, dict):
        o.check("M3", None, tell + ": cell data not known", "M3|Mesh.read_output")
        return o.out, None
    for k in before:
        if k == "vec":      # the results hold an array of the same name
            continue
        o.check("M3", after.get(k) == before[k], tell + ": the array {!r} the mesh had is changed".format(k), "M3|Mesh.read_output|kept")
    s = range(steps)[step if step is not None else -1] if how != "one" else 0
    for c in ("P{}".format(s), "T{}".format(s), "vec"):
        r = after.get(c)
        if r is None:
            o.check("M3", False, tell + ": no {} of time step {} in the mesh (it has {})".format(c, s, sorted(after)), "M3|Mesh.read_output|step")
            continue
        es = [owner(c, x) for x in r] if isinstance(r, list) else [None]
        if None in es:
            o.check("M3", None, tell + ": {} is not known".format(c), "M3|Mesh.read_output")
            continue
        o.check("M3", es == want, tell + ": {} of the cells {} is that of {}".format(c, want, es), "M3|Mesh.read_output|data")
    return o.out, sorted(I.inlined)


def flows(case):
    """Connection results carried into a mesh: each value goes to one of the two cells it connects."""
    perm, neg = case
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": NEW}
    m = row_of(I, 3)
    want = ["AAA10", "AAA11", "AAA12"]
    q = I.lookup_path("toughio._mesh._common.labeler")
    I.hooks[q.qual] = lambda *a, **k: I.nd((3,), [K(x) for x in want])
    pairs = [[(0, 1), (1, 2)][i] for i in perm]
    vals = {p: (10.0 if p == (0, 1) else 1000.0) * (-1 if i in neg else 1) for i, p in enumerate([(0, 1), (1, 2)])}
    O = I.lookup_path("toughio.Output")
    data = {"HEAT": Arr(*[vals[p] for p in pairs]), "FLOW": Arr(*[vals[p] * 2 for p in pairs])}
    out = I.instantiate(O, [K("connection"), K("csv"), K(1.0), build(I, Arr(*[(want[a], want[b]) for a, b in pairs])), build(I, data)], {}, None)
    tell = "Mesh.read_output of connections in the order {}, values {}".format(pairs, [vals[p] for p in pairs])
    v, why = attempt(I, I.method, m, "read_output", [out], {}, None)
    if why is not None or I.opaque:
        o.stop("M3", why, I.opaque, tell, "M3|connections|stop")
        return o.out, None
    after = tree(I, I.getattr(m, "cell_data"))
    from geom import num
    exp = [[0.0] * 3 for _ in range(3)]
    for (a, b), x in vals.items():
        exp[a if x > 0 else b][0] -= x
    for c, f in (("HEAT", 1), ("FLOW", 2)):
        r = after.get(c) if isinstance(after, dict) else None
        try:
            got = [[num(x if isinstance(x, T) else K(x), {}, {}) for x in row] for row in r]
        except (CantEval, TypeError, KeyError, ValueError):
            o.check("M3", None, tell + ": {} not known".format(c), "M3|connections")
            continue
        o.check("M3", len(got) == 3 and all(len(x) == 3 and all(close(p, q_ * f, 1e-6) for p, q_ in zip(x, y)) for x, y in zip(got, exp)),
                tell + ": {} of the cells is {} instead of {}".format(c, got, [[x * f for x in r_] for r_ in exp]), "M3|connections|data")
    return o.out, sorted(I.inlined)


# ---- M4: time series ------------------------------------------------------------------------------------

HEXA = [[0, 1, 2, 3, 4, 5, 6, 7], [4, 5, 6, 7, 8, 9, 10, 11]]
WEDGE = [[8, 9, 10, 12, 13, 14]]
BLOCKS = {"hexahedra and wedges": [("hexahedron", HEXA), ("wedge", WEDGE)], "wedges before hexahedra": [("wedge", WEDGE), ("hexahedron", HEXA)],
          "three blocks": [("hexahedron", HEXA[:1]), ("wedge", WEDGE), ("hexahedron", HEXA[1:])], "one block": [("hexahedron", HEXA)]}


def blocks_of(I, name):
    C = I.lookup_path("toughio._mesh._mesh.CellBlock")
    return I.new_list([I.instantiate(C, [K(t), build(I, Arr(*r))], {}, None) for t, r in BLOCKS[name]])


def untree(I, t):
    """Plain data of a recorded argument."""
    if isinstance(t, K):
        return t.v
    if isinstance(t, T) and t.op == "nd":
        def rows(shape, flat):
            if len(shape) < 2:
                return [untree(I, x) for x in flat]
            n = len(flat) // shape[0] if shape[0] else 0
            return [rows(shape[1:], flat[i * n:(i + 1) * n]) for i in range(shape[0])]
        return rows(t.args[0], t.args[1])
    if isinstance(t, T) and t.op == "list" and all(x[0] == "item" for x in t.args[0]):
        return [untree(I, x[1]) for x in t.args[0]]
    if isinstance(t, T) and t.op == "dict" and t.args[1] is None:
        return {k.v if isinstance(k, K) else k: untree(I, v) for k, v in t.args[0]}
    if isinstance(t, (Ref, Tup)):
        return tree(I, t)
    if isinstance(t, tuple):
        return [untree(I, x) for x in t]
    return t


def series(case):
    blk, times, ver, what = case
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": ver}
    nb = [len(r) for _, r in BLOCKS[blk]]
    nc, n = sum(nb), len(times) if times else 3
    pd = [{"pP": Arr(*[tag("pP{}".format(s), i) for i in range(15)]), "pV": Arr(*[[tag("pV{}".format(s), i, d) for d in range(2)] for i in range(15)])} for s in range(n)]
    cd = [{"P": Arr(*[tag("P{}".format(s), i) for i in range(nc)]), "V": Arr(*[[tag("V{}".format(s), i, d) for d in range(2)] for i in range(nc)])} for s in range(n)]
    kw = {}
    if "p" in what:
        kw["point_data"] = build(I, pd)
    if "c" in what:
        kw["cell_data"] = build(I, cd)
    if times:
        kw["time_steps"] = build(I, {"t": tuple, "a": lambda x: Arr(*x)}.get(what[-1], list)(times))
    pts = I.nd((15, 3), [coord(i, d) for i in range(15) for d in range(3)])
    before = len(I.effects)
    v, why = attempt(I, I.call, I.lookup_path("toughio.write_time_series"), [K("a.xdmf"), pts, blocks_of(I, blk)], kw, None)
    tell = "write_time_series of {} at times {} (meshio {})".format(blk, times or "not given", ver)
    if why is not None or I.opaque:
        o.stop("M4", why, I.opaque, tell, "M4|stop")
        return o.out, None
    evs = [e for e in I.effects[before:] if e.kind == "mcall" and isinstance(e.target, T) and e.data[0] == "write_data"]
    mesh_ = [e for e in I.effects[before:] if e.kind == "mcall" and isinstance(e.target, T) and e.data[0] == "write_points_cells"]
    if any(e.pc for e in evs + mesh_) or len(mesh_) != 1:
        o.check("M4", None, tell + ": what is written is not known", "M4")
        return o.out, None
    a = [untree(I, x) for x in mesh_[0].data[3]]
    o.check("M4", a[0] == tree(I, pts), tell + ": other points are written", "M4|points")
    got = []
    for e in evs:
        t = untree(I, e.data[1][0])
        d = {k: untree(I, x) for k, x in e.data[2]}
        got.append((t, d))
    want = sorted(range(n), key=lambda i: times[i] if times else i)
    o.check("M4", [t for t, _ in got] == [times[i] if times else i for i in want], tell + ": the times {} are written".format([t for t, _ in got]), "M4|times")
    if len(got) != n:
        return o.out, None
    types = []
    for t, _ in BLOCKS[blk]:
        if t not in types:
            types.append(t)
    for (t, d), i in zip(got, want):
        p = d.get("point_data")
        for c in ("pP", "pV") if "p" in what else ():
            r = p.get(c) if isinstance(p, dict) else None
            es = [owner("{}{}".format(c, i), x) for x in r] if isinstance(r, list) else [None]
            o.check("M4", None if None in es else es == [str(k) for k in range(15)], tell + ": at time {} the point data {} are {}".format(t, c, str(r)[:120]), "M4|point data")
        x = d.get("cell_data")
        for c in ("P", "V") if "c" in what else ():
            exp, k = [], 0
            for b in nb:
                exp.append([str(j) for j in range(k, k + b)])
                k += b
            if ver == OLD:
                exp = [sum((e for e, (ty, _) in zip(exp, BLOCKS[blk]) if ty == t_), []) for t_ in types]
                r = [x[t_].get(c) if isinstance(x, dict) and isinstance(x.get(t_), dict) else None for t_ in types]
            else:
                r = x.get(c) if isinstance(x, dict) else None
            if not isinstance(r, list) or not all(isinstance(y, list) for y in r):
                o.check("M4", None, tell + ": cell data {} not known".format(c), "M4|cell data")
                continue
            es = [[owner("{}{}".format(c, i), y) for y in z] for z in r]
            if any(None in z for z in es):
                o.check("M4", None, tell + ": cell data {} not known".format(c), "M4|cell data")
                continue
            o.check("M4", es == exp, tell + ": at time {} the cell data {} of the blocks are {} instead of those of cells {}".format(t, c, [[str(y)[:40] for y in z] for z in r], exp), "M4|cell data")
    return o.out, sorted(I.inlined)


def series_read(case):
    blk, ver = case
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": ver}
    n = 3
    nb = [len(r) for _, r in BLOCKS[blk]]

    def reader(I_, args, kwargs, node):
        return stand_in(I, "meshio.TimeSeriesReader", {"num_steps": K(n)})

    def mesh_(I_, base, args, kwargs, node):
        c = blocks_of(I, blk) if ver != OLD else build(I, {t: Arr(*r) for t, r in BLOCKS[blk]})
        return Tup([I.nd((15, 3), [coord(i, d) for i in range(15) for d in range(3)]), c])

    def data(I_, base, args, kwargs, node):
        k = I.resolve(args[0])
        if not isinstance(k, K):
            return None
        s, i, cs = k.v, 0, []
        for b in nb:
            cs.append(Arr(*[tag("P{}".format(s), j) for j in range(i, i + b)]))
            i += b
        cd = {"P": cs} if ver != OLD else {t: {"P": a} for (t, _), a in zip(BLOCKS[blk], cs)}
        return Tup([K(10.0 - s), build(I, {"pP": Arr(*[tag("pP{}".format(s), j) for j in range(15)])}), build(I, cd)])
    I.ext_hooks.update({"meshio.xdmf.TimeSeriesReader": reader, "meshio.XdmfTimeSeriesReader": reader, ".read_points_cells": mesh_, ".read_data": data,
                        ".__enter__": lambda I_, base, a, k, node: base})
    v, why = attempt(I, I.call, I.lookup_path("toughio.read_time_series"), [K("a.xdmf")], {}, None)
    tell = "read_time_series of {} (meshio {})".format(blk, ver)
    items = I.concrete(v) if v is not None else None
    if why is not None or I.opaque or items is None or len(items) != 5:
        o.stop("M4", why or "result not known", I.opaque, tell, "M4|read|stop")
        return o.out, None
    pd, cd, ts = [tree(I, x) for x in items[2:]]
    cells = [(tree(I, I.getattr(b, "type")), tree(I, I.getattr(b, "data"))) for b in I.concrete(items[1]) or []]
    if not all(isinstance(x, list) for x in (pd, cd, ts)):
        o.check("M4", None, tell + ": result not known", "M4|read")
        return o.out, None
    o.check("M4", sorted((t, r) for t, r in cells) == sorted((t, [list(x) for x in r]) for t, r in BLOCKS[blk]), tell + ": the cells are {}".format(cells), "M4|read|cells")
    rows = {repr(r): i for i, r in enumerate(r for _, b in BLOCKS[blk] for r in b)}
    order = [str(rows.get(repr(r))) for _, b in cells for r in b]
    o.check("M4", len(pd) == len(cd) == len(ts) == n, tell + ": {} times, {} sets of point data, {} of cell data".format(len(ts), len(pd), len(cd)), "M4|read|steps")
    for t, p, c in zip(ts, pd, cd):
        s = int(10 - t) if isinstance(t, float) else None
        es = [owner("pP{}".format(s), x) for x in p.get("pP") or [None]] if isinstance(p, dict) else [None]
        o.check("M4", None if None in es else es == [str(k) for k in range(15)], tell + ": the point data at time {} are {}".format(t, str(p)[:120]), "M4|read|point data")
        r = c.get("P") if isinstance(c, dict) else None
        es = [owner("P{}".format(s), x) for x in r] if isinstance(r, list) else [None]
        o.check("M4", None if None in es else es == order, tell + ": the cell data at time {} are {}".format(t, str(r)[:160]), "M4|read|cell data")
    return o.out, sorted(I.inlined)


# ---- M5: conversions ----------------------------------------------------------------------------------------


def convert(case):
    kind, blk, ver = case
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": ver}
    pts = [(float(i), float(i * i % 7), float(-i)) for i in range(15)]
    nb = [len(r) for _, r in BLOCKS[blk]]
    types = []
    for t, _ in BLOCKS[blk]:
        if t not in types:
            types.append(t)
    exp, k = [], 0
    for b in nb:
        exp.append([str(j) for j in range(k, k + b)])
        k += b
    merged = [sum((e for e, (ty, _) in zip(exp, BLOCKS[blk]) if ty == t_), []) for t_ in types]
    tell = "{} of {} (meshio {})".format(kind, blk, ver)
    key = "M5|" + kind
    names = ("pres", "vec", "temp", "material")
    if kind == "split":
        m = make(I, pts, BLOCKS[blk])
        for c in names:
            v, why = attempt(I, I.method, m, "split", [I.getitem(I.getattr(m, "cell_data"), K(c))], {}, None)
            if why is not None or I.opaque:
                o.stop("M5", why, I.opaque, tell, key + "|stop")
                continue
            pieces(o, tell, c, tree(I, v), exp, key)
    elif kind == "to_meshio":
        m = make(I, pts, BLOCKS[blk])
        I.setattr(m, "point_sets", build(I, {"left": Arr(0, 3)}), None)
        before = len(I.effects)
        v, why = attempt(I, I.method, m, "to_meshio", [], {}, None)
        if why is not None or I.opaque:
            o.stop("M5", why, I.opaque, tell, key + "|stop")
            return o.out, None
        es = [e for e in I.effects[before:] if e.kind == "call" and "meshio.Mesh" in str(e.target)]
        if len(es) != 1 or es[0].pc:
            o.check("M5", None, tell + ": the call of meshio.Mesh is not known", key)
            return o.out, None
        d = recorded(I, es[0])
        o.check("M5", d.get("points") == [list(p) for p in pts] if "points" in d else None, tell + ": the points are {}".format(str(d.get("points"))[:100]), key + "|points")
        sets = d.get("point_sets", d.get("node_sets"))
        o.check("M5", None if sets is None else sets == {"left": [0, 3]}, tell + ": the point sets are {}".format(sets), key + "|sets")
        pd = d.get("point_data")
        for c in ("ppres", "pvec", "ptemp"):
            r = pd.get(c) if isinstance(pd, dict) else None
            es = [owner(c, x) for x in r] if isinstance(r, list) else [None]
            o.check("M5", None if None in es else es == [str(i) for i in range(15)], tell + ": the point data {} are {}".format(c, str(r)[:120]), key + "|point data")
        cells, cd = d.get("cells"), d.get("cell_data")
        if ver == OLD:
            if not isinstance(cells, dict) or not isinstance(cd, dict):
                o.check("M5", None, tell + ": cells not known", key)
                return o.out, None
            o.check("M5", cells == {t_: sum((r for ty, r in BLOCKS[blk] if ty == t_), []) for t_ in types}, tell + ": the cells are {}".format(cells), key + "|cells")
            for c in names:
                pieces(o, tell, c, [cd.get(t_, {}).get(c) if isinstance(cd.get(t_), dict) else None for t_ in types], merged, key)
        else:
            for c in names:
                pieces(o, tell, c, cd.get(c) if isinstance(cd, dict) else None, exp, key)
    elif kind == "from_meshio":
        data = {c: [] for c in ("pres", "vec", "gmsh:physical")}
        for e in exp:
            data["pres"].append(Arr(*[tag("pres", i) for i in e]))
            data["vec"].append(Arr(*[[tag("vec", i, d) for d in range(3)] for i in e]))
            data["gmsh:physical"].append(Arr(*[100 + int(i) for i in e]))
        at = {"points": build(I, Arr(*pts)), "point_data": build(I, arrays(15, "point", "p")), "field_data": build(I, {"rock1": Arr(1, 3)}),
              "point_sets" if ver != OLD else "node_sets": build(I, {"left": Arr(0, 3)})}
        if ver == OLD:
            at["cells"] = build(I, {t: Arr(*r) for t, r in BLOCKS[blk]})
            at["cell_data"] = build(I, {t: {c: data[c][i] for c in data} for i, (t, _) in enumerate(BLOCKS[blk])})
        else:
            at["cells"] = blocks_of(I, blk)
            at["cell_data"] = build(I, data)
            at["cell_sets"] = build(I, {"top": [[0] for _ in exp]})
        v, why = attempt(I, I.call, I.lookup_path("toughio.from_meshio"), [stand_in(I, "meshio.Mesh", at)], {}, None)
        if why is not None or I.opaque:
            o.stop("M5", why, I.opaque, tell, key + "|stop")
            return o.out, None
        whole(o, tell, State(I, v), pts, key, BLOCKS[blk], ("pres", "vec", "material"))
        s = State(I, v)
        o.check("M5", s.psets == {"left": [0, 3]}, tell + ": the point sets are {}".format(s.psets), key + "|sets")
    elif kind == "get_new_meshio_cells":
        od = {t: {"pres": Arr(*[tag("pres", i) for i in e]), "vec": Arr(*[[tag("vec", i, d) for d in range(3)] for i in e])} for e, (t, _) in zip(exp, BLOCKS[blk])}
        v, why = attempt(I, I.call, I.lookup_path("toughio._mesh._common.get_new_meshio_cells"), [build(I, {t: Arr(*r) for t, r in BLOCKS[blk]}), build(I, od)], {}, None)
        items = I.concrete(v) if v is not None else None
        if why is not None or I.opaque or not items or len(items) != 2:
            o.stop("M5", why or "result not known", I.opaque, tell, key + "|stop")
            return o.out, None
        ts = [tree(I, I.getattr(b, "type")) for b in I.concrete(items[0])]
        want = [exp[[t for t, _ in BLOCKS[blk]].index(t)] if t in od else None for t in ts]
        d = tree(I, items[1])
        for c in ("pres", "vec"):
            pieces(o, tell, c, d.get(c) if isinstance(d, dict) else None, want, key)
    return o.out, sorted(I.inlined)


def recorded(I, e):
    """Keyword arguments of a recorded call."""
    out = {}
    for k, x in e.data[1]:
        out[k] = untree(I, x)
    for x in e.data[0]:
        if isinstance(x, T) and x.op == "star":
            d = untree(I, x.args[1])
            if isinstance(d, dict):
                out.update(d)
    return out


def pieces(o, tell, c, got, exp, key):
    if not isinstance(got, list) or not all(isinstance(x, list) for x in got):
        o.check("M5", None, tell + ": {} is not known: {}".format(c, str(got)[:100]), key)
        return
    es = [[owner(c, y) for y in z] for z in got]
    if any(None in z for z in es):
        o.check("M5", None, tell + ": {} is not known".format(c), key)
        return
    o.check("M5", es == exp, tell + ": {} of the blocks is that of cells {} instead of {}".format(c, es, exp), key + "|cell data")


def whole(o, tell, s, pts, key, blocks, names):
    """A mesh holds the given cells and points, each with its own data."""
    if not s.ok():
        o.check("M5", None, tell + ": the mesh is not known", key)
        return
    o.check("M5", len(s.points) == len(pts) and all(same_coords(a, b) for a, b in zip(s.points, pts)), tell + ": the points are {}".format(str(s.points)[:120]), key + "|points")
    for c, r in s.pdata.items():
        es = [owner(c, x) for x in r]
        o.check("M5", None if None in es else es == [str(i) for i in range(len(pts))], tell + ": the point data {} are {}".format(c, str(r)[:120]), key + "|point data")
    rows = [(t, list(r)) for t, b in blocks for r in b]
    mine = [(t, list(r)) for t, r, _ in s.cells()]
    o.check("M5", sorted(mine) == sorted(rows), tell + ": the cells are {}".format(str(mine)[:200]), key + "|cells")
    if sorted(mine) != sorted(rows):
        return
    want = [str(rows.index(x)) for x in mine]
    for c in names:
        r = s.cdata.get(c)
        if not isinstance(r, list) or len(r) != len(rows):
            o.check("M5", False if r is None or isinstance(r, list) else None, tell + ": {} has {} rows".format(c, len(r) if isinstance(r, list) else r), key + "|cell data")
            continue
        es = [owner(c, x) for x in r]
        o.check("M5", None if None in es else es == want, tell + ": {} of the cells is that of cells {} instead of {}".format(c, es, want), key + "|cell data")


VTK = {"hexahedron": 12, "wedge": 13, "voxel": 11, "pixel": 8, "quad": 9, "triangle": 5}
FORV = dict(BLOCKS, **{
    "quads and triangles in the plane": [("quad", [[0, 1, 4, 3], [1, 2, 5, 4]]), ("triangle", [[2, 6, 5]]), ("quad", [[3, 4, 8, 7]])],
})


def pyvista(case):
    kind, blk, nine = case
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": NEW}
    I.ext_hooks[".GetVTKMajorVersion"] = lambda *a: K(9 if nine else 8)
    two = "plane" in blk
    pts = [(float(i), float(i * i % 7), float(-i))[:2 if two else 3] for i in range(15)]
    B = FORV[blk]
    tell = "{} of {} (VTK {})".format(kind, blk, 9 if nine else 8)
    key = "M5|" + kind
    flat, off, typ, k = [], [], [], 0
    for t, rows in B:
        for r in rows:
            off.append(k + len(off) * 0)
            flat += [len(r)] + list(r)
            typ.append(VTK[t])
            k += len(r) + 1
    if kind == "to_pyvista":
        m = make(I, pts, B)
        before = len(I.effects)
        v, why = attempt(I, I.method, m, "to_pyvista", [], {}, None)
        if why is not None or I.opaque:
            o.stop("M5", why, I.opaque, tell, key + "|stop")
            return o.out, None
        es = [e for e in I.effects[before:] if e.kind == "call" and "pyvista.UnstructuredGrid" in str(e.target)]
        ups = [e for e in I.effects[before:] if e.kind in ("mcall", "mutate", "update") and (e.data[0] if isinstance(e.data, tuple) else "") == "update" or e.kind == "update"]
        if len(es) != 1 or es[0].pc:
            o.check("M5", None, tell + ": the grid is not known", key)
            return o.out, None
        a = [untree(I, x) for x in es[0].data[0]]
        if len(a) != (3 if nine else 4) or not all(isinstance(x, list) for x in a):
            o.check("M5", None, tell + ": the grid is not known", key)
            return o.out, None
        if not nine:
            o.check("M5", a[0] == off, tell + ": the offsets are {}".format(a[0]), key + "|offsets")
        o.check("M5", a[-3] == flat, tell + ": the cells are {}".format(a[-3]), key + "|cells")
        o.check("M5", a[-2] == typ, tell + ": the cell types are {}".format(a[-2]), key + "|types")
        o.check("M5", a[-1] == [list(p) + [0.0] * (3 - len(p)) for p in pts], tell + ": the points are {}".format(str(a[-1])[:100]), key + "|points")
        for e in ups:
            args = e.data[3] if e.kind == "mcall" else e.data[1:] if e.kind == "mutate" else ()
            d = untree(I, I.snap(args[0])) if args else None
            if not isinstance(d, dict):
                continue
            which = "point" if "ppres" in d else "cell"
            for c, r in d.items():
                x = [owner(c, y) for y in r] if isinstance(r, list) else [None]
                o.check("M5", None if None in x else x == [str(i) for i in range(15 if which == "point" else len(typ))], tell + ": the {} data {} are {}".format(which, c, str(r)[:120]), key + "|data")
    else:
        if kind == "from_pyvista of voxels":
            B = [("voxel", HEXA), ("wedge", WEDGE)]
        flat, off, typ, k = [], [], [], 0
        for t, rows in B:
            for r in rows:
                off.append(k - (len(off) if nine else 0))
                flat += [len(r)] + list(r)
                typ.append(VTK[t])
                k += len(r) + 1
        n = len(typ)
        at = {"points": build(I, Arr(*pts)), "cells": build(I, Arr(*flat)), "offset": build(I, Arr(*off)), "celltypes": build(I, Arr(*typ)),
              "point_arrays": build(I, arrays(15, "point", "p")), "cell_arrays": build(I, arrays(n, "cell"))}
        v, why = attempt(I, I.call, I.lookup_path("toughio._mesh._mesh.from_pyvista"), [stand_in(I, "pyvista.UnstructuredGrid", at)], {}, None)
        if why is not None or I.opaque:
            o.stop("M5", why, I.opaque, tell, key + "|stop")
            return o.out, None
        if kind == "from_pyvista of voxels":
            turn = lambda r: [r[i] for i in (0, 1, 3, 2, 4, 5, 7, 6)]
            B = [("hexahedron", [turn(r) for r in HEXA]), ("wedge", WEDGE)]
        whole(o, tell, State(I, v), pts, key, B, ("pres", "vec", "temp", "material"))
    return o.out, sorted(I.inlined)


# ---- M6: materials ---------------------------------------------------------------------------------------------


def material(case):
    cells, mat, form = case
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": NEW}
    pts = [(float(i), float(i * i % 7), float(-i)) for i in range(15)]
    m = make(I, pts, BLOCKS["three blocks"])
    start = [2, 1, 2]
    cd = I.getattr(m, "cell_data")
    I.setitem(cd, K("material"), build(I, Arr(*start)), None)
    tell = "set_material({!r}, {} {})".format(mat, form, cells)
    v, why = attempt(I, I.method, m, "set_material", [K(mat), give(I, cells, form)], {}, None)
    if why is not None or I.opaque:
        o.stop("M6", why, I.opaque, tell, "M6|stop")
        return o.out, None
    s = State(I, m)
    fd = tree(I, I.getattr(m, "field_data"))
    if not s.ok() or not isinstance(fd, dict):
        o.check("M6", None, tell + ": the mesh is not known", "M6")
        return o.out, None
    chosen = [i for i in range(3) if (cells[i] if isinstance(cells[0], bool) else i in cells)]
    names = {v_[0]: k for k, v_ in fd.items() if isinstance(v_, list)}
    got = s.cdata.get("material")
    known = isinstance(got, list) and all(isinstance(x, int) for x in got)
    want = [mat if i in chosen else {1: "rock1", 2: "rock2"}[start[i]] for i in range(3)]
    o.check("M6", None if not known else [names.get(x) for x in got] == want, tell + ": the materials are {} instead of {}".format([names.get(x, x) for x in got] if known else got, want), "M6|material")
    for c in ("pres", "vec", "temp"):
        es = [owner(c, x) for x in s.cdata[c]] if isinstance(s.cdata.get(c), list) else [None]
        o.check("M6", None if None in es else es == ["0", "1", "2"], tell + ": {} becomes that of {}".format(c, es), "M6|data")
    return o.out, sorted(I.inlined)


# ---- M7: end materials ----------------------------------------------------------------------------------------------


def ends(case):
    L, mend, form = case
    import c18
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": NEW}
    g = c18.chain(5)
    env, memo = environment(g.X), {}
    tell = "write_tough(material_end={} {})".format(form, mend)
    vals = [[1.5e5 + 1e4 * i, 20.5 + i] for i in range(5)]

    def go(labs):
        m = c18.build(I, g, [("initial_condition", I.nd((5, 2), [K(x) for r in vals for x in r]))])
        kw = {"coord": K(True), "incon": K(True), "material_end": K(mend) if form == "text" else give(I, mend, form)}
        return labs, written(I, m, kw)
    try:
        labs, (recs, why) = c18.with_labels(I, L, 5, go)
        if recs is None:
            o.check("M7", False, tell + ": writing stops: {}".format([(e.kind, e.where()) for e in why]), "M7|stop")
            return o.out, None
        C = [centroid([g.X[k] for k in ids]) for _, ids in g.cells]

        def nearest(p):
            r = [i for i in range(5) if all(isinstance(a, float) and close(a, b) for a, b in zip(p, C[i]))]
            return r[0] if len(r) == 1 else None
        e = [mend] if form == "text" else list(mend)
        want = [i for i in range(5) if c18.MATS[i] not in e] + [i for i in range(5) if c18.MATS[i] in e]
        got = []
        for w, l in block_lines(recs, "ELEME"):
            c = column(l, 0, L)
            if not c or c[0] != "text" or c[1] not in labs:
                raise Opaque("label")
            i = labs.index(c[1])
            got.append(i)
            mat = column(l, 15, 20)
            if mat and mat[0] == "text":
                o.check("M7", mat[1].strip() == c18.MATS[i], tell + ": the element of cell {} has the material {}".format(i, mat[1]), "M7|material")
            j = nearest([value_at(column(l, 50 + 10 * k, 60 + 10 * k), env, memo) for k in range(3)])
            o.check("M7", None if j is None else j == i, tell + ": the element of cell {} has the centre of cell {}".format(i, j), "M7|centre")
        o.check("M7", got == want, tell + ": elements are written in the order {} instead of {}".format(got, want), "M7|order")
        pts = [[value_at(column(l, 20 * k, 20 * k + 20), env, memo) for k in range(3)] for w, l in block_lines(recs, "COORD")]
        idx = [nearest(p) for p in pts]
        o.check("M7", None if None in idx else idx == got, tell + ": the coordinates are those of cells {}, the elements those of cells {}".format(idx, got), "M7|coord")
        ls = block_lines(recs, "INCON")
        for a, b in zip(ls[::2], ls[1::2]):
            c = column(a[1], 0, L)
            i = labs.index(c[1])
            x = [value_at(column(b[1], 20 * k, 20 * k + 20), {}, {}) for k in range(2)]
            ok = all(isinstance(p, (int, float)) and close(float(p), q, 1e-3) for p, q in zip(x, vals[i]))
            o.check("M7", ok, tell + ": the initial conditions of cell {} are {} instead of {}".format(i, x, vals[i]), "M7|incon")
    except (Opaque, CantEval, ValueError, TypeError, ZeroDivisionError) as e:
        o.check("M7", None, tell + ": {!r}".format(e), "M7")
    return o.out, sorted(I.inlined)


# ---- M8: command line --------------------------------------------------------------------------------------------


def grid_file(I, name, pts, steps, present="XYZ", times=None):
    head = ["ELEM"] + list(present) + ["P", "T"]
    P = [K(",".join('"{:>18}"'.format(x) for x in head) + "\n" + ",".join('"{:>18}"'.format("(-)") for _ in head) + "\n")]
    for s in range(steps):
        P += [K('"TIME [sec]  {:.8E}"\n'.format(times[s] if times else s + 1.0))]
        for i, p in enumerate(pts):
            P.append(K('"{:>18}"'.format("AAA%02d" % i) + "".join(",{:20.12E}".format(p["XYZ".index(c)]) for c in present)))
            for c in ("P", "T"):
                P += [K(","), hole(tag("{}{}".format(c, s), i), "e", 20, True, False)]
            P.append(K("\n"))
    I.set_content(name, P)


def scattered(xs, ys, zs, seed):
    pts = [(x, y, z) for x in xs for y in ys for z in zs]
    n = len(pts)
    step = next(k for k in range(seed, 2 * seed + n) if n % k or n == 1 if __import__("math").gcd(k, n) == 1)
    return [pts[(i * step + seed) % n] for i in range(n)]


CLOUD = {
    "a box of points": scattered((1.0, 3.0, 4.0), (1.0, 2.0), (5.0, 6.0, 8.0), 5),
    "a box of points below the origin": scattered((1.0, 3.0), (2.0, 7.0, 9.0), (-8.0, -6.0, -5.0), 7),
    "a line of points": scattered((3.0,), (2.0,), (1.0, 5.0, 7.0, 8.0), 3),
    "a line along x": scattered((4.0, 1.0, 2.0, 8.0, 9.0), (2.0,), (1.0,), 2),
    "a plane of points": scattered((1.0, 3.0, 4.0), (2.0, 3.0), (5.0,), 5),
}


def export(case):
    cloud, fmt, opts, steps, step, times = case
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": NEW}
    pts = CLOUD[cloud]
    grid_file(I, "OUT.csv", pts, steps, times=times)
    out = "a." + fmt
    argv = ["OUT.csv", "-o", out, "-f", fmt] + opts + ([] if step is None else ["-t", str(step)])
    tell = "export {} of {}".format(" ".join(argv[3:]), cloud)
    before = len(I.effects)
    v, why = attempt(I, I.call, I.lookup_path("toughio._cli.export"), [build(I, argv)], {}, None)
    if why is not None or I.opaque:
        o.stop("M8", why, I.opaque, tell, "M8|stop")
        return o.out, None
    evs = I.effects[before:]
    found = []
    if fmt == "xdmf":
        ms = [e for e in evs if e.kind == "mcall" and e.data[0] == "write_points_cells" and not e.pc]
        ds = [e for e in evs if e.kind == "mcall" and e.data[0] == "write_data" and not e.pc]
        if len(ms) == 1:
            a = [I.concrete(x) if k else tree(I, x) for k, x in enumerate(ms[0].data[3])]
            blocks = [(tree(I, I.getattr(b, "type")), tree(I, I.getattr(b, "data"))) for b in a[1] or []]
            for e in ds:
                d = {k: untree(I, x) for k, x in e.data[2]}
                t = untree(I, e.data[1][0])
                found.append((a[0], blocks, d.get("point_data"), d.get("cell_data"), t))
        ts = sorted(times or [s + 1.0 for s in range(steps)])
        o.check("M8", None if not found else [f[4] for f in found] == ts, tell + ": the times {} are written".format([f[4] for f in found]), "M8|times")
        which = [(times or [s + 1.0 for s in range(steps)]).index(t) for t in ts]
    else:
        es = [e for e in evs if e.kind == "call" and "meshio.Mesh" in str(e.target) and not e.pc]
        for e in es:
            d = {k: x for k, x in e.data[1]}
            d2 = recorded(I, e)
            at = call_kwargs(I, e)
            blocks = [(tree(I, I.getattr(b, "type")), tree(I, I.getattr(b, "data"))) for b in I.concrete(at["cells"]) or []] if "cells" in at else []
            found.append((d2.get("points"), blocks, d2.get("point_data"), d2.get("cell_data"), None))
        which = [range(steps)[-1 if step is None else step]]
    if len(found) != len(which):
        o.check("M8", None, tell + ": what is written is not known", "M8")
        return o.out, None
    for (P, blocks, pd, cd, t), s in zip(found, which):
        for c in ("P", "T"):
            if "-v" in opts or "line" in cloud:
                r = cd.get(c) if isinstance(cd, dict) else None
                ok = isinstance(r, list) and all(isinstance(x, list) for x in r) and isinstance(P, list) and numbers(P)
                rows = [x for _, b in blocks for x in b] if ok and all(isinstance(b, list) for _, b in blocks) else None
                vals = sum(r, []) if ok else None
                if not rows or len(rows) != len(vals):
                    o.check("M8", None, tell + ": cell data not known", "M8")
                    continue
                es = [owner("{}{}".format(c, s), x) for x in vals]
                if None in es:
                    o.check("M8", None, tell + ": cell data not known", "M8")
                    continue
                # the cell whose box holds the point, by rank along each axis
                cent = [[sum(P[k][d] for k in q) / len(q) for d in range(3)] for q in rows]
                rank = lambda xs: {x: i for i, x in enumerate(sorted(set(round(y, 9) for y in xs)))}
                rc = [rank([q[d] for q in cent]) for d in range(3)]
                rp = [rank([q[d] for q in pts]) for d in range(3)]
                byp = {tuple(rp[d][round(q[d], 9)] for d in range(3)): str(i) for i, q in enumerate(pts)}
                want = [byp.get(tuple(rc[d][round(q[d], 9)] for d in range(3))) for q in cent]
                bad = [(i, es[i], want[i]) for i in range(len(es)) if es[i] != want[i]]
                o.check("M8", not bad, tell + ": {} on the cell around the point {} is that of point {}".format(c, *((bad[0][2], bad[0][1] or vals[bad[0][0]]) if bad else (0, 0))), "M8|voxels|{}".format(fmt == "xdmf"))
            else:
                r = pd.get(c) if isinstance(pd, dict) else None
                es = [owner("{}{}".format(c, s), x) for x in r] if isinstance(r, list) else [None]
                if None in es or not isinstance(P, list) or not numbers(P):
                    o.check("M8", None, tell + ": point data not known", "M8")
                    continue
                flat = "plane" in cloud
                want = [str(i) for q in P for i, p in enumerate(pts) if same_coords(q[:2] if flat else q, p[:2] if flat else p)]
                o.check("M8", es == want, tell + ": {} on the points {} is that of points {}".format(c, want, es), "M8|points|{}".format(fmt == "xdmf"))
    return o.out, sorted(I.inlined)


def call_kwargs(I, e):
    """Unsnapped keyword arguments of a recorded call, when kept."""
    out = {}
    for k, x in e.data[1]:
        out[k] = x
    return out


# ---- M9: interpolation ------------------------------------------------------------------------------------------------


def mispaired(v):
    """(entity, cell) of a value multiplied by the volume of another cell than its own."""
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, T):
            if x.op == "bin" and x.args[0] == "Mult":
                a, b = who(x.args[1]) or (), who(x.args[2]) or ()
                if len(a) == len(b) == 1:
                    (a,), (b,) = sorted((a, b), key=lambda z: next(iter(z))[0] == "vol")
                    if b[0] == "vol" and a[0] != "vol" and a[1] != b[1]:
                        return a[1], b[1]
            todo += x.args
    return None


def interpolate(case):
    kind, blk = case
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": NEW}
    pts = [(float(i), float(i * i % 7), float(-i)) for i in range(15)]
    m = make(I, pts, BLOCKS[blk])
    cd = I.getattr(m, "cell_data")
    q = I.lookup_path("toughio._mesh._properties._volumes")
    n = sum(len(r) for _, r in BLOCKS[blk])
    if q is not None:
        I.hooks[q.qual] = lambda *a, **k: I.nd((n,), [tag("vol", i) for i in range(n)])
    tell = "{} of {}".format(kind, blk)
    v, why = attempt(I, I.method, m, kind, [], {}, None)
    if why is not None or I.opaque:
        o.stop("M9", why, I.opaque, tell, "M9|{}|stop".format(kind))
        return o.out, None
    rows = [r for _, b in BLOCKS[blk] for r in b]
    d = tree(I, I.getattr(m, "point_data" if kind == "cell_data_to_point_data" else "cell_data"))
    if not isinstance(d, dict):
        o.check("M9", None, tell + ": result not known", "M9")
        return o.out, None
    names = ("pres", "temp", "vec") if kind == "cell_data_to_point_data" else ("ppres", "ptemp", "pvec")
    for c in names:
        r = d.get(c)
        if not isinstance(r, list):
            o.check("M9", False if c not in d else None, tell + ": no array {}".format(c), "M9|{}|lost".format(kind))
            continue
        for i, x in enumerate(r):
            want = set(str(k) for k, q_ in enumerate(rows) if i in q_) if kind == "cell_data_to_point_data" else set(str(k) for k in rows[i])
            if not want:
                continue
            ds = [(None, x)] if not isinstance(x, list) else list(enumerate(x))
            if c in ("vec", "pvec") and not isinstance(x, list):
                w = who(x)
                o.check("M9", None if w is None else False, tell + ": the components of {} are mixed".format(c), "M9|{}|components".format(kind))
                break
            for dd, y in ds:
                w = who(y)
                if w is None:
                    o.check("M9", None, tell + ": {} not known".format(c), "M9")
                    continue
                bad = mispaired(y)
                o.check("M9", not bad, tell + ": {} of {} is weighted with the volume of cell {}".format(c, *(bad or (0, 0))), "M9|{}|weights".format(kind))
                w = set(t for t in w if t[0] != "vol")
                got = set(t[1] for t in w)
                okc = all(t[0] == c and t[2] == ("" if dd is None else str(dd)) for t in w)
                o.check("M9", got == want and okc, tell + ": {} at {} comes from {} of {} instead of {}".format(
                    c, i, sorted(set(t[0] for t in w)), sorted(got), sorted(want)), "M9|{}|data".format(kind))
    return o.out, sorted(I.inlined)


# ---- cases -----------------------------------------------------------------------------------------------------------


def cases(tier):
    for name in PRUNE:
        for inplace in (True, False):
            yield prune, (name, inplace, False), ME + ": prune_duplicates"
        yield prune, (name, True, True), ME + ": prune_duplicates"
    for blk in FBLOCKS:
        for h in HEIGHTS:
            for axis in (2, 0, 1):
                for space in (False, True):
                    if tier == "quick" and (axis == 1 or h.startswith("array")) and space:
                        continue
                    yield extrude, (blk, h, axis, True, space, False), ME + ": extrude_to_3d"
            yield extrude, (blk, h, 2, False, False, False), ME + ": extrude_to_3d"
        yield extrude, (blk, "1.0", 2, True, False, True), ME + ": extrude_to_3d"
    for p in itertools.permutations(range(3)):
        for form in ("list", "tuple", "array"):
            yield labels, ("reorder_labels", L5[:3], [L5[i] for i in p], form), "toughio/_io/output/_common.py: reorder_labels"
        yield labels, ("reorder_labels", [L5[i] for i in p], L5[:3], "array"), "toughio/_io/output/_common.py: reorder_labels"
        yield labels, ("read_output", [L5[:3], [L5[i] for i in p]], L5[:3], "array"), "toughio/_io/output/_common.py: to_output"
        yield labels, ("read_output", [[L5[i] for i in p], L5[:3]], [L5[2], L5[0], L5[1]], "list"), "toughio/_io/output/_common.py: to_output"
        yield labels, ("read_output", [[L5[i] for i in p], L5[:3], L5[2::-1]], None, None), "toughio/_io/output/_common.py: to_output"
        for steps, step, how in ((1, None, "one"), (2, None, "list"), (3, 0, "list"), (3, 1, "tuple"), (3, -2, "list"), (3, -3, "list")):
            yield mesh_read, (p, steps, step, how), ME + ": read_output"
    for n in (4, 5):        # also orders that keep the first and the last
        some = [p for p in itertools.permutations(range(n)) if (p[0], p[-1]) == (0, n - 1) or p[0] == n - 1]
        for p in some if tier != "quick" else some[:5] + some[-2:]:
            yield mesh_read, (p, 1, None, "one"), ME + ": read_output"
            yield labels, ("reorder_labels", [L5[i] for i in p], L5[:n], "array"), "toughio/_io/output/_common.py: reorder_labels"
            yield labels, ("reorder_labels", L5[:n], [L5[i] for i in p], "list"), "toughio/_io/output/_common.py: reorder_labels"
            yield labels, ("read_output", [[L5[i] for i in p], L5[:n]], L5[:n], "array"), "toughio/_io/output/_common.py: to_output"
    for p in itertools.permutations(range(5)):
        if tier != "quick" or p in ((4, 2, 0, 3, 1), (1, 2, 3, 4, 0), (3, 0, 4, 1, 2)):
            yield labels, ("reorder_labels", L5, [L5[i] for i in p], "list"), "toughio/_io/output/_common.py: reorder_labels"
    for perm in ((0, 1), (1, 0)):
        for neg in ((), (0,), (1,), (0, 1)):
            yield flows, (perm, neg), ME + ": read_output"
    for blk in BLOCKS:
        for ver in (NEW, OLD):
            for times in itertools.permutations((1.0, 2.5, 4.0)):
                for what in ("pc", "p", "c") if times == (4.0, 1.0, 2.5) else ("pca",) if times[0] == 2.5 else ("pct",):
                    yield series, (blk, times, ver, what), "toughio/_mesh/_helpers.py: write_time_series"
            yield series, (blk, None, ver, "pc"), "toughio/_mesh/_helpers.py: write_time_series"
            if not (ver == OLD and blk == "three blocks"):
                yield series_read, (blk, ver), "toughio/_mesh/_helpers.py: read_time_series"
                yield convert, ("from_meshio", blk, ver), ME + ": from_meshio"
            if blk != "three blocks":
                yield convert, ("get_new_meshio_cells", blk, ver), "toughio/_mesh/_common.py: get_new_meshio_cells"
            yield convert, ("to_meshio", blk, ver), ME + ": to_meshio"
        yield convert, ("split", blk, NEW), ME + ": split"
        for kind in ("cell_data_to_point_data", "point_data_to_cell_data"):
            yield interpolate, (kind, blk), ME + ": " + kind
    for blk in FORV:
        for nine in (True, False):
            for kind in ("to_pyvista", "from_pyvista"):
                yield pyvista, (kind, blk, nine), ME + ": " + kind
    for nine in (True, False):
        yield pyvista, ("from_pyvista of voxels", "one block", nine), ME + ": from_pyvista"
    for cells in ([0], [2], [1, 2], [2, 0], [0, 1, 2], [True, False, True], [False, True, False], [True, True, True]):
        for mat in ("rock1", "rock2", "new"):
            for form in ("list", "array"):
                yield material, (cells, mat, form), ME + ": set_material"
    for L in (5, 7) if tier == "quick" else (5, 6, 7, 8, 9):
        for mend, form in (("rock1", "text"), ("rock2", "text"), ("bound", "text"), (["rock1"], "list"), (["bound", "rock1"], "list"), (["rock1", "rock2"], "tuple"),
                           (["rock2", "bound"], "array"), (["none"], "list"), (["rock1", "rock2", "bound"], "list")):
            yield ends, (L, mend, form), "toughio/_mesh/tough/_tough.py"
    X = "toughio/_cli/_export.py"
    for cloud in CLOUD:
        org = ["--origin", "0", "0", "-9"] if "below" in cloud else ["--origin", "0", "0", "0"]
        for vox in (["-v"] + org, ["-v", "--layer"] + org) if "line" not in cloud else (org,):
            for fmt, steps, step, times in (("vtk", 2, None, None), ("vtu", 3, 1, None), ("vtk", 3, -3, None), ("xdmf", 3, None, None), ("xdmf", 3, None, [4.0, 1.0, 2.0])):
                yield export, (cloud, fmt, vox, steps, step, times), X
        if "line" not in cloud:
            for fmt, steps, step, times in (("vtk", 2, None, None), ("vtu", 3, 0, None), ("xdmf", 2, None, None), ("xdmf", 3, None, [4.0, 1.0, 2.0])):
                yield export, (cloud, fmt, [], steps, step, times), X


def go(c):
    f, case, where = c
    return f(case)


def run(rep, tier):
    for k, v in RULES.items():
        rep.rule(k, v)
    todo = list(cases(tier))
    names = set()
    for (f, case, where), r in zip(todo, pmap(go, todo)):
        rep.count("operations followed")
        if r is None:
            rep.unknown({"prune": "M1", "extrude": "M2", "series": "M4", "series_read": "M4", "convert": "M5", "pyvista": "M5", "material": "M6", "ends": "M7",
                         "export": "M8", "interpolate": "M9"}.get(f.__name__, "M3"), where, "{}: not followed".format(case))
            continue
        out, fns = r
        names.update(fns or ())
        for rule, ok, msg, key in out:
            if ok is None:
                rep.unknown(rule, where, msg)
            elif ok:
                rep.ok(rule, "{}: {}".format(where, str(case)[:150]))
            else:
                rep.bad(rule, where, msg, key)
    rep.assumptions.append("meshes of at most 16 points and 4 cells, outputs of at most 5 labels and 3 times; entries are opaque symbols, so only their places matter")
    analysed(rep)
    rep.analysed["functions interpreted"] = len(names)
