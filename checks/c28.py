"""C28: volumes, areas and distances are those of the geometry (expressions extracted from the source)."""
import itertools

import c11
import c13
from engine import Dead
from geom import CELLS, CantEval, centroid, close, num, volume
from meshmodel import environment, get, mesh, nested
from models import analysed, text_interp
from values import K, T


class Only:
    """View of a report that keeps the given rules."""

    def __init__(self, rep, rules):
        self.rep, self.keep = rep, rules

    def __getattr__(self, name):
        return getattr(self.rep, name)

    def rule(self, rid, text):
        pass

    def _f(name):
        def f(self, rid, *a, **k):
            if rid in self.keep:
                return getattr(self.rep, name)(rid, *a, **k)
            return True
        return f

    ok, unknown, bad = _f("ok"), _f("unknown"), _f("bad")

    def check(self, rid, cond, where, what, key=None):
        if rid not in self.keep:
            return cond
        return self.rep.check(rid, cond, where, what, key)


def run(rep, tier):
    I = text_interp()
    rep.rule("V1", "the volume expression of each cell type is the volume of the cell")
    rep.rule("F4", "the area expression of each face is the area of the face")
    rep.rule("V2", "in a mesh of several blocks the i-th volume, centre and face areas are those of the i-th cell")
    rep.rule("J2", "normals and areas of glued cells are those of their faces")
    rep.rule("J3", "distances, areas and direction cosines of the exported connections are those of the geometry")
    rep.rule("J4", "areas and volumes of cylindrical meshes are those of the rings")
    rep.rule("G1", "structured and voxelised grids consist of exactly the requested boxes, placed at the origin")
    rep.rule("N1", "near returns the cell whose centre is closest")
    v = Only(rep, {"V1", "F4", "J2", "J3", "J4"})
    c11.run(v, tier)
    for name, g, order in c13.cases(tier)[-5:]:
        c13.tables(v, I, name, g, order)
        blocks(rep, I, name, g, order)
    c13.conne(v, I, tier)
    c13.aligned(v, I)
    c13.cylinders(v, I)
    grids(rep, I)
    voxels(rep, I)
    near(rep, I)
    rep.assumptions += ["planar faces and convex cells", "floating point rounding is not considered"]
    analysed(rep)


def blocks(rep, I, name, g, order):
    where = "toughio/_mesh/_properties.py ({})".format(name)
    m = mesh(I, g.blocks(order), len(g.X))
    cells = [g.cells[i] for i in (order or range(len(g.cells)))]
    env, memo = environment(g.X), {}
    vv, w = get(I, m, "volumes")
    cv, w2 = get(I, m, "centers")
    vols, cen = nested(I, vv) if vv is not None else None, nested(I, cv) if cv is not None else None
    if vols is None or cen is None:
        if w or w2:
            rep.bad("V2", where, "volumes or centres cannot be computed: {}".format(w or w2), "V2|fail")
        else:
            rep.unknown("V2", where, "not resolved")
        return
    try:
        gv = [num(x, env, memo) for x in vols]
        gc = [[num(x, env, memo) for x in p] for p in cen]
    except (CantEval, ZeroDivisionError, ValueError, TypeError) as e:
        rep.unknown("V2", where, repr(e))
        return
    want = [volume(ty, [g.X[i] for i in ids]) for ty, ids in cells]
    bad = [i for i in range(len(cells)) if i >= len(gv) or not close(gv[i], want[i])]
    rep.check("V2", not bad and len(gv) == len(cells), where, "volumes {} are not those of cells {} ({})".format(
        [gv[i] if i < len(gv) else None for i in bad], bad, [cells[i][0] for i in bad]), "V2|volumes")
    wc = [centroid([g.X[i] for i in ids]) for _, ids in cells]
    bad = [i for i in range(len(cells)) if i >= len(gc) or not all(close(a, b) for a, b in zip(gc[i], wc[i]))]
    rep.check("V2", not bad, where, "centres of cells {} are not those of their nodes".format(bad), "V2|centres")


def boxes(I, m, env):
    """Bounding boxes and types of the cells of a mesh of boxes."""
    memo = {}
    pv, _ = get(I, m, "points")
    pts = nested(I, pv) if pv is not None else None
    blocks = I.concrete(I.getattr(m, "cells"))
    if pts is None or blocks is None:
        return None
    X = [tuple(num(x, env, memo) for x in p) for p in pts]
    out = []
    for b in blocks:
        ty, data = I.getattr(b, "type"), nested(I, I.getattr(b, "data"))
        if not isinstance(I.resolve(ty), K) or data is None:
            return None
        for r in data:
            if not all(isinstance(i, K) for i in r):
                return None
            out.append((I.resolve(ty).v, [X[i.v] for i in r]))
    return out


def lines(start, d):
    out = [start]
    for x in d:
        out.append(out[-1] + x)
    return out


def compare(rep, where, case, cells, gx, gy, gz, key):
    want = set()
    for a, b, c in itertools.product(zip(gx, gx[1:]), zip(gy, gy[1:]), zip(gz, gz[1:]) if gz else [(0.0, 0.0)]):
        want.add(tuple(round(v, 9) for v in (a[0], b[0], c[0], a[1], b[1], c[1])))
    ref = CELLS["hexahedron"] if gz else [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)]
    got = []
    for ty, pts in cells:
        lo = [min(p[k] for p in pts) for k in range(3)]
        hi = [max(p[k] for p in pts) for k in range(3)]
        got.append(tuple(round(v, 9) for v in lo + hi))
        shape = [tuple(lo[k] + q[k] * (hi[k] - lo[k]) for k in range(3)) for q in ref]
        if ty != ("hexahedron" if gz else "quad") or len(pts) != len(shape):
            rep.bad("G1", where, "{}: a cell is a {} of {} nodes".format(case, ty, len(pts)), key)
            return
        if gz:
            # same corners, and numbering of a valid hexahedron
            if sorted(map(rnd, pts)) != sorted(map(rnd, shape)) or not valid(pts):
                rep.bad("G1", where, "{}: the nodes {} are not those of a hexahedron".format(case, pts), key)
                return
        elif sorted(map(rnd, pts)) != sorted(map(rnd, shape)) or not close(abs(area2(pts)), (hi[0] - lo[0]) * (hi[1] - lo[1])):
            rep.bad("G1", where, "{}: the nodes {} are not those of a quadrangle".format(case, pts), key)
            return
    rep.check("G1", len(got) == len(want) and set(got) == want, where, "{}: {} cells of which {} are among the {} requested boxes; e.g. {} is missing".format(
        case, len(got), len(set(got) & want), len(want), sorted(want - set(got))[:1]), key)


def rnd(p):
    return tuple(round(x, 9) for x in p)


def area2(p):
    return sum(p[i][0] * p[(i + 1) % len(p)][1] - p[(i + 1) % len(p)][0] * p[i][1] for i in range(len(p))) / 2.0


def valid(pts):
    """Edges of the hexahedron numbering are edges of the box."""
    for a, b in ((0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)):
        if sum(1 for k in range(3) if not close(pts[a][k], pts[b][k])) != 1:
            return False
    return True


def grids(rep, I):
    fn = I.lookup_path("toughio.meshmaker.structured_grid")
    where = "toughio/meshmaker/_structured_grid.py"
    for n in ((3, 2, 2), (1, 3, 2), (2, 2, 1), (2, 3, None)):
        for layer in (False, True):
            for origin in (None, "given"):
                vals = [[1.0 + 0.3 * i + 0.7 * k + 0.05 * i * i for i in range(m or 0)] for k, m in enumerate(n)]
                d = [I.nd((m,), [T("scalar", "d", k, i) for i in range(m)]) if m else K(None) for k, m in enumerate(n)]
                env = {T("scalar", "d", k, i): v for k, l in enumerate(vals) for i, v in enumerate(l)}
                dim = 3 if n[2] else 2
                o = [T("scalar", "o", k) for k in range(dim)]
                env.update({x: 10.0 + 3 * k for k, x in enumerate(o)})
                kw = {"layer": K(layer)}
                if origin:
                    kw["origin"] = I.new_list(o)
                case = "spacings {}, layer={}, origin {}".format(n, layer, origin)
                try:
                    m = I.call(fn, [d[0], d[1], d[2]], kw, None)
                    cells = boxes(I, m, env)
                except Dead:
                    rep.bad("G1", where, case + ": the call always fails", "G1|fail")
                    continue
                except (CantEval, ZeroDivisionError, ValueError, TypeError, IndexError) as e:
                    rep.unknown("G1", where, "{}: {!r}".format(case, e))
                    continue
                if cells is None:
                    rep.unknown("G1", where, case + ": not resolved")
                    continue
                st = [10.0, 13.0, 16.0] if origin else [0.0, 0.0, -sum(vals[2])]
                compare(rep, where, case, cells, lines(st[0], vals[0]), lines(st[1], vals[1]),
                        lines(st[2], vals[2]) if dim == 3 else None, "G1|structured")
                rep.count("grids")


def voxels(rep, I):
    fn = I.lookup_path("toughio.meshmaker.voxelize")
    where = "toughio/meshmaker/_voxelize.py"
    xs, ys, zs = [1.0, 2.5, 5.0], [0.5, 2.0], [-3.0, -1.5]
    o = [0.25, 0.0, -4.0]
    vor = []
    for l, x0 in zip((xs, ys, zs), o):
        g = [x0]
        for x in l:
            g.append(2 * x - g[-1])
        vor.append(g)
    pts = [p for p in itertools.product(xs, ys, zs)]
    pts = pts[5:] + pts[:5]
    for layer in (False, True):
        try:
            m = I.call(fn, [I.nd((12, 3), [K(x) for p in pts for x in p]), I.new_list([K(x) for x in o])], {"layer": K(layer)}, None)
            cells = boxes(I, m, {})
        except Dead:
            rep.unknown("G1", where, "not followed")
            continue
        except (CantEval, ZeroDivisionError, ValueError, TypeError, IndexError) as e:
            rep.unknown("G1", where, repr(e))
            continue
        if cells is None:
            rep.unknown("G1", where, "not resolved")
            continue
        compare(rep, where, "voxelize, layer={}".format(layer), cells, vor[0], vor[1], vor[2], "G1|voxelize")
        rep.count("grids")


def near(rep, I):
    where = "toughio/_mesh/_mesh.py (near)"
    X = [tuple(float(v) for v in p) for p in itertools.product((0, 1, 3, 7), (0, 1), (0, 1))]
    ix = {p: i for i, p in enumerate(X)}
    rows = []
    for a, b in ((0, 1), (1, 3), (3, 7)):
        rows.append([ix[(float((a, b)[int(p[0])]), float(p[1]), float(p[2]))] for p in CELLS["hexahedron"]])
    m = mesh(I, [("hexahedron", rows)], len(X))
    env = environment(X)
    try:
        r = I.call(I.getattr(m, "near"), [I.nd((3, 3), [K(x) for p in ((6.0, .5, .5), (0.2, 0.1, 0.3), (2.2, 5.0, -1.0)) for x in p])], {}, None)
        got = [num(x, env) for x in nested(I, r)]
        one = num(I.resolve(I.call(I.getattr(m, "near"), [I.nd((3,), [K(1.6), K(0.0), K(0.0)])], {}, None)), env)
    except (Dead, CantEval, ZeroDivisionError, ValueError, TypeError) as e:
        rep.unknown("N1", where, repr(e))
        return
    rep.check("N1", got == [2, 0, 1] and one == 1, where, "the cells found near the points are {} and {}".format(got, one), "N1")
