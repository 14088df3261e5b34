"""C13: quantities of a face come from the same face."""
import itertools
import math

from engine import Dead
from geom import CELLS, CantEval, centroid, close, dot, hull_faces, norm, num, sub, vec_area, volume
from meshmodel import Glued, environment, face_rows, get, mesh, nested
from models import analysed, text_interp
from export import block_lines, column, fail, labels_of, value_at, written
from textmodel import Opaque
from values import K, T

ANCH = "toughio/_mesh/_properties.py"


def by_size(ty):
    return {n: [c for c in hull_faces(ty).values() if len(c) == n] for n in (3, 4)}


def cases(tier):
    """Glued meshes: every pair of cell types through every kind of face, plus mixed chains in several block orders."""
    out = []
    for a, b in itertools.product(CELLS, CELLS):
        fa, fb = by_size(a), by_size(b)
        for n in (3, 4):
            for i, f in enumerate(fa[n]):
                if not fb[n]:
                    continue
                # every face of a, the faces of b in turn
                gs = [fb[n][i % len(fb[n])]] if tier == "quick" else fb[n]
                for g in gs:
                    m = Glued(a, 1)
                    m.glue(0, f, b, g)
                    out.append(("{}+{} by {} nodes".format(a, b, n), m, None))
    m = Glued("wedge", 1)
    W, P, H, Te = by_size("wedge"), by_size("pyramid"), by_size("hexahedron"), by_size("tetra")
    m.glue(0, W[4][0], "hexahedron", H[4][0])
    m.glue(0, W[3][0], "tetra", Te[3][0])
    m.glue(0, W[4][1], "pyramid", P[4][0])
    m.glue(0, W[3][1], "wedge", W[3][0])
    for order in (None, [4, 3, 2, 1, 0], [1, 0, 4, 2, 3], [3, 1, 2, 0, 4], [2, 0, 3, 4, 1]):
        out.append(("wedge with a neighbour on every face, cell order {}".format(order), m, order))
    return out


def run(rep, tier):
    I = text_interp()
    rep.rule("J1", "connections[i][k] is the cell on the other side of face k of cell i, -1 without one")
    rep.rule("J2", "face_normals[i][k] and face_areas[i][k] are those of faces[i][k]")
    rep.rule("J3", "a CONNE record holds, in its columns, labels, direction, distances, area and cosine of one face")
    rep.rule("J4", "areas and volumes of the cylindrical mesh are those of the ring each cell stands for")
    rep.rule("J5", "qualities are the cosine between the line of centres and the normal of the shared face")
    seen = set()
    for name, g, order in cases(tier):
        key = repr((name, g.blocks(order)))
        if key in seen:
            continue
        seen.add(key)
        tables(rep, I, name, g, order)
    rep.count("meshes", len(seen))
    conne(rep, I, tier)
    aligned(rep, I)
    cylinders(rep, I)
    rep.assumptions += ["conforming meshes of convex cells", "extracted expressions are compared at fixed coordinates"]
    analysed(rep)


def geometry(g, order):
    idx = list(order or range(len(g.cells)))
    cells = [g.cells[i] for i in idx]
    faces = []
    for ty, ids in cells:
        faces.append({frozenset(ids[i] for i in h): [g.X[ids[i]] for i in cyc] for h, cyc in hull_faces(ty).items()})
    return cells, faces


def tables(rep, I, name, g, order):
    m = mesh(I, g.blocks(order), len(g.X))
    cells, faces = geometry(g, order)
    env, memo = environment(g.X), {}
    where = "{} ({})".format(ANCH, name)
    fv, w0 = get(I, m, "faces")
    rows = face_rows(I, fv) if fv is not None else None
    if rows is None:
        if w0:
            rep.bad("J2", where, "faces cannot be computed: " + w0, "faces|fail")
        else:
            rep.unknown("J2", where, "face table not resolved")
        return
    cv, w1 = get(I, m, "connections")
    conn = nested(I, cv) if cv is not None else None
    if conn is None or not all(isinstance(x, K) for r in conn for x in r):
        if w1:
            rep.bad("J1", where, "connections cannot be computed: " + w1, "J1|fail")
        else:
            rep.unknown("J1", where, "connections not resolved")
    else:
        bad = None
        for i, fs in enumerate(rows):
            for k in range(max(len(fs), len(conn[i]))):
                f = frozenset(fs[k]) if k < len(fs) else None
                want = [j for j in range(len(cells)) if j != i and f in faces[j]] if f is not None else []
                got = conn[i][k].v if k < len(conn[i]) else -1
                if got != (want[0] if want else -1):
                    bad = bad or (i, k, fs[k] if k < len(fs) else None, got, want)
        if bad:
            i, k, f, got, want = bad
            rep.bad("J1", where, "connections[{}][{}] is {} but face {} {} of that cell ({}) touches {}".format(
                i, k, got, k, f, cells[i][0], want or "no cell"), "J1|" + cells[i][0])
        else:
            rep.ok("J1", name)
    for what, idx in (("face_normals", 0), ("face_areas", 1)):
        v, w = get(I, m, what)
        t = nested(I, v) if v is not None else None
        if t is None:
            if w:
                rep.bad("J2", where, "{} cannot be computed: {}".format(what, w), "J2|{}|fail".format(what))
            else:
                rep.unknown("J2", where, what + " not resolved")
            continue
        bad = None
        try:
            for i, fs in enumerate(rows):
                if len(t) <= i or len(t[i]) < len(fs):
                    bad = bad or (i, len(t[i]) if i < len(t) else 0, "missing")
                    continue
                for k, f in enumerate(fs):
                    pts = faces[i].get(frozenset(f))
                    if pts is None:
                        continue        # C11
                    a = vec_area(pts)
                    A = norm(a)
                    if idx:
                        got = num(t[i][k], env, memo)
                        ok = close(got, A)
                    else:
                        got = [num(x, env, memo) for x in t[i][k]]
                        ok = close(abs(dot(got, a)) / A, norm(got))
                    if not ok:
                        bad = bad or (i, k, got)
        except (CantEval, ZeroDivisionError, ValueError, TypeError) as e:
            rep.unknown("J2", where, "{} not evaluated: {!r}".format(what, e))
            continue
        if bad:
            rep.bad("J2", where, "{}[{}][{}] is {} which is not that of face {} of this {}".format(
                what, bad[0], bad[1], bad[2], rows[bad[0]][bad[1]] if bad[1] < len(rows[bad[0]]) else "-", cells[bad[0]][0]),
                "J2|{}|{}".format(what, cells[bad[0]][0]))
        else:
            rep.ok("J2", "{} of {}".format(what, name))
    qv, w = get(I, m, "qualities")
    q = nested(I, qv) if qv is not None else None
    if q is None:
        rep.unknown("J5", where, w or "qualities not resolved")
        return
    try:
        C = [centroid([g.X[i] for i in ids]) for _, ids in cells]
        bad = None
        for i in range(len(cells)):
            vals = []
            for f, pts in faces[i].items():
                for j in range(len(cells)):
                    if j != i and f in faces[j]:
                        a, l = vec_area(pts), sub(C[j], C[i])
                        vals.append(abs(dot(a, l)) / norm(a) / norm(l))
            if vals and not close(num(q[i], env, memo), min(vals)):
                bad = bad or (i, num(q[i], env, memo), min(vals))
        if bad:
            rep.bad("J5", where, "the quality of cell {} ({}) is {} where its worst connection has {}".format(
                bad[0], cells[bad[0]][0], bad[1], bad[2]), "J5")
        else:
            rep.ok("J5", name)
    except (CantEval, ZeroDivisionError, ValueError, TypeError) as e:
        rep.unknown("J5", where, "not evaluated: {!r}".format(e))


def conne(rep, I, tier):
    W, P, H, Te = by_size("wedge"), by_size("pyramid"), by_size("hexahedron"), by_size("tetra")
    m = Glued("wedge", 1)
    m.glue(0, W[4][0], "hexahedron", H[4][0])
    m.glue(0, W[3][0], "tetra", Te[3][0])
    m.glue(1, H[4][1], "pyramid", P[4][0])
    for order in ([0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2]):
        for nd in ("line", "orthogonal"):
            for bc in (False, True):
                one_conne(rep, I, m, order, nd, bc)


def one_conne(rep, I, g, order, nd, bc):
    where = "toughio/_mesh/tough/_tough.py (nodal_distance={}{})".format(nd, ", boundary cells" if bc else "")
    m = mesh(I, g.blocks(order), len(g.X))
    cells, faces = geometry(g, order)
    flags = [0] * len(cells)
    if bc:
        flags = [1, 0] + [0] * (len(cells) - 2)
        d = I.new_dict([(K("boundary_condition"), I.nd((len(cells),), [K(x) for x in flags]))])
        I.setattr(m, "cell_data", d, None)
    labels = labels_of(I, m)
    try:
        recs, why = written(I, m, {"nodal_distance": K(nd)})
    except Opaque as e:
        fail(rep, "J3", where, nd, e, "J3|format")
        return
    if recs is None:
        rep.bad("J3", where, "writing always fails: {}".format([(e.kind, str(e.data)[:80], e.where()) for e in why]), "J3|fail")
        return
    env, memo = environment(g.X), {}
    try:
        ls = block_lines(recs, "CONNE")
    except Opaque as e:
        fail(rep, "J3", where, nd, e, "J3|format")
        return
    if labels is None or not ls:
        rep.unknown("J3", where, "labels or records not resolved")
        return
    C = [centroid([g.X[i] for i in ids]) for _, ids in cells]
    pairs = {}
    for i in range(len(cells)):
        for f, pts in faces[i].items():
            for j in range(len(cells)):
                if j != i and f in faces[j]:
                    pairs[frozenset((i, j))] = pts
    L = len(labels[0])
    done = {}
    for w, l in ls:
        c = column(l, 0, 2 * L)
        if not c or c[0] != "text":
            rep.unknown("J3", w, "labels of a connection not resolved")
            return
        a, b = c[1][:L], c[1][L:]
        if a not in labels or b not in labels:
            rep.bad("J3", w, "a connection is written between {!r} and {!r}, which are not cells".format(a, b), "J3|labels")
            continue
        i, j = labels.index(a), labels.index(b)
        if frozenset((i, j)) not in pairs:
            rep.bad("J3", w, "a connection is written between cells {} and {} which share no face".format(i, j), "J3|pair")
            continue
        done[frozenset((i, j))] = done.get(frozenset((i, j)), 0) + 1
        pts = pairs[frozenset((i, j))]
        va = vec_area(pts)
        A = norm(va)
        nrm = tuple(x / A for x in va)
        line = sub(C[j], C[i])
        if nd == "orthogonal":
            d = [abs(dot(sub(C[k], pts[0]), nrm)) for k in (i, j)]
        else:
            t = dot(sub(pts[0], C[i]), nrm) / dot(line, nrm)
            d = [abs(t) * norm(line), abs(1 - t) * norm(line)]
        d = [1e-9 if flags[k] else x for k, x in zip((i, j), d)]
        nz = [k for k in range(3) if abs(line[k]) > 1e-12]
        want = [("ISOT (columns 26-30)", 25, 30, None), ("D1 (31-40)", 30, 40, d[0]), ("D2 (41-50)", 40, 50, d[1]),
                ("AREAX (51-60)", 50, 60, A), ("BETAX (61-70)", 60, 70, -line[2] / norm(line))]
        for what, x, y, v in want:
            if v is None:
                continue
            try:
                got = value_at(column(l, x, y), env, memo)
            except (Opaque, CantEval, ZeroDivisionError, ValueError, TypeError) as e:
                rep.unknown("J3", w, "{} not evaluated: {!r}".format(what, e))
                continue
            ok = isinstance(got, (int, float)) and close(got, v)
            rep.check("J3", ok, w, "{} of connection {}-{} ({}, {}{}) is {} where it is {:.6g}".format(
                what, i, j, cells[i][0], cells[j][0], ", boundary" if flags[i] or flags[j] else "", got, v),
                "J3|{}|{}".format(what.split()[0], nd))
        rep.count("connection records")
    for p in pairs:
        if done.get(p, 0) != 1:
            rep.bad("J3", where, "the connection between cells {} ({}) is written {} times".format(
                sorted(p), "/".join(cells[k][0] for k in sorted(p)), done.get(p, 0)), "J3|once")




def aligned(rep, I):
    """ISOT of axis-aligned neighbours (exact coordinates)."""
    for axis in range(3):
        X = []
        ids = []
        for k in range(2):
            row = []
            for p in CELLS["hexahedron"]:
                q = list(p)
                q[axis] += k
                q = tuple(float(x * s) for x, s in zip(q, (2, 4, 8)))
                if q not in X:
                    X.append(q)
                row.append(X.index(q))
            ids.append(row)
        m = mesh(I, [("hexahedron", ids)], len(X))
        env, memo = environment(X), {}
        try:
            recs, why = written(I, m, {})
            ls = block_lines(recs, "CONNE")
            got = [value_at(column(l, 25, 30), env, memo) for _, l in ls]
        except (Opaque, CantEval, ZeroDivisionError, ValueError, TypeError) as e:
            rep.unknown("J3", "toughio/_mesh/tough/_tough.py", "ISOT not evaluated: {!r}".format(e))
            continue
        if not ls:
            rep.unknown("J3", "toughio/_mesh/tough/_tough.py", "connections not resolved")
            continue
        rep.check("J3", got == [axis + 1], "toughio/_mesh/tough/_tough.py", "ISOT of neighbours along axis {} is {}".format(
            axis + 1, got), "J3|ISOT")


# ---- cylindrical meshes ----------------------------------------------------------


def cylinders(rep, I):
    fn = I.lookup_path("toughio.meshmaker.cylindric_grid")
    where = "toughio/meshmaker/_cylindric_grid.py"
    for nr, nz in ((1, 1), (3, 2), (2, 3)):
        for layer in (False, True):
            dr = I.nd((nr,), [T("scalar", "dr", i) for i in range(nr)])
            dz = I.nd((nz,), [T("scalar", "dz", i) for i in range(nz)])
            env = {T("scalar", "dr", i): 1.0 + 0.37 * i + 0.11 * i * i for i in range(nr)}
            env.update({T("scalar", "dz", i): 2.0 - 0.41 * i + 0.07 * i * i for i in range(nz)})
            memo = {}
            try:
                m = I.call(fn, [dr, dz], {"layer": K(layer), "origin_z": K(-7.0)}, None)
            except Dead:
                rep.unknown("J4", where, "cylindric_grid not followed")
                continue
            fv, _ = get(I, m, "faces")
            rows = face_rows(I, fv) if fv is not None else None
            pv, _ = get(I, m, "points")
            pts = nested(I, pv) if pv is not None else None
            av, wa = get(I, m, "face_areas")
            areas = nested(I, av) if av is not None else None
            vv, wv = get(I, m, "volumes")
            vols = nested(I, vv) if vv is not None else None
            case = "{} radii, {} layers, layer={}".format(nr, nz, layer)
            if rows is None or pts is None or areas is None or vols is None:
                if wa or wv:
                    rep.bad("J4", where, "{}: {}".format(case, wa or wv), "J4|fail")
                else:
                    rep.unknown("J4", where, "{}: not resolved".format(case))
                continue
            try:
                X = [tuple(num(x, env, memo) for x in p) for p in pts]
                bad = None
                for i, fs in enumerate(rows):
                    nodes = sorted(set(itertools.chain.from_iterable(fs)))
                    r0, r1 = min(X[k][0] for k in nodes), max(X[k][0] for k in nodes)
                    z0, z1 = min(X[k][2] for k in nodes), max(X[k][2] for k in nodes)
                    ring, h = math.pi * (r1 * r1 - r0 * r0), z1 - z0
                    if not close(num(vols[i], env, memo), ring * h):
                        bad = bad or "the volume of cell {} (radius {:.3g} to {:.3g}, height {:.3g}) is {:.5g}".format(
                            i, r0, r1, h, num(vols[i], env, memo))
                    for k, f in enumerate(fs):
                        xs = {round(X[n][0], 9) for n in f}
                        zs = {round(X[n][2], 9) for n in f}
                        want = ring if len(zs) == 1 else 2 * math.pi * X[f[0]][0] * h if len(xs) == 1 else (r1 - r0) * h
                        got = num(areas[i][k], env, memo)
                        if not close(got, want):
                            bad = bad or "face_areas[{}][{}] is {:.5g} where face {} of that ring has {:.5g}".format(i, k, got, f, want)
                rep.check("J4", not bad, where, "{}: {}".format(case, bad), "J4|{}".format(layer))
            except (CantEval, ZeroDivisionError, ValueError, TypeError, IndexError) as e:
                rep.unknown("J4", where, "{}: {!r}".format(case, e))
