"""C11: face and volume tables describe the cells they are named after."""
from geom import CELLS, CantEval, centroid, close, dot, hull_faces, maps, num, sub, volume
from meshmodel import environment, face_rows, get, mesh, nested
from models import analysed, nd_interp
from values import K

# node numbers of the generic cell, deliberately not 0..n-1
def numbering(n):
    return [(7 * i + 3) % 23 for i in range(n)]


def run(rep, tier):
    I = nd_interp()
    rep.rule("F1", "the faces of a cell are exactly the faces of its convex hull, each listed once")
    rep.rule("F2", "the faces form a closed oriented surface: every edge is run through once in each direction")
    rep.rule("F3", "the normals built from the faces all point outward (or all inward) and have unit length")
    rep.rule("F4", "the area built from a face is that of the face")
    rep.rule("V1", "the tetrahedra used for volumes fill the cell: extracted expression against the exact volume")
    anchor = "toughio/_mesh/_properties.py"
    for ty, P in CELLS.items():
        n = len(P)
        num_ = numbering(n)
        back = {x: i for i, x in enumerate(num_)}
        m = mesh(I, [(ty, [num_])], 23)
        hull = hull_faces(ty)
        ref, why = get(I, m, "faces")
        rows = face_rows(I, ref) if ref is not None else None
        where = "{} ({})".format(anchor, ty)
        if rows is None:
            if why:
                rep.bad("F1", where, "the faces of a {} cannot be computed: {}".format(ty, why), "F1|{}|fail".format(ty))
            else:
                rep.unknown("F1", where, "face table not resolved")
        else:
            fs = [tuple(back.get(x, -1) for x in f) for f in rows[0]]
            sets = [frozenset(f) for f in fs]
            missing = [sorted(h) for h in hull if h not in sets]
            extra = [f for f, s in zip(fs, sets) if s not in hull]
            dup = [f for i, f in enumerate(fs) if sets.index(sets[i]) != i]
            rep.check("F1", not missing and not extra and not dup, where,
                      "{}: faces missing {}, not faces {}, repeated {}".format(ty, missing, extra, dup), "F1|{}".format(ty))
            edges = {}
            for f in fs:
                for a, b in zip(f, f[1:] + f[:1]):
                    edges.setdefault((a, b), []).append(f)
            hedges = {frozenset(p) for h in hull.values() for p in zip(h, h[1:] + h[:1])}
            bad = [e for e, l in edges.items() if len(l) != 1 or len(edges.get(e[::-1], [])) != 1 or frozenset(e) not in hedges]
            rep.check("F2", not bad, where, "{}: edges {} are not shared by two faces in opposite directions".format(
                ty, sorted(bad)[:4]), "F2|{}".format(ty))
            rep.count("edges", len(edges))
        nv, why = get(I, m, "face_normals")
        normals = nested(I, nv) if nv is not None else None
        av, why2 = get(I, m, "face_areas")
        areas = nested(I, av) if av is not None else None
        vv, why3 = get(I, m, "volumes")
        vols = nested(I, vv) if vv is not None else None
        for what, v, w, r in (("normals", normals, why, "F3"), ("areas", areas, why2, "F4"), ("volumes", vols, why3, "V1")):
            if v is None:
                if w:
                    rep.bad(r, where, "the {} of a {} cannot be computed: {}".format(what, ty, w), "{}|{}|fail".format(r, ty))
                else:
                    rep.unknown(r, where, "{} not resolved".format(what))
        for k, f in enumerate(maps()):
            X = [f(p) for p in P]
            env = environment([(0.0, 0.0, 0.0)] * 23)
            full = [(0.0, 0.0, 0.0)] * 23
            for i, x in zip(num_, X):
                full[i] = x
            env = environment(full)
            memo = {}
            c = centroid(X)
            try:
                if normals is not None and rows is not None:
                    signs = []
                    for f_, nrm in zip(rows[0], normals[0]):
                        v = [num(x, env, memo) for x in nrm]
                        s = dot(v, sub(centroid([full[i] for i in f_]), c))
                        signs.append(s > 0)
                        if not close(dot(v, v), 1.0):
                            rep.bad("F3", where, "a normal of a {} is not a unit vector".format(ty), "F3|{}|unit".format(ty))
                    rep.check("F3", len(normals[0]) == len(rows[0]) and len(set(signs)) == 1, where,
                              "{}: the normals of faces {} point the other way".format(
                                  ty, [f_ for f_, s in zip(rows[0], signs) if s != signs[0]]), "F3|{}".format(ty))
                if areas is not None and rows is not None:
                    ok = len(areas[0]) == len(rows[0])
                    want = {}
                    for h, cyc in hull.items():
                        want[frozenset(num_[i] for i in h)] = norm_area([X[i] for i in cyc])
                    badf = [f_ for f_, a in zip(rows[0], areas[0]) if not close(num(a, env, memo), want.get(frozenset(f_), -1.0))]
                    rep.check("F4", ok and not badf, where, "{}: the areas of faces {} are not those of the faces".format(ty, badf),
                              "F4|{}".format(ty))
                if vols is not None:
                    got = num(vols[0], env, memo)
                    rep.check("V1", close(got, volume(ty, X)), where,
                              "the volume of a {} is computed as {:.6g} where it is {:.6g} (cell {} under map {})".format(
                                  ty, got, volume(ty, X), ty, k), "V1|{}".format(ty))
            except (CantEval, ZeroDivisionError, ValueError, TypeError) as e:
                rep.unknown("V1", where, "expression not evaluated: {!r}".format(e))
        rep.count("cell types")
    rep.assumptions += ["cells are convex with planar faces", "cell types: " + ", ".join(CELLS)]
    analysed(rep)


def norm_area(pts):
    from geom import norm, vec_area
    return norm(vec_area(pts))
