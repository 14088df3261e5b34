"""C12: node numberings of the mesh formats.

Meshes of every cell type, with known distinct node numbers, go through the
interpreted writer; the file it leaves is compared with the numbering of the
format, then through the interpreted reader, which must give the cells back.
"""
import geom
from c17 import Obs
from geom import cross, dot, sub
from models import text_interp
from origin import Arr, attempt, build, tree
from par import pmap
from values import K

RULES = {
    "N1": "the file numbers the nodes of a cell as the format does, under the format's name of the type",
    "N2": "reading what was written gives the same cells",
    "N3": "cells the format cannot hold are written by repeating nodes so that they collapse back to the cell",
    "N4": "the codes of the cell types are those of VTK, one to one",
}
NODES = {"vertex": 1, "line": 2, "triangle": 3, "quad": 4, "tetra": 4, "pyramid": 5, "wedge": 6, "hexahedron": 8}
SOLID = ("tetra", "pyramid", "wedge", "hexahedron")
FLAT = {"triangle": [(0, 0, 0), (1, 0, 0), (0, 1, 0)], "quad": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], "line": [(0, 0, 0), (1, 0, 0)], "vertex": [(0, 0, 0)]}
# AVS-UCD
AVS_NAME = {"vertex": "pt", "line": "line", "triangle": "tri", "quad": "quad", "tetra": "tet", "pyramid": "pyr", "wedge": "prism", "hexahedron": "hex"}
AVS = {"vertex": [0], "line": [0, 1], "triangle": [0, 1, 2], "quad": [0, 1, 2, 3], "tetra": [0, 1, 3, 2], "pyramid": [4, 0, 1, 2, 3],
       "wedge": [3, 4, 5, 0, 1, 2], "hexahedron": [4, 5, 6, 7, 0, 1, 2, 3]}
# FLAC3D: places of the nodes in the local axes (P0P1, P0P2, P0P3)
FLAC_NAME = {"triangle": "T3", "quad": "Q4", "tetra": "T4", "pyramid": "P5", "wedge": "W6", "hexahedron": "B8"}
FLAC = {
    "tetra": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "pyramid": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0)],
    "wedge": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1)],
    "hexahedron": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 1)],
}
FLAC_FACES = {
    "tetra": [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)],
    "pyramid": [(0, 1, 2, 4), (0, 1, 3), (0, 2, 3), (1, 3, 4), (2, 3, 4)],
    "wedge": [(0, 1, 3), (2, 4, 5), (0, 1, 2, 4), (0, 2, 3, 5), (1, 3, 4, 5)],
    "hexahedron": [(0, 1, 2, 4), (3, 5, 6, 7), (0, 1, 3, 6), (0, 2, 3, 5), (1, 4, 6, 7), (2, 4, 5, 7)],
}
BRICK = [(0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)]
TEC = {"triangle": "FETRIANGLE", "quad": "FEQUADRILATERAL", "tetra": "FETETRAHEDRON", "pyramid": "FEBRICK", "wedge": "FEBRICK", "hexahedron": "FEBRICK"}
VTK = {
    0: "empty", 1: "vertex", 2: "poly_vertex", 3: "line", 4: "poly_line", 5: "triangle", 6: "triangle_strip", 7: "polygon", 8: "pixel", 9: "quad", 10: "tetra", 11: "voxel", 12: "hexahedron",
    13: "wedge", 14: "pyramid", 15: "penta_prism", 16: "hexa_prism", 21: "line3", 22: "triangle6", 23: "quad8", 24: "tetra10", 25: "hexahedron20", 26: "wedge15", 27: "pyramid13",
    28: "quad9", 29: "hexahedron27", 30: "quad6", 31: "wedge12", 32: "wedge18", 33: "hexahedron24", 34: "triangle7", 35: "line4", 42: "polyhedron",
}
VTK_NODES = {0: 0, 1: 1, 3: 2, 5: 3, 8: 4, 9: 4, 10: 4, 11: 8, 12: 8, 13: 6, 14: 5, 15: 10, 16: 12, 21: 3, 22: 6, 23: 8, 24: 10, 25: 20, 26: 15, 27: 13, 28: 9, 29: 27, 30: 6, 31: 12, 32: 18, 33: 24, 34: 7, 35: 4}
WHERE = {"avsucd": "toughio/_mesh/avsucd/_avsucd.py", "flac3d": "toughio/_mesh/flac3d/_flac3d.py", "tecplot": "toughio/_mesh/tecplot/_tecplot.py"}
BLOCKS = ([t] for t in NODES)
MIXED = {
    "avsucd": [["hexahedron", "wedge", "tetra", "pyramid"], ["quad", "triangle"], ["tetra", "triangle", "line", "vertex"], ["wedge", "hexahedron", "wedge"], ["pyramid", "quad"]],
    "flac3d": [["hexahedron", "wedge", "tetra", "pyramid"], ["tetra", "triangle"], ["quad", "hexahedron", "triangle"], ["wedge", "hexahedron", "wedge"], ["pyramid", "line", "quad"]],
    "tecplot": [["hexahedron", "wedge", "tetra", "pyramid"], ["quad", "triangle"], ["triangle", "quad", "triangle"], ["tetra", "wedge"], ["pyramid", "triangle", "tetra"], ["wedge", "quad", "line"]],
}
MAPS = [geom.maps()[1], geom.maps()[0]] + geom.maps()[2:]


def turned(f, k):
    """f followed by one of the turns of the axes."""
    def g(p):
        x, y, z = f(p)
        return [(x, y, z), (y, z, x), (z, x, y), (-x, -y, z), (x, -y, -z), (-y, x, z), (x, -z, y)][k]
    return g


PLACES = [MAPS[0]] + [turned(f, k) for i, f in enumerate(MAPS) for k in range(7) if (i, k) != (0, 0)]


def make(I, types, mirror=False, dim=3, mats=None, names=None, copies=2, place=0):
    """A mesh with `copies` cells of each type, no two sharing a node, and node numbers not in order."""
    n = sum(NODES[t] for t in types) * copies
    pts, blocks, conn = [None] * n, [], []
    step = next(s for s in (7, 5, 3, 11, 13, 1) if all(n % q or s % q for q in range(2, s + 1))) if n > 1 else 1
    perm = [(i * step + 3) % n for i in range(n)]
    k = 0
    C = I.lookup_path("toughio._mesh._mesh.CellBlock")
    for b, t in enumerate(types):
        rows = []
        for r in range(copies):
            ids = [perm[k + i] for i in range(NODES[t])]
            k += NODES[t]
            shape = geom.CELLS.get(t) or FLAT[t]
            for i, p in zip(ids, shape):
                q = PLACES[place](p)
                q = (q[0] + 10.0 * k, q[1], -q[2] if mirror else q[2])
                pts[i] = q[:dim]
            rows.append(ids)
        conn += [(t, tuple(r)) for r in rows]
        blocks.append(I.instantiate(C, [K(t), build(I, Arr(*rows))], {}, None))
    kw = {"points": I.nd((n, dim), [K(round(x, 6)) for p in pts for x in p]), "cells": I.new_list(blocks)}
    if mats is not None:
        kw["cell_data"] = build(I, {"material": Arr(*[mats[i % len(mats)] for i in range(len(conn))])})
        if names:
            kw["field_data"] = build(I, names)
    return I.instantiate(I.lookup_path("toughio.Mesh"), [], kw, None), conn, [tuple(round(x, 6) for x in p) for p in pts]


def cells_of(I, m):
    out = []
    for c in I.concrete(I.getattr(m, "cells")) or []:
        t, rows = tree(I, I.getattr(c, "type")), tree(I, I.getattr(c, "data"))
        if not isinstance(rows, list):
            return None
        for r in rows:
            if not isinstance(r, list) or not all(isinstance(x, int) for x in r):
                return None
            out.append((str(t), tuple(r)))
    return out


def flat_text(I, name):
    ps = I.content(name)
    if ps is None or not all(isinstance(p, K) and isinstance(p.v, str) for p in ps):
        return None
    return "".join(p.v for p in ps)


def fields(I, name):
    ps = I.content(name)
    if ps is None or not all(getattr(p, "op", "") == "bfield" and isinstance(p.args[0], K) for p in ps):
        return None
    return [p.args[0].v for p in ps]


def faces(t, row):
    return {frozenset(row[i] for i in f) for f in geom.hull_faces(t)}


def flac_cells(text):
    out = []
    for line in text.splitlines():
        w = line.split()
        if w and w[0] in ("Z", "F"):
            out.append((w[1], tuple(int(x) - 1 for x in w[3:])))
    return out


def flac_binary(v):
    """Cells of a binary grid given its fields."""
    n = v[2]
    i = 3 + 4 * n
    out = []
    for flag in "zf":
        k = v[i]
        i += 1
        for _ in range(k):
            m = v[i + 1]
            out.append((m, tuple(x - 1 for x in v[i + 2:i + 2 + m])))
            i += 2 + m
        g = v[i]
        i += 1
        for _ in range(g):
            i += 4
            i += 1 + v[i]
    return out


def judge_flac(o, conn, pts, cells, binary):
    """Zones are right-handed numberings of the cells, faces keep their order; zones come first."""
    want = [c for c in conn if c[0] in SOLID] + [c for c in conn if c[0] in ("triangle", "quad")]
    if len(cells) != len(want):
        o.check("N1", False, "{} cells are written, not {}".format(len(cells), len(want)), "count")
        return
    for (name, row), (t, w) in zip(cells, want):
        label = "flac3d {}{}".format(t, ", binary" if binary else "")
        if name != (len(w) if binary else FLAC_NAME[t]):
            o.check("N1", False, "{}: written as {}".format(label, name), "name|" + t)
            continue
        if sorted(row) != sorted(w):
            o.check("N1", False, "{}: nodes {} are written for the cell {}".format(label, row, w), "nodes|" + t)
            continue
        if t in SOLID:
            got = {frozenset(row[i] for i in f) for f in FLAC_FACES[t]}
            a, b, c = (sub(pts[row[i]], pts[row[0]]) for i in (1, 2, 3))
            o.check("N1", got == faces(t, w), "{}: the nodes {} of the cell {} are not in the order of FLAC3D".format(label, row, w), "order|" + t)
            o.check("N1", dot(a, cross(b, c)) > 0, "{}: the axes P0P1, P0P2, P0P3 of {} are left-handed".format(label, row), "hand|" + t)
        else:
            o.check("N1", row == w, "{}: the nodes {} of the face {} are not in order".format(label, row, w), "order|" + t)


def same_cell(t, a, b, exact):
    if exact or t not in SOLID:
        return a == b
    return sorted(a) == sorted(b) and faces(t, a) == faces(t, b)


def case(spec):
    fmt, types, mirror, binary, place = spec
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": "4.4.6"}
    m, conn, pts = make(I, types, mirror, place=place)
    kw = {"file_format": K(fmt)}
    if binary:
        kw["binary"] = K(True)
    label = "{}{}{} of {}".format(fmt, ", binary," if binary else "", " mirrored" if mirror else "", "+".join(types))
    _, why = attempt(I, I.call, I.lookup_path("toughio.write_mesh"), [K("F"), m], kw, None)
    if why is not None or I.opaque:
        stop = why is not None and not isinstance(why, str) and not I.opaque
        o.check("N1", False if stop else None, "{}: writing stops at {}".format(label, why.where()) if stop else "{}: {} {}".format(label, why, I.opaque[:1]), "stop|" + label)
        return o.out, sorted(I.inlined)
    kept = conn
    if fmt == "avsucd":
        text = flat_text(I, "F")
        if text is None:
            o.check("N1", None, label, "")
        else:
            lines = [x.split() for x in text.splitlines() if not x.startswith("#")]
            n, k = int(lines[0][0]), int(lines[0][1])
            got = [(x[2], tuple(int(y) - 1 for y in x[3:])) for x in lines[1 + n:1 + n + k]]
            want = [(AVS_NAME[t], tuple(w[i] for i in AVS[t])) for t, w in conn]
            for g, w, (t, _) in zip(got, want, conn):
                o.check("N1", g == w, "avsucd {}: {} {} is written, not {} {}".format(t, g[0], g[1], w[0], w[1]), "order|" + t)
            o.check("N1", len(got) == len(want), "{}: {} cells are written, not {}".format(label, len(got), len(want)), "count")
    elif fmt == "flac3d":
        data = fields(I, "F") if binary else flat_text(I, "F")
        try:
            cells = None if data is None else flac_binary(data) if binary else flac_cells(data)
        except (IndexError, TypeError):
            cells = None
        if cells is None:
            o.check("N1", None, label, "")
        else:
            judge_flac(o, conn, pts, cells, binary)
        kept = [c for c in conn if c[0] in SOLID] + [c for c in conn if c[0] in ("triangle", "quad")]
    elif fmt == "tecplot":
        text = flat_text(I, "F")
        kept = [c for c in conn if c[0] in TEC]
        if any(c[0] in SOLID for c in kept):
            kept = [c for c in kept if c[0] in SOLID]
        ts = sorted({t for t, _ in kept})
        zone = TEC[ts[0]] if len(ts) == 1 else "FEBRICK" if ts[0] in SOLID else "FEQUADRILATERAL"
        if text is None:
            o.check("N1", None, label, "")
        else:
            lines = text.splitlines()
            head = " ".join(x for x in lines if "=" in x)
            o.check("N1", "ZONETYPE = {}".format(zone) in head, "{}: the zone is not of type {}".format(label, zone), "zone|" + zone)
            got = [tuple(int(y) - 1 for y in x.split()) for x in lines[-len(kept):]]
            for g, (t, w) in zip(got, kept):
                size = {"FEBRICK": 8, "FEQUADRILATERAL": 4, "FETETRAHEDRON": 4, "FETRIANGLE": 3}[zone]
                rule = "N1" if len(w) == size else "N3"
                if len(g) != size or set(g) != set(w):
                    o.check(rule, False, "{}: nodes {} are written for the {} {}".format(label, g, t, w), "nodes|" + t + zone)
                elif zone == "FEBRICK":
                    fs = [frozenset(g[i] for i in f) for f in BRICK]
                    fs = {f for f in fs if len(f) > 2}
                    o.check(rule, fs == faces(t, w), "{}: the brick {} is not the {} {}".format(label, g, t, w), "order|" + t + zone)
                elif zone == "FETETRAHEDRON":
                    o.check(rule, True, "", "")
                else:
                    c = [x for i, x in enumerate(g) if x != g[i - 1]]
                    k = w.index(c[0])
                    back = tuple(reversed(w))
                    j = back.index(c[0])
                    o.check(rule, tuple(c) in (w[k:] + w[:k], back[j:] + back[:j]), "{}: the nodes {} are not the {} {}".format(label, g, t, w), "order|" + t + zone)
    # reading back
    v, why = attempt(I, I.call, I.lookup_path("toughio.read_mesh"), [K("F")], {"file_format": K(fmt)}, None)
    if why is not None or I.opaque:
        stop = why is not None and not isinstance(why, str) and not I.opaque
        o.check("N2", False if stop else None, "{}: reading what was written stops at {}".format(label, why.where()) if stop else "{}: {} {}".format(label, why, I.opaque[:1]), "rstop|" + label)
        return o.out, sorted(I.inlined)
    got = cells_of(I, v)
    if got is None:
        o.check("N2", None, label, "")
    elif fmt == "tecplot" and zone in ("FEBRICK", "FEQUADRILATERAL"):
        o.check("N2", len(got) == len(kept), "{}: {} cells are read, not {}".format(label, len(got), len(kept)), "rcount|" + label)
        for (t, r), (wt, w) in zip(got, kept):
            o.check("N2", set(r) == set(w) and t == ("hexahedron" if zone == "FEBRICK" else "quad") and (wt != t or r == w), "{}: the {} {} is read as {} {}".format(label, wt, w, t, r), "read|" + wt)
    else:
        o.check("N2", len(got) == len(kept), "{}: {} cells are read, not {}".format(label, len(got), len(kept)), "rcount|" + label)
        for (t, r), (wt, w) in zip(got, kept):
            ok = t == wt and len(r) == len(w) and same_cell(t, r, w, fmt != "flac3d" or mirror == (t == "wedge"))
            o.check("N2", ok, "{}: the {} {} is read as {} {}".format(label, wt, w, t, r), "read|" + wt)
    return o.out, sorted(I.inlined)


def specs():
    for s in shapes():
        yield s + (0,)
    for t in SOLID:
        for i in range(1, len(PLACES)):
            yield "flac3d", [t], i % 2 == 0, False, i


def shapes():
    for t in NODES:
        yield "avsucd", [t], False, False
        if t in SOLID:
            for mirror in (False, True):
                for binary in (False, True):
                    yield "flac3d", [t], mirror, binary
        if t in TEC:
            yield "tecplot", [t], False, False
    for fmt, mixes in MIXED.items():
        for types in mixes:
            yield fmt, types, False, False
            if fmt == "flac3d":
                yield fmt, types, False, True
                yield fmt, types, True, False
                yield fmt, types, True, True


def codes(rep):
    I = text_interp()
    where = "toughio/_mesh/_common.py"
    for name in ("vtk_to_meshio_type", "meshio_to_vtk_type"):
        v = I.module_attr("toughio._mesh._common", name)
        d = tree(I, v) if v is not None else None
        if not isinstance(d, dict):
            rep.unknown("N4", where, "{} is not a table".format(name))
            continue
        if name.startswith("meshio"):
            d = dict((v, k) for k, v in d.items())
        for code, t in d.items():
            if isinstance(code, int) and isinstance(t, str):
                rep.check("N4", VTK.get(code, t) == t and (t not in VTK.values() or VTK.get(code) == t), where, "{}: VTK code {} is {}, not {}".format(name, code, VTK.get(code), t), "{}|{}".format(name, t))
    v = I.module_attr("toughio._mesh._common", "vtk_type_to_numnodes")
    d = tree(I, v) if v is not None else None
    if isinstance(d, dict):
        for code, n in d.items():
            if isinstance(code, int) and isinstance(n, int):
                rep.check("N4", VTK_NODES.get(code, n) == n, where, "vtk_type_to_numnodes: {} has {} nodes, not {}".format(VTK.get(code), VTK_NODES.get(code), n), "numnodes|{}".format(code))


def run(rep, tier):
    for r, d in RULES.items():
        rep.rule(r, d)
    todo = list(specs())
    fns = set()
    for c, r in zip(todo, pmap(case, todo)):
        if r is None:
            rep.unknown("N1", WHERE[c[0]], "{}: not followed".format(c))
            continue
        out, inl = r
        fns |= set(inl)
        for rule, ok, msg, key in out:
            if ok is None:
                rep.unknown(rule, WHERE[c[0]], str(msg)[:400])
            elif ok:
                rep.ok(rule, "{} {}".format(c[0], "+".join(c[1])))
            else:
                rep.bad(rule, WHERE[c[0]], str(msg)[:500], "{}|{}|{}".format(rule, c[0], key))
    codes(rep)
    rep.analysed["meshes written and read"] = len(todo)
    rep.analysed["functions interpreted"] = len(fns)
