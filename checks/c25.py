"""C25: text and binary FLAC3D grids carry the same content.

Meshes with zones and faces of several types and materials are written by the
interpreted writer in both variants; the two files are compared section by
section with each other and with the mesh, and both are read back. Files of
the text variant with the sections in every order are read as well.
"""
import itertools

from c12 import FLAC_NAME, SOLID, WHERE, cells_of, fields, flac_binary, flac_cells, flat_text, make
from c17 import Obs
from models import text_interp
from origin import attempt, tree
from par import pmap
from values import K, T

RULES = {
    "B1": "both variants hold the same points, cells and groups, which are those of the mesh",
    "B2": "both variants are read as the same mesh, which is the one written",
    "B3": "a section is ended by every keyword that can start another one",
    "B5": "in both variants cells find their points, and groups their cells, by their numbers",
    "B4": "the groups name the cells by the numbers these have in the file",
}
FLATS = ("triangle", "quad")
TYPES = [
    ["hexahedron"], ["tetra"], ["wedge"], ["pyramid"], ["hexahedron", "wedge", "tetra", "pyramid"], ["hexahedron", "quad"], ["quad", "hexahedron"],
    ["triangle", "tetra", "quad", "pyramid"], ["wedge", "hexahedron", "wedge", "triangle"], ["tetra", "line", "triangle"], ["vertex", "hexahedron"],
]
MATS = [
    (None, None, 2),
    ([1], {"rock1": (1, 3)}, 2),
    ([1, 2], {"rock1": (1, 3), "rock2": (2, 3)}, 2),
    ([1, 2, 3], {"rock1": (1, 3), "fault": (2, 2), "r": (3, 3)}, 2),
    ([2, 1, 5], None, 2),
    ([7, 3], {"a name1234567890": (7, 3), "b": (3, 3), "c": (3, 2), "d": (7, 2)}, 2),
    ([1, 2], {"rock1": (1, 3), "rock2": (2, 3)}, 23),
    ([1], {"rock1": (1, 3)}, 50),
    ([0, 4], {"x": (4, 3)}, 2),
]


def groups_text(text):
    """{(flag, name): ids}"""
    out, cur = {}, None
    for line in text.splitlines():
        w = line.split()
        if w and w[0] in ("ZGROUP", "FGROUP"):
            cur = (w[0][0], line.split('"')[1] if '"' in line else w[1])
            out.setdefault(cur, [])
        elif w and w[0].isdigit() and cur:
            out[cur] += [int(x) for x in w]
        elif w:
            cur = None
    return out


def groups_binary(v):
    i = 3 + 4 * v[2]
    out = {}
    for flag in "ZF":
        k = v[i]
        i += 1
        for _ in range(k):
            i += 2 + v[i + 1]
        g = v[i]
        i += 1
        for _ in range(g):
            name = v[i + 1]
            n = v[i + 4]
            out[flag, name.decode() if isinstance(name, bytes) else name] = list(v[i + 5:i + 5 + n])
            i += 5 + n
    return out if i == len(v) else None


def ids_binary(v):
    i = 3 + 4 * v[2]
    out = []
    for flag in "ZF":
        k = v[i]
        i += 1
        for _ in range(k):
            out.append((flag, v[i]))
            i += 2 + v[i + 1]
        g = v[i]
        i += 1
        for _ in range(g):
            i += 5 + v[i + 4]
    return out


def num(x):
    return float(x) if isinstance(x, (int, float)) else None


def case(spec):
    types, (mats, names, copies) = spec
    o = Obs()
    fns, got, label = set(), {}, "{} with materials {} named {}".format("+".join(types), mats, names)
    for binary in (False, True):
        I = text_interp()
        I.versions = {"meshio.__version__": "4.4.6"}
        m, conn, pts = make(I, types, False, mats=mats, names={k: list(v) for k, v in (names or {}).items()} and {k: arr(v) for k, v in names.items()} if names else None, copies=copies)
        kind = "binary" if binary else "text"
        _, why = attempt(I, I.call, I.lookup_path("toughio.write_mesh"), [K("F"), m], {"file_format": K("flac3d"), "binary": K(binary)}, None)
        if why is not None or I.opaque:
            stop = why is not None and not isinstance(why, str) and not I.opaque
            o.check("B1", False if stop else None, "{}, {}: writing stops at {}".format(label, kind, why.where()) if stop else "{} {}".format(label, I.opaque[:1]), "stop|" + kind)
            return o.out, sorted(fns)
        raw = fields(I, "F") if binary else flat_text(I, "F")
        f = None
        if raw is not None:
            try:
                if binary:
                    n = raw[2]
                    f = ([tuple(raw[3 + 4 * i:7 + 4 * i]) for i in range(n)], [r for _, r in flac_binary(raw)], groups_binary(raw), ids_binary(raw))
                else:
                    p = [x.split() for x in raw.splitlines() if x.startswith("G")]
                    f = ([(int(x[1]),) + tuple(float(y) for y in x[2:]) for x in p], [r for _, r in flac_cells(raw)], groups_text(raw),
                         [(x.split()[0], int(x.split()[2])) for x in raw.splitlines() if x[:2] in ("Z ", "F ")])
            except (IndexError, TypeError, ValueError) as e:
                f = None
        v, why = attempt(I, I.call, I.lookup_path("toughio.read_mesh"), [K("F")], {"file_format": K("flac3d")}, None)
        fns |= set(I.inlined)
        r = None
        if why is not None or I.opaque:
            stop = why is not None and not isinstance(why, str) and not I.opaque
            o.check("B2", False if stop else None, "{}, {}: reading what was written stops at {}".format(label, kind, why.where()) if stop else "{} {}".format(label, I.opaque[:1]), "rstop|" + kind)
        else:
            r = (cells_of(I, v), tree(I, I.getattr(v, "points")), tree(I, I.getattr(v, "cell_data")), tree(I, I.getattr(v, "field_data")))
        got[kind] = (f, r)
    (ft, rt), (fb, rb) = got["text"], got["binary"]
    if ft is None or fb is None or fb[2] is None:
        o.check("B1", None, label, "")
    else:
        for i, what in enumerate(("points", "cells", "groups", "numbers of the cells")):
            o.check("B1", ft[i] == fb[i], "{}: the {} of the text file are {}, those of the binary file {}".format(label, what, cut(ft[i]), cut(fb[i])), "same|" + what)
        o.check("B1", ft[0] == [(i + 1,) + tuple(p) for i, p in enumerate(pts)], "{}: the points written are {}".format(label, cut(ft[0])), "points")
        kept = [(i, c) for i, c in enumerate(conn) if c[0] in SOLID] + [(i, c) for i, c in enumerate(conn) if c[0] in FLATS]
        flags = ["Z" if c[0] in SOLID else "F" for _, c in kept]
        for f, kind in ((ft, "text"), (fb, "binary")):
            o.check("B1", [x for x, _ in f[3]] == flags, "{}, {}: the zones and faces written are {}".format(label, kind, cut(f[3])), "flags|" + kind)
            if mats is None:
                o.check("B4", not f[2], "{}, {}: groups {} are written for a mesh without material".format(label, kind, cut(f[2])), "nogroup|" + kind)
            elif len(f[3]) == len(kept):
                want = {}
                for (i, c), (flag, cid) in zip(kept, f[3]):
                    k = mats[i % len(mats)]
                    name = [n for n, d in (names or {}).items() if d[0] == k and d[1] == (3 if flag == "Z" else 2)]
                    want.setdefault((flag, name[-1] if name else "None" if k == 0 else str(k)), []).append(cid)
                for w in want:
                    o.check("B4", sorted(f[2].get(w, ())) == sorted(want[w]), "{}, {}: the group {} holds {}, not {}".format(label, kind, w, cut(f[2].get(w)), cut(want[w])), "group|" + kind)
                o.check("B4", set(f[2]) == set(want), "{}, {}: the groups written are {}, not {}".format(label, kind, sorted(f[2]), sorted(want)), "groups|" + kind)
    for kind, r in (("text", rt), ("binary", rb)):
        if r is None:
            continue
        kept = [(i, c) for i, c in enumerate(conn) if c[0] in SOLID] + [(i, c) for i, c in enumerate(conn) if c[0] in FLATS]
        cells, points, cd, fd = r
        if cells is None or not isinstance(points, list) or not isinstance(cd, dict) or not isinstance(fd, dict):
            o.check("B2", None, label, "")
            continue
        o.check("B2", [(t, sorted(x)) for t, x in cells] == [(c[0], sorted(c[1])) for _, c in kept], "{}, {}: the cells read are {}".format(label, kind, cut(cells)), "cells|" + kind)
        o.check("B2", [tuple(p) for p in points] == [tuple(p) for p in pts], "{}, {}: the points read are {}".format(label, kind, cut(points)), "rpoints|" + kind)
        if mats is not None and len(cells) == len(kept):
            arrs = [a for a in cd.values() if isinstance(a, list)]
            if len(arrs) != 1 or len(arrs[0]) != len(kept) or not all(isinstance(x, int) for x in arrs[0]):
                o.check("B2", False if not any(isinstance(a, list) for a in cd.values()) else None, "{}, {}: the groups read are {}".format(label, kind, cut(cd)), "groups|" + kind)
                continue
            for (i, c), g in zip(kept, arrs[0]):
                dim = 3 if c[0] in SOLID else 2
                k = mats[i % len(mats)]
                name = [n for n, d in (names or {}).items() if d[0] == k and d[1] == dim]
                name = name[-1] if name else "None" if k == 0 else str(k)
                if isinstance(name, str) and " " in name:
                    continue
                here = [n for n, d in fd.items() if isinstance(d, list) and d[0] == g]
                o.check("B2", here == [name] or name in [n for n, d in fd.items() if isinstance(d, list) and d[0] == g and d[1] == dim] or shared(names, mats, kept, name, fd, g),
                        "{}, {}: the {} of group {} is read in group {} ({})".format(label, kind, c[0], name, here, g), "rgroup|" + kind)
    if rt and rb:
        for i, what in ((0, "cells"), (1, "points")):
            o.check("B2", rt[i] == rb[i], "{}: the {} read from the text file are {}, from the binary file {}".format(label, what, cut(rt[i]), cut(rb[i])), "rsame|" + what)
        if not any(" " in n for n in (names or {})):
            o.check("B2", rt[2] == rb[2] and rt[3] == rb[3], "{}: the groups read from the text file are {} {}, from the binary file {} {}".format(label, cut(rt[2]), cut(rt[3]), cut(rb[2]), cut(rb[3])), "rsame|groups")
    return o.out, sorted(fns)


def shared(names, mats, kept, name, fd, g):
    """A zone and a face group of one name share its entry in field_data: only the last is found there."""
    dims = {3 if c[0] in SOLID else 2 for i, c in kept for k in [mats[i % len(mats)]]
            if ([n for n, d in (names or {}).items() if d[0] == k and d[1] == (3 if c[0] in SOLID else 2)] or ["None" if k == 0 else str(k)])[-1] == name}
    return len(dims) == 2 and not [n for n, d in fd.items() if isinstance(d, list) and d[0] == g]


def arr(v):
    from origin import Arr
    return Arr(*v)


def cut(x):
    s = str(x)
    return s if len(s) < 160 else s[:157] + "..."


# text files: points, zones and faces come before the groups that name them
PIECES = {
    "G": "G 1 0.0 0.0 0.0\nG 2 1.0 0.0 0.0\nG 3 0.0 1.0 0.0\nG 4 0.0 0.0 1.0\nG 5 3.0 0.0 1.0\n",
    "Z": "Z T4 1 1 2 3 4\nZ T4 2 2 3 4 5\n",
    "F": "F T3 3 1 2 3\nF T3 4 2 3 4\n",
    "ZG": "ZGROUP \"zone1\"\n 1\nZGROUP \"zone2\"\n 2\n",
    "FG": "FGROUP \"face1\"\n 3\nFGROUP \"face2\"\n 4\n",
}
SEP = {"a comment": "* comment\n", "nothing": ""}


def layouts():
    for slot in ("", " SLOT Default"):
        for p in itertools.permutations(("Z", "F", "ZG", "FG")):
            if p.index("Z") < p.index("ZG") and p.index("F") < p.index("FG"):
                for sep in SEP:
                    yield ("G",) + p, sep, slot


def layout(spec):
    parts, sep, slot = spec
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": "4.4.6"}
    text = SEP["a comment"] + SEP[sep].join(PIECES[p] for p in parts)
    text = "\n".join(x + slot if x[1:6] == "GROUP" else x for x in text.split("\n"))
    I.set_content("F", [K(text)])
    I.sizes = getattr(I, "sizes", {})
    v, why = attempt(I, I.call, I.lookup_path("toughio.read_mesh"), [K("F")], {"file_format": K("flac3d")}, None)
    label = "sections {} separated by {}{}".format(" ".join(parts), sep, slot)
    key = "layout|{}|{}".format("+".join(parts), sep)
    if why is not None or I.opaque:
        stop = why is not None and not isinstance(why, str) and not I.opaque
        o.check("B3", False if stop else None, "{}: reading stops at {}".format(label, why.where()) if stop else "{} {}".format(label, I.opaque[:1]), key)
        return o.out, sorted(I.inlined)
    cells, cd, fd = cells_of(I, v), tree(I, I.getattr(v, "cell_data")), tree(I, I.getattr(v, "field_data"))
    if cells is None or not isinstance(fd, dict) or not isinstance(cd, dict):
        o.check("B3", None, label, "")
        return o.out, sorted(I.inlined)
    names = {}
    arrs = [a for a in cd.values() if isinstance(a, list)]
    ids = arrs[0] if arrs else []
    seen = {}
    for (t, row), g in zip(cells, ids):
        seen[t, tuple(sorted(row))] = [n for n, d in fd.items() if isinstance(d, list) and d[0] == g]
    want = {("tetra", (0, 1, 2, 3)): ["zone1"], ("tetra", (1, 2, 3, 4)): ["zone2"], ("triangle", (0, 1, 2)): ["face1"], ("triangle", (1, 2, 3)): ["face2"]}
    o.check("B3", seen == want, "{}: the groups of the cells are read as {}".format(label, cut(seen)), key)
    return o.out, sorted(I.inlined)


# grids of other programs: numbers of points, zones and faces are names, in any order and with holes
FOREIGN = [
    ("numbers in order", [1, 2, 3, 4, 5], [1, 2], [1, 2]),
    ("faces numbered after zones", [1, 2, 3, 4, 5], [1, 2], [3, 4]),
    ("points listed backwards", [5, 4, 3, 2, 1], [1, 2], [3, 4]),
    ("points mixed", [3, 1, 4, 5, 2], [2, 1], [4, 3]),
    ("holes", [10, 7, 30, 21, 8], [40, 7], [9, 100]),
    ("faces and zones with the same numbers", [2, 5, 9, 1, 4], [5, 3], [3, 5]),
]
XYZ = [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (3.0, 0.0, 1.0)]
ZONES = [("T4", (0, 1, 2, 3)), ("T4", (1, 2, 3, 4))]
FACES = [("T3", (0, 1, 2)), ("T3", (1, 2, 3))]
PARTS = [
    ({"zone1": [0], "zone2": [1]}, {"face1": [0], "face2": [1]}),
    ({"zone2": [1], "zone1": [0]}, {"face2": [1], "face1": [0]}),
    ({"zone1": [1, 0]}, {"face1": [1, 0]}),
    ({"zone1": [1]}, {}),
    ({}, {"face1": [0, 1]}),
]


def foreign_text(ids, zs, fs, zg, fg):
    out = ["* comment"]
    out += ["G {} {} {} {}".format(i, *p) for i, p in zip(ids, XYZ)]
    for flag, cells, nums, groups in (("Z", ZONES, zs, zg), ("F", FACES, fs, fg)):
        out += ["{} {} {} {}".format(flag, t, n, " ".join(str(ids[k]) for k in row)) for (t, row), n in zip(cells, nums)]
        for name, rows in groups.items():
            out += ['{}GROUP "{}" SLOT Default'.format(flag, name), " " + " ".join(str(nums[k]) for k in rows)]
    return "\n".join(out) + "\n"


def foreign_binary(ids, zs, fs, zg, fg):
    out = []

    def put(v, c="I", w=4):
        out.append(T("bfield", K(v), "<" + c, w))
    for v in (1375135718, 3, len(ids)):
        put(v)
    for i, p in zip(ids, XYZ):
        put(i)
        for x in p:
            put(x, "d", 8)
    for cells, nums, groups in ((ZONES, zs, zg), (FACES, fs, fg)):
        put(len(cells))
        for (_, row), n in zip(cells, nums):
            for v in (n, len(row)) + tuple(ids[k] for k in row):
                put(v)
        put(len(groups))
        for name, rows in groups.items():
            for text in (name, "Default"):
                put(len(text), "H", 2)
                put(text.encode(), "s", len(text))
            put(len(rows))
            for k in rows:
                put(nums[k])
    return out


def foreign(spec):
    (label, ids, zs, fs), (zg, fg), binary = spec
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": "4.4.6"}
    I.set_content("F", foreign_binary(ids, zs, fs, zg, fg) if binary else [K(foreign_text(ids, zs, fs, zg, fg))])
    v, why = attempt(I, I.call, I.lookup_path("toughio.read_mesh"), [K("F")], {"file_format": K("flac3d")}, None)
    label = "{} file with {}, groups {} {}".format("binary" if binary else "text", label, zg, fg)
    key = "foreign|{}|{}".format(binary, spec[0][0])
    if why is not None or I.opaque:
        stop = why is not None and not isinstance(why, str) and not I.opaque
        o.check("B5", False if stop else None, "{}: reading stops at {}".format(label, why.where()) if stop else "{} {} {}".format(label, why, I.opaque[:1]), key)
        return o.out, sorted(I.inlined)
    cells, points, cd, fd = cells_of(I, v), tree(I, I.getattr(v, "points")), tree(I, I.getattr(v, "cell_data")), tree(I, I.getattr(v, "field_data"))
    if cells is None or not isinstance(fd, dict) or not isinstance(cd, dict) or not isinstance(points, list) or not all(isinstance(p, list) for p in points):
        o.check("B5", None, label, "")
        return o.out, sorted(I.inlined)
    at = [(t, tuple(sorted(tuple(points[k]) for k in row))) for t, row in cells] if all(0 <= k < len(points) for _, row in cells for k in row) else None
    want = [(t, tuple(sorted(XYZ[k] for k in row))) for t, rows in (("tetra", ZONES), ("triangle", FACES)) for _, row in rows]
    o.check("B5", at == want, "{}: the cells read stand at {}".format(label, cut(at)), key + "|cells")
    if at == want and (zg or fg):
        arrs = [a for a in cd.values() if isinstance(a, list)]
        if arrs and len(arrs[0]) == len(cells):
            names = [[n for n in groups if k in groups[n]] for groups, cs in ((zg, ZONES), (fg, FACES)) for k in range(len(cs))]
            got = [[n for n, d in fd.items() if isinstance(d, list) and d[0] == g] for g in arrs[0]]
            o.check("B5", all(not n or g == n for n, g in zip(names, got)), "{}: the groups of the cells are read as {}, not {}".format(label, got, names), key + "|groups")
        else:
            o.check("B5", None, label, "")
    return o.out, sorted(I.inlined)


def run(rep, tier):
    for r, d in RULES.items():
        rep.rule(r, d)
    todo = [(t, m) for t in TYPES for m in MATS if any(x in SOLID for x in t) and (m[2] < 9 or len(t) < 3)]
    lay = list(layouts())
    fns = set()
    others = [(n, g, b) for n in FOREIGN for g in PARTS for b in (False, True)]
    for f, items in ((case, todo), (layout, lay), (foreign, others)):
        for c, r in zip(items, pmap(f, items)):
            if r is None:
                rep.unknown({case: "B1", layout: "B3", foreign: "B5"}[f], WHERE["flac3d"], "{}: not followed".format(c))
                continue
            out, inl = r
            fns |= set(inl)
            for rule, ok, msg, key in out:
                if ok is None:
                    rep.unknown(rule, WHERE["flac3d"], str(msg)[:400])
                elif ok:
                    rep.ok(rule, str(c)[:60])
                else:
                    rep.bad(rule, WHERE["flac3d"], str(msg)[:600], "{}|{}".format(rule, key))
    rep.analysed["meshes written in both variants"] = len(todo)
    rep.analysed["grids with numbers of their own"] = len(others)
    rep.analysed["layouts of text files"] = len(lay)
    rep.analysed["functions interpreted"] = len(fns)
