"""C09: lists, tuples and arrays are accepted alike."""
import re

from models import analysed, text_interp
from origin import Arr, Unknown, attempt, build, diff, real, tree
from par import pmap
from scen import HEXA, LAB, Op, WEDGE, coord, csv_file, incon_mesh, mesh, output
from toughcases import Make, shapes
from values import DictC, K, NONE, Ref, T, Tup

H = "toughio/_mesh/_helpers.py"
ME = "toughio/_mesh/_mesh.py"
FORMS = {
    "list": lambda r: [list(x) if isinstance(x, (list, tuple)) else x for x in r],
    "tuple": lambda r: tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in r),
    "array": lambda r: Arr(*[tuple(x) if isinstance(x, (list, tuple)) else x for x in r]),
}
TABLES = dict(FORMS, **{
    "list of tuples": lambda r: [tuple(x) for x in r],
    "list of arrays": lambda r: [Arr(*x) for x in r],
    "tuple of arrays": lambda r: tuple(Arr(*x) for x in r),
})
STATE = ("points", "cells", "point_data", "cell_data", "field_data", "point_sets", "cell_sets", "label_length")


def look(I, v):
    """Comparable content of a result."""
    w = I.resolve(v) if v is not None else NONE
    if isinstance(w, Ref) and hasattr(I.read(w.id), "attrs"):
        c = I.read(w.id)
        if c.cls is not None and c.cls.name in ("Mesh", "CylindricMesh"):
            out = {}
            for k in STATE:
                x = I.getattr(w, k)
                out[k] = [[tree(I, I.getattr(b, "type")), tree(I, I.getattr(b, "data"))] for b in I.concrete(x) or []] if k == "cells" else [kinds(I, x), tree(I, x)]
            return out
        if c.cls is not None and c.cls.fields is not None:
            return {k: tree(I, x) for k, x in c.attrs.items()}
    items = I.concrete(w) if isinstance(w, Ref) else None
    if items is not None and not I.is_arr(w) and any(isinstance(x, Ref) and hasattr(I.read(x.id), "attrs") for x in items):
        return [look(I, x) for x in items]
    return kinds(I, w), tree(I, w)


def kinds(I, v, depth=0):
    """What is an array and what a list in a result."""
    v = I.resolve(v)
    if I.is_arr(v):
        return "array"
    if depth > 4:
        return "?"
    if isinstance(v, Ref) and isinstance(I.read(v.id), DictC):
        return {k.v: kinds(I, x, depth + 1) for k, x in I.read(v.id).ent.items() if isinstance(k, K)}
    items = I.concrete(v) if isinstance(v, (Ref, Tup)) else None
    if items is not None:
        return [kinds(I, x, depth + 1) for x in items]
    return "one"


def plain(t):
    """Nested data of a recorded argument, whatever its containers."""
    if isinstance(t, tuple) and not isinstance(t, (T, K)):
        return [plain(x) for x in t]
    if isinstance(t, Tup):
        return [plain(x) for x in t.items]
    if isinstance(t, T) and t.op == "nd":
        def rows(shape, flat):
            if len(shape) < 2:
                return [plain(x) for x in flat]
            n = len(flat) // shape[0] if shape[0] else 0
            return [rows(shape[1:], flat[i * n:(i + 1) * n]) for i in range(shape[0])]
        return rows(t.args[0], t.args[1])
    if isinstance(t, T) and t.op == "list" and all(x[0] == "item" for x in t.args[0]):
        return [plain(x[1]) for x in t.args[0]]
    if isinstance(t, T) and t.op == "dict" and t.args[1] is None:
        return {repr(k): plain(v) for k, v in t.args[0]}
    return re.sub(r"#\d+", "#", repr(t))


def calls(I, n):
    """What is asked of objects of other libraries (the writer of a time series)."""
    return [(e.data[0], plain(e.data[1]), {k: plain(v) for k, v in e.data[2]}) for e in I.effects[n:]
            if e.kind == "mcall" and isinstance(e.target, T) and e.data[0].startswith("write")]


OPS = []


def op(name, where, n=1, forms=FORMS):
    def d(f):
        OPS.append((name, where, n, forms, f))
        return f
    return d


R = [real("v{}".format(i)) for i in range(20)]


def reals(n, tag="v"):
    return [real("{}{}".format(tag, i)) for i in range(n)]


def same(x):
    return x


for L_ in (False, True):
    @op("structured_grid, layer {}".format(L_), "toughio/meshmaker/_structured_grid.py", 4)
    def _(I, dx, dy, dz, o, L_=L_):
        return Op(I.lookup_path("toughio.meshmaker.structured_grid"), [build(I, dx([1.0, 2.0])), build(I, dy([0.5])), build(I, dz([1.0, 3.0]))],
                  {"origin": build(I, o([1.0, 2.0, 3.0])), "layer": K(L_)})

    @op("cylindric_grid, layer {}".format(L_), "toughio/meshmaker/_cylindric_grid.py", 2)
    def _(I, dr, dz, L_=L_):
        return Op(I.lookup_path("toughio.meshmaker.cylindric_grid"), [build(I, dr([1.0, 2.0])), build(I, dz([1.0, 3.0, 2.0]))], {"layer": K(L_)})


@op("structured_grid in two dimensions", "toughio/meshmaker/_structured_grid.py", 3)
def _(I, dx, dy, o):
    return Op(I.lookup_path("toughio.meshmaker.structured_grid"), [build(I, dx([1.0, 2.0])), build(I, dy([0.5]))], {"origin": build(I, o([1.0, 2.0]))})


@op("voxelize (points)", "toughio/meshmaker/_voxelize.py", 1, TABLES)
def _(I, p):
    P = [[x, y, z] for x in (1.0, 3.0) for y in (1.0, 2.0) for z in (5.0, 1.0)]
    return Op(I.lookup_path("toughio.meshmaker.voxelize"), [build(I, p(P)), build(I, [0.0, 0.0, 0.0])])


@op("voxelize (origin)", "toughio/meshmaker/_voxelize.py")
def _(I, o):
    P = [[x, y, z] for x in (1.0, 3.0) for y in (1.0, 2.0) for z in (5.0, 1.0)]
    return Op(I.lookup_path("toughio.meshmaker.voxelize"), [build(I, P)], {"origin": build(I, o([0.0, 0.5, 0.0]))})


@op("triangulate", "toughio/meshmaker/_triangulate.py", 1, TABLES)
def _(I, p):
    return Op(I.lookup_path("toughio.meshmaker.triangulate"), [build(I, p([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]]))])


def tetra(I, p):
    cells = I.new_list([I.new_list([K("tetra"), build(I, Arr((0, 1, 2, 3)))])])
    return I.call(I.lookup_path("toughio.Mesh"), [build(I, p([[coord(i, d) for d in range(3)] for i in range(4)])), cells], {}, None)


for p_ in ("volumes", "centers", "face_areas", "face_normals", "faces", "connections", "materials", "labels", "n_points", "points"):
    @op("Mesh(points).{}".format(p_), ME + ": Mesh", 1, TABLES)
    def _(I, p, p_=p_):
        m, why = attempt(I, tetra, I, p)
        o = Op(m, [])
        o.run = lambda I: (None, why) if why else attempt(I, I.getattr, m, p_)
        return o

for axis in (0, 1, 2):
    @op("Mesh.extrude_to_3d(height, axis={})".format(axis), ME + ": extrude_to_3d")
    def _(I, h, axis=axis):
        m = mesh(I, True)
        return after(Op(m, [build(I, h([1.0, 2.0]))], {"axis": K(axis)}, method="extrude_to_3d"), m)


@op("Mesh(points).extrude_to_3d()", ME + ": extrude_to_3d", 1, TABLES)
def _(I, p):
    def run(I):
        cells = I.new_list([I.new_list([K("triangle"), build(I, Arr((0, 1, 2)))])])
        m = I.call(I.lookup_path("toughio.Mesh"), [build(I, p([[coord(i, d) for d in range(2)] for i in range(3)])), cells], {}, None)
        I.method(m, "extrude_to_3d", [], {}, None)
        return m
    o = Op(None, [])
    o.run = lambda I: attempt(I, run, I)
    return o


def after(o, m):
    """The object an operation changes is what counts."""
    run = o.run
    o.run = lambda I: (lambda v, why: (m, why))(*run(I))
    return o


for meth, n_ in (("add_point_data", 15), ("add_cell_data", 3)):
    @op("Mesh." + meth, ME + ": " + meth)
    def _(I, d, meth=meth, n_=n_):
        m = mesh(I)
        return after(Op(m, [K("new"), build(I, d(reals(n_)))], method=meth), m)

    @op("Mesh.{} of vectors".format(meth), ME + ": " + meth, 1, TABLES)
    def _(I, d, meth=meth, n_=n_):
        m = mesh(I)
        return after(Op(m, [K("new"), build(I, d([reals(3, "v{}.".format(i)) for i in range(n_)]))], method=meth), m)


@op("Mesh.split", ME + ": split")
def _(I, a):
    return Op(mesh(I), [build(I, a(reals(3)))], method="split")


for cells_ in ([0, 2], [1], [2, 0, 1], [True, False, True], [False, True, False], [True, True, True]):
    for mat in ("rock2", "new"):
        @op("Mesh.set_material({!r}, {})".format(mat, cells_), ME + ": set_material")
        def _(I, c, cells_=cells_, mat=mat):
            m = mesh(I)
            return after(Op(m, [K(mat), build(I, c(cells_))], method="set_material"), m)


@op("Mesh.near a point", ME + ": near")
def _(I, p):
    return Op(numbered(I), [build(I, p([0.1, 0.2, 0.3]))], method="near")


@op("Mesh.near points", ME + ": near", 1, TABLES)
def _(I, p):
    return Op(numbered(I), [build(I, p([[0.1, 0.2, 0.3], [2.0, 2.0, 2.0]]))], method="near")


def numbered(I):
    return I.call(I.lookup_path("toughio.meshmaker.structured_grid"), [build(I, [1.0, 2.0]), build(I, [1.0]), build(I, [1.0, 3.0])], {}, None)


for end in (["rock1"], ["rock2", "rock1"], ["rock2", "other"], ["other", "none"]):
    for kw in ({}, {"coord": True, "material_name": {"rock1": "roof"}}):
        @op("write_mesh(material_end={}{})".format(end, ", coord" if kw else ""), "toughio/_mesh/tough/_tough.py: write")
        def _(I, e, end=end, kw=kw):
            kws = {k: build(I, v) for k, v in dict(kw, material_end=e(end), file_format="tough").items()}
            return Op(I.lookup_path("toughio.write_mesh"), [K("MESH"), incon_mesh(I)], kws)

@op("Mesh.write_tough(material_end)", ME + ": write_tough")
def _(I, e):
    m = mesh(I)
    return Op(m, [], {"material_end": build(I, e(["rock2"]))}, method="write_tough")


def series(I, t, p=same, d=lambda r: Arr(*r), outer=list):
    C = I.lookup_path("toughio._mesh._mesh.CellBlock")
    cells = I.new_list([I.instantiate(C, [K(k), build(I, Arr(*r))], {}, None) for k, r in (("hexahedron", HEXA), ("wedge", WEDGE))])
    pts = build(I, p(Arr(*[tuple(coord(i, j) for j in range(3)) for i in range(15)])) if p is same else p([[coord(i, j) for j in range(3)] for i in range(15)]))
    pd = build(I, outer([{"temp": d(reals(15, "temp{}.".format(s)))} for s in range(3)]))
    cd = build(I, outer([{"pres": d(reals(3, "pres{}.".format(s)))} for s in range(3)]))
    kw = {"point_data": pd, "cell_data": cd}
    if t is not None:
        kw["time_steps"] = build(I, t([2.0, 1.0, 5.0]))
    return Op(I.lookup_path("toughio.write_time_series"), [K("T.xdmf"), pts, cells], kw)


@op("write_time_series(time_steps)", H + ": write_time_series")
def _(I, t):
    return series(I, t)


@op("write_time_series(data)", H + ": write_time_series")
def _(I, d):
    return series(I, FORMS["list"], d=d)


@op("write_time_series(points)", H + ": write_time_series", 1, TABLES)
def _(I, p):
    return series(I, None, p=p)


for mod_, m_ in (("output", "toughio._io.output._helpers"), ("input", "toughio._io.input._helpers"), ("mesh", "toughio._mesh._helpers")):
    @op("register of {} formats".format(mod_), m_.replace(".", "/") + ".py: register")
    def _(I, e, m_=m_):
        f = I.module_attr(m_, "register")
        o = Op(f, [K("fmt"), build(I, e([".a", ".b"])), K("reader"), K("writer")])
        names = [k for k in I.heap[I.modframe[m_].id] if k.startswith("_ext")]
        run = o.run
        o.run = lambda I: (lambda v, why: (I.module_attr(m_, names[0]) if names else v, why))(*run(I))
        return o


for step in (1, 2):
    @op("read_output(labels_order) of {} times".format(step), "toughio/_io/output/_common.py: reorder_labels")
    def _(I, l, step=step):
        csv_file(I, "OUT.csv", "element", step)
        return Op(I.lookup_path("toughio.read_output"), [K("OUT.csv")], {"labels_order": build(I, l([LAB[2], LAB[0], LAB[1]]))})


@op("reorder_labels", "toughio/_io/output/_common.py: reorder_labels")
def _(I, l):
    return Op(I.lookup_path("toughio._io.output._common.reorder_labels"), [output(I), build(I, l([LAB[2], LAB[0], LAB[1]]))])


@op("Mesh.read_output of several times", ME + ": read_output", 1, {k: FORMS[k] for k in ("list", "tuple")})
def _(I, l):
    m = mesh(I)
    L = tree(I, I.getattr(m, "labels"))
    labs = [L[2], L[0], L[1]]
    a = [output(I, tag=str(i), labels=labs) for i in range(2)]
    return after(Op(m, [build(I, l(a))], {"time_step": K(0)}, method="read_output"), m)


@op("write_output of several times", "toughio/_io/output/_helpers.py: write", 1, {k: FORMS[k] for k in ("list", "tuple")})
def _(I, l):
    return Op(I.lookup_path("toughio.write_output"), [K("O.csv"), build(I, l([output(I, tag="0"), output(I, tag="1")]))])


for fam, names in (("relative_permeability", ("Corey", "Linear", "vanGenuchtenMualem", "FattKlikoff", "Verma", "Grant", "Pickens")),
                   ("capillarity", ("Linear", "TRUST", "Pickens", "Milly", "vanGenuchten"))):
    for cls in names:
        @op("{}.{} of saturations".format(fam, cls), "toughio/{}/_base.py: __call__".format(fam))
        def _(I, s, fam=fam, cls=cls):
            C = I.lookup_path("toughio.{}.{}".format(fam, cls))
            def run(I):
                m = I.call(C, model(fam, cls), {}, None)
                return I.method(m, "__call__", [build(I, s([0.2, 0.5, 0.9]))], {}, None)
            o = Op(None, [])
            o.run = lambda I: attempt(I, run, I)
            return o
    @op("{}.plot(figsize)".format(fam), "toughio/{}/_base.py: plot".format(fam))
    def _(I, f, fam=fam):
        def run(I):
            m = I.call(I.lookup_path("toughio.{}.Linear".format(fam)), model(fam, "Linear"), {}, None)
            I.method(m, "plot", [], {"figsize": build(I, f([8.0, 5.0]))}, None)
            return NONE
        o = Op(None, [])
        o.run = lambda I: attempt(I, run, I)
        return o


def model(fam, cls):
    P = {("relative_permeability", "Linear"): [0.1, 0.2, 0.9, 0.8], ("relative_permeability", "Corey"): [0.3, 0.05], ("relative_permeability", "Grant"): [0.3, 0.05],
         ("relative_permeability", "FattKlikoff"): [0.1], ("relative_permeability", "vanGenuchtenMualem"): [0.45, 0.1, 0.9, 0.05], ("relative_permeability", "Verma"): [0.2, 0.9, 1.2, -1.7, 0.5],
         ("capillarity", "Linear"): [1.0e6, 0.25, 0.4], ("capillarity", "TRUST"): [1.0e5, 0.1, 1.8, 1.0e3, 1.0e9], ("capillarity", "Pickens"): [1.0e5, 0.1, 1.5, 2.0],
         ("capillarity", "Milly"): [0.2], ("relative_permeability", "Pickens"): [2.0], ("capillarity", "vanGenuchten"): [0.45, 0.1, 1.0e-4, 1.0e7, 0.99]}
    return [K(x) for x in P[fam, cls]]


# ---- parameters ---------------------------------------------------------------------------


def lists(P, path=()):
    """Paths of the lists of P."""
    if isinstance(P, dict):
        for k, v in P.items():
            yield from lists(v, path + (k,))
    elif isinstance(P, list) and P:
        yield path
        for i, v in enumerate(P):
            if isinstance(v, (dict, list)):
                yield from lists(v, path + (i,))


def at(P, path):
    for k in path:
        P = P[k]
    return P


def put(P, path, v):
    if not path:
        return v
    if isinstance(P, dict):
        return {**P, path[0]: put(P[path[0]], path[1:], v)}
    return [put(x, path[1:], v) if i == path[0] else x for i, x in enumerate(P)]


def flat(r):
    return [y for x in r for y in (flat(x) if isinstance(x, (list, tuple)) else [x])]


def uniform(r):
    kinds = {"T" if isinstance(x, T) else "n" if isinstance(x, (int, float)) and not isinstance(x, bool) else type(x).__name__ for x in flat(r)}
    if len(kinds - {"T", "n"}) + bool(kinds & {"T", "n"}) != 1 or "NoneType" in kinds or "dict" in kinds:
        return False
    lens = {len(x) if isinstance(x, (list, tuple)) else None for x in r}
    return len(lens) == 1


def sets(I):
    M = Make(I)
    for n, P, w, r in shapes(M):
        if n in ("all groups", "two generators with tables in one element", "three generators in one element", "many entries", "9 times", "3 time steps",
                 "16 selection values", "3 output rows of one name", "title in two lines", "initial conditions with 2 userx and 4 values", "models with 7 parameters",
                 "5 initial conditions"):
            yield n, P
    F = M.full()
    E, C, R_ = list(F["elements"]), list(F["connections"]), list(F["rocks"])
    yield "orders of entries", dict(F, rocks_order=R_[::-1], elements_order=E[::-1], connections_order=C[::-1], initial_conditions_order=list(F["initial_conditions"])[::-1])


def parameters():
    I = text_interp()
    out, seen = [], set()
    for i, (n, P) in enumerate(sets(I)):
        for path in lists(P):
            r = at(P, path)
            key = tuple("*" if isinstance(k, int) or k[:3] in ("AAA", "ROC") else k for k in path), len(r), len(flat(r)), n == "two generators with tables in one element"
            if key in seen:
                continue
            seen.add(key)
            nested = any(isinstance(x, list) for x in r)
            if any(isinstance(x, dict) for x in r):
                continue
            for f in TABLES if nested and all(isinstance(x, list) for x in r) else FORMS:
                if f != "list" and ("array" not in f or uniform(r) and all(uniform(x) for x in r if isinstance(x, list)) or f != "array" and all(uniform(x) for x in r)):
                    out.append((i, n, path, f))
        for f in ("tuple", "array"):
            out.append((i, n, None, f))
    return out


def write(i, path, f):
    """(content of the file, why, not followed, functions)"""
    I = text_interp()
    P = next(p for j, (n, p) in enumerate(sets(I)) if j == i)
    if f is not None:
        def put1(P, path):
            r = at(P, path)
            if f == "array" and not uniform(r):
                return P
            return put(P, path, TABLES[f](r) if not any(isinstance(x, (dict, Arr, tuple)) for x in r) else r)
        if path is None:
            for p in list(lists(P))[::-1]:
                P = put1(P, p)
        else:
            P = put1(P, path)
    v, why = attempt(I, I.call, I.lookup_path("toughio.write_input"), [K("F"), build(I, P)], {"file_format": K("tough")}, None)
    return tuple(repr(x) for x in I.content("F")), why and str(why), [str(o)[:200] for o in I.opaque], sorted(I.inlined)


BASE = {}


def param(j):
    i, n, path, f = j
    b = BASE[i]
    r = write(i, path, f)
    return b[1], b[2] or r[2], r[1], None if b[0] == r[0] else differ(b[0], r[0]), r[3]


def differ(a, b):
    for x, y in zip(a, b):
        if x != y:
            return "{} becomes {}".format(x, y)[:240]
    return "the file has another length"


# ---- operations ---------------------------------------------------------------------------


def combos(n, forms):
    """The forms of n arguments: all the same, and each different from the others."""
    base = "list"
    out = [(base,) * n]
    for f in forms:
        if f != base:
            out.append((f,) * n)
            if n > 1:
                out += [tuple(f if i == j else base for j in range(n)) for i in range(n)]
    return out


def observe(k):
    name, where, n, forms, f = OPS[k]
    out, names = [], set()
    for c in combos(n, forms):
        I = text_interp()
        o, why0 = attempt(I, f, I, *[forms[x] for x in c])
        if why0 is not None or o is None:
            out.append((c, None, None, ["not built: {}".format(why0 or I.opaque)]))
            continue
        n0 = len(I.effects)
        v, why = o.run(I)
        opq = [str(x)[:200] for x in I.opaque]
        t = look(I, v) if not why else None
        fs = {k[1]: tuple(repr(x) for x in I.content(k[1])) for k in I.heap if isinstance(k, tuple) and k[0] == "fs" and k[1] != "OUT.csv"}
        fs["calls"] = calls(I, n0)
        out.append((c, why and str(why), (t, fs), opq))
        names |= I.inlined
    # compare with the lists
    res = []
    good = next((r for r in out if not r[1] and not r[3]), None)
    for c, why, got, opq in out:
        w = "/".join(sorted(set(c))) if len(set(c)) == 1 else "argument {} {}".format(*next((i + 1, x) for i, x in enumerate(c) if c.count(x) == 1 and x != "list" or len(c) == 1))
        if opq:
            res.append((w, "unknown", opq[0]))
        elif why:
            res.append((w, "bad" if good else "unknown", why))
        elif good is None:
            res.append((w, "unknown", "nothing to compare with"))
        else:
            d = diff(good[2][0], got[0]) if isinstance(good[2][0], (dict, list, tuple)) and isinstance(got[0], (dict, list, tuple)) else (
                [] if isinstance(got[0], Unknown) or repr(good[2][0]) == repr(got[0]) else [("", good[2][0], got[0])])
            d = [x for x in d if not any(isinstance(y, Unknown) or (isinstance(y, (T, Ref)) and not scal(y)) for y in x[1:])]
            fd = [differ(good[2][1].get(x, ()), got[1].get(x, ())) for x in good[2][1] if good[2][1].get(x) != got[1].get(x)]
            if d:
                res.append((w, "bad", "{} is {} instead of {}".format(d[0][0] or "the result", repr(d[0][2])[:80], repr(d[0][1])[:80])))
            elif fd:
                res.append((w, "bad", "the file differs: " + fd[0]))
            else:
                res.append((w, "ok", ""))
    return res, sorted(names)


def scal(y):
    return isinstance(y, T) and y.op in ("scalar", "coord")


def run(rep, tier):
    rep.rule("A1", "an operation given tuples or arrays (or rows of them) does what it does given lists: it returns the same, leaves its object in the same state and writes the same file")
    rep.rule("A2", "no form of an accepted array-like stops it: no truth value of an array, no list-only operation, no refusal")
    rep.rule("A3", "every list of the parameters of an input file may be a tuple or an array: the file written is the same")
    names = set()
    for (name, where, n, forms, f), r in zip(OPS, pmap(observe, range(len(OPS)))):
        if r is None:
            rep.unknown("A1", where, "{}: not followed".format(name))
            continue
        names.update(r[1])
        for w, kind, what in r[0]:
            rep.count("calls compared")
            if kind == "ok":
                rep.ok("A1", "{} {}".format(name, w))
                rep.ok("A2", "{} {}".format(name, w))
            elif kind == "unknown":
                rep.unknown("A1", where, "{} {}: {}".format(name, w, what))
            elif what.startswith("<"):
                rep.bad("A2", where, "{} given {}: stops: {}".format(name, w, what[:260]), "A2|{}".format(name))
            else:
                rep.bad("A1", where, "{} given {}: {}".format(name, w, what), "A1|{}".format(name))
    I = text_interp()
    for i, b in enumerate(pmap(lambda i: write(i, None, None), range(sum(1 for _ in sets(I))))):
        BASE[i] = b or ((), None, ["not followed"], [])
    todo = parameters()
    W = "toughio/_io/input/tough/_write.py"
    for (i, n, path, f), r in zip(todo, pmap(param, todo)):
        what = "{}: {} as {}".format(n, ".".join(map(str, path)) if path else "all lists", f)
        rep.count("parameter lists varied")
        if r is None:
            rep.unknown("A3", W, what + ": not followed")
            continue
        why0, opq, why, d, fns = r
        names.update(fns)
        key = ".".join("*" if isinstance(k, int) or k[:3] in ("AAA", "ROC") else k for k in path) if path else "all"
        if opq:
            rep.unknown("A3", W, "{}: not followed: {}".format(what, opq[0]))
        elif why0:
            rep.unknown("A3", W, "{}: the lists are refused: {}".format(what, why0))
        elif why:
            rep.bad("A3", W, "{}: stops: {}".format(what, why[:260]), "A3|{}|{}".format(key, f))
        elif d:
            rep.bad("A3", W, "{}: {}".format(what, d), "A3|{}|{}".format(key, f))
        else:
            rep.ok("A3", what)
    analysed(rep)
    rep.analysed["functions interpreted"] = len(names)
