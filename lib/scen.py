"""Every public operation on arguments of known structure and unknown numbers, with the storage it may reach."""
from engine import ABSENT
from meshmodel import coord
from nd import NdC
from origin import Arr, attempt, build, integer, ranked, real, tree
from toughcases import Make
from tx import hole
from values import Bound, Cls, DictC, Fn, InstC, K, ListC, Partial, Ref, T, Tup

HEXA = [[0, 1, 2, 3, 4, 5, 6, 7], [4, 5, 6, 7, 8, 9, 10, 11]]
WEDGE = [[8, 9, 10, 12, 13, 14]]
LAB = ["AAA10", "AAA11", "AAA12"]
PAIR = [("AAA10", "AAA11"), ("AAA11", "AAA12")]


# ---- storage ---------------------------------------------------------------------------------------


def refs(v, out):
    """Storage directly held by a value."""
    if isinstance(v, Ref):
        out.append(v)
    elif isinstance(v, Tup):
        for x in v.items:
            refs(x, out)
    elif isinstance(v, Bound):
        refs(v.self_, out)
    elif isinstance(v, Partial):
        for x in v.args:
            refs(x, out)
        for x in v.kwargs.values() if isinstance(v.kwargs, dict) else v.kwargs:
            refs(x[1] if isinstance(x, tuple) else x, out)
    elif isinstance(v, T):
        for x in v.args:
            if isinstance(x, (Ref, Tup, T)):
                refs(x, out)


def held(c):
    """Values held by the content of a cell."""
    if isinstance(c, ListC):
        items = c.items()
        return list(items) if items is not None else [x for s in c.segs for x in s if isinstance(x, (Ref, Tup, T, K))]
    if isinstance(c, DictC):
        return list(c.ent.keys()) + list(c.ent.values()) + ([c.base] if c.base is not None else [])
    if isinstance(c, InstC):
        return list(c.attrs.values())
    if isinstance(c, dict):
        return list(c.values())
    return []


def reach(I, roots):
    """{cell id: (path, content)} of all storage reachable from named roots."""
    out = {}
    todo = [(n, v) for n, v in roots]
    while todo:
        path, v = todo.pop()
        rs = []
        refs(v, rs)
        for r in rs:
            if r.id in out:
                continue
            c = I.read(r.id)
            out[r.id] = (path, c)
            if isinstance(c, DictC):
                todo += [("{}[{}]".format(path, k.v if isinstance(k, K) else "?"), x) for k, x in c.ent.items()]
                if c.base is not None:
                    todo.append((path, c.base))
            elif isinstance(c, InstC):
                todo += [("{}.{}".format(path, k), x) for k, x in c.attrs.items()]
            else:
                todo += [("{}[{}]".format(path, i), x) for i, x in enumerate(held(c))]
    return out


def library(I):
    """[(name, value)] of everything the library keeps between calls."""
    out = []
    seen = set()

    def add(name, v):
        if isinstance(v, Fn):
            if v in seen:
                return
            seen.add(v)
            for i, d in enumerate(v.defaults):
                out.append(("default argument {} of {}".format(i + 1, v.qual), d))
            for k, d in v.kwdefaults.items():
                out.append(("default argument {} of {}".format(k, v.qual), d))
            if v.frame is not None and v.frame.id not in seen:
                seen.add(v.frame.id)
                c = I.read(v.frame.id)
                if isinstance(c, dict):
                    for k, x in c.items():
                        add("{}:{}".format(v.module.name, k), x)
            if v.wraps is not None:
                add(name, v.wraps)
        elif isinstance(v, Cls):
            if v in seen:
                return
            seen.add(v)
            for k, x in v.ns.items():
                add("{}.{}".format(v.qual, k), x)
        elif isinstance(v, (Ref, Tup, Partial, Bound)):
            if isinstance(v, Partial):
                add(name, v.fn)
            out.append((name, v))
    for m in sorted(I.modframe):
        c = I.read(I.modframe[m].id)
        if isinstance(c, dict):
            for k, x in c.items():
                add("{}.{}".format(m, k), x)
    return out


def names_of(I):
    """{module: {name: value}} bound at module level."""
    return {m: dict(I.read(f.id)) for m, f in I.modframe.items() if isinstance(I.read(f.id), dict)}


def changed(I, before):
    """[(path, old content, new content)] of the cells whose content is no longer the same."""
    out = []
    for id, (path, c) in before.items():
        n = I.read(id)
        if n is not c and n != c:
            out.append((path, c, n))
    return out


def certain(I, c, old):
    """What certainly differs between two contents of a cell; None when they may be equal."""
    def same(v, o):
        return v is o or v == o

    def unknown(v, o):
        v = I.resolve(v)
        if isinstance(v, T) and v.op == "gamma":
            return any(same(x, o) or unknown(x, o) for x in v.args[1:])
        if isinstance(v, T) and v.op == "scalar" and not isinstance(v.args[0], str):
            return True
        return isinstance(v, T) and v.op in ("call", "mcall", "get", "attr", "item", "ext", "unknown", "loopvar", "list", "dict")
    if isinstance(c, DictC) and isinstance(old, DictC):
        if c.base is not None or c.loose or old.base is not None or old.loose:
            return None
        for k, o in old.ent.items():
            if k not in c.ent:
                return "the key {!r} is removed".format(k.v if isinstance(k, K) else k)
            if not same(c.ent[k], o) and not unknown(c.ent[k], o):
                return "the value of {!r} is replaced by {}".format(k.v if isinstance(k, K) else k, str(c.ent[k])[:80])
        for k in c.ent:
            if k not in old.ent:
                return "the key {!r} is added".format(k.v if isinstance(k, K) else k)
        return None
    if isinstance(c, InstC) and isinstance(old, InstC):
        for k, o in old.attrs.items():
            if k not in c.attrs:
                return "the attribute {} is removed".format(k)
            if not same(c.attrs[k], o) and not unknown(c.attrs[k], o):
                return "the attribute {} is replaced".format(k)
        new = [k for k in c.attrs if k not in old.attrs and not str(k).startswith("_")]
        return "the attribute {} is added".format(new[0]) if new else None
    if isinstance(c, NdC) and isinstance(old, NdC):
        if c.shape != old.shape:
            return "its shape becomes {}".format(c.shape)
        for i, (v, o) in enumerate(zip(c.flat, old.flat)):
            if not same(v, o) and not unknown(v, o):
                return "entry {} is replaced by {}".format(i, str(v)[:80])
        return None
    if isinstance(c, ListC) and isinstance(old, ListC):
        a, b = c.items(), old.items()
        if a is None or b is None:
            return None
        if len(a) != len(b):
            return "its length goes from {} to {}".format(len(b), len(a))
        for i, (v, o) in enumerate(zip(a, b)):
            if not same(v, o) and not unknown(v, o):
                return "entry {} is replaced by {}".format(i, str(v)[:80])
        return None
    return None


def writer_of(I, id, since=0):
    """Where storage was last written."""
    for e in reversed(I.effects[since:]):
        if e.kind in ("mutate", "setitem", "setattr", "delitem", "update", "append") and isinstance(e.target, Ref) and e.target.id == id:
            return e.where()
    return None


# ---- material for the scenarios ------------------------------------------------------------------------


def stand_in(I, name, attrs, methods=()):
    """An object of another library's class."""
    cls = Cls(name.split(".")[-1], None, [T("sym", name)], {}, None, name)
    return I.new("inst", InstC(cls, attrs))


def mesh(I, two_d=False, extra=True, L=None):
    M = I.lookup_path("toughio.Mesh")
    if two_d:
        n, blocks = 6, [("quad", [[0, 1, 4, 3]]), ("triangle", [[1, 2, 4], [2, 5, 4]])]
    else:
        n, blocks = 15, [("hexahedron", HEXA), ("wedge", WEDGE)]
    cells = I.new_list([Tup([K(t), build(I, Arr(*rows))]) for t, rows in blocks])
    pts = I.nd((n, 2 if two_d else 3), [coord(i, d) for i in range(n) for d in range(2 if two_d else 3)])
    m = I.call(M, [pts, cells], {}, None)
    nc = 3
    cd = {"material": Arr(*([1, 2, 1][:nc]))}
    if extra:
        cd["pres"] = Arr(*[real("pres{}".format(i)) for i in range(nc)])
        cd["vec"] = Arr(*[[real("vec{}.{}".format(i, d)) for d in range(3)] for i in range(nc)])
    I.setattr(m, "cell_data", build(I, cd), None)
    I.setattr(m, "point_data", build(I, {"temp": Arr(*[real("temp{}".format(i)) for i in range(n)])} if extra else {}), None)
    I.setattr(m, "field_data", build(I, {"rock1": Arr(1, 3), "rock2": Arr(2, 3)}), None)
    return m


def incon_mesh(I):
    m = mesh(I)
    cd = I.getattr(m, "cell_data")
    for k, n in (("initial_condition", 4), ("permeability", 3)):
        I.setitem(cd, K(k), build(I, Arr(*[[1.0 + i + 0.25 * j for j in range(n)] for i in range(3)])), None)
    for k, v in (("porosity", [0.1, 0.2, 0.3]), ("boundary_condition", [0, 0, 1])):
        I.setitem(cd, K(k), build(I, Arr(*v)), None)
    return m


def output(I, kind="element", tag="", form="array", labels=None, cols=("X", "Y", "Z", "P", "T", "XNACL_L", "EXTRA")):
    O = I.lookup_path("toughio.Output")
    labs = labels or (LAB if kind == "element" else PAIR)
    mk = (lambda r: Arr(*r)) if form == "array" else list
    t = ranked(I, real("time" + tag))[0]
    data = {c: mk([real("{}{}.{}".format(c, tag, i)) for i in range(len(labs))]) for c in cols}
    return I.instantiate(O, [K(kind), K("csv"), t, build(I, mk(list(labs))), build(I, data)], {}, None)


def meshio_mesh(I, sets=True):
    n = 15
    cells = I.new_list([stand_in(I, "meshio.CellBlock", {"type": K(t), "data": build(I, Arr(*r))}) for t, r in (("hexahedron", HEXA), ("wedge", WEDGE))])
    cells = I.new_list([Tup([K(t), build(I, Arr(*r))]) for t, r in (("hexahedron", HEXA), ("wedge", WEDGE))])
    C = I.lookup_path("toughio._mesh._mesh.CellBlock")
    cells = I.new_list([I.instantiate(C, [K(t), build(I, Arr(*r))], {}, None) for t, r in (("hexahedron", HEXA), ("wedge", WEDGE))])
    attrs = {
        "points": I.nd((n, 3), [coord(i, d) for i in range(n) for d in range(3)]),
        "cells": cells,
        "point_data": build(I, {"temp": Arr(*[real("temp{}".format(i)) for i in range(n)])}),
        "cell_data": build(I, {"pres": [Arr(real("p0"), real("p1")), Arr(real("p2"))], "gmsh:physical": [Arr(1, 2), Arr(1)]}),
        "field_data": build(I, {"rock1": Arr(1, 3), "rock2": Arr(2, 3)}),
    }
    if sets:
        attrs["point_sets"] = build(I, {"left": [0, 1]})
        attrs["cell_sets"] = build(I, {"top": [[0], [0]]})
    return stand_in(I, "meshio.Mesh", attrs)


def csv_file(I, name="OUT.csv", kind="element", steps=2):
    head = ["ELEM", "X", "Y", "P"] if kind == "element" else ["ELEM1", "ELEM2", "FLOW"]
    P = [K(",".join('"{:>18}"'.format(x) for x in head) + "\n" + ",".join('"{:>18}"'.format("(-)") for _ in head) + "\n")]
    for s in range(steps):
        P += [K('"TIME [sec]  '), hole(ranked(I, real("t{}".format(s)))[0], "e", 14, True, False), K('"\n')]
        for l in LAB if kind == "element" else PAIR:
            P.append(K(",".join('"{:>18}"'.format(x) for x in ([l] if kind == "element" else l))))
            for c in head[1 if kind == "element" else 2:]:
                P += [K(","), hole(real("{}{}.{}".format(c, s, l if kind == "element" else l[0])), "e", 20, True, False)]
            P.append(K("\n"))
    I.set_content(name, P)


class Op:
    """One call: run() -> value; guard: what must be left as it was."""

    def __init__(self, fn, args=(), kwargs=None, guard=None, method=None):
        self.fn, self.args, self.kwargs, self.method = fn, list(args), dict(kwargs or {}), method
        self.guard = guard if guard is not None else [("argument {}".format(i + 1), a) for i, a in enumerate(self.args)] + [
            ("argument " + k, v) for k, v in self.kwargs.items()]

    def run(self, I):
        if self.method:
            return attempt(I, I.method, self.fn, self.method, self.args, self.kwargs, None)
        return attempt(I, I.call, self.fn, self.args, self.kwargs, None)


SCEN = []


def scen(name, where, group="", **opts):
    def d(f):
        SCEN.append((name, where, group, f, opts))
        return f
    return d


def full(I, L=5):
    return build(I, Make(I).full(L))


def mixed(I, x, n=None):
    """The same parameters in tuples, arrays and numpy numbers in turn."""
    n = n if n is not None else [0]
    if isinstance(x, dict):
        return {k: mixed(I, v, n) for k, v in x.items()}
    n[0] += 1
    if isinstance(x, list) and x and all(isinstance(y, T) for y in x):
        return (Arr(*x), tuple(x), list(x))[n[0] % 3]
    if isinstance(x, (list, tuple)):
        return [mixed(I, y, n) for y in x]
    if isinstance(x, T) and x.op == "scalar" and n[0] % 2:
        t = real("np:" + x.args[0])
        I.nptypes[t] = "int64" if I.is_int(x) else ("float64", "float32")[n[0] // 2 % 2]
        if I.is_int(x):
            I.kinds[t] = "int"
        if x in I.ranks:
            I.ranks[t] = I.ranks[x]
        return t
    return x


for fmt in ("tough", "json"):
    for blk in ("all", "gener", "mesh", "incon") if fmt == "tough" else (None,):
        def _w(I, fmt=fmt, blk=blk):
            kw = {"file_format": K(fmt)}
            if blk:
                kw["block"] = K(blk)
            return Op(I.lookup_path("toughio.write_input"), [K("F"), full(I)], kw)
        scen("write_input in {} format{}".format(fmt, ", block " + blk if blk else ""), "toughio/_io/input/{0}/_{1}.py".format(fmt, "write" if fmt == "tough" else "json"), "input")(_w)


@scen("write_input with few parameters", "toughio/_io/input/tough/_write.py", "input")
def _(I):
    M = Make(I)
    P = {"rocks": {"ROCK1": M.rock("ROCK1")}, "title": ["one", "two"], "default": {"density": real("d"), "permeability": [real("a"), real("b"), real("c")]}}
    return Op(I.lookup_path("toughio.write_input"), [K("F"), build(I, P)], {"file_format": K("tough")})


@scen("write_input with two generators per element and arrays", "toughio/_io/input/tough/_write.py", "input")
def _(I):
    M = Make(I)
    F = M.full()

    def arrays(x):
        if isinstance(x, dict):
            return {k: arrays(v) for k, v in x.items()}
        if isinstance(x, list) and x and all(isinstance(y, T) for y in x):
            return Arr(*x)
        if isinstance(x, list):
            return [arrays(y) for y in x]
        return x
    A = {k: arrays(v) for k, v in F.items()}
    A["generators"] = {"AAA00": {k: [a, b] for (k, a), b in zip(
        M.generator("AAA00", table=4, enth="table", tag="0").items(), M.generator("AAA00", table=5, enth="table", tag="1").values())}}
    return Op(I.lookup_path("toughio.write_input"), [K("F"), build(I, A)], {"file_format": K("tough")})


for P_ in ({}, {"eos": "eco2n", "isothermal": True}, {"eos": "eos3", "n_component": 1, "diffusion": [[1.0, 2.0], [3.0, 4.0]]}, {"extra_options": {1: 2}, "more_options": {2: 6}, "selections": {"integers": {1: 1}, "floats": [1.0]}},
           {"title": "one", "times": [1.0, 2.0], "options": {"t_steps": 1.0}, "solver": {"method": 3}, "output": {"variables": {"temperature": None}}, "element_history": ["AAA00"]}):
    for fmt in ("tough", "json"):
        def _few(I, P_=P_, fmt=fmt):
            M = Make(I)
            P = dict({"rocks": {"ROCK1": M.rock("ROCK1", second=False)}}, **P_)
            return Op(I.lookup_path("toughio.write_input"), [K("F"), build(I, P)], {"file_format": K(fmt)})
        scen("write_input in {} format with rocks and {}".format(fmt, sorted(P_)), "toughio/_io/input/{0}/_{1}.py".format(fmt, "write" if fmt == "tough" else "json"), "input")(_few)


@scen("write_input of tuples, arrays and numpy numbers in json format", "toughio/_io/input/json/_json.py", "input")
def _(I):
    F = mixed(I, Make(I).full())
    return Op(I.lookup_path("toughio.write_input"), [K("F"), build(I, F)], {"file_format": K("json")})


for L in (5, 8):
    def _r(I, L=L):
        attempt(I, I.call, I.lookup_path("toughio.write_input"), [K("F"), full(I, L)], {"file_format": K("tough")}, None)
        return Op(I.lookup_path("toughio.read_input"), [K("F")], {"file_format": K("tough")})
    scen("read_input of labels of {} characters".format(L), "toughio/_io/input/tough/_read.py", "input")(_r)

for fmt, name in (("csv", "O.csv"), ("petrasim", "O.csv"), ("tecplot", "O.tec")):
    for form in ("array", "list") if fmt != "tecplot" else ("array",):
        for single in (False, True):
            def _w(I, fmt=fmt, name=name, form=form, single=single):
                a = output(I, tag="0", form=form)
                return Op(I.lookup_path("toughio.write_output"), [K(name), a if single else I.new_list([a, output(I, tag="1", form=form)])], {"file_format": K(fmt)})
            scen("write_output in {} format ({}s{})".format(fmt, form, ", not in a list" if single else ""), "toughio/_io/output/{0}/_{0}.py".format(fmt), "output")(_w)

for kind in ("element", "connection"):
    for form in (None, "list", "tuple", "array"):
        if kind == "connection" and form:
            continue

        def _r(I, kind=kind, form=form):
            csv_file(I, kind=kind)
            kw = {}
            if form:
                labs = [LAB[2], LAB[0], LAB[1]]
                kw["labels_order"] = build(I, {"list": list, "tuple": tuple, "array": lambda r: Arr(*r)}[form](labs))
            return Op(I.lookup_path("toughio.read_output"), [K("OUT.csv")], kw)
        scen("read_output of {}s{}".format(kind, " with labels given in " + form if form else ""), "toughio/_io/output/csv/_csv.py", "output")(_r)


@scen("reorder_labels", "toughio/_io/output/_common.py reorder_labels", "output")
def _(I):
    return Op(I.lookup_path("toughio._io.output._common.reorder_labels"), [output(I), build(I, [LAB[2], LAB[0], LAB[1]])])


for step in (None, 0, -1):
    for conn in (False, True):
        def _m(I, step=step, conn=conn):
            m = mesh(I)
            L = tree(I, I.getattr(m, "labels"))
            labs = list(zip(L, L[1:])) if conn else [L[2], L[0], L[1]]
            a = output(I, kind="connection" if conn else "element", tag="0", labels=labs)
            arg = I.new_list([a, output(I, kind="connection" if conn else "element", tag="1", labels=labs)]) if step is not None else a
            return Op(m, [arg], {} if step is None else {"time_step": K(step)}, method="read_output")
        scen("Mesh.read_output of {}s, time step {}".format("connection" if conn else "element", step), "toughio/_mesh/_mesh.py read_output", "mesh")(_m)

for fmt, name in (("tough", "MESH"), ("avsucd", "m.avs"), ("flac3d", "m.f3grid"), ("tecplot", "m.dat"), ("pickle", "m.pickle"), ("vtk", "m.vtk")):
    for two_d in (False, True) if fmt in ("avsucd", "tecplot") else (False,):
        for binary in (False, True) if fmt == "flac3d" else (None,):
            def _w(I, fmt=fmt, name=name, two_d=two_d, binary=binary):
                m = incon_mesh(I) if fmt == "tough" else mesh(I, two_d)
                kw = {"file_format": K(fmt)}
                if binary is not None:
                    kw["binary"] = K(binary)
                return Op(I.lookup_path("toughio.write_mesh"), [K(name), m], kw)
            scen("write_mesh in {} format{}{}".format(fmt, ", 2D" if two_d else "", ", binary" if binary else ""),
                 "toughio/_mesh/{0}/_{0}.py".format(fmt) if fmt != "vtk" else "toughio/_mesh/_helpers.py", "mesh")(_w)

@scen("write_mesh in tough format without initial conditions", "toughio/_mesh/tough/_tough.py", "mesh")
def _(I):
    m = mesh(I)
    return Op(I.lookup_path("toughio.write_mesh"), [K("MESH"), m], {"file_format": K("tough")})


@scen("Mesh.write_tough without any data", "toughio/_mesh/tough/_tough.py", "mesh")
def _(I):
    m = mesh(I, extra=False)
    return Op(m, [], {}, guard=[("the mesh", m)], method="write_tough")


for kw in ({"material_name": {"rock1": "roof", "rock2": "base"}}, {"material_name": {"rock2": "base"}, "material_end": ["rock2", "rock1"]}, {"material_end": ["rock1"]}, {"material_end": ("rock2", "rock1")}, {"material_end": "rock1"},
           {"coord": True}, {"incon": True}, {"nodal_distance": "orthogonal"}, {"gravity": [0.0, 0.0, -1.0]}, {"gravity": Arr(0.0, 0.0, -1.0)}):
    def _w(I, kw=kw):
        m = incon_mesh(I)
        kws = {k: build(I, v) for k, v in kw.items()}
        return Op(m, [], kws, guard=[("the mesh", m)] + [("argument " + k, v) for k, v in kws.items()], method="write_tough")
    scen("Mesh.write_tough({})".format(kw), "toughio/_mesh/tough/_tough.py", "mesh")(_w)


@scen("Mesh.write_incon", "toughio/_mesh/tough/_tough.py write_incon", "mesh")
def _(I):
    m = incon_mesh(I)
    return Op(m, [], {}, guard=[("the mesh", m)], method="write_incon")


for sets in (True, False):
    for ver in ("4.4.6", "3.3.1", "2.3.10"):
        def _f(I, sets=sets, ver=ver):
            I.versions = {"meshio.__version__": ver}
            m = meshio_mesh(I, sets)
            if not ver.startswith("4"):
                at = dict(I.read(m.id).attrs)
                at["cells"] = build(I, {"hexahedron": Arr(*HEXA), "wedge": Arr(*WEDGE)})
                at["cell_data"] = build(I, {"hexahedron": {"pres": Arr(real("p0"), real("p1")), "gmsh:physical": Arr(1, 2)},
                                            "wedge": {"pres": Arr(real("p2")), "gmsh:physical": Arr(1)}})
                I.write(m.id, InstC(I.read(m.id).cls, at))
            return Op(I.lookup_path("toughio.from_meshio"), [m], {"material": K("dfalt")})
        scen("from_meshio{} of meshio {}".format(" with sets" if sets else "", ver), "toughio/_mesh/_mesh.py from_meshio", "mesh")(_f)

for ver in ("4.4.6", "3.3.1"):
    def _t(I, ver=ver):
        I.versions = {"meshio.__version__": ver}
        m = mesh(I)
        return Op(m, [], {}, guard=[("the mesh", m)], method="to_meshio")
    scen("Mesh.to_meshio of meshio " + ver, "toughio/_mesh/_mesh.py to_meshio", "mesh")(_t)

for height in (1.0, [1.0, 2.0], (0.5, 0.5), Arr(1.0, 2.0)):
    for axis in (2, 1):
        def _e(I, height=height, axis=axis):
            m = mesh(I, True)
            h = build(I, height)
            return Op(m, [], {"height": h, "axis": K(axis), "inplace": K(False)}, guard=[("the mesh", m), ("argument height", h)], method="extrude_to_3d")
        scen("Mesh.extrude_to_3d(height={}, axis={}, inplace=False)".format(getattr(height, "rows", height), axis), "toughio/_mesh/_mesh.py extrude_to_3d", "mesh")(_e)

for height in (1.0, (2.0, 1.0)):
    for axis in (2, 0):
        def _e(I, height=height, axis=axis):
            m = mesh(I, True)
            h = build(I, height)
            rows = [[coord(i, 0), coord(i, 1)] for i in range(6)]
            for r in rows:
                r.insert(axis, 0.0)
            I.setattr(m, "points", build(I, Arr(*[tuple(r) for r in rows])), None)
            return Op(m, [], {"height": h, "axis": K(axis), "inplace": K(False)}, guard=[("the mesh", m), ("argument height", h)], method="extrude_to_3d")
        scen("Mesh.extrude_to_3d(height={}, axis={}, inplace=False) of points in space".format(height, axis), "toughio/_mesh/_mesh.py extrude_to_3d", "mesh")(_e)

for dup in (False, True):
    def _p(I, dup=dup):
        m = mesh(I)
        pts = I.getattr(m, "points")
        # numbers, so that equal points are known
        n = 15
        import itertools
        X = [[float(i), float(i * i % 7), float(-i)] for i in range(n)]
        if dup:
            X[14] = list(X[3])
        I.setattr(m, "points", build(I, Arr(*X)), None)
        return Op(m, [], {"inplace": K(False)}, guard=[("the mesh", m)], method="prune_duplicates")
    scen("Mesh.prune_duplicates(inplace=False) {} duplicates".format("with" if dup else "without"), "toughio/_mesh/_mesh.py prune_duplicates", "mesh")(_p)

for meth, arg in (("add_point_data", 15), ("add_cell_data", 3)):
    for form in (list, tuple, lambda r: Arr(*r)):
        def _a(I, meth=meth, arg=arg, form=form):
            d = build(I, form([real("new{}".format(i)) for i in range(arg)]))
            return Op(mesh(I), [K("new"), d], {}, method=meth)
        scen("Mesh.{} of {}".format(meth, getattr(form, "__name__", "array")), "toughio/_mesh/_mesh.py " + meth, "mesh")(_a)

for cells in ([0, 2], (1,), Arr(0, 1), [True, False, True]):
    def _s(I, cells=cells):
        c = build(I, cells)
        return Op(mesh(I), [K("new"), c], {}, method="set_material")
    scen("Mesh.set_material({})".format(getattr(cells, "rows", cells)), "toughio/_mesh/_mesh.py set_material", "mesh")(_s)

for pts in ([0.1, 0.2, 0.3], [[0.1, 0.2, 0.3], [1.0, 1.0, 1.0]], Arr((0.1, 0.2, 0.3), (1.0, 1.0, 1.0))):
    def _n(I, pts=pts):
        m = mesh(I)
        p = build(I, pts)
        return Op(m, [p], {}, guard=[("the mesh", m), ("argument points", p)], method="near")
    scen("Mesh.near({})".format(getattr(pts, "rows", pts)), "toughio/_mesh/_mesh.py near", "mesh")(_n)

for prop in ("volumes", "centers", "faces", "face_areas", "face_normals", "connections", "materials", "labels", "qualities", "n_cells", "cells_dict"):
    def _g(I, prop=prop):
        m = mesh(I)
        return Op(I.lookup_path("toughio.Mesh"), [], {}, guard=[("the mesh", m)]), (m, prop)
    scen("Mesh." + prop, "toughio/_mesh/_properties.py", "mesh", prop=prop)(_g)

for meth in ("split", "__repr__"):
    def _c(I, meth=meth):
        m = mesh(I)
        a = build(I, Arr(*[real("x{}".format(i)) for i in range(3)]))
        return Op(m, [a] if meth == "split" else [], {}, guard=[("the mesh", m), ("argument", a)], method=meth)
    scen("Mesh." + meth, "toughio/_mesh/_mesh.py " + meth, "mesh")(_c)

for meth in ("cell_data_to_point_data", "point_data_to_cell_data"):
    def _c(I, meth=meth):
        m = mesh(I)
        return Op(m, [], {}, guard=[("data of the mesh " + k, I.getitem(I.getattr(m, d), K(k))) for d, k in (("cell_data", "pres"), ("point_data", "temp"))] + [
            ("points of the mesh", I.getattr(m, "points"))], method=meth)
    scen("Mesh." + meth, "toughio/_mesh/_mesh.py " + meth, "mesh")(_c)

for form in (list, tuple, lambda r: Arr(*r)):
    for layer in (False, True):
        def _g(I, form=form, layer=layer):
            d = [build(I, form([real("d{}{}".format(a, i)) for i in range(n)])) for a, n in (("x", 2), ("y", 1), ("z", 2))]
            return Op(I.lookup_path("toughio.meshmaker.structured_grid"), d, {"origin": build(I, form([0.0, 0.0, 0.0])), "layer": K(layer)})
        scen("structured_grid of {}s, layer {}".format(getattr(form, "__name__", "array"), layer), "toughio/meshmaker/_structured_grid.py", "mesh")(_g)

        def _c(I, form=form, layer=layer):
            d = [build(I, form([1.0, 2.0])), build(I, form([0.5, 1.5, 2.5]))]
            return Op(I.lookup_path("toughio.meshmaker.cylindric_grid"), d, {"layer": K(layer)})
        scen("cylindric_grid of {}s, layer {}".format(getattr(form, "__name__", "array"), layer), "toughio/meshmaker/_cylindric_grid.py", "mesh")(_c)

    def _v(I, form=form):
        P = [[x, y, z] for x in (1.0, 3.0) for y in (1.0, 2.0) for z in (5.0, 1.0)]
        p = build(I, form([tuple(r) for r in P]) if form not in (list, tuple) else form([form(r) for r in P]))
        return Op(I.lookup_path("toughio.meshmaker.voxelize"), [p], {"origin": build(I, form([0.0, 0.0, 0.0]))})
    scen("voxelize of {}s".format(getattr(form, "__name__", "array")), "toughio/meshmaker/_voxelize.py", "mesh")(_v)

for n in (1, 2, 3):
    def _l(I, n=n):
        m = I.call(I.lookup_path("toughio.meshmaker.structured_grid"), [build(I, [1.0] * n), build(I, [1.0, 2.0]), build(I, [1.0])], {}, None)
        op = Op(I.lookup_path("toughio.Mesh"), [], {}, guard=[("the mesh", m)])
        return op, (m, "labels")
    scen("Mesh.labels of {} cells".format(2 * n), "toughio/_mesh/_common.py labeler", "mesh", prop=True)(_l)

for times in ([2.0, 1.0], (2.0, 1.0), Arr(2.0, 1.0), None):
    def _t(I, times=times):
        C = I.lookup_path("toughio._mesh._mesh.CellBlock")
        cells = I.new_list([I.instantiate(C, [K(t), build(I, Arr(*r))], {}, None) for t, r in (("hexahedron", HEXA), ("wedge", WEDGE))])
        pts = I.nd((15, 3), [coord(i, d) for i in range(15) for d in range(3)])
        pd = build(I, [{"temp": Arr(*[real("temp{}.{}".format(s, i)) for i in range(15)])} for s in range(2)])
        cd = build(I, [{"pres": Arr(*[real("pres{}.{}".format(s, i)) for i in range(3)])} for s in range(2)])
        kw = {"point_data": pd, "cell_data": cd}
        if times is not None:
            kw["time_steps"] = build(I, times)
        return Op(I.lookup_path("toughio.write_time_series"), [K("T.xdmf"), pts, cells], kw)
    scen("write_time_series at times {}".format(getattr(times, "rows", times)), "toughio/_mesh/_helpers.py write_time_series", "mesh")(_t)

for fam, cls, n in (("relative_permeability", "Corey", 2), ("capillarity", "TRUST", 5)):
    for form in (list, tuple, lambda r: Arr(*r)):
        def _m(I, fam=fam, cls=cls, n=n, form=form):
            C = I.lookup_path("toughio.{}.{}".format(fam, cls))
            m = I.call(C, [K(0.1 + 0.01 * i) for i in range(n)], {}, None)
            return Op(m, [build(I, form([0.2, 0.5, 0.9]))], {}, method="__call__")
        scen("{}.{} of {}s".format(fam, cls, getattr(form, "__name__", "array")), "toughio/{}/_base.py".format(fam), "models")(_m)


def prepare(I, k):
    """(operation, function running it) of scenario k."""
    name, where, group, f, opts = SCEN[k] if isinstance(k, int) else k
    r = f(I)
    if opts.get("prop"):
        op, (m, prop) = r
        op.run = lambda I: attempt(I, I.getattr, m, prop)
        return op
    return r


def more(tier):
    """Scenarios written for every shape of parameters."""
    from models import text_interp
    from toughcases import shapes
    I = text_interp()
    names = [(n, w) for n, P, w, r in shapes(Make(I), True)]
    out = []
    for j, (n, w) in enumerate(names):
        for fmt in ("tough", "json"):
            def f(I, j=j, fmt=fmt):
                P, w = list(shapes(Make(I), True))[j][1:3]
                kw = {"file_format": K(fmt)}
                if fmt == "tough":
                    kw.update({k: build(I, v) for k, v in w.items()})
                else:
                    P = mixed(I, P)
                return Op(I.lookup_path("toughio.write_input"), [K("F"), build(I, P)], kw)
            out.append(("write_input in {} format: {}".format(fmt, n), "toughio/_io/input/{0}/_{1}.py".format(fmt, "write" if fmt == "tough" else "json"), "shapes", f, {}))
    return out
