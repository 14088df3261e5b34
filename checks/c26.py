"""C26: arguments of the wrong kind are refused before anything is done.

Every public function is interpreted with one argument replaced by a value of
the wrong kind or out of range (the others being right): every path must stop,
and nothing may have been opened or changed by then. With values at the edge of
what is documented it must not stop.
"""
import scen
from c17 import Obs
from models import text_interp
from origin import Arr, attempt, build
from par import pmap
from values import K

RULES = {
    "U1": "an argument of the wrong kind or out of its range is refused",
    "U2": "what is refused has opened no file and changed no object",
    "U3": "arguments of every documented kind are accepted, up to the edges of their range",
}
RAISES = ("raise", "certain-failure", "bad-shape", "bad-index", "keyerror", "stop")


def fn(path):
    return lambda I: I.lookup_path("toughio." + path)


def on_mesh(I, name, **k):
    return (scen.mesh(I, **k), name)


def req_input(I):
    I.set_content("IN", [K("ENDCY\n")])
    return fn("read_input")(I), {"filename": K("IN"), "file_format": K("tough"), "label_length": K(None)}


def req_winput(I):
    return fn("write_input")(I), {"filename": K("OUT"), "parameters": build(I, {"title": "x"}), "file_format": K("tough"), "block": K("all")}


def req_output(I):
    scen.csv_file(I)
    return fn("read_output")(I), {"filename": K("OUT.csv"), "labels_order": K(None)}


def req_woutput(I):
    return fn("write_output")(I), {"filename": K("O.csv"), "output": I.new_list([scen.output(I)]), "file_format": K("csv")}


def req_history(I):
    I.set_content("H", [K("\"TIME\",\"A\"\n1.0,2.0\n")])
    return fn("read_history")(I), {"filename": K("H")}


def req_rmesh(I):
    I.hooks[fn("from_meshio")(I).qual] = lambda *a: K("mesh")
    return fn("read_mesh")(I), {"filename": K("a.vtk")}


def req_wmesh(I):
    return fn("write_mesh")(I), {"filename": K("a.avs"), "mesh": scen.mesh(I), "file_format": K("avsucd")}


def req_tough(I):
    return fn("write_mesh")(I), {"filename": K("MESH"), "mesh": scen.incon_mesh(I), "file_format": K("tough"), "nodal_distance": K("line"), "material_name": K(None), "material_end": K(None), "incon": K(False)}


def req_tough_method(I):
    return (scen.incon_mesh(I), "write_tough"), {"filename": K("MESH"), "nodal_distance": K("line"), "material_name": K(None), "material_end": K(None), "incon": K(False)}


def req_rseries(I):
    return fn("read_time_series")(I), {"filename": K("a.xdmf")}


def req_wseries(I):
    m = scen.mesh(I)
    return fn("write_time_series")(I), {"filename": K("a.xdmf"), "points": I.getattr(m, "points"), "cells": I.getattr(m, "cells"),
                                        "point_data": K(None), "cell_data": build(I, [{"P": Arr(1.0, 2.0, 3.0)}, {"P": Arr(4.0, 5.0, 6.0)}]), "time_steps": build(I, [1.0, 2.0])}


def req_wseries0(I):
    f, kw = req_wseries(I)
    kw["time_steps"] = K(None)
    return f, kw


def req_extrude(I):
    return on_mesh(I, "extrude_to_3d", two_d=True), {"height": K(1.0), "axis": K(2), "inplace": K(True)}


def req_split(I):
    return on_mesh(I, "split"), {"arr": build(I, Arr(1.0, 2.0, 3.0))}


def req_mread(I):
    m = scen.mesh(I)
    labels = [x.v for x in I.concrete(I.getattr(m, "labels"))]
    return (m, "read_output"), {"file_or_output": I.new_list([scen.output(I, labels=labels, tag=str(i)) for i in range(2)]), "time_step": K(-1)}


def req_mread1(I):
    m = scen.mesh(I)
    labels = [x.v for x in I.concrete(I.getattr(m, "labels"))]
    return (m, "read_output"), {"file_or_output": scen.output(I, labels=labels)}


def req_mfew(I):
    m = scen.mesh(I)
    return (m, "read_output"), {"file_or_output": scen.output(I, labels=["AAA10", "AAA11"])}


def req_mmany(I):
    m = scen.mesh(I)
    labels = [x.v for x in I.concrete(I.getattr(m, "labels"))]
    return (m, "read_output"), {"file_or_output": scen.output(I, labels=labels + ["ZZZ99"])}


def req_points(I):
    return on_mesh(I, "add_point_data"), {"label": K("d"), "data": build(I, Arr(*[float(i) for i in range(15)]))}


def req_cells(I):
    return on_mesh(I, "add_cell_data"), {"label": K("d"), "data": build(I, Arr(1.0, 2.0, 3.0))}


def req_material(I):
    return on_mesh(I, "set_material"), {"material": K("new"), "cells": build(I, [1])}


def req_near(I):
    return on_mesh(I, "near"), {"points": build(I, [0.0, 1.0, 2.0])}


def req_meshio(I):
    I.versions = {"meshio.__version__": "4.4.6"}
    return fn("from_meshio")(I), {"mesh": scen.meshio_mesh(I), "material": K("dfalt")}


def req_grid(I):
    return fn("meshmaker.structured_grid")(I), {"dx": build(I, [1.0, 2.0]), "dy": build(I, [1.0]), "dz": build(I, [3.0]), "origin": build(I, [0.0, 0.0, 0.0]), "material": K("dfalt")}


def req_grid2(I):
    return fn("meshmaker.structured_grid")(I), {"dx": build(I, [1.0, 2.0]), "dy": build(I, [1.0]), "dz": K(None), "origin": build(I, [0.0, 0.0])}


def req_cyl(I):
    return fn("meshmaker.cylindric_grid")(I), {"dr": build(I, [1.0, 2.0]), "dz": build(I, [1.0, 2.0]), "origin_z": K(0.0), "material": K("dfalt")}


CLOUD = [[x, y, z] for x in (0.0, 1.0) for y in (0.0, 2.0) for z in (0.0, 3.0)]


def req_vox(I):
    return fn("meshmaker.voxelize")(I), {"points": build(I, Arr(*CLOUD)), "origin": build(I, [-1.0, -1.0, -1.0]), "material": K("dfalt")}


def req_tri(I):
    from c16 import triangles
    I.ext_hooks["scipy.spatial.Delaunay"] = lambda I_, a, k, n: triangles(I, a)
    return fn("meshmaker.triangulate")(I), {"points": build(I, Arr([0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0])), "material": K("dfalt")}


def mixed(I):
    return I.new_list([scen.output(I), K(5)])


NOTSTR = (5, None, 1.5, ["a"], ("a",))
NOTARR = (5, None, 1.5, "abc", {"a": 1})
IO = "toughio/_io/"
ME = "toughio/_mesh/_mesh.py "
MM = "toughio/meshmaker/_"
# (request, where, [(argument, wrong values)], [(argument, right values)])
TABLE = [
    ("read_input", req_input, IO + "input/_helpers.py read",
     [("filename", NOTSTR), ("file_format", ("csv", "TOUGH", "x", 3)), ("label_length", ("5", 5.5, [5], 4, 10, 0, -5, 99))],
     [("label_length", (None, 5, 6, 7, 8, 9)), ("file_format", (None, "tough"))]),
    ("write_input", req_winput, IO + "input/_helpers.py write",
     [("filename", NOTSTR), ("parameters", (5, None, "x", [], [("title", "x")], (1,))), ("file_format", ("csv", "Json", 3)), ("block", ("foo", "ALL", "", None, 3))],
     [("file_format", (None, "tough")), ("block", ("all", "gener", "mesh", "incon"))]),
    ("read_output", req_output, IO + "output/_helpers.py read",
     [("filename", NOTSTR), ("labels_order", (5, "AAA10", {"a": 1}, 1.5))],
     [("labels_order", (None, list(scen.LAB), tuple(scen.LAB), Arr(*scen.LAB)))]),
    ("write_output", req_woutput, IO + "output/_helpers.py write",
     [("filename", NOTSTR), ("output", (5, None, "x", {"a": 1}, [5], [None], ["a"], (1,), mixed))], []),
    ("read_history", req_history, IO + "output/_helpers.py read_history", [("filename", NOTSTR)], []),
    ("read_mesh", req_rmesh, "toughio/_mesh/_helpers.py read", [("filename", NOTSTR)], []),
    ("write_mesh", req_wmesh, "toughio/_mesh/_helpers.py write", [("filename", NOTSTR)], []),
    ("write_mesh in tough format", req_tough, "toughio/_mesh/tough/_tough.py write",
     [("nodal_distance", ("foo", None, "LINE", "", 3)), ("material_name", (5, "a", ["a"], ("a", "b"))), ("material_end", (5, 1.5, {"a": 1})), ("incon", (1, 0, None, "yes", 1.0))],
     [("nodal_distance", ("line", "orthogonal")), ("material_name", (None, {}, {"rock1": "x"})), ("material_end", (None, "rock1", ["rock1"], ("rock1",), Arr("rock1"))), ("incon", (True, False))]),
    ("Mesh.write_tough", req_tough_method, "toughio/_mesh/tough/_tough.py write", [("nodal_distance", ("foo", None)), ("incon", (1, None)), ("material_name", ("a",)), ("material_end", (5,))], []),
    ("read_time_series", req_rseries, "toughio/_mesh/_helpers.py read_time_series", [("filename", NOTSTR)], []),
    ("write_time_series", req_wseries, "toughio/_mesh/_helpers.py write_time_series",
     [("filename", NOTSTR), ("point_data", (5, "x", {"a": [1]}, 1.5, [{}], [{"a": [1.0]}], [{}] * 3)), ("cell_data", (5, "x", {"a": 1}, {0: {}, 1: {}}, None, [])),
      ("time_steps", (5, "x", {"a": 1}, 1.5, [1.0], [1.0, 2.0, 3.0], (), Arr(1.0)))],
     [("point_data", (None, [{}, {}], ({}, {}))), ("time_steps", (None, [1.0, 2.0], (2.0, 1.0), Arr(1.0, 2.0)))]),
    ("write_time_series without times", req_wseries0, "toughio/_mesh/_helpers.py write_time_series",
     [("point_data", ([{}], [{"a": Arr(1.0)}], [{}] * 3, {0: {}, 1: {}})), ("cell_data", (None, [], (), {0: {}, 1: {}}))], []),
    ("Mesh.extrude_to_3d", req_extrude, ME + "extrude_to_3d", [("axis", (3, -1, None, "x", 1.5, "2"))], [("axis", (0, 1, 2)), ("height", (1.0, 2, [1.0, 2.0], (1.0,), Arr(1.0, 2.0)))]),
    ("Mesh.split", req_split, ME + "split", [("arr", ([1.0], [1.0] * 4, [], Arr(1.0, 2.0), (1, 2)))], [("arr", ([1.0] * 3, (1, 2, 3), Arr(1, 2, 3)))]),
    ("Mesh.read_output of two time steps", req_mread, ME + "read_output",
     [("file_or_output", (5, None, {"a": 1}, 1.5)), ("time_step", (1.5, None, "0", [0], 2, -3, 10, -10))], [("time_step", (-2, -1, 0, 1))]),
    ("Mesh.read_output of one", req_mread1, ME + "read_output", [("time_step", (1.5, None, "0"))], []),
    ("Mesh.read_output of fewer cells", req_mfew, ME + "read_output", [(None, (None,))], []),
    ("Mesh.read_output of more cells", req_mmany, ME + "read_output", [(None, (None,))], []),
    ("Mesh.add_point_data", req_points, ME + "add_point_data", [("label", (5, None, ["a"])), ("data", NOTARR + ([1.0], [1.0] * 14, [1.0] * 16, Arr(1.0, 2.0, 3.0), []))],
     [("data", ([1.0] * 15, tuple([1] * 15), Arr(*[[1.0, 2.0]] * 15)))]),
    ("Mesh.add_cell_data", req_cells, ME + "add_cell_data", [("label", (5, None, ["a"])), ("data", NOTARR + ([1.0], [1.0] * 2, [1.0] * 4, Arr(*[1.0] * 15), []))],
     [("data", ([1.0] * 3, (1, 2, 3), Arr([1.0, 2.0], [3.0, 4.0], [5.0, 6.0])))]),
    ("Mesh.set_material", req_material, ME + "set_material",
     [("cells", ([-1], [3], [0, 3], [1, -1], Arr(3), Arr(0, -1), [0.5], ["a"], [1.0], Arr(0.0, 1.0), [[0, 1]]))],
     [("cells", ([0], [2], [0, 1, 2], (1,), Arr(0, 2)))]),
    ("Mesh.near", req_near, ME + "near", [("points", (5, 1.5, None, [1.0, 2.0], [1.0] * 4, [[1.0, 2.0]], Arr([1.0, 2.0], [3.0, 4.0]), [[1.0] * 4]))],
     [("points", ([1.0, 2.0, 3.0], (1.0, 2.0, 3.0), Arr(1.0, 2.0, 3.0), [[1.0, 2.0, 3.0]], Arr([1.0, 2.0, 3.0], [4.0, 5.0, 6.0])))]),
    ("from_meshio", req_meshio, ME + "from_meshio", [("mesh", (5, None, "a.vtk", {"points": []})), ("material", (5, None, ["a"]))], [("material", ("a",))]),
    ("structured_grid", req_grid, MM + "structured_grid.py structured_grid",
     [("dx", NOTARR), ("dy", NOTARR), ("dz", (5, 1.5, "abc", {"a": 1})), ("material", (5, None, ["a"])), ("origin", (5, "abc", [0.0, 0.0], [0.0] * 4, [], Arr(0.0, 0.0), {"a": 1}))],
     [("dx", ([1.0], (1.0, 2.0), Arr(1.0, 2.0))), ("origin", (None, (0.0, 0.0, 1.0), Arr(0.0, 0.0, 1.0)))]),
    ("structured_grid in 2D", req_grid2, MM + "structured_grid.py structured_grid", [("origin", ([0.0, 0.0, 0.0], [0.0], 5, "ab"))], [("origin", (None, [1.0, 2.0]))]),
    ("cylindric_grid", req_cyl, MM + "cylindric_grid.py cylindric_grid",
     [("dr", NOTARR + ([1.0, 0.0], [-1.0], [1.0, -0.5, 2.0], Arr(0.0, 1.0))), ("dz", NOTARR + ([1.0, 0.0], [-1.0], [1.0, -0.5, 2.0], Arr(0.0, 1.0))), ("origin_z", ("a", [0.0], (1.0,))), ("material", (5, None, ["a"]))],
     [("dr", ([1e-9], (1.0, 2.0), Arr(1.0, 2.0))), ("dz", ([1e-9], (1.0,), Arr(2.0))), ("origin_z", (None, 0, -1.5))]),
    ("voxelize", req_vox, MM + "voxelize.py voxelize",
     [("points", NOTARR + ([1.0, 2.0, 3.0], Arr(1.0, 2.0), CLOUD[:-1], Arr(*CLOUD[1:]), [CLOUD])), ("origin", ([0.0, -1.0, -1.0], [-1.0, 0.0, -1.0], [-1.0, -1.0, 0.0], [5.0, 5.0, 5.0], [0.5, -1.0, -1.0])), ("material", (5, None))],
     [("origin", ([-0.1, -0.1, -0.1], (-1.0, -2.0, -3.0), Arr(-1.0, -1.0, -1.0))), ("points", (CLOUD, Arr(*CLOUD)))]),
    ("triangulate", req_tri, MM + "triangulate.py triangulate",
     [("points", NOTARR + ([1.0, 2.0], Arr(1.0, 2.0, 3.0), [[1.0] * 4] * 6, [[1.0]] * 4, [[[0.0, 1.0]]])), ("material", (5, None))],
     [("points", ([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]], Arr(*CLOUD)))]),
]
# arrays attached to the mesh that initial conditions cannot be written from
INCON = [
    ("porosity", [0.1, 0.2]), ("porosity", [[0.1], [0.2], [0.3]]), ("permeability", [[1.0, 2.0]] * 3), ("permeability", [1.0, 2.0]), ("permeability", [[[1.0]] * 3] * 3), ("permeability", [[1.0] * 4] * 3),
    ("permeability", [[1.0] * 3] * 2),
]
INCON_OK = [("porosity", [0.1, 0.2, 0.3]), ("permeability", [1.0, 2.0, 3.0]), ("permeability", [[1.0] * 3] * 3)]


def nd_of(I, v):
    def shape(x):
        return (len(x),) + shape(x[0]) if isinstance(x, list) else ()

    def flat(x):
        return [z for y in x for z in flat(y)] if isinstance(x, list) else [K(x)]
    return I.nd(shape(v), flat(v))


class Outcome:
    """What a call does: stops, opens, changes."""

    def __init__(self, I, f, kw):
        target = f if not isinstance(f, tuple) else None
        roots = [("argument " + k, v) for k, v in kw.items()]
        if target is None:
            roots.append(("the mesh", f[0]))
        before = scen.reach(I, roots)
        fs = {k: repr(v) for k, v in I.heap.items() if isinstance(k, tuple) and k[0] == "fs"}
        n = len(I.effects)
        I.log = []
        effect, clear = I.effect, set()

        def noted(kind, *a, **k):
            r = effect(kind, *a, **k)
            if len(I.effects) > n and not I.opaque and not any(e.pc and e.kind in RAISES for e in I.effects[n:]):
                clear.add(len(I.effects) - 1)
            return r
        I.effect = noted
        if target is None:
            self.v, self.why = attempt(I, I.method, f[0], f[1], [], kw, None)
        else:
            self.v, self.why = attempt(I, I.call, f, [], kw, None)
        del I.effect
        self.opaque = [str(x)[:200] for x in I.opaque]
        evs = [e for e in I.effects[n:]]
        self.stopped = self.why is not None and not isinstance(self.why, str)
        self.how = self.why.where() if self.stopped else str(self.why)
        self.may_stop = [e.where() for e in evs if e.pc and e.kind in RAISES]
        self.opened, self.perhaps, self.first = [], [], []
        for i, e in enumerate(evs):
            t = str(getattr(e.target, "name", e.target))
            if e.kind == "open" or e.kind == "call" and t in ("meshio.write", "meshio.read", "meshio.xdmf.TimeSeriesWriter", "meshio.xdmf.TimeSeriesReader", "meshio.XdmfTimeSeriesWriter", "meshio.XdmfTimeSeriesReader"):
                (self.perhaps if e.pc else self.opened).append(e.where())
                if not e.pc and n + i in clear:
                    self.first.append(e.where())
        self.changed, self.unsure = [], []
        if self.stopped:
            last = {id: (c, pc) for id, c, pc in I.log if id in before}
            diffs = [(before[id][0], before[id][1], c, pc) for id, (c, pc) in last.items() if c is not before[id][1] and c != before[id][1]]
        else:
            diffs = [d + ((),) for d in scen.changed(I, before)]
        I.log = None
        for path, old, new, pc in diffs:
            d = scen.certain(I, new, old)
            (self.unsure if d is None or pc else self.changed).append("{}: {}".format(path, d))
        self.files = [k[1] for k, v in I.heap.items() if isinstance(k, tuple) and k[0] == "fs" and fs.get(k) != repr(v)]


def show(v):
    if callable(v):
        return "<" + v.__name__ + ">"
    if isinstance(v, Arr):
        return "array" + str(list(v.rows))
    return repr(v)


def short(v):
    s = show(v)
    return s if len(s) < 60 else s[:57] + "..."


def make(I, v):
    if callable(v):
        return v(I)
    return K(v) if not isinstance(v, (dict, list, tuple, Arr)) else build(I, v)


def refused(case):
    name, req, where, arg, value, right = case
    o = Obs()
    I = text_interp()
    I.versions = {"meshio.__version__": "4.4.6"}
    f, kw = req(I)
    if f is None or isinstance(f, tuple) and f[0] is None:
        o.check("U1", None, "{}: not defined".format(name), "U1")
        return o.out, None
    if arg == "incon data":
        cd = I.getattr(f[0] if isinstance(f, tuple) else kw["mesh"], "cell_data")
        I.setitem(cd, K(value[0]), nd_of(I, value[1]), None)
        kw["incon"] = K(True)
    elif arg is not None:
        kw[arg] = make(I, value)
    r = Outcome(I, f, kw)
    label = "{} with {}={}".format(name, arg, short(value)) if arg else name
    key = "{}|{}|{}|{}".format("U3" if right else "U1", name, arg, short(value))
    if right:
        if r.stopped and not r.opaque:
            o.check("U3", False, "{}: stops at {}".format(label, r.how), key)
        elif r.why is None and not r.opaque and not r.may_stop:
            o.check("U3", True, "", "")
        else:
            o.check("U3", None, "{}: {} {} {}".format(label, r.why, r.opaque[:1], r.may_stop[:1]), "U3")
        return o.out, sorted(I.inlined)
    if r.stopped:
        o.check("U1", True, "", "")
        if r.opened:
            o.check("U2", False, "{}: opens a file at {} before it is refused at {}".format(label, r.opened[0], r.how), "U2|" + key)
        elif r.changed:
            o.check("U2", False, "{}: {} before it is refused at {}".format(label, r.changed[0], r.how), "U2|" + key)
        elif r.perhaps or r.unsure:
            o.check("U2", None, "{}: {}".format(label, (r.perhaps + r.unsure)[0]), "U2")
        else:
            o.check("U2", True, "", "")
    elif r.first:
        o.check("U1", False, "{}: is not refused; a file is opened at {}".format(label, r.first[0]), key)
    elif r.opened and not r.may_stop:
        o.check("U1", False, "{}: is not refused; a file is opened at {}".format(label, r.opened[0]), key)
    elif r.changed and not r.may_stop:
        o.check("U1", False, "{}: is not refused; {}".format(label, r.changed[0]), key)
    elif r.why is None and not r.opaque and not r.may_stop:
        o.check("U1", False, "{}: is accepted".format(label), key)
    else:
        o.check("U1", None, "{}: {} {} {}".format(label, r.why, r.opaque[:1], r.may_stop[:1]), "U1")
    return o.out, sorted(I.inlined)


def cases(tier):
    for name, req, where, bad, good in TABLE:
        for arg, vs in bad:
            for v in vs:
                yield name, req, where, arg, v, False
        yield name, req, where, None, None, "right arguments"
        for arg, vs in good:
            for v in vs:
                yield name, req, where, arg, v, True
    for name, req in (("write_mesh in tough format", req_tough), ("Mesh.write_tough", req_tough_method)):
        for k in INCON:
            yield name, req, "toughio/_mesh/tough/_tough.py check_incon", "incon data", k, False
        for k in INCON_OK:
            yield name, req, "toughio/_mesh/tough/_tough.py check_incon", "incon data", k, True


def run(rep, tier):
    for r, d in RULES.items():
        rep.rule(r, d)
    todo = [c for c in cases(tier) if not (c[0] in ("Mesh.read_output of fewer cells", "Mesh.read_output of more cells") and c[5])]
    fns = set()
    for c, r in zip(todo, pmap(refused, todo)):
        where = c[2]
        if r is None:
            rep.unknown("U1", where, "{}: not followed".format((c[0], c[3], short(c[4]))))
            continue
        out, inl = r
        fns |= set(inl or ())
        for rule, ok, msg, key in out:
            if ok is None:
                rep.unknown(rule, where, str(msg)[:400])
            elif ok:
                rep.ok(rule, "{} {}={}".format(c[0], c[3], short(c[4])))
            else:
                rep.bad(rule, where, str(msg)[:600], key)
    rep.analysed["calls followed"] = len(todo)
    rep.analysed["functions interpreted"] = len(fns)
