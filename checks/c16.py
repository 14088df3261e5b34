"""C16: what the options of the commands say is what the commands do.

Every command is interpreted over symbolic result files with each of its
options; what stands in the written files (or goes to the writers of meshio)
is compared with what the options ask for.
"""
import re

import c14
import c17
from c17 import Obs, owner, recorded, untree
from models import analysed, text_interp
from origin import attempt, build, tree
from par import pmap
from tx import hole, pcs
from values import K, InstC, Ref, T

RULES = {
    "O1": "exactly the files asked for are written, under the name given or the documented default",
    "O2": "the chosen format is the one written by every branch",
    "O3": "the time step asked for (the last by default, all of them for series) is exported",
    "O4": "voxelize, origin and layer shape the mesh; without them points are triangulated",
    "O5": "a given mesh is the one exported, with the results and nothing else attached",
    "O6": "extract: coordinates are those of the labels, one file per time step when asked, element or connection data as asked",
    "O7": "merge, save2incon and co2tab write exactly the parts the options select",
    "O8": "every declared option makes a difference",
    "O9": "what a command assigns on a mesh is something a mesh has",
    "O10": "impossible requests are refused before anything is written",
}
V4 = "4.4.6"
EXT = {"tecplot": ".dat", "vtk": ".vtk", "vtu": ".vtu", "xdmf": ".xdmf"}
XEXT = {"csv": ".csv", "tecplot": ".tec", "petrasim": ".csv"}
WHERE = "toughio/_cli/_{}.py: {}"
LAB = c14.LABELS


# ---- what a command did -------------------------------------------------------------------------


class Did:
    """Files and calls of one run of a command."""

    def __init__(self, cmd, argv, files, mesh=None):
        self.I = I = text_interp()
        I.versions = {"meshio.__version__": V4}
        for k, f in files.items():
            f(I, k)
        self.mesh = None
        if mesh:
            I.set_content("mesh.pickle", [K("pickled")])

            def load(I_, a, k, n):
                if self.mesh is None:
                    self.mesh = mesh(I)
                return self.mesh
            I.ext_hooks["pickle.load"] = I.ext_hooks["cPickle.load"] = load
        I.ext_hooks["scipy.spatial.Delaunay"] = lambda I_, a, k, n: triangles(I, a)
        I.ext_hooks["pkg_resources.resource_filename"] = lambda I_, a, k, n: K("<toughio>/" + a[1].v) if len(a) == 2 and isinstance(I.resolve(a[1]), K) else None
        I.ext_hooks["os.path.isdir"] = lambda I_, a, k, n: K(a[0] == K("somewhere")) if a else None
        self.before = {k for k in I.heap if isinstance(k, tuple) and k[0] == "fs"}
        old = {k: repr(I.heap[k]) for k in self.before}
        n = len(I.effects)
        self.name = "{} {}".format(cmd, " ".join(argv))
        self.v, self.why = attempt(I, I.call, I.lookup_path("toughio._cli." + cmd), [build(I, argv)], {}, None)
        self.opaque = list(I.opaque)
        self.evs = [e for e in I.effects[n:] if not e.pc]
        self.maybe = [e for e in I.effects[n:] if e.pc]
        # files a refused command had already opened for writing are in there too
        self.files = {k[1] for k in I.heap if isinstance(k, tuple) and k[0] == "fs" and (k not in self.before or repr(I.heap[k]) != old[k])}
        self.calls = []
        for e in self.evs:
            t = str(getattr(e.target, "name", e.target))
            if e.kind == "call" and t in ("meshio.write", "meshio.xdmf.TimeSeriesWriter", "meshio.XdmfTimeSeriesWriter", "shutil.copy", "shutil.copyfile", "shutil.copy2"):
                self.calls.append((t, [I.resolve(x) for x in e.data[0]], dict((k, I.resolve(x)) for k, x in e.data[1]), e))
            elif e.kind == "mcall" and str(e.data[0]) == "write" and "meshio.Mesh" in str(e.target)[:12]:
                self.calls.append(("meshio.write", [I.resolve(x) for x in e.data[1]], dict((k, I.resolve(x)) for k, x in e.data[2]), e))

    @property
    def failed(self):
        return self.why is not None and not isinstance(self.why, str) and not self.opaque

    @property
    def ok(self):
        return self.why is None and not self.opaque

    def outputs(self):
        """Every (name, format or None) something was written under; None when not known."""
        out = []
        for f in self.files:
            out.append((f, "text"))
        for t, a, k, e in self.calls:
            d = {"meshio.write": 0, "meshio.xdmf.TimeSeriesWriter": 0, "meshio.XdmfTimeSeriesWriter": 0}.get(t, 1)
            f = a[d] if len(a) > d else k.get("filename", k.get("dst"))
            if not isinstance(f, K):
                return None
            if t == "meshio.write":
                m = a[2] if len(a) > 2 else k.get("file_format", K(None))
                if not isinstance(m, K):
                    return None
                out.append((f.v, m.v or {".vtk": "vtk", ".vtu": "vtu", ".xdmf": "xdmf", ".dat": "tecplot"}.get("." + f.v.rsplit(".", 1)[-1])))
            elif "TimeSeries" in t:
                out.append((f.v, "xdmf"))
            else:
                out.append((f.v, "copy"))
        return out

    def text(self, name):
        return self.I.content(name)


def triangles(I, args):
    from engine import Cls
    p = I.as_nd(args[0]) if args else None
    if p is None or len(p.shape) != 2:
        return None
    n, d = p.shape
    rows = [[(i + k) % n for k in range(d + 1)] for i in range(n - d)]
    cls = Cls("Delaunay", None, [T("sym", "scipy.spatial.Delaunay")], {}, None, "scipy.spatial.Delaunay")
    return I.new("inst", InstC(cls, {"simplices": I.nd((len(rows), d + 1), [K(x) for r in rows for x in r])}))


def exported(o, d, rule, key):
    """(points, [(type, rows)], point data, cell data, times) of what went to meshio; None when not known."""
    I = d.I
    pieces = []
    for e in d.evs:
        if e.kind == "call" and str(getattr(e.target, "name", e.target)) == "meshio.Mesh":
            at = c17.call_kwargs(I, e)
            r = recorded(I, e)
            blocks = [(tree(I, I.getattr(b, "type")), tree(I, I.getattr(b, "data"))) for b in I.concrete(at["cells"]) or []] if "cells" in at else []
            pieces.append((r.get("points"), blocks, r.get("point_data"), r.get("cell_data"), None))
    ms = [e for e in d.evs if e.kind == "mcall" and e.data[0] == "write_points_cells"]
    if ms:
        a = [I.concrete(x) if k else tree(I, x) for k, x in enumerate(ms[0].data[3])]
        blocks = [(tree(I, I.getattr(b, "type")), tree(I, I.getattr(b, "data"))) for b in a[1] or []] if len(a) > 1 else []
        for e in d.evs:
            if e.kind == "mcall" and e.data[0] == "write_data":
                k = {x: untree(I, y) for x, y in e.data[2]}
                pieces.append((a[0], blocks, k.get("point_data"), k.get("cell_data"), untree(I, e.data[1][0])))
    return pieces


def flat(v):
    return sum(([y for y in x] if isinstance(x, list) else [x] for x in v), []) if isinstance(v, list) else None


# ---- export ----------------------------------------------------------------------------------------


def cloud(name, steps, times=None):
    return {"OUT.csv": lambda I, k: c17.grid_file(I, k, c17.CLOUD[name], steps, times=times)}


ORIGIN = ["0", "0", "0"]


def export(case):
    what, fmt, name, step, steps, opts, meshed, infile = case
    o = Obs()
    pts = c17.CLOUD[what]
    n = len(pts)
    order = [(i * 3 + 2) % n for i in range(n)] if n % 3 else [(i + 1) % n for i in range(n)]
    files = {infile: cloud(what, steps)["OUT.csv"]}
    argv = [infile] + (["-f", fmt] if fmt else []) + (["-o", name] if name else []) + ([] if step is None else ["-t", str(step)]) + opts + (["-m", "mesh.pickle"] if meshed else [])
    fmt = fmt or "vtk"

    def mesh(I):
        q = I.lookup_path("toughio._mesh._common.labeler")
        I.hooks[q.qual] = lambda *a, **k: I.nd((n,), [K("AAA%02d" % x) for x in order])
        return c17.row_of(I, n)
    d = Did("export", argv, files, mesh if meshed else None)
    tell = d.name
    if not d.ok:
        o.stop("O1", d.why, d.opaque if fmt != "tecplot" or not d.files else d.opaque, tell, "O1|export|stop")
        return o.out, None
    want = name or infile.rsplit(".", 1)[0] + EXT[fmt]
    outs = d.outputs()
    if outs is None:
        o.check("O1", None, tell + ": what is written is not known", "O1|export")
        return o.out, None
    names = sorted({x for x, _ in outs})
    o.check("O1", names == [want] if outs or not d.maybe else None, tell + ": writes {} instead of {!r}".format(names, want), "O1|export|name|{}".format(fmt))
    if names == [want]:
        got = {f for _, f in outs}
        if got == {"text"}:
            s = "".join(p.v if isinstance(p, K) else " " for p in d.text(want))
            got = {"tecplot" if "VARIABLES" in s.upper() else "vtk" if s.startswith("# vtk") else "text"}
        o.check("O2", got == {fmt}, tell + ": written as {}".format(sorted(map(str, got))), "O2|export|{}".format(fmt))
    if fmt == "tecplot":
        # data in the order of the variables, block by block
        text = d.text(want) if want in d.files else None
        if text is None:
            return o.out, sorted(d.I.inlined)
        s = range(steps)[-1 if step is None else step]
        seen = set()
        for p in text:
            if isinstance(p, T):
                w = c17.who(p)
                seen |= {x[0] for x in w or () if x[0][:1] in "PT" and x[0][1:].isdigit()}
        o.check("O3", seen == {"P{}".format(s), "T{}".format(s)} if seen else None, tell + ": writes the results {} instead of those of time step {}".format(sorted(seen), s), "O3|export|step")
        return o.out, sorted(d.I.inlined)
    found = exported(o, d, "O3", "O3|export")
    which = list(range(steps)) if fmt == "xdmf" else [range(steps)[-1 if step is None else step]]
    if not found or fmt != "xdmf" and len(found) != 1:
        o.check("O3", None, tell + ": what is written is not known", "O3|export")
        return o.out, None
    if fmt == "xdmf":
        ts = [f[4] for f in found]
        o.check("O3", ts == [s + 1.0 for s in which] if all(isinstance(t, float) for t in ts) else None, tell + ": writes the times {}".format(ts), "O3|export|times")
    voxel = not meshed and ("-v" in opts or "--voxelize" in opts or "line" in what)
    for (P, blocks, pd, cd, t), s in zip(found, which):
        place, other = (cd, pd) if meshed or voxel else (pd, cd)
        if not isinstance(place, dict):
            o.check("O3", False if place is None and isinstance(other, dict) and other else None, tell + ": results are attached to {}".format("points" if meshed or voxel else "cells"), "O3|export|place")
            continue
        cols = set(place) - {"material"}
        o.check("O3", cols - {"X", "Y", "Z"} == {"P", "T"}, tell + ": the arrays {} are attached".format(sorted(cols)), "O3|export|arrays")
        for c in ("P", "T"):
            v = flat(place.get(c))
            es = [c17.who(x) for x in v] if v else [None]
            if None in es:
                o.check("O3", None, tell + ": {} is not known".format(c), "O3|export")
                continue
            names = {x[0] for w in es for x in w}
            o.check("O3", names == {"{}{}".format(c, s)}, tell + ": {} holds {} instead of time step {}".format(c, sorted(names), s), "O3|export|step")
            if meshed:
                got = [owner("{}{}".format(c, s), x) for x in v]
                o.check("O5", got == [str(i) for i in order], tell + ": {} of the cells is that of labels {} instead of {}".format(c, got, order), "O5|export|labels")
        if meshed:
            o.check("O5", not (isinstance(pd, dict) and pd), tell + ": the point data {} of the mesh are exported with the results".format(sorted(pd or {})), "O5|export|left")
            o.check("O5", [x for x, _ in blocks] == ["hexahedron"] and len(blocks[0][1]) == n if blocks else None, tell + ": the cells of the mesh are not those exported", "O5|export|cells")
        if not c17.numbers(P) or not blocks:
            o.check("O4", None, tell + ": the mesh is not known", "O4|export")
            continue
        kinds = {x for x, _ in blocks}
        if voxel:
            o.check("O4", kinds == {"hexahedron"}, tell + ": the cells are {}".format(sorted(kinds)), "O4|export|voxels")
            i = (opts.index("--origin") + 1) if "--origin" in opts else None
            org = [float(x) for x in opts[i:i + 3]] if i else [0.0, 0.0, 0.0]
            corner = [p for p in P if all(abs(p[k] - org[k]) < 1e-9 for k in range(3))]
            o.check("O4", bool(corner), tell + ": no corner of the mesh stands at the origin {}".format(org), "O4|export|origin")
        elif not meshed:
            ax = [k for k in range(3) if len({p[k] for p in pts}) > 1]
            dim = len(ax)
            o.check("O4", kinds == {"tetra" if dim == 3 else "triangle"}, tell + ": the cells are {}".format(sorted(kinds)), "O4|export|triangles")
            o.check("O4", [tuple(p) for p in P] in [[tuple(p[k] for k in ax) for p in pts], list(pts)] if dim == 3 or len(P[0]) == 2 else None, tell + ": the points are not those of the results", "O4|export|points")
    return o.out, sorted(d.I.inlined)


def layers(case):
    """By layers, cells of one height follow each other; otherwise cells above each other do."""
    fmt, flag, what = case
    o = Obs()
    d = Did("export", ["OUT.csv", "-f", fmt, "-v", "--origin"] + ORIGIN + flag, cloud(what, 1))
    if not d.ok:
        o.stop("O4", d.why, d.opaque, d.name, "O4|layer|stop")
        return o.out, None
    found = exported(o, d, "O4", "O4|layer")
    if len(found) != 1 or not c17.numbers(found[0][0]) or len(found[0][1]) != 1:
        o.check("O4", None, d.name + ": the mesh is not known", "O4|layer")
        return o.out, None
    P, blocks = found[0][:2]
    cent = [tuple(sum(P[k][x] for k in q) / len(q) for x in range(3)) for q in blocks[0][1]]
    pts = c17.CLOUD[what]
    nx, ny, nz = [len({p[k] for p in pts}) for k in range(3)]
    if flag:
        good = all(len({round(c[2], 9) for c in cent[i:i + nx * ny]}) == 1 for i in range(0, len(cent), nx * ny))
    else:
        good = all(len({(round(c[0], 9), round(c[1], 9)) for c in cent[i:i + nz]}) == 1 for i in range(0, len(cent), nz))
    o.check("O4", good, d.name + ": the cells are {}ordered by layers".format("not " if flag else ""), "O4|layer|{}".format(bool(flag)))
    return o.out, sorted(d.I.inlined)


def refused(case):
    cmd, argv, files, why, mesh = case
    o = Obs()
    d = Did(cmd, argv, FILES(files), mesh)
    if d.opaque or isinstance(d.why, str):
        o.check("O10", None, d.name + ": " + str((d.opaque or [d.why])[0])[:200], "O10")
        return o.out, None
    outs = d.outputs()
    gone = d.why is not None
    o.check("O10", gone or d.maybe != [] and None, d.name + ": {} is accepted".format(why), "O10|{}|{}".format(cmd, why))
    o.check("O10", None if outs is None else not outs, d.name + ": {} is noticed after {} was written".format(why, sorted({str(x[0]) for x in outs or []})), "O10|{}|late".format(cmd))
    return o.out, sorted(d.I.inlined)


# ---- extract ----------------------------------------------------------------------------------------


def mesh_text(labels, rest=""):
    """Element records with nonsense in the columns between label and material when asked."""
    out = "ELEME\n"
    for i, l in reversed(list(enumerate(labels))):
        out += "{:<10}{:5}rockA{:10.4f}{:10.4f}{:10.4f}{:10.4f}{:10.4f}{:10.4f}\n".format(l + rest, "", 1.0, 0.0, 0.0, *centre(i))
    return out + "\nCONNE\n\n"


def centre(i):
    return (i + 0.5, 2.0 * i * i + 1.0, -3.0 * i - 1.0)


def widened(pieces, wide):
    """Row numbers that fill their columns and touch the labels."""
    return [K(re.sub("     ([1-9])$", r"10000\1", p.v)) if wide and isinstance(p, K) else p for p in pieces]


def FILES(which):
    out = {}
    for name, kind in which.items():
        if kind[0] == "listing":
            _, k, steps, length = kind[:4]
            out[name] = lambda I, n, k=k, steps=steps, length=length, wide=kind[4:]: I.set_content(n, widened(c14.sim_listing(["P", "T"], k, steps, length)(I)[0], wide))
        elif kind[0] == "mesh":
            out[name] = lambda I, n, kind=kind: I.set_content(n, [K(mesh_text([l + "0123"[: kind[1] - 5] for l in LAB], kind[2]))])
        elif kind[0] == "text":
            out[name] = lambda I, n, kind=kind: I.set_content(n, [K(kind[1])])
        elif kind[0] == "cloud":
            out[name] = lambda I, n, kind=kind: c17.grid_file(I, n, c17.CLOUD[kind[1]], kind[2])
    return out


def extract(case):
    kind, fmt, name, steps, split, length, given, mfile = case
    o = Obs()
    wide = given == "needed"
    files = FILES({"RUN": ("listing", kind, steps, length) + (wide,) * wide, mfile: ("mesh", length, "12345"[: 10 - length] if wide else "")})
    argv = ["RUN", mfile] + (["-f", fmt] if fmt else []) + (["-o", name] if name else []) + (["-s"] if split else []) + (["-c"] if kind == "connection" else []) + (["-l", str(length)] if given else [])
    d = Did("extract", argv, files)
    I, tell = d.I, d.name
    if not d.ok:
        o.stop("O6", d.why, d.opaque, tell, "O6|extract|stop")
        return o.out, None
    fmt = fmt or "csv"
    want = name or ("OUTPUT_ELEME" if kind == "element" else "OUTPUT_CONNE") + XEXT[fmt]
    if split and steps > 1:
        i = want.rfind(".")
        i = len(want) if i <= want.rfind("/") + 1 else i
        wants = ["{}_{}{}".format(want[:i], s + 1, want[i:]) for s in range(steps)]
    else:
        wants = [want]
    o.check("O1", sorted(d.files) == sorted(wants), tell + ": writes {} instead of {}".format(sorted(d.files), sorted(wants)), "O1|extract|name")
    if sorted(d.files) != sorted(wants):
        return o.out, None
    labs = [l + "0123"[: length - 5] for l in LAB]
    rows = labs if kind == "element" else [(a + "0123"[: length - 5], b + "0123"[: length - 5]) for a, b in c14.PAIRS]
    at = {l: centre(i) for i, l in enumerate(labs)}
    for w, ss in zip(wants, [[s] for s in range(steps)] if len(wants) > 1 else [list(range(steps))]):
        I.effects.clear()
        v, why = attempt(I, I.call, I.lookup_path("toughio.read_output"), [K(w)], {"file_format": K(fmt)} if fmt != "csv" else {}, None)
        if why is not None or I.opaque:
            o.check("O6", None, tell + ": {} cannot be read back: {}".format(w, str(why or I.opaque)[:200]), "O6")
            return o.out, None
        outs = I.concrete(v)
        if outs is None:
            o.check("O6", None, tell + ": {} is not known".format(w), "O6")
            return o.out, None
        o.check("O2", {tree(I, I.getattr(x, "format")) for x in outs} == {fmt}, tell + ": {} is not of format {}".format(w, fmt), "O2|extract|{}".format(fmt))
        o.check("O6", len(outs) == len(ss), tell + ": {} holds {} time steps instead of {}".format(w, len(outs), len(ss)), "O6|extract|steps")
        for x, s in zip(outs, ss):
            lab = tree(I, I.getattr(x, "labels"))
            data = tree(I, I.getattr(x, "data"))
            if not isinstance(data, dict):
                o.check("O6", None, tell + ": the data of {} are not known".format(w), "O6")
                continue
            if fmt != "tecplot":
                o.check("O6", lab == [list(r) if isinstance(r, tuple) else r for r in rows] if isinstance(lab, list) else None, tell + ": the labels of {} are {}".format(w, lab), "O6|extract|labels")
            for c in ("P", "T"):
                r = data.get(c)
                exp = ["s{}.{}.{}".format(s, c, i) for i in range(len(rows))]
                got = [y.args[0] if isinstance(y, T) and y.op == "scalar" else y for y in r] if isinstance(r, list) else r
                o.check("O6", got == exp if isinstance(r, list) or r is None else None, tell + ": {} of time step {} is {} instead of {}".format(c, s, str(got)[:120], exp), "O6|extract|data")
            for k, c in enumerate("XYZ"):
                exp = [at[l][k] for l in labs] if kind == "element" else [(at[a][k] + at[b][k]) / 2 for a, b in rows]
                r = data.get(c)
                good = isinstance(r, list) and all(isinstance(y, (int, float)) for y in r)
                o.check("O6", all(abs(p - q) < 1e-6 for p, q in zip(r, exp)) and len(r) == len(exp) if good else False if r is None else None,
                        tell + ": {} of time step {} is {} instead of {}".format(c, s, str(r)[:120], exp), "O6|extract|coordinates")
    return o.out, sorted(I.inlined)


# ---- text commands -------------------------------------------------------------------------------------


def literal(d, name):
    if name not in d.files:
        return None
    p = d.text(name)
    return "".join(x.v for x in p) if all(isinstance(x, K) for x in p) else None


def save2incon(case):
    text, reset, name = case
    o = Obs()
    d = Did("save2incon", ["SAVE", name] + reset, FILES({"SAVE": ("text", text)}))
    if not d.ok:
        o.stop("O7", d.why, d.opaque, d.name, "O7|save2incon|stop")
        return o.out, None
    o.check("O1", sorted(d.files) == [name], d.name + ": writes {}".format(sorted(d.files)), "O1|save2incon")
    got = literal(d, name)
    if got is None:
        o.check("O7", None, d.name + ": what is written is not known", "O7")
        return o.out, None
    want = text
    if reset:
        lines = text.splitlines(True)
        k = next((i for i, l in enumerate(lines) if l.startswith("+++")), len(lines))
        want = "".join(lines[:k])
    if reset:
        o.check("O7", got.rstrip("\n") == want.rstrip("\n"), d.name + ": writes {!r} for {!r}".format(got[-60:], text[-60:]), "O7|save2incon|reset")
        o.check("O7", got.endswith("\n\n"), d.name + ": no blank line ends the block: {!r}".format(got[-40:]), "O7|save2incon|end")
    else:
        o.check("O7", got == want, d.name + ": writes {!r} for {!r}".format(got[-60:], text[-60:]), "O7|save2incon|copy")
    return o.out, sorted(d.I.inlined)


BODY = "A title\nROCKS----1\nrock1    1\n\nPARAM----1\n 123\n\n"
MESHT = "ELEME----1\nAAA00          rock1\nAAA01          rock1\n\nCONNE----1\nAAA00AAA01\n\n"
INCT = "INCON----1\nAAA00\n  1.0e5  20.0\n\n"


def merge(case):
    folder, end, tail, incon, inmesh = case
    o = Obs()
    head = folder + "/" if folder else ""
    inp = BODY + end + tail
    files = {head + "INFILE": ("text", inp), head + "MESH": ("text", MESHT)}
    if incon:
        files[head + "INCON"] = ("text", INCT)
    if folder:      # those of the working folder are not the ones
        files["MESH"] = ("text", "ELEME----1\nZZZ99\n\n")
        files["INCON"] = ("text", "INCON----1\nZZZ99\n\n")
    d = Did("merge", [head + "INFILE", "OUT"], FILES(files))
    if not d.ok:
        o.stop("O7", d.why, d.opaque, d.name, "O7|merge|stop")
        return o.out, None
    o.check("O1", sorted(d.files) == ["OUT"], d.name + ": writes {}".format(sorted(d.files)), "O1|merge")
    got = literal(d, "OUT")
    want = BODY + MESHT + (INCT if incon else "") + end + tail
    o.check("O7", None if got is None else got == want, d.name + " ({}INCON): writes {!r} instead of {!r}".format("" if incon else "no ", str(got)[-110:], want[-110:]), "O7|merge")
    return o.out, sorted(d.I.inlined)


def co2tab(case):
    o = Obs()
    d = Did("co2tab", ["somewhere"], {})
    if not d.ok:
        o.stop("O7", d.why, d.opaque, d.name, "O7|co2tab|stop")
        return o.out, None
    outs = d.outputs()
    ok = outs is not None and len(outs) == 1
    o.check("O7", sorted(x.replace("/CO2TAB", "") for x, _ in outs) == ["somewhere"] if ok else None if outs is None or not outs else False,
            d.name + ": writes {}".format(outs), "O7|co2tab|target")
    src = [a[0] for t, a, k, e in d.calls if t.startswith("shutil") and a]
    if len(src) == 1 and isinstance(src[0], K):
        o.check("O7", src[0].v.endswith("data/CO2TAB"), d.name + ": copies {!r}".format(src[0].v), "O7|co2tab|source")
    return o.out, sorted(d.I.inlined)


# ---- options that make no difference ---------------------------------------------------------------------


def summary(d):
    """Everything a run leaves behind."""
    if d.opaque or isinstance(d.why, str):
        return None
    out = ["refused" if d.why is not None else "done", sorted(d.files)]
    for f in sorted(d.files):
        out.append(repr(d.text(f)))
    for t, a, k, e in d.calls:
        out.append((t, repr([untree(d.I, x) if not isinstance(x, T) else x for x in a]), repr(sorted((x, repr(untree(d.I, y))) for x, y in k.items()))))
    for e in d.evs:
        if e.kind == "mcall" and str(e.data[0]) in ("write_points_cells", "write_data"):
            out.append((str(e.data[0]), repr([tree(d.I, x) for x in e.data[3]]), repr(e.data[2])))
        if e.kind == "call" and str(getattr(e.target, "name", e.target)) == "meshio.Mesh":
            out.append(repr(sorted((k, repr(x)) for k, x in recorded(d.I, e).items())))
    return out


# for each option: two command lines that differ in nothing else, and the files they find
def pairs():
    box = {"OUT.csv": ("cloud", "a box of points", 3)}
    line = {"OUT.csv": ("cloud", "a line along x", 2)}
    run = {"RUN": ("listing", "element", 2, 5), "MESH": ("mesh", 5, "")}
    con = {"RUN": ("listing", "connection", 2, 5), "MESH": ("mesh", 5, "")}
    odd = {"RUN": ("listing", "element", 1, 5), "MESH": ("mesh", 5, "12345")}
    yield "export", "mesh", line, ["OUT.csv", "--origin"] + ORIGIN, ["-m", "mesh.pickle"], True
    yield "export", "time_step", box, ["OUT.csv", "-v", "--origin"] + ORIGIN, ["-t", "0"], False
    yield "export", "output_file", box, ["OUT.csv", "-v", "--origin"] + ORIGIN, ["-o", "b.vtk"], False
    yield "export", "file_format", box, ["OUT.csv", "-v", "--origin"] + ORIGIN, ["-f", "vtu"], False
    yield "export", "voxelize", box, ["OUT.csv", "--origin"] + ORIGIN, ["-v"], False
    yield "export", "origin", box, ["OUT.csv", "-v", "--origin"] + ORIGIN, ["--origin", "-1", "-1", "0"], False
    yield "export", "layer", box, ["OUT.csv", "-v", "--origin"] + ORIGIN, ["--layer"], False
    yield "extract", "output_file", run, ["RUN", "MESH"], ["-o", "x.csv"], False
    yield "extract", "file_format", run, ["RUN", "MESH"], ["-f", "petrasim"], False
    yield "extract", "label_length", odd, ["RUN", "MESH"], ["-l", "5"], False
    yield "extract", "split", run, ["RUN", "MESH"], ["-s"], False
    yield "extract", "connection", con, ["RUN", "MESH"], ["-c"], False
    yield "save2incon", "reset", {"SAVE": ("text", INCT + "+++\n 1 2\n")}, ["SAVE", "INCON"], ["-r"], False


def difference(case):
    cmd, opt, files, base, more, meshed = case
    o = Obs()
    res = []
    for argv in (base, base + more):
        def mesh(I):
            q = I.lookup_path("toughio._mesh._common.labeler")
            n = len(c17.CLOUD[files["OUT.csv"][1]])
            I.hooks[q.qual] = lambda *a, **k: I.nd((n,), [K("AAA%02d" % x) for x in range(n)])
            return c17.row_of(I, n)
        d = Did(cmd, argv, FILES(files), mesh if meshed else None)
        res.append(summary(d))
    if None in res:
        o.check("O8", None, "{} with and without {}: not known".format(cmd, " ".join(more)), "O8")
    else:
        o.check("O8", res[0] != res[1], "{}: {} makes no difference to '{}'".format(cmd, " ".join(more), " ".join(base)), "O8|{}|{}".format(cmd, opt))
    return o.out, None


def declared(case):
    """Options the parsers declare, and what is read of them."""
    o = Obs()
    I = text_interp()
    known = {(c, q) for c, q, *_ in pairs()} | {("export", "infile"), ("extract", "infile"), ("extract", "mesh"), ("merge", "infile"), ("merge", "outfile"),
                                                ("save2incon", "infile"), ("save2incon", "outfile"), ("co2tab", "path")}
    for cmd in ("export", "extract", "merge", "save2incon", "co2tab"):
        f = I.lookup_path("toughio._cli." + cmd)
        if f is None:
            o.check("O8", None, cmd + ": no such command", "O8")
            continue
        p = I.lookup_path("toughio._cli._{}._get_parser".format(cmd))
        v, why = attempt(I, I.call, p, [], {}, None) if p is not None else (None, "no parser")
        if why is not None:
            o.check("O8", None, "{}: {}".format(cmd, str(why)[:100]), "O8")
            continue
        try:
            dests = [a.dest for a in I.parser(v)._actions if a.dest != "help"]
        except Exception as e:
            o.check("O8", None, "{}: the parser is not known: {}".format(cmd, e), "O8")
            continue
        for x in dests:
            o.check("O8", True if (cmd, x) in known else None, "{}: the option {} is not one the check knows".format(cmd, x), "O8|{}|{}".format(cmd, x))
    return o.out, None


# ---- attributes --------------------------------------------------------------------------------------------


def attributes(case):
    what, opts, fmt, meshed = case
    o = Obs()
    n = len(c17.CLOUD[what])

    def mesh(I):
        q = I.lookup_path("toughio._mesh._common.labeler")
        I.hooks[q.qual] = lambda *a, **k: I.nd((n,), [K("AAA%02d" % x) for x in range(n)])
        return c17.row_of(I, n)
    d = Did("export", ["OUT.csv", "-f", fmt] + opts, cloud(what, 2), mesh if meshed else None)
    I = d.I
    if d.opaque or isinstance(d.why, str):
        o.check("O9", None, d.name + ": not followed", "O9")
        return o.out, None
    cls = I.lookup_path("toughio.Mesh")
    fresh = c17.row_of(I, 1)
    has = set(I.read(I.resolve(fresh).id).attrs) if isinstance(I.resolve(fresh), Ref) else None
    if has is None:
        o.check("O9", None, d.name + ": a mesh is not known", "O9")
        return o.out, None
    c = I.read(I.resolve(fresh).id).cls
    seen = 0
    for e in d.evs + d.maybe:
        if e.kind != "setattr" or not isinstance(e.target, Ref) or "_cli" not in str(getattr(e.module, "name", e.module)):
            continue
        x = I.heap.get(e.target.id)
        if not isinstance(x, InstC) or x.cls is not c:
            continue
        name = e.data[0]
        seen += 1
        ok = name in has or I.class_attr(c, name) is not None if hasattr(I, "class_attr") else name in has or defined(I, fresh, name)
        o.check("O9", ok, "{}: {} is set on a mesh, which has no such attribute".format(e.where(), name), "O9|{}".format(name))
    if not seen:
        o.check("O9", True, "", "")
    return o.out, sorted(I.inlined)


def defined(I, inst, name):
    v, why = attempt(I, I.getattr, inst, name)
    return why is None and v is not None and not (isinstance(v, T) and v.op in ("attr", "unbound"))


# ---- cases ------------------------------------------------------------------------------------------------


def cases(tier):
    X, E = WHERE.format("export", "export"), WHERE.format("extract", "extract")
    vox = ["-v", "--origin"]
    for fmt in (None, "vtk", "vtu", "xdmf", "tecplot"):
        for name in (None, "b.out", "sub.dir/c"):
            for what, opts, meshed in (("a box of points", vox + ORIGIN, False), ("a line along x", ["--origin"] + ORIGIN, False),
                                       ("a line along x", [], True), ("a box of points", [], False), ("a plane of points", [], False)):
                for steps, step in ((1, None), (3, None), (3, 0), (3, -2), (3, 1)):
                    if fmt == "xdmf" and step is not None:
                        continue
                    if tier == "quick" and name and (steps, step) not in ((3, None), (3, 1)):
                        continue
                    yield export, (what, fmt, name, step, steps, opts, meshed, "OUT.csv"), X
    for org in (["0.5", "-1", "2"], ["0.25", "0.75", "4.5"], ["-3", "0.25", "0"]):
        for fmt in ("vtk", "xdmf"):
            yield export, ("a box of points", fmt, None, None, 2, vox + org, False, "OUT.csv"), X
            yield export, ("a line along x", fmt, None, None, 2, ["--origin"] + org, False, "OUT.csv"), X
    yield export, ("a box of points", "vtk", None, None, 2, vox + ORIGIN, False, "dir.1/OUT.more.csv"), X
    for fmt in ("vtk", "vtu", "xdmf"):
        for flag in ([], ["--layer"]):
            yield layers, (fmt, flag, "a box of points"), X
    box = {"OUT.csv": ("cloud", "a box of points", 3)}
    line = {"OUT.csv": ("cloud", "a line along x", 3)}
    for t in ("3", "-4", "7"):
        yield refused, ("export", ["OUT.csv", "-v", "--origin"] + ORIGIN + ["-t", t], box, "a time step out of range", None), X
    yield refused, ("export", ["OUT.csv", "-v"], box, "voxelization without origin", None), X
    yield refused, ("export", ["OUT.csv"], line, "one dimension without origin", None), X
    for n in (1, 2, 4):
        yield refused, ("export", ["OUT.csv", "-v", "--origin"] + ["0"] * n, box, "an origin of {} numbers".format(n), None), X
        yield refused, ("export", ["OUT.csv", "--origin"] + ["0"] * n, line, "an origin of {} numbers".format(n), None), X
    yield refused, ("export", ["NONE.csv"], box, "a missing file", None), X
    yield refused, ("export", ["OUT.csv", "-m", "none.pickle"], box, "a missing mesh", None), X
    yield refused, ("export", ["OUT.csv", "-f", "csv"], box, "an unknown format", None), X
    for what, opts, meshed in (("a box of points", vox + ORIGIN, False), ("a line along x", ["-m", "mesh.pickle"], True), ("a plane of points", [], False)):
        for fmt in ("vtk", "xdmf"):
            yield attributes, (what, opts, fmt, meshed), X
    run = {"RUN": ("listing", "element", 2, 5), "MESH": ("mesh", 5, "")}
    for kind in ("element", "connection"):
        for fmt in (None, "csv", "tecplot", "petrasim"):
            if kind == "connection" and fmt not in (None, "csv"):
                yield refused, ("extract", ["RUN", "MESH", "-c", "-f", fmt], dict(run, RUN=("listing", kind, 2, 5)), "connection data in another format", None), E
                continue
            for name in (None, "x.out", "a.b/noext"):
                for steps, split in ((1, False), (1, True), (2, False), (3, True)):
                    if tier == "quick" and name == "x.out" and steps != 3:
                        continue
                    yield extract, (kind, fmt, name, steps, split, 5, False, "MESH"), E
        for length in (5, 6, 7, 8, 9) if kind == "element" else (5, 8):
            yield extract, (kind, "csv", None, 2, False, length, True, "INFILE"), E
            yield extract, (kind, "csv", None, 2, False, length, "needed", "MESH"), E
    yield refused, ("extract", ["NONE", "MESH"], run, "a missing file", None), E
    yield refused, ("extract", ["RUN", "NONE"], run, "a missing mesh", None), E
    yield refused, ("extract", ["RUN", "MESH", "-l", "4"], run, "an unknown label length", None), E
    yield refused, ("extract", ["RUN", "MESH"], {"RUN": run["RUN"], "MESH": ("text", "ROCKS----1\n\nENDCY\n")}, "a mesh file without elements", None), E
    yield refused, ("extract", ["OUT.csv", "MESH"], dict(box, MESH=run["MESH"]), "an output that is not a listing", None), E
    S = WHERE.format("save2incon", "save2incon")
    for text in (INCT + "+++\n 1 2\n", INCT, INCT.rstrip("\n") + "\n+++\n  1    2\n 3\n", "INCON -- x\nAAA00    0.1\n 1.0 2.0\nAAA01\n 1.0 +++\n+++\n 1\n"):
        for reset in ([], ["-r"], ["--reset"]):
            yield save2incon, (text, reset, "INCON"), S
    for t in ("", "GENER\n\n"):
        yield refused, ("save2incon", ["SAVE", "INCON"], {"SAVE": ("text", t)}, "a file that is not SAVE", None), S
    yield refused, ("save2incon", ["NONE", "INCON"], {"SAVE": ("text", INCT)}, "a missing file", None), S
    M = WHERE.format("merge", "merge")
    for folder in ("", "case", "a/b"):
        for end, tail in (("ENDCY----1\n", ""), ("ENDFI----1\n", "what follows\nENDCY\n"), ("ENDCY", ""), ("endcy\n", "\n\n")):
            for incon in (False, True) if not folder else (True,):
                yield merge, (folder, end, tail, incon, False), M
    ok = {"INFILE": ("text", BODY + "ENDCY\n"), "MESH": ("text", MESHT)}
    yield refused, ("merge", ["NONE", "OUT"], ok, "a missing file", None), M
    yield refused, ("merge", ["INFILE", "OUT"], {"INFILE": ok["INFILE"]}, "a missing MESH", None), M
    yield refused, ("merge", ["INFILE", "OUT"], dict(ok, MESH=("text", "CONNE\n\n")), "an invalid MESH", None), M
    yield refused, ("merge", ["INFILE", "OUT"], dict(ok, INCON=("text", "GENER\n\n")), "an invalid INCON", None), M
    yield refused, ("merge", ["INFILE", "OUT"], dict(ok, INFILE=("text", "title\n\n")), "an invalid input file", None), M
    yield co2tab, None, WHERE.format("co2tab", "co2tab")
    yield refused, ("co2tab", ["nowhere"], {}, "a missing folder", None), WHERE.format("co2tab", "co2tab")
    for p in pairs():
        yield difference, p, WHERE.format(p[0], p[0])
    yield declared, None, "toughio/_cli"


def run(rep, tier):
    for r, d in RULES.items():
        rep.rule(r, d)
    todo = list(cases(tier))

    def go(c):
        f, case, where = c
        return f(case)
    fns = set()
    for (f, case, where), r in zip(todo, pmap(go, todo)):
        if r is None:
            rep.unknown("O1", where, "{}: not followed".format(str(case)[:150]))
            continue
        out, inl = r
        fns |= set(inl or ())
        for rule, c, msg, key in out:
            if c is None:
                rep.unknown(rule, where, str(msg)[:400])
            elif c:
                rep.ok(rule, "{}: {}".format(where, str(case)[:150]))
            else:
                rep.bad(rule, where, str(msg)[:600], key)
    rep.analysed["command lines followed"] = len(todo)
    rep.analysed["functions interpreted"] = len(fns)
