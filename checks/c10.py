"""C10: everything announced exists and can be called.

The package is imported the way Python imports it (from toughio/__init__.py
only), then the public functions are interpreted for every format, extension
and heading; the function they reach and the arguments it receives are compared
with the format asked for.
"""
import ast
import os
import re

import c16
import c17
from engine import Bound, Fn
from iomodel import new_ctx
from models import text_interp
from origin import Arr, attempt, build, tree
from par import pmap
from tx import TextInterp
from values import NONE, Cls, Ext, K, Partial, T

RULES = {
    "G1": "every name a package or its documentation announces exists",
    "G2": "every format announced reaches its own reader and writer, with arguments these accept",
    "G3": "every extension leads to its own format",
    "G4": "every heading the detector knows leads to the reader of that format",
    "G5": "formats registered by the user are reached, with their extensions and material key",
    "G6": "every format offered by a command line option can be written",
    "G7": "every announced command exists and accepts an argument list",
    "G8": "other mesh formats are left to meshio",
}
# formats, their functions, and the extensions documented for them
FORMATS = {
    "input": {"json": ("rw", [".json"]), "tough": ("rw", [])},
    "output": {"csv": ("rw", [".csv"]), "petrasim": ("rw", []), "save": ("r", []), "tecplot": ("rw", [".tec"]), "tough": ("r", [])},
    "mesh": {"avsucd": ("rw", []), "flac3d": ("rw", [".f3grid"]), "pickle": ("rw", [".pickle", ".pkl"]), "tecplot": ("rw", [".dat", ".tec"]), "tough": ("rw", [])},
}
PACK = {"input": "toughio._io.input", "output": "toughio._io.output", "mesh": "toughio._mesh"}
# documented options of the public functions
OPTIONS = {
    ("input", "tough", "read"): {"label_length": 6},
    ("input", "tough", "write"): {"block": "mesh"},
    ("mesh", "tough", "read"): {"label_length": 6},
    ("mesh", "tough", "write"): {"nodal_distance": "orthogonal", "material_name": {"a": "b"}, "material_end": "a", "incon": True},
    ("mesh", "pickle", "write"): {"protocol": 2},
}
HEADS = {
    "tough (blank first line)": ("\n  @@@@@@@@@@@@@@\n", "element", "tough"),
    "tough": ("1      @@@@@@@@@@@@@\n", "element", "tough"),
    "tough with connections": ("\n  @@@@@@@@@@@@@@\n", "connection", "tough"),
    "save": ("INCON -- INITIAL CONDITIONS FOR    3 ELEMENTS AT TIME  0.1E+01\n", "element", "save"),
    "tecplot": ("TITLE = \"x\"\n", "element", "tecplot"),
    "tecplot variables": ("VARIABLES = \"X\", \"Y\"\n", "element", "tecplot"),
    "petrasim": ("TIME [sec],ELEM,X\n", "element", "petrasim"),
    "csv": ("\"ELEM\",\"X\"\n", "element", "csv"),
    "csv of connections": ("\"ELEM1\",\"ELEM2\",\"X\"\n", "connection", "csv"),
    "csv with blanks": ("\"              ELEM\", \"   X\"\n", "element", "csv"),
    "csv without quotes": ("ELEM,X\n", "element", "csv"),
}


Obs = c17.Obs


def world():
    """The package as `import toughio` loads it."""
    I = TextInterp(preload=False)
    I.import_module("toughio")
    new_ctx(I)
    I.versions = {"meshio.__version__": "4.4.6"}
    return I


def binding(fn, args, kwargs):
    """{parameter: value} or the reason the call is not accepted."""
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    skip = 1 if isinstance(fn, Bound) else 0
    names = names[skip:]
    out = {}
    if len(args) > len(names) and not a.vararg:
        return "takes {} arguments, {} given".format(len(names), len(args))
    for n, v in zip(names, args):
        out[n] = v
    kwo = [x.arg for x in a.kwonlyargs]
    for k, v in kwargs.items():
        if k in out:
            return "'{}' given twice".format(k)
        if k not in names + kwo and not a.kwarg:
            return "does not take '{}'".format(k)
        out[k] = v
    need = names[:len(names) - len(a.defaults)] + [k for k, d in zip(kwo, a.kw_defaults) if d is None]
    for n in need:
        if n not in out:
            return "is not given '{}'".format(n)
    return out


def target(I0, kind, fmt, what):
    v = I0.lookup_path("{}.{}.{}".format(PACK[kind], fmt, what))
    return v if isinstance(v, Fn) and isinstance(v.node, ast.FunctionDef) else None


def targets(I0):
    out = {}
    for kind, fs in FORMATS.items():
        for f, (what, _) in fs.items():
            for w in ("read", "write"):
                t = target(I0, kind, f, w)
                if t is not None:
                    out[t.qual] = (kind, f, w, t)
    return out


def follow(I, all_, f, args, kwargs):
    """[(what was reached, fn, args, kwargs)], how it ended."""
    seen = []

    def hook(I_, fn, a, k, node):
        seen.append((all_[fn.qual][:3], fn, list(a), dict(k)))
        return T("sym", "<read>")
    for q in all_:
        I.hooks[q] = hook
    n = len(I.effects)
    v, why = attempt(I, I.call, f, args, kwargs, None)
    evs = [e for e in I.effects[n:]]
    return seen, v, why, evs


def external(evs, *names):
    return [e for e in evs if e.kind == "call" and str(getattr(e.target, "name", e.target)) in names]


PUBLIC = {("input", "read"): "toughio.read_input", ("input", "write"): "toughio.write_input", ("output", "read"): "toughio.read_output",
          ("output", "write"): "toughio.write_output", ("mesh", "read"): "toughio.read_mesh", ("mesh", "write"): "toughio.write_mesh"}


def content(I, kind):
    if kind == "input":
        return build(I, {"title": "x"})
    if kind == "output":
        out = I.lookup_path("toughio.Output")
        return I.call(out, [build(I, x) for x in ("element", None, 1.0, ["AAA00"], {})], {}, None)
    return c17.row_of(I, 2)


def reach(case):
    kind, what, name, fmt, exp, opts = case
    """exp: format expected, or None for meshio."""
    o = Obs()
    I0 = text_interp()
    all_ = targets(I0)
    I = world()
    rule = "G3" if fmt is None else "G2"
    label = "{}({!r}{}{})".format(PUBLIC[kind, what], name, ", file_format={!r}".format(fmt) if fmt else "", "".join(", {}={!r}".format(*x) for x in opts.items()))
    if exp is not None and target(I0, kind, exp, what) is None:
        o.check(rule, None, "{}: no function {}.{}.{}".format(label, PACK[kind], exp, what), rule)
        return o.out, None
    f = I.lookup_path(PUBLIC[kind, what])
    if f is None:
        o.check(rule, None, "{}: not defined".format(label), rule)
        return o.out, None
    kwargs = {k: build(I, v) for k, v in opts.items()}
    if fmt:
        kwargs["file_format"] = K(fmt)
    args = [K(name)]
    if what == "write":
        args.append(content(I, kind))
    if kind == "mesh":
        I.hooks[I0.lookup_path("toughio.from_meshio").qual] = lambda *a: T("sym", "mesh")
    seen, v, why, evs = follow(I, all_, f, args, kwargs)
    mio = external(evs, "meshio.read", "meshio.write")
    key = "{}|{}|{}|{}|{}".format(rule, PUBLIC[kind, what], name, fmt, ",".join(sorted(opts)))
    if exp is None:
        if mio and not seen:
            a = [I.resolve(x) for x in mio[0].data[0]]
            k = {x: I.resolve(y) for x, y in mio[0].data[1]}
            g = (a + [k.get("file_format", NONE)])
            at = a[1] if what == "read" and len(a) > 1 else a[2] if what == "write" and len(a) > 2 else k.get("file_format", NONE)
            got = a[0] if a else k.get("filename")
            ok = got == K(name) and at in (K(fmt), NONE if fmt is None else K(fmt))
            o.check("G8", True if ok else (False if isinstance(got, K) and isinstance(at, K) else None), "{}: meshio is called with {} and format {}".format(label, got, at), "G8|" + key)
        elif seen:
            o.check("G8", False, "{}: goes to the {} of {}".format(label, seen[0][0][2], seen[0][0][1]), "G8|" + key)
        elif why is not None and not isinstance(why, str) and not I.opaque:
            o.check("G8", False, "{}: {}".format(label, why.where()), "G8|" + key)
        else:
            o.check("G8", None, label + ": not followed", "G8")
        return o.out, None
    if len(seen) == 1:
        (k_, f_, w_), fn, a, k = seen[0]
        if (k_, f_, w_) != (kind, exp, what):
            o.check(rule, False, "{}: goes to the {} of {} {}".format(label, "reader" if w_ == "read" else "writer", k_, f_), key)
            return o.out, None
        b = binding(fn, a, k)
        if isinstance(b, str):
            o.check(rule, False, "{}: {}.{} {}".format(label, fn.qual.rsplit(".", 2)[-2], what, b), key)
            return o.out, None
        vals = list(b.values())
        first = I.resolve(vals[0]) if vals else None
        o.check(rule, first == K(name) if isinstance(first, K) else None, "{}: the {} is given the name {}".format(label, what, first), key + "|name")
        for x, v in opts.items():
            if x not in b:
                o.check(rule, False, "{}: the option {} does not arrive".format(label, x), key + "|" + x)
            else:
                got = tree(I, b[x])
                o.check(rule, got == v, "{}: the option {} arrives as {!r}".format(label, x, got), key + "|" + x)
        if what == "write":
            same = I.resolve(vals[1]) if len(vals) > 1 else None
            o.check(rule, same not in (None, NONE), "{}: nothing to write is given".format(label), key + "|data")
    elif seen:
        o.check(rule, None, "{}: several functions are reached".format(label), rule)
    elif mio:
        o.check(rule, False, "{}: goes to meshio".format(label), key)
    elif why is not None and not isinstance(why, str) and not I.opaque:
        o.check(rule, False, "{}: stops at {}".format(label, why.where()), key)
    else:
        o.check(rule, None, "{}: not followed: {} {}".format(label, why, str(I.opaque)[:200]), rule)
    return o.out, None


def detect(case):
    what, order, length = case
    head, typ, fmt = HEADS[what]
    o = Obs()
    I0 = text_interp()
    all_ = targets(I0)
    I = world()
    I.set_content("OUT", [K(head + "x\n")])
    kw = {}
    if typ == "connection" and fmt == "tough":
        kw["connection"] = K(True)
    labels = build(I, order) if order else None
    if labels is not None:
        kw["labels_order"] = labels
    if length:
        kw["label_length"] = K(length)
    label = "read_output of a file of format {}{}".format(what, ", {}".format(sorted(kw)) if kw else "")
    f = I.lookup_path("toughio.read_output")
    seen, v, why, evs = follow(I, all_, f, [K("OUT")], kw)
    key = "G4|{}|{}".format(what, sorted(kw))
    if len(seen) == 1:
        (k_, f_, w_), fn, a, k = seen[0]
        if (k_, f_, w_) != ("output", fmt, "read"):
            o.check("G4", False, "{}: goes to the {} of {} {}".format(label, w_, k_, f_), key)
            return o.out, None
        b = binding(fn, a, k)
        if isinstance(b, str):
            o.check("G4", False, "{}: {} {}".format(label, fn.qual, b), key)
            return o.out, None
        vals = [I.resolve(x) for x in b.values()]
        for i, e in enumerate((K("OUT"), K(typ), K(fmt))):
            o.check("G4", None if i >= len(vals) or not isinstance(vals[i], K) else vals[i] == e, "{}: argument {} is {}".format(label, i + 1, vals[i] if i < len(vals) else None), key + "|%d" % i)
        if order:
            o.check("G4", tree(I, vals[3]) == order if len(vals) > 3 else False, "{}: the order of labels does not arrive".format(label), key + "|order")
        if length and fmt == "tough":
            o.check("G4", K(length) in vals[4:], "{}: the label length does not arrive".format(label), key + "|length")
    elif why is not None and not isinstance(why, str) and not I.opaque and not seen:
        o.check("G4", False, "{}: stops at {}".format(label, why.where()), key)
    else:
        o.check("G4", None, "{}: not followed {} {}".format(label, why, str(I.opaque)[:200]), "G4")
    return o.out, None


def registered(case):
    """A format of the user's."""
    kind, what, by, ext, other = case
    o = Obs()
    I0 = text_interp()
    all_ = targets(I0)
    I = world()
    reg = I.lookup_path("toughio.register_" + kind)
    R, W = Partial(Ext("user.read"), (), {}), Partial(Ext("user.write"), (), {})
    label = "register_{}('mine', {}) then {}({})".format(kind, ext, PUBLIC[kind, what], by)
    key = "G5|{}|{}|{}|{}".format(kind, what, by, len(ext))
    more = {"material": K("my:mat")} if kind == "mesh" else {}
    v, why = attempt(I, I.call, reg, [K("mine"), build(I, ext), R, W], more, None)
    if why is not None or I.opaque:
        o.check("G5", False if why is not None and not isinstance(why, str) and not I.opaque else None, "{}: {}".format(label, getattr(why, "where", lambda: why)()), key)
        return o.out, None
    f = I.lookup_path(PUBLIC[kind, what])
    name, kw = by
    kwargs = {k: K(v) for k, v in kw.items()}
    args = [K(name)]
    if what == "write":
        args.append(content(I, kind))
    mine = []
    if what == "read" and kind == "mesh":
        def read(I_, a, k, n):
            mine.append(list(a))
            m = c17.row_of(I, 3)
            I.setattr(m, "cell_data", build(I, {"my:mat": [Arr(1, 2, 3)]}), None)
            return m
        I.ext_hooks["user.read"] = read
    if what == "read" and kind == "input":
        def read(I_, a, k, n):
            mine.append(list(a))
            return I.new_dict([])
        I.ext_hooks["user.read"] = read
    if kind == "output" and what == "read":
        I.set_content(name, [K("\"ELEM\",\"X\"\n")])
    seen, v, why, evs = follow(I, all_, f, args, kwargs)
    want = "user." + what
    calls = [(e.target.name, [I.resolve(x) for x in e.data[0]]) for e in external(evs, "user.read", "user.write", "meshio.read", "meshio.write")]
    calls = [("user.read", [I.resolve(x) for x in a]) for a in mine] or calls
    expect_mine = other is None
    if expect_mine:
        if calls and not seen:
            t, a = calls[0]
            o.check("G5", t == want and bool(a) and a[0] == K(name), "{}: {} is called with {}".format(label, t, a[:1]), key)
            if what == "read" and kind == "mesh" and t == want and why is None:
                cd = tree(I, I.getattr(v, "cell_data"))
                if isinstance(cd, dict):
                    o.check("G5", cd.get("material") == [1, 2, 3] and "my:mat" not in cd, "{}: the cell data are {}".format(label, cd), key + "|material")
        elif seen:
            o.check("G5", False, "{}: goes to {}".format(label, seen[0][0]), key)
        elif why is not None and not isinstance(why, str) and not I.opaque:
            o.check("G5", False, "{}: stops at {}".format(label, why.where()), key)
        else:
            o.check("G5", None, "{}: not followed {}".format(label, str(I.opaque)[:200]), "G5")
    else:
        if seen and not calls:
            o.check("G5", seen[0][0] == (kind, other, what), "{}: goes to {}".format(label, seen[0][0]), key)
        elif calls:
            o.check("G5", False, "{}: goes to {}".format(label, calls[0][0]), key)
        else:
            o.check("G5", None, "{}: not followed".format(label), "G5")
    return o.out, None


# ---- names ----------------------------------------------------------------------------------


def announced(mod):
    """The literal names of __all__ of a module, with their place."""
    for st in mod.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in st.targets) and isinstance(st.value, (ast.List, ast.Tuple)):
            return [(x.value, x.lineno) for x in st.value.elts if isinstance(x, ast.Constant)]
    return []


def defined(I, mod, name):
    """True, False or None."""
    if mod not in I.modframe:
        return None
    fr = I.heap[I.modframe[mod].id]
    if name in fr:
        v = fr[name]
        if isinstance(v, T) and v.op in ("unbound", "attr", "sym"):
            return False if v.op == "unbound" else None
        if v is None:
            return None
        return True
    if mod + "." + name in I.modframe:
        return True
    # something this interpreter does not follow may define it
    m = I.repo.modules[mod]
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and n.id in ("globals", "setattr", "exec", "vars", "__getattr__"):
            return None
        if isinstance(n, ast.FunctionDef) and n.name == "__getattr__":
            return None
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
            return None
    return False


def names(case):
    o = Obs()
    I = world()
    I0 = text_interp()
    for m in sorted(I0.repo.modules):
        J = I if m in I.modframe else I0
        for name, line in announced(I0.repo.modules[m]):
            ok = defined(J, m, name)
            o.check("G1", ok, "{}:{} announces {}, which does not exist".format(I0.repo.modules[m].rel, line, name), "G1|{}|{}".format(m, name))
            if ok and m == "toughio":
                o.check("G1", True, "", "")
    # documentation
    top = os.path.join(I0.repo.root, "doc", "source")
    n = 0
    for dp, dn, fn in os.walk(top):
        for x in sorted(fn):
            if x.endswith(".rst"):
                with open(os.path.join(dp, x), encoding="utf-8", errors="replace") as f:
                    for i, l in enumerate(f, 1):
                        g = re.match(r"\s*\.\. auto(?:function|class|method)::\s+(toughio[\w.]*)", l)
                        if not g:
                            continue
                        n += 1
                        mod, _, name = g.group(1).rpartition(".")
                        if mod in I0.repo.modules:
                            o.check("G1", defined(I, mod, name), "doc/source/.../{}:{} documents {}, which does not exist".format(x, i, g.group(1)), "G1|doc|" + g.group(1))
    # what `toughio` itself announces is there: public API of the documentation
    for name in ("Mesh", "CellBlock", "Output", "read_input", "write_input", "read_output", "write_output", "read_history", "read_mesh", "write_mesh", "read_time_series",
                 "write_time_series", "register_input", "register_output", "register_mesh", "from_meshio", "from_pyvista", "meshmaker", "relative_permeability", "capillarity"):
        o.check("G1", defined(I, "toughio", name), "toughio.{} does not exist".format(name), "G1|toughio|" + name)
    # classes of models
    for pk in ("relative_permeability", "capillarity"):
        full = "toughio." + pk
        if full not in I.modframe:
            continue
        fr = I.heap[I.modframe[full].id]
        pub = {n_: v for n_, v in fr.items() if isinstance(v, Cls)}
        for m in sorted(I0.repo.modules):
            if not m.startswith(full + "."):
                continue
            for n_, v in I0.heap[I0.modframe[m].id].items():
                if isinstance(v, Cls) and v.qual.startswith(m + ".") and not n_.startswith(("Base", "_", "ABC")):
                    got = pub.get(n_)
                    o.check("G1", True if got is not None and got.qual == v.qual else (False if full in I.modframe and defined(I, full, n_) is False or got is not None and got.qual != v.qual else None),
                            "{}: the class {} cannot be reached as toughio.{}.{}".format(I0.repo.modules[m].rel, n_, pk, n_), "G1|{}|{}".format(pk, n_))
    return o.out, None


def filters(case):
    o = Obs()
    I = world()
    n = len(I.effects)
    f = I.lookup_path("toughio._mesh._filter.box.filter_")
    mesh = c17.row_of(I, 3)
    for how in ("box", "call", "default"):
        seen = []
        if f is not None:
            def hook(I_, fn, a, k, node):
                seen.append(binding(fn, a, k))
                return T("sym", "cells")
            I.hooks[f.qual] = hook
        flt, why = attempt(I, I.getattr, mesh, "filter")
        kw = {k: K(i + 1.0) for i, k in enumerate(("x0", "y0", "z0", "dx", "dy", "dz"))}
        if flt is None:
            o.check("G2", None, "mesh.filter: not followed", "G2")
            continue
        if how == "box":
            v, why = attempt(I, I.method, flt, "box", [], kw, None)
        else:
            v, why = attempt(I, I.call, flt, [K("box")] if how == "call" else [], kw, None)
        if f is None or not seen:
            bad = why is not None and not isinstance(why, str) and not I.opaque
            o.check("G2", False if bad else None, "mesh.filter({}): {}".format(how, why.where() if bad else "not followed"), "G2|filter|" + how)
            continue
        b = seen[0]
        if isinstance(b, str):
            o.check("G2", False, "mesh.filter({}): the filter {}".format(how, b), "G2|filter|" + how)
        else:
            got = {k: I.resolve(x) for k, x in b.items()}
            for k, x in kw.items():
                o.check("G2", got.get(k) == x if isinstance(got.get(k, NONE), K) else None, "mesh.filter({}): {} arrives as {}".format(how, k, got.get(k)), "G2|filter|{}|{}".format(how, k))
    return o.out, None


# ---- commands ---------------------------------------------------------------------------------


def entry_points(root):
    """[(name, module, function, line)] of the console scripts of setup.py; None when not found."""
    p = os.path.join(root, "setup.py")
    if not os.path.exists(p):
        return None
    with open(p) as f:
        t = ast.parse(f.read())
    out = []
    for n in ast.walk(t):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            g = re.match(r"^\s*([\w-]+)\s*=\s*([\w.]+):(\w+)\s*$", n.value)
            if g:
                out.append((g.group(1), g.group(2), g.group(3), n.lineno))
    return out or None


def commands(case):
    o = Obs()
    I = world()
    eps = entry_points(I.repo.root)
    if eps is None:
        o.check("G7", None, "setup.py: no console script found", "G7")
        eps = []
    for name, mod, fn, line in eps + [("toughio-" + c, "toughio._cli", c, 0) for c in ("co2tab", "export", "extract", "merge", "save2incon")]:
        d = defined(I, mod, fn)
        o.check("G7", d, "setup.py:{}: the command {} needs {}.{}, which does not exist".format(line, name, mod, fn), "G7|{}|{}".format(name, fn))
        v = I.lookup_path(mod + "." + fn) if d else None
        if not isinstance(v, Fn):
            continue
        for args in ([], [I.new_list([])]):
            b = binding(v, args, {})
            o.check("G7", not isinstance(b, str), "{}: {} {}".format(name, v.qual, b), "G7|{}|{}".format(name, len(args)))
    return o.out, None


def parser_of(I, cmd):
    """Parser of a command: what its function asks argparse for."""
    f = I.lookup_path("toughio._cli." + cmd)
    p = I.lookup_path("toughio._cli._{}._get_parser".format(cmd))
    if f is None or p is None:
        return None
    v, why = attempt(I, I.call, p, [], {}, None)
    return I.parser(v) if why is None else None


def choices(case):
    """Every choice of --file-format is written."""
    cmd = case
    o = Obs()
    I = text_interp()
    try:
        p = parser_of(I, cmd)
        acts = [a for a in p._actions if a.dest == "file_format"]
    except Exception:
        acts = []
    offered = list(acts[0].choices or []) if acts else []
    fixed = ["csv", "tecplot", "petrasim"] if cmd == "extract" else ["tecplot", "vtk", "vtu", "xdmf"]
    if not offered:
        o.check("G6", None, "{}: the choices of --file-format are not known".format(cmd), "G6")
    for c in dict.fromkeys(offered + fixed):
        if cmd == "extract":
            runs = [(["RUN", "MESH"], {"RUN": ("listing", "element", 2, 5), "MESH": ("mesh", 5, "")})]
            if c == "csv":
                runs.append((["RUN", "MESH", "-c"], {"RUN": ("listing", "connection", 2, 5), "MESH": ("mesh", 5, "")}))
        else:
            runs = [(["OUT.csv"] + x, {"OUT.csv": ("cloud", what, 2)}) for what, x in (("a box of points", []), ("a box of points", ["-v", "--origin", "0", "0", "0"]), ("a plane of points", []))]
        for argv, files in runs:
            d = c16.Did(cmd, argv + ["-f", c], c16.FILES(files))
            outs = d.outputs()
            if d.failed:
                o.check("G6", False, "{}: stops at {}".format(d.name, d.why.where()), "G6|{}|{}|{}".format(cmd, c, len(argv)))
            elif d.ok and outs is not None:
                o.check("G6", bool(outs), "{}: nothing is written".format(d.name), "G6|{}|{}|{}".format(cmd, c, len(argv)))
            else:
                o.check("G6", None, "{}: not followed".format(d.name), "G6")
    return o.out, None


# ---- cases ------------------------------------------------------------------------------------


def cases(tier):
    yield names, None, "toughio"
    yield commands, None, "toughio/_cli"
    yield filters, None, "toughio/_mesh/_filter"
    for c in ("export", "extract"):
        yield choices, c, "toughio/_cli/_{}.py".format(c)
    for kind, fs in FORMATS.items():
        where = PACK[kind].replace(".", "/") + "/_helpers.py"
        for fmt, (what, exts) in fs.items():
            for w, letter in (("read", "r"), ("write", "w")):
                if letter not in what or (kind, w) == ("output", "read"):
                    continue
                names_ = ["FILE", "a.b/x.unknown"] + [e2 for f2, (_, es) in fs.items() if f2 != fmt for e2 in ["x" + y for y in es]]
                for n in names_:
                    yield reach, (kind, w, n, fmt, fmt, {}), where
                opt = OPTIONS.get((kind, fmt, w), {})
                for k, v in opt.items():
                    yield reach, (kind, w, "FILE", fmt, fmt, {k: v}), where
                if len(opt) > 1:
                    yield reach, (kind, w, "FILE", fmt, fmt, opt), where
                for e in exts:
                    for n in ("x" + e, "dir.v1/some.name" + e, "X" + e.upper()):
                        yield reach, (kind, w, n, None, fmt, {}), where
                    yield reach, (kind, w, "x" + e, None, fmt, opt), where
        if kind == "input":
            for w in ("read", "write"):
                for n in ("INFILE", "MESH", "a.dat", "dir.json/INFILE"):
                    yield reach, (kind, w, n, None, "tough", {}), where
        if kind == "mesh":
            for w in ("read", "write"):
                for n, f in (("a.vtk", None), ("a.msh", None), ("a.vtu", None), ("FILE", "vtk"), ("a.xdmf", "xdmf"), ("a.dat.vtk", None), ("dir.pickle/a.vtk", None)):
                    yield reach, (kind, w, n, f, None, {}), where
        for w in ("read", "write"):
            if (kind, w) == ("output", "read"):
                continue
            for by in (("FILE", {"file_format": "mine"}), ("x.my", {}), ("x.mine2", {})):
                if kind == "input" and by[1]:
                    continue        # the input registry accepts only its two formats by name
                yield registered, (kind, w, by, [".my", ".mine2"], None), where
            for fmt, (what, exts) in fs.items():
                for e in exts:
                    if w[0] in what:
                        yield registered, (kind, w, ("x" + e, {}), [".my"], fmt), where
    for what in HEADS:
        for order in (None, ["BBB00", "AAA00"]):
            for length in (None, 6):
                yield detect, (what, order, length), "toughio/_io/output/_helpers.py"


def run(rep, tier):
    for r, d in RULES.items():
        rep.rule(r, d)
    todo = list(cases(tier))

    def go(c):
        f, case, where = c
        return f(case)
    for (f, case, where), r in zip(todo, pmap(go, todo)):
        if r is None:
            rep.unknown("G2", where, "{}: not followed".format(str(case)[:150]))
            continue
        for rule, c, msg, key in r[0]:
            if c is None:
                rep.unknown(rule, where, str(msg)[:400])
            elif c:
                rep.ok(rule, "{}: {}".format(where, str(case)[:150]))
            else:
                rep.bad(rule, where, str(msg)[:600], key)
    rep.analysed["requests followed"] = len(todo)
