"""Parameters of unknown values carried through the input writer and back through the input reader."""
import zlib

import models
from origin import attempt, build, tree, Unknown
from par import pmap
from toughcases import Make, leaves
from values import K, T


class Out:
    """What happened to one parameter set; texts only, so that it can be passed between processes."""

    def __init__(self):
        self.phase = None      # where it stopped: "write" or "read"
        self.error = None      # (kind, what, where)
        self.opaque = []       # parts of the program that were not followed
        self.lost, self.moved, self.extra = [], [], []
        self.unsure = []       # values of unknown origin
        self.cut, self.fused = [], []
        self.lines = []
        self.n = 0
        self.functions = set()


def text(v):
    if isinstance(v, T) and v.op == "scalar" and len(v.args) == 1:
        return "the value of " + str(v.args[0])
    if isinstance(v, K):
        return repr(v.v)
    return str(v)[:120]


def event(e):
    if isinstance(e, str):
        return (e, e, "")
    return (e.kind, "{} {}".format(text(e.target) if e.target is not None else "", text(e.data) if e.data is not None else "").strip(), e.where())


class Trip:
    def __init__(self):
        self.I = models.text_interp()
        self.M = Make(self.I)
        self.W = self.I.lookup_path("toughio.write_input")
        self.R = self.I.lookup_path("toughio.read_input")

    def write(self, P, out, **kw):
        I = self.I
        p = build(I, P)
        n = len(I.effects)
        v, e = attempt(I, I.call, self.W, [K("F"), p], dict({"file_format": K("tough")}, **{k: K(x) for k, x in kw.items()}), None)
        out.opaque += [str(o)[:200] for o in I.opaque]
        self.events(n, out)
        if e is not None:
            out.phase, out.error = "write", event(e)
            if e in ("exhausted", "stops"):
                out.opaque.append(e)
            return False
        return True

    def events(self, n, out):
        for e in self.I.effects[n:]:
            if e.kind == "cut":
                out.cut.append((text(e.target), e.where()))
            elif e.kind == "fused":
                out.fused.append((text(e.target), e.where()))

    def read(self, out, name="F", **kw):
        I = self.I
        n = len(I.effects)
        v, e = attempt(I, I.call, self.R, [K(name)], dict({"file_format": K("tough")}, **{k: K(x) for k, x in kw.items()}), None)
        out.opaque += [str(o)[:200] for o in I.opaque]
        self.events(n, out)
        if e is not None:
            out.phase, out.error = "read", event(e)
            if e in ("exhausted", "stops"):
                out.opaque.append(e)
            return None
        return tree(I, v)

    def trip(self, P, wkw=None, rkw=None):
        I = self.I
        out = Out()
        lvl = I.begin()
        t = None
        if self.write(P, out, **(wkw or {})):
            out.lines = [str(plain(l)) for l in I.lines_of("F")]
            t = self.read(out, **(rkw or {}))
        I.rollback(lvl)
        out.functions = set(I.inlined)
        return out, t

    def compare(self, P, t, out):
        if isinstance(t, Unknown) or t is None:
            if t is not None:
                out.opaque.append("result not known")
            return
        a = dict(leaves(P))
        b = dict(leaves(t))
        out.n += len(a)
        src = {}
        for k, v in a.items():
            if isinstance(v, T):
                src.setdefault(v, k)
        for k, v in a.items():
            if k not in b:
                if any(isinstance(b.get(k[:i]), Unknown) for i in range(len(k))):
                    out.unsure.append("{} not known".format(".".join(k)))
                else:
                    out.lost.append((k, text(v)))
            elif not same(v, b[k]):
                w = b[k]
                d = False if isinstance(w, Unknown) else True if not isinstance(w, T) or w in src else different(v, w)
                if d:
                    out.moved.append((k, text(v), text(w)))
                elif d is False:
                    out.unsure.append("{}: {}".format(".".join(k), text(w))[:200])
        for k, v in b.items():
            if k not in a:
                out.extra.append((k, text(v) if not isinstance(v, Unknown) else "?"))


def plain(v):
    """The text of a line with holes marked."""
    from tx import pcs
    return "".join(str(p.v) if isinstance(p, K) else "\0" for p in pcs(v))


def different(v, w):
    """True: w is certainly not v; None: it is v; False: cannot be told."""
    if isinstance(w, T) and w.op in ("txt", "cutoff") or isinstance(w, T) and w.op == "scalar" and w.args[0] == "fused":
        return True
    if not isinstance(v, T) and not isinstance(v, (int, float)):
        return False
    res = []
    for seed in (0.37, 1.91):
        x, y = value(v, seed), value(w, seed)
        if x is None or y is None:
            return False
        res.append(abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)))
    return None if all(res) else True


def value(t, seed):
    """Value of an arithmetic expression where every unknown has some fixed generic value."""
    if isinstance(t, K):
        t = t.v
    if isinstance(t, (int, float)) and not isinstance(t, bool):
        return float(t)
    if not isinstance(t, T):
        return None
    if t.op == "scalar":
        h = zlib.crc32(repr(t.args).encode()) / 2.0 ** 32
        return 1.0 + ((h + seed) * 7.3) % 5.0
    try:
        if t.op == "bin":
            a, b = value(t.args[1], seed), value(t.args[2], seed)
            if a is None or b is None:
                return None
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b, "Pow": lambda: a ** b}[t.args[0]]()
        if t.op == "un" and t.args[0] in ("USub", "UAdd"):
            a = value(t.args[1], seed)
            return None if a is None else -a if t.args[0] == "USub" else a
    except (KeyError, ZeroDivisionError, OverflowError, IndexError):
        pass
    return None


def same(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a.strip() == b.strip()
    return a == b


def run(cases):
    """cases(M) -> [(name, P, wkw, rkw)]; [(name, Out or None)]"""
    trip = Trip()
    todo = list(cases(trip.M))

    def one(c):
        name, P, wkw, rkw = c
        out, t = trip.trip(P, wkw, rkw)
        trip.compare(P, t, out)
        return out
    return [(c[0], o) for c, o in zip(todo, pmap(one, todo))]


# groups whose default is not None, and per-entry values that the format requires: None is not among what they accept
NOT_NONE = {"title", "rocks", "options", "extra_options", "default"}
NOT_NONE_IN = {("default", "initial_condition"), ("default", "relative_permeability"), ("default", "capillarity")}
NOT_NONE_ROCK = {"relative_permeability", "capillarity", "initial_condition", "permeability_model", "equivalent_pore_pressure"}

# values that reading completes by itself
COMPLETED = {("coordinates",), ("start",), ("isothermal",), ("title",), ("selections", "integers", "1"), ("flac", "creep")}

BLOCK = {"rocks": "rocks", "flac": "flac", "n_component": "multi", "n_phase": "multi", "n_component_mass": "multi", "isothermal": "multi",
         "solver": "solvr", "options": "param", "extra_options": "param", "more_options": "momop", "selections": "selec",
         "generators": "gener", "diffusion": "diffu", "times": "times", "element_history": "foft", "connection_history": "coft",
         "generator_history": "goft", "output": "outpu", "elements": "eleme", "connections": "conne", "initial_conditions": "incon",
         "default": "param", "coordinates": "coord"}


def completed(path, value):
    if path in COMPLETED or path[0].endswith("_order") or path[:1] == ("solver",) and not value.startswith("the value"):
        return True
    if path[-2:] in (("permeability_model", "id"), ("equivalent_pore_pressure", "id")):
        return True
    return False


def place(path):
    b = BLOCK.get(path[0])
    if path[0] == "default" and path[1:2] in (("relative_permeability",), ("capillarity",)):
        b = "rpcap"
    if path[-1:] == ("initial_condition",) and path[0] == "rocks" or path[2:3] == ("initial_condition",):
        b = "indom"
    if path[2:3] in (("permeability_model",), ("equivalent_pore_pressure",)):
        b = "flac"
    return "toughio/_io/input/tough: block {} (_write_{} / _read_{})".format(b.upper(), b, b) if b else "toughio/_io/input/tough"


def tidy(path):
    return ".".join(path)


def judge(rep, rule, results, allowed=lambda name, kind, path, value: False, write=True, lost=True, extra=True, read=True):
    """Report what the carried parameter sets show under one rule."""
    for name, o in results:
        if o is None:
            rep.unknown(rule, name, "analysis of this case broke")
            continue
        rep.count("parameter sets followed through writer and reader", 1)
        rep.count("values followed", o.n)
        if o.opaque:
            rep.unknown(rule, name, "; ".join(o.opaque[:2]))
            if o.error:
                continue
        bad = False
        if o.error and not o.opaque:
            if o.phase == "write" and write and not allowed(name, "write", (), o.error[1]):
                bad = True
                rep.bad(rule, o.error[2], "writing fails ({}) for the case: {}".format(o.error[1], name), key="{}|write|{}".format(rule, name))
            if o.phase == "read" and read and not allowed(name, "read", (), o.error[1]):
                bad = True
                rep.bad(rule, o.error[2], "reading back what was written fails ({}) for the case: {}".format(o.error[1], name),
                        key="{}|read|{}".format(rule, name))
        if o.opaque:
            continue
        for u in o.unsure:
            rep.unknown(rule, name, u)
        if lost:
            for p, v in o.lost:
                if not allowed(name, "lost", p, v):
                    bad = True
                    rep.bad(rule, place(p), "{} is written but does not come back under '{}' [{}]".format(v, tidy(p), name),
                            key="{}|lost|{}".format(rule, tidy(p)))
            for p, v, w in o.moved:
                if not allowed(name, "moved", p, v):
                    bad = True
                    rep.bad(rule, place(p), "'{}' holds {} instead of {} after reading back [{}]".format(tidy(p), w, v, name),
                            key="{}|moved|{}".format(rule, tidy(p)))
        if extra:
            for p, w in o.extra:
                if not completed(p, w) and not allowed(name, "extra", p, w):
                    bad = True
                    rep.bad(rule, place(p), "'{}' holds {} after reading back although nothing was given [{}]".format(tidy(p), w, name),
                            key="{}|extra|{}".format(rule, tidy(p)))
        if not bad:
            rep.ok(rule, name, n=max(1, o.n))


def omitted_allowed(name, kind, path, value):
    """Consequences of leaving something out that are not defects."""
    g = name.replace("without ", "").replace(" None", "")
    none = name.endswith(" None")
    parts = tuple(g.split("."))
    if kind == "write":
        if none and (g in NOT_NONE or parts in NOT_NONE_IN or parts[0] == "rocks" and parts[2:3] and parts[2] in NOT_NONE_ROCK):
            return True
        # a generator with a table needs both of its columns
        if parts[0] == "generators" and parts[-1] in ("times", "rates"):
            return True
    if g in ("n_component", "n_phase") and path and path[0] in ("n_component", "n_phase", "n_component_mass", "isothermal"):
        return True
    if g == "flac" and path[2:3] in (("permeability_model",), ("equivalent_pore_pressure",)):
        return True
    return False
