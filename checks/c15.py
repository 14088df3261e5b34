"""C15: flow-property models name, number and order their parameters consistently."""
import ast
import itertools
import math
import re

from formula import FormulaInterp
from geom import CantEval, num
from iomodel import new_ctx
from models import _cache, analysed, text_interp
from origin import FAIL, Arr, attempt, build, real, tree
from values import Cls, Fn, K, T


def clip(x):
    return min(max(x, 0.0), 1.0)


# ---- the models as published in TOUGH's user guides ------------------------------------------------


def rp_linear(s, slmin, sgmin, slmax, sgmax):
    return clip((s - slmin) / (slmax - slmin)), clip((1.0 - s - sgmin) / (sgmax - sgmin))


def rp_pickens(s, x):
    return s ** x, 1.0


def _corey(s, slr, sgr):
    return clip((s - slr) / (1.0 - slr - sgr))


def rp_corey(s, slr, sgr):
    h = _corey(s, slr, sgr)
    return h ** 4, (1.0 - h) ** 2 * (1.0 - h ** 2)


def rp_grant(s, slr, sgr):
    h = _corey(s, slr, sgr)
    return h ** 4, 1.0 - h ** 4


def rp_fatt(s, slr):
    h = max(0.0, (s - slr) / (1.0 - slr))
    return h ** 3, (1.0 - h) ** 3


def rp_vg(s, m, slr, sls, sgr):
    if s >= sls:
        return 1.0, 0.0
    h = (s - slr) / (sls - slr)
    kl = math.sqrt(h) * (1.0 - (1.0 - h ** (1.0 / m)) ** m) ** 2 if h > 0.0 else 0.0
    g = _corey(s, slr, sgr)
    return kl, 1.0 - kl if sgr <= 0.0 else (1.0 - g) ** 2 * (1.0 - g ** 2)


def rp_verma(s, slr, sls, a, b, c):
    h = clip((s - slr) / (sls - slr))
    return h ** 3, clip(a + b * h + c * h ** 2)


def cp_linear(s, pmax, smin, smax):
    return -pmax * clip((smax - s) / (smax - smin))


def cp_pickens(s, p0, slr, sl0, x):
    s = max(s, 1.001 * slr)
    s = min(s, 0.999 * sl0)
    A = (1.0 + s / sl0) * (sl0 - slr) / (sl0 + slr)
    B = 1.0 - s / sl0
    return -p0 * math.log(A / B * (1.0 + math.sqrt(1.0 - (B / A) ** 2))) ** (1.0 / x)


def _capped(p, s, pmax):
    return max(p, -abs(pmax)) * ((1.0 - s) / 0.001 if s > 0.999 else 1.0)


def cp_trust(s, p0, slr, eta, pe, pmax):
    return _capped(-pe - p0 * ((1.0 - s) / (s - slr)) ** (1.0 / eta) if s > slr else -abs(pmax), s, pmax)


def cp_milly(s, slr):
    s = max(s, 1.001 * slr)
    return -97.783 * (1.0 if s - slr >= 0.371 else 10.0 ** (2.26 * (0.371 / (s - slr) - 1.0) ** 0.25 - 2.0))


def cp_vg(s, m, slr, alpha, pmax, sls):
    if s == 1.0:
        return 0.0
    return _capped(-((((s - slr) / (sls - slr)) ** (-1.0 / m) - 1.0) ** (1.0 - m)) / abs(alpha) if s > slr else -abs(pmax), s, pmax)


# class: (number, parameters in TOUGH's order, formula, parameter sets, last saturation for which it is defined)
SPEC = {
    "relative_permeability": {
        "Linear": (1, ("slmin", "sgmin", "slmax", "sgmax"), rp_linear, [(0.21, 0.13, 0.83, 0.71), (0.11, 0.05, 0.97, 0.59)], 1.0),
        "Pickens": (2, ("x",), rp_pickens, [(2.3,), (0.7,)], 1.0),
        "Corey": (3, ("slr", "sgr"), rp_corey, [(0.31, 0.07), (0.12, 0.23)], 1.0),
        "Grant": (4, ("slr", "sgr"), rp_grant, [(0.31, 0.07), (0.12, 0.23)], 1.0),
        "FattKlikoff": (6, ("slr",), rp_fatt, [(0.33,), (0.17,)], 1.0),
        "vanGenuchtenMualem": (7, ("m", "slr", "sls", "sgr"), rp_vg, [(0.457, 0.15, 0.96, 0.05), (0.627, 0.23, 0.87, 0.0), (0.457, 0.15, 0.83, 0.29)], 1.0),
        "Verma": (8, ("slr", "sls", "a", "b", "c"), rp_verma, [(0.2, 0.895, 1.259, -1.7615, 0.5089), (0.13, 0.77, 0.93, -1.1, 0.21)], 1.0),
    },
    "capillarity": {
        "Linear": (1, ("pmax", "smin", "smax"), cp_linear, [(1.3e5, 0.21, 0.83), (2.9e4, 0.09, 0.67)], 1.0),
        "Pickens": (2, ("p0", "slr", "sl0", "x"), cp_pickens, [(1.7e4, 0.18, 1.1, 1.9), (2.3e3, 0.07, 1.37, 0.8)], 1.0),
        "TRUST": (3, ("p0", "slr", "eta", "pe", "pmax"), cp_trust, [(1.7e4, 0.18, 1.9, 2.1e3, 7.7e4), (2.3e3, 0.07, 0.8, 3.1e2, 9.1e3)], 1.0),
        "Milly": (4, ("slr",), cp_milly, [(0.11,), (0.23,)], 1.0),
        "vanGenuchten": (7, ("m", "slr", "alpha", "pmax", "sls"), cp_vg, [(0.457, 0.15, 5.1e-5, 1.3e6, 1.0), (0.627, 0.07, 2.3e-4, 4.1e3, 1.03)], 1.0),
    },
}
SATS = [0.0, 1.0, 0.9993, 0.99971] + [round(0.017 + 0.0473 * i, 5) for i in range(21)]


def calls(I, inst, arg):
    n = len(I.effects)
    v, why = attempt(I, I.method, inst, "__call__", [arg], {}, None)
    I.refusals = [e for e in I.effects[n:] if e.kind in FAIL]
    return v, why


def formula(t, names, values, s):
    env = {real(n): v for n, v in zip(names, values)}
    env[real("sl")] = s
    r = [num(x, env) for x in t] if isinstance(t, (list, tuple)) else [num(t if isinstance(t, T) else K(t), env)]
    if any(isinstance(x, complex) for x in r):
        raise ArithmeticError("a complex value")
    return r


def lists(t):
    return [x if isinstance(x, T) else K(x) for x in t] if isinstance(t, (list, tuple)) else t


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-8 * max(1e-3, abs(x), abs(y)) for x, y in zip(a, b))


def constants(t, out=None):
    """Numbers written in an extracted formula."""
    out = set() if out is None else out
    if isinstance(t, K):
        if isinstance(t.v, (int, float)) and not isinstance(t.v, bool) and math.isfinite(t.v):
            out.add(float(t.v))
    elif isinstance(t, (list, tuple)):
        for x in t:
            constants(x, out)
    elif isinstance(t, T):
        for x in t.args:
            constants(x, out)
    return out


def saturations(t, ps):
    """Saturations within every interval delimited by the numbers and parameters of the formula."""
    c = constants(t) | {0.001, 0.999, 0.371, 1.001}
    base = set(ps) | c | {x * p for x in c for p in ps if 0.9 < x < 1.1} | {x + p for x in c for p in ps}
    cuts = sorted({round(y, 12) for x in base for y in (x, 1.0 - x) if 0.0 <= y <= 1.0} | {0.0, 1.0})
    mids = [0.5 * (a + b) for a, b in zip(cuts, cuts[1:]) if b - a > 1e-9]
    return SATS + mids


def agrees(t, spec, names, sets, top, order=None):
    """None where the extracted formula is the published one; the disagreement otherwise."""
    n = 0
    for ps in sets:
        for s in saturations(t, ps):
            if s > top:
                continue
            want = spec(s, *ps)
            want = list(want) if isinstance(want, tuple) else [want]
            vals = ps if order is None else [ps[i] for i in order]
            try:
                got = formula(t, names, vals, s)
            except (ArithmeticError, ValueError, TypeError) as e:
                return n, "is not defined ({}) for saturation {} and {}".format(e, s, dict(zip(names, ps)))
            n += 1
            if not near(got, want):
                return n, "gives {} instead of {} for saturation {} and {}".format(got, want, s, dict(zip(names, ps)))
    return n, None


def doc_params(fn):
    """[(name, number or None)] of the documented parameters."""
    d = ast.get_docstring(fn.node) or ""
    out, on = [], False
    for line in d.split("\n"):
        if re.match(r"Parameters\s*$", line):
            on = True
        elif on and re.match(r"(Returns|Raises|Note|Example)", line):
            break
        elif on:
            m = re.match(r"(\w+) : ", line)
            if m:
                out.append([m.group(1), None])
            m = re.search(r"\b[RC]P\((\d+)\)", line)
            if m and out:
                out[-1][1] = int(m.group(1))
    return out


def fresh():
    I = FormulaInterp()
    new_ctx(I)
    _cache.setdefault("X", []).append(I)
    return I


def run(rep, tier):
    I = fresh()
    X = text_interp()
    rep.rule("M1", "the i-th constructor argument is the i-th entry of the parameter list handed to the simulator")
    rep.rule("M2", "setting the parameter list stores each entry under its own position")
    rep.rule("M3", "constructor arguments are documented under their own name, in order, with their own number")
    rep.rule("M4", "the formula extracted from the code is the published one, the i-th parameter in the role of the i-th")
    rep.rule("M5", "the model's number is TOUGH's and unique in its family, its name is not empty")
    rep.rule("M6", "saturations outside [0, 1] are refused, single or in any position of a list, tuple or array; those inside are accepted")
    rep.rule("M7", "the i-th value of an array of saturations gives the i-th result")
    rep.rule("M8", "the displayed parameters carry their own number and value")
    for fam, spec in SPEC.items():
        al = I.module_attr("toughio." + fam, "__all__")
        names = tree(I, al) if al is not None else []
        ids = {}
        for n in sorted(set(spec) | {x for x in names if isinstance(x, str)} if isinstance(names, list) else spec):
            where = "toughio/{} {}".format(fam, n)
            cls = I.module_attr("toughio." + fam, n)
            if not isinstance(cls, Cls):
                rep.unknown("M1", where, "class not found")
                continue
            rep.count("models")
            model(rep, I, X, fam, n, cls, spec.get(n), ids)
        for k, v in ids.items():
            rep.check("M5", len(v) == 1, "toughio/" + fam, "number {} is used by {}".format(k, v), "M5|{}|{}|unique".format(fam, k))
    analysed(rep)


def model(rep, I, X, fam, n, cls, spec, ids):
    init = cls.lookup("__init__")
    where = "{} {}".format("toughio/{}".format(fam), n)
    key = "{}|{}".format(fam, n)
    if not isinstance(init, Fn):
        rep.unknown("M1", where, "no constructor")
        return
    where = "{}:{} {}".format(init.module.name.replace(".", "/") + ".py", init.node.lineno, n) if hasattr(init, "module") else where
    args = [a.arg for a in init.node.args.args[1:]]
    ps = [real(a) for a in args]
    inst, why = attempt(I, I.call, cls, ps, {}, None)
    if inst is None:
        rep.bad("M1", where, "{} cannot be created from its own parameters: {}".format(n, why), "M1|{}|fail".format(key))
        return
    opaque = list(I.opaque)
    got = tree(I, I.getattr(inst, "parameters"))
    if not isinstance(got, list) or opaque or not all(isinstance(x, T) for x in got):
        rep.unknown("M1", where, "parameter list not resolved")
    else:
        rep.check("M1", got == ps, where, "parameters of {} are {} for arguments {}".format(n, got, args), "M1|" + key)
    # by keywords, in the opposite order
    i2, why = attempt(I, I.call, cls, [], dict(reversed(list(zip(args, ps)))), None)
    if i2 is not None:
        g2 = tree(I, I.getattr(i2, "parameters"))
        if isinstance(g2, list) and all(isinstance(x, T) for x in g2):
            rep.check("M1", g2 == ps, where, "parameters of {} given by keyword are {}".format(n, g2), "M1|" + key + "|kw")
    # setter
    new = [real("new{}".format(i)) for i in range(len(args))]
    for mk in (list, tuple, lambda r: Arr(*r)):
        _, why = attempt(I, I.setattr, i2 if i2 is not None else inst, "parameters", build(I, mk(new)), None)
        if why:
            rep.bad("M2", where, "the parameters of {} cannot be set: {}".format(n, why), "M2|{}|fail".format(key))
            continue
        g3 = tree(I, I.getattr(i2 if i2 is not None else inst, "parameters"))
        if isinstance(g3, list) and all(isinstance(x, T) for x in g3):
            rep.check("M2", g3 == new, where, "parameters of {} set to {} are {}".format(n, new, g3), "M2|" + key)
        else:
            rep.unknown("M2", where, "parameters after setting not resolved")
    # the attributes named after the parameters
    docs = doc_params(init)
    if docs:
        rep.check("M3", [d[0] for d in docs] == args, where, "{} documents parameters {} but takes {}".format(
            n, [d[0] for d in docs], args), "M3|" + key)
        for i, (d, k) in enumerate(docs):
            if k is not None:
                rep.check("M3", k == i + 1, where, "parameter {} of {} is documented as number {} but is number {}".format(
                    d, n, k, i + 1), "M3|{}|{}".format(key, d))
    idv = I.resolve(I.getattr(inst, "id"))
    nm = I.resolve(I.getattr(inst, "name"))
    if isinstance(idv, K):
        ids.setdefault(idv.v, []).append(n)
        if spec:
            rep.check("M5", idv.v == spec[0], where, "number of {} is {} instead of {}".format(n, idv.v, spec[0]), "M5|" + key)
        rep.check("M5", isinstance(idv.v, int) and idv.v > 0, where, "number of {} is {}".format(n, idv.v), "M5|{}|int".format(key))
    else:
        rep.unknown("M5", where, "number not resolved")
    if isinstance(nm, K):
        rep.check("M5", isinstance(nm.v, str) and bool(nm.v), where, "{} has no name".format(n), "M5|{}|name".format(key))
    # formula
    v, why = calls(I, inst, real("sl"))
    t = tree(I, v) if v is not None else None
    if v is None:
        rep.bad("M4", where, "{} cannot be evaluated: {}".format(n, why), "M4|{}|fail".format(key))
    elif I.opaque:
        rep.unknown("M4", where, "formula not followed: {}".format(I.opaque[:1]))
    elif spec:
        sets = [p for p in spec[3] if len(p) == len(args)]
        names = spec[1]
        if set(names) == set(args) and list(names) != args:
            rep.bad("M4", where, "{} takes {} instead of {}".format(n, args, names), "M4|{}|order".format(key))
        elif len(args) == len(names):
            try:
                cnt, bad = agrees(lists(t), spec[2], args, sets, spec[4])
                rep.count("formula values compared", cnt)
                if bad is None:
                    rep.ok("M4", "{} {}".format(where, args))
                else:
                    swap = None
                    for o in itertools.permutations(range(len(args))):
                        if o != tuple(range(len(args))) and agrees(lists(t), spec[2], args, sets, spec[4], o)[1] is None:
                            swap = [args[o.index(i)] for i in range(len(args))]
                            break
                    rep.bad("M4", where, "the formula of {} {}{}".format(n, bad, "; it takes its parameters in the order {}".format(swap) if swap else ""),
                            "M4|" + key)
            except CantEval as e:
                rep.unknown("M4", where, "formula not resolved: {}".format(str(e)[:120]))
        else:
            rep.bad("M4", where, "{} takes {} parameters instead of {}".format(n, len(args), len(names)), "M4|{}|count".format(key))
    # saturations
    for x in (-1e-9, -0.5, 1.0 + 1e-9, 2.0, float("inf"), -float("inf"), -1, 2):
        v, why = calls(I, inst, K(x))
        if v is None:
            rep.ok("M6", "{} {}".format(n, x))
        elif I.opaque or I.refusals:
            rep.unknown("M6", where, "refusal of {} not decided".format(x))
        else:
            rep.bad("M6", where, "{} accepts a saturation of {}".format(n, x), "M6|{}|{}".format(key, x))
    bads = [(0.5, 1.1), (1.1, 0.5), (-0.1, 0.5), (0.5, -0.1), (0.5, 1.0 + 1e-9), (-0.2, 1.2), (1.3, 1.2), (-0.1,), (1.1,),
            (-0.2, -0.1), (0.2, 1.2, 0.4), (0.2, -1.2, 0.4), (1, 2), (0, -1)]
    for mkn, mk in (("list", list), ("tuple", tuple), ("array", lambda r: Arr(*r))):
        for b in bads:
            v, why = calls(I, inst, build(I, mk(b)))
            if v is None:
                rep.ok("M6", "{} {}".format(n, b))
            elif I.opaque or I.refusals:
                rep.unknown("M6", where, "refusal of {} not decided".format(b))
            else:
                rep.bad("M6", where, "{} accepts the {} of saturations {}".format(n, mkn, b), "M6|{}|{}|{}".format(key, mkn, b))
        for g in ((0.0, 1.0), (0.25, 0.75, 0.5), (1.0,), (0, 1)):
            v, why = calls(I, inst, build(I, mk(g)))
            if v is None and getattr(why, "kind", "") == "raise":
                rep.bad("M6", where, "{} refuses the {} of saturations {}".format(n, mkn, g), "M6|{}|{}|{}|ok".format(key, mkn, g))
            elif v is None:
                rep.unknown("M6", where, "evaluation of {} stops: {}".format(g, why))
            else:
                rep.ok("M6", "{} {}".format(n, g))
    for x in (0.0, 1.0, 0.5, 0, 1):
        v, why = calls(I, inst, K(x))
        if v is None and getattr(why, "kind", "") == "raise":
            rep.bad("M6", where, "{} refuses a saturation of {}".format(n, x), "M6|{}|{}|ok".format(key, x))
        elif v is not None:
            rep.ok("M6", "{} {}".format(n, x))
    # arrays, entry by entry
    single = {}
    for x in (0.2, 0.5, 0.9):
        v, why = calls(I, inst, K(x))
        single[x] = tree(I, v) if v is not None and not I.opaque else None
    for mk in (list, tuple, lambda r: Arr(*r)):
        v, why = calls(I, inst, build(I, mk([0.2, 0.5, 0.9])))
        r = tree(I, v) if v is not None else None
        if r is None or I.opaque or any(x is None for x in single.values()) or not isinstance(r, list):
            rep.unknown("M7", where, "array of results not resolved")
            continue
        want = [single[0.2], single[0.5], single[0.9]]
        if fam == "relative_permeability":
            want = [[w[0] for w in want], [w[1] for w in want]]
        rep.check("M7", r == want, where, "results of {} for several saturations are not those of each of them".format(n), "M7|" + key)
    # display
    cx = X.module_attr("toughio." + fam, n)
    ix, why = attempt(X, X.call, cx, ps, {}, None)
    if ix is not None:
        s, why = attempt(X, X.method, ix, "__repr__", [], {}, None)
        from tx import pcs, is_text
        if s is None:
            rep.bad("M8", where, "{} cannot be displayed: {}".format(n, why), "M8|{}|fail".format(key))
        elif not is_text(s) or X.opaque:
            rep.unknown("M8", where, "display not resolved")
        else:
            shown, num_ = [], None
            joined = []
            for p in pcs(s):
                p = p.v if isinstance(p, K) else p
                if isinstance(p, str) and joined and isinstance(joined[-1], str):
                    joined[-1] += p
                else:
                    joined.append(p)
            for p in joined:
                if isinstance(p, str):
                    m = re.search(r"\((\d+)\)[^()]*$", p)
                    num_ = int(m.group(1)) if m else None
                    first = p if not shown else ""
                    if first and isinstance(idv, K):
                        rep.check("M8", str(idv.v) in re.findall(r"\d+", first.split("\n")[0]), where, "{} is displayed as {!r}".format(
                            n, first.split("\n")[0]), "M8|{}|id".format(key))
                elif isinstance(p, T) and p.op == "hole":
                    shown.append((num_, p.args[0]))
            want = [(i + 1, p) for i, p in enumerate(ps)]
            if any(k is None for k, _ in shown):
                rep.unknown("M8", where, "numbers displayed not recognised")
            else:
                rep.check("M8", shown == want, where, "{} displays its parameters as {}".format(n, shown), "M8|" + key)
