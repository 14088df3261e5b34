"""C21: parameters written to JSON come back as they were."""
from models import analysed, text_interp
from origin import Arr, Unknown, attempt, build, diff, integer, real, tree
from par import guarded, pmap
from scen import mixed
from toughcases import Make, omissions, pairs, shapes
from values import K, NpInt, T

W = "toughio/_io/input/json/_json.py: write"
R = "toughio/_io/input/json/_json.py: read"


def native(I, x):
    """What JSON holds for x."""
    if isinstance(x, dict):
        return {(int(k) if isinstance(k, NpInt) else k): native(I, v) for k, v in x.items()}
    if isinstance(x, Arr):
        x = x.rows
    if isinstance(x, (list, tuple)):
        return [native(I, y) for y in x]
    if isinstance(x, T):
        return I.item(x)
    if isinstance(x, K):
        return x.v
    return int(x) if isinstance(x, NpInt) else x


def each(x, f):
    if isinstance(x, dict):
        return f({k: each(v, f) for k, v in x.items()})
    if isinstance(x, list):
        return f([each(y, f) for y in x])
    return f(x)


def numpy_numbers(I, x, kind):
    def f(y):
        if isinstance(y, T) and y.op == "scalar":
            t = real("np:" + y.args[0])
            I.nptypes[t] = kind
            if kind == "int64":
                I.kinds[t] = "int"
            return t
        if isinstance(y, int) and not isinstance(y, bool) and kind == "int64":
            return NpInt(y)
        return y
    return each(x, f)


def array(y):
    if isinstance(y, list) and y and all(isinstance(v, T) for v in y):
        return Arr(*y)
    if isinstance(y, list) and len(y) > 1 and all(isinstance(v, Arr) and len(v.rows) == len(y[0].rows) for v in y) and isinstance(y[0].rows[0], T):
        return Arr(*(tuple(v.rows) for v in y))
    return y


def np_keys(y):
    return {(NpInt(k) if isinstance(k, int) else k): v for k, v in y.items()} if isinstance(y, dict) else y


def cases(I, tier):
    M = Make(I)
    F = M.full()
    for n, P, w, r in shapes(M, True):
        yield n, P
        yield n + ", arrays, tuples and numpy numbers", mixed(I, P)
    for kind in ("int64", "float64", "float32", "bool_"):
        yield "numpy." + kind + " in all groups", numpy_numbers(I, F, kind)
        for g in F:
            if each(F[g], lambda y: y) != numpy_numbers(I, F[g], kind):
                yield "numpy.{} in {}".format(kind, g), {g: numpy_numbers(I, F[g], kind)}
    yield "arrays", each(F, array)
    yield "arrays of numpy numbers", each(numpy_numbers(I, F, "float64"), array)
    yield "tuples", each(F, lambda y: tuple(y) if isinstance(y, list) else y)
    tup = lambda y: tuple(y) if isinstance(y, list) else y
    for kind in ("int64", "float32", "bool_"):
        N_ = numpy_numbers(I, F, kind)
        yield "tuples of numpy." + kind, each(N_, tup)
        yield "arrays of numpy." + kind, each(N_, array)
        yield "tuples of arrays of numpy." + kind, {"diffusion": tuple(Arr(*x) for x in N_["diffusion"]), "a": {"b": [(Arr(*N_["times"]), {"c": tuple(N_["times"])})]}}
    yield "numpy integers as keys", each(F, np_keys)
    for g in ("extra_options", "more_options", "selections"):
        yield "numpy integers as keys of " + g, {g: each(F[g], np_keys)}
        yield g + " alone", {g: F[g]}
        yield g + " None", {g: None}
        yield g + " empty", {g: {}}
    O = F["extra_options"]
    for ks in ((1,), (10,), (2, 10), (10, 2), (24, 1, 9, 11), (21, 3), (0, 5)):
        for g in ("extra_options", "more_options"):
            yield "{} of {}".format(g, ks), {g: {k: integer(I, "{}.{}".format(g, k)) for k in ks}}
            yield "{} of {}, some zero".format(g, ks), {g: {k: 0 for k in ks}}
        yield "selections of {}".format(ks), {"selections": {"integers": {k: integer(I, "s.{}".format(k)) for k in ks}}}
        yield "selections of {} and values".format(ks), {"selections": {"floats": [0.0], "integers": {k: 0 for k in ks}}}
    yield "selection values alone", {"selections": {"floats": M.some("selections.floats", 3)}}
    yield "no selection integers", {"selections": {"integers": None, "floats": M.some("selections.floats", 3)}}
    yield "empty selection integers", {"selections": {"integers": {}}}
    for v in (True, False, None, 0, 0.0, -1, "", "text", [], {}, [None], [[]], [True, False], (1, 2), {"a": {"b": [{"c": (0, None)}]}}):
        yield "title {!r}".format(v), {"title": v, "options": {"gravity": v}, "rocks": {"a": {"density": v}}}
    yield "nothing", {}
    yield "truth values in arrays", {"isothermal": Arr(*[K(True), K(False)]), "rocks": {"r": {"x": Arr((K(1), K(2)), (K(3), K(4)))}}}
    yield "names of groups within groups", {"rocks": {"extra_options": {"density": real("d")}, "selections": {"integers": {"x": 1}}}, "elements": {"more_options": {"1": 2}}}
    for n, P, w, r in omissions(M):
        yield n, P
    for n, P, w, r in pairs(M, tier == "thorough"):
        yield n, P


N = 32


def observe(k):
    """The part k of the cases, in one session."""
    tier, k = k
    I = text_interp()
    out = []
    for j, (n, P) in enumerate(cases(I, tier)):
        if j % N == k:
            out.append(guarded(lambda _: one(I, j, n, P), None) or (n, None, ["not followed"], None, []))
    return out


def one(I, j, n, P):
    """(name, why it stops, not followed, [(path, expected, got)] or None, functions)"""
    fn = I.lookup_path("toughio.write_input"), I.lookup_path("toughio.read_input")
    fmt = {} if j % 3 else {"file_format": K("json")}
    name = K("x.json")
    v, why = attempt(I, I.call, fn[0], [name, build(I, P)], dict(fmt), None)
    if why or I.opaque:
        return n, why and ("write_input", str(why)), [str(o)[:200] for o in I.opaque], None, sorted(I.inlined)
    v, why = attempt(I, I.call, fn[1], [name], dict(fmt), None)
    if why or I.opaque:
        return n, why and ("read_input", str(why)), [str(o)[:200] for o in I.opaque], None, sorted(I.inlined)
    got = tree(I, v)
    d = diff(native(I, P), got)
    if isinstance(got, Unknown) or any(isinstance(x, Unknown) for _, a, b in d for x in (a, b)):
        return n, None, ["result not followed"], None, sorted(I.inlined)
    return n, None, [], [(p, repr(a)[:80], repr(b)[:80]) for p, a, b in d], sorted(I.inlined)


def run(rep, tier):
    rep.rule("J1", "parameters written by write_input in JSON and read by read_input have the groups, keys, types of keys and values they had; tuples and arrays come back as lists, numpy numbers as Python's")
    rep.rule("J2", "no value and no key accepted in a parameter stops the writer or the reader")
    names = set()
    parts = pmap(observe, [(tier, k) for k in range(N)])
    for r in [r for x in parts for r in x or [(W, None, ["not followed"], None, [])]]:
        name, why, opaque, d, fns = r
        names.update(fns)
        rep.count("parameter sets")
        if opaque:
            rep.unknown("J1", W, "{}: not followed: {}".format(name, opaque[0]))
        elif why:
            rep.bad("J2", W if why[0] == "write_input" else R, "{}: {} stops: {}".format(name, why[0], why[1][:200]), "J2|" + why[0])
        elif d:
            for p, a, b in d[:2]:
                rep.bad("J1", R, "{}: {} is {} and comes back as {}".format(name, p, a, b), "J1|" + ".".join(x for x in p.split(".") if not x.isdigit()))
        else:
            rep.ok("J1", name)
            rep.ok("J2", name)
    analysed(rep)
    rep.analysed["functions interpreted"] = len(names)
