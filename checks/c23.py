"""C23: every accepted parameter reaches the file; names and types are checked for every group and entry."""
import roundtrip
import toughcases
from origin import integer, tree
from par import pmap
from roundtrip import Out, Trip
from spec_tough import DTYPES, GROUPS
from values import K, T

HELPERS = "toughio/_io/input/tough/_helpers.py: check_parameters"
WRONG = {"int": "text", "float": "text", "str": 3, "bool": "text", "str_int": [1], "array_like": 3, "dict": 3, "scalar": "text",
         "scalar_array_like": "text", "str_array_like": 3}


def at(P, path, value):
    """P with value at path."""
    if not path:
        return value
    P = dict(P) if isinstance(P, dict) else {}
    if value is DROP and len(path) == 1:
        P.pop(path[0], None)
    else:
        P[path[0]] = at(P.get(path[0], {}), path[1:], value)
    return P


DROP = object()


def get(P, path):
    for k in path:
        if not isinstance(P, dict) or k not in P:
            return None
        P = P[k]
    return P


def places(P):
    """[(group of declarations, path of the dict they apply to)]"""
    yield "PARAMETERS", ()
    for g, paths in GROUPS.items():
        for p in paths:
            if "*" in p:
                i = p.index("*")
                for n in get(P, p[:i]) or {}:
                    if get(P, p[:i] + (n,) + p[i + 1:]) is not None:
                        yield g, p[:i] + (n,) + p[i + 1:]
            elif get(P, p) is not None:
                yield g, p


def name(path):
    return ".".join(str(x) for x in path)


def run(rep, tier):
    rep.rule("R1", "the written file with the parameter differs from the file without it")
    rep.rule("R2", "a value of another kind than declared stops the writer with a TypeError, in every group and every entry")
    rep.rule("R3", "a name that is not declared is reported through a warning naming it, in every group and every entry")
    rep.rule("R4", "the declarations name every documented parameter of the group with its kind")
    rep.rule("R5", "no documented parameter of the right kind is reported or refused")
    trip = Trip()
    I = trip.I
    F = dict(trip.M.full(), coordinates=True)
    table = tree(I, I.lookup_path("toughio._io.input.tough._helpers.dtypes")) if I.lookup_path("toughio._io.input.tough._helpers.dtypes") is not None else None
    if isinstance(table, dict):
        for g, ks in DTYPES.items():
            if not isinstance(table.get(g), dict):
                rep.unknown("R4", HELPERS, "no declarations of group {}".format(g))
                continue
            for k in ks:
                rep.check("R4", k in table[g], "toughio/_io/input/tough/_helpers.py: dtypes['{}']".format(g), "parameter '{}' is not declared".format(k),
                          key="R4|{}|{}".format(g, k))
    todo = [("base", (), None, F)]
    # entries in another order: the first one has no models
    G = dict(F, rocks=dict(reversed(list(F["rocks"].items()))))
    todo += [("wrong", path + (k,), ty, at(G, path + (k,), WRONG[ty])) for g, path in places(G) if g == "MODEL" for k, ty in DTYPES[g].items()]
    for g, path in places(F):
        kinds = dict(DTYPES[g])
        if isinstance(table, dict) and isinstance(table.get(g), dict):
            kinds.update(table[g])
        for k, ty in kinds.items():
            if g == "PARAMETERS" and k == "eos":
                todo.append(("drop", path + (k,), ty, at({a: b for a, b in F.items() if a not in ("n_component", "n_phase", "n_component_mass", "isothermal")}, path + (k,), "eos1")))
            elif get(F, path + (k,)) is not None:
                v = get(F, path + (k,))
                todo.append(("drop", path + (k,), ty, at(F, path + (k,), (not v) if ty == "bool" else DROP)))
            if ty in WRONG:
                todo.append(("wrong", path + (k,), ty, at(F, path + (k,), WRONG[ty])))
        odd = 987 if g in ("MOP", "MOMOP") else "no_such_name"
        todo.append(("unknown", path + (odd,), None, at(F, path + (odd,), 1)))

    def one(c):
        what, path, ty, P = c
        out = Out()
        n = len(I.effects)
        lvl = I.begin()
        ok = trip.write(P, out)
        lines = [str(l) for l in I.lines_of("F")] if ok else []
        I.rollback(lvl)
        warned = [" ".join(roundtrip.text(a) for a in e.data[0]) if isinstance(e.data, tuple) and e.data and isinstance(e.data[0], tuple) else str(e.data)
                  for e in I.effects[n:] if e.kind == "call" and "logging" in str(e.target)]
        warned += [str(e.data) for e in I.effects[n:] if e.kind == "mcall" and "logging" in str(e.target)]
        return out.error, out.opaque, out.phase, lines, warned, [(e.kind, str(e.target)[:80]) for e in I.effects[n:]][:20]
    res = pmap(one, todo)
    base = res[0]
    rep.count("parameter sets followed through the writer", len(todo))
    if base and base[0] and not base[1]:
        rep.bad("R5", base[0][2], "a valid parameter set is refused: {}".format(base[0][1]), key="R5|refused|{}".format(base[0][1]))
        return
    if base is None or base[1]:
        rep.unknown("R1", "toughio/_io/input/tough/_write.py", "the complete file is not known: {}".format(base and (base[0] or base[1][:1])))
        return
    for w in base[4]:
        rep.bad("R5", HELPERS, "a valid parameter set is reported: {}".format(w), key="R5|{}".format(w))
    if not base[4]:
        rep.ok("R5", "all groups")
    for (what, path, ty, P), r in list(zip(todo, res))[1:]:
        nm = name(path)
        rule = {"drop": "R1", "wrong": "R2", "unknown": "R3"}[what]
        if r is None or r[1]:
            rep.unknown(rule, nm, r[1][0] if r else "analysis broke")
            continue
        err, _, phase, lines, warned, _ = r
        if what == "drop":
            if err:
                # refused without it: it matters
                rep.ok(rule, nm)
            else:
                rep.check(rule, lines != base[3], roundtrip.place(tuple(str(x) for x in path)),
                          "'{}' is accepted but does not change the file that is written".format(nm), key="R1|{}".format(nm))
        elif what == "wrong":
            if err and err[0] == "raise" and "TypeError" in err[1]:
                rep.ok(rule, nm)
            else:
                rep.bad(rule, err[2] if err else roundtrip.place(tuple(str(x) for x in path)), "a {} given for '{}' (declared {}) {}".format(
                    type(WRONG[ty]).__name__, nm, ty, "fails elsewhere: {}".format(err[1]) if err else "is not refused"), key="R2|{}".format(nm))
        else:
            rep.check(rule, any(str(path[-1]) in w for w in warned), HELPERS, "an unknown name in '{}' is not reported".format(name(path[:-1]) or "the parameters"),
                      key="R3|{}".format(name(path[:-1])))
