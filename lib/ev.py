"""Truth tables of extracted terms: evaluate a term under an assignment of its atoms."""
import itertools

from values import Ext, K, T, Tup


class Unknown(Exception):
    pass


BIN = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
    "FloorDiv": lambda a, b: a // b, "Div": lambda a, b: a / b, "Mod": lambda a, b: a % b,
    "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b,
}
CMP = {
    "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "is": lambda a, b: a is b, "isnot": lambda a, b: a is not b,
}
CALLS = {"builtins.int": int, "builtins.bool": bool, "builtins.float": float, "builtins.abs": abs,
         "builtins.min": min, "builtins.max": max, "builtins.str": str}


def strip(t):
    while isinstance(t, T) and t.op in ("copy", "shallow"):
        t = t.args[0]
    return t


def norm(t):
    """Atom identity: copies stripped inside."""
    t = strip(t)
    if isinstance(t, T) and t.op in ("get", "attr", "cmp", "elem"):
        return T(t.op, *[norm(a) if isinstance(a, T) else a for a in t.args])
    return t


def kind(t):
    """How a term combines its operands: op name, or None for an atom."""
    if isinstance(t, K):
        return "const"
    if isinstance(t, T):
        if t.op in ("gamma", "and", "or", "not", "truth", "bin", "un"):
            return t.op
        if t.op == "cmp" and t.args[0] in CMP:
            return "cmp"
        if t.op == "cmp" and t.args[0] == "notin":
            return "notin"
        if t.op == "call" and isinstance(t.args[0], Ext) and t.args[0].name in CALLS and not t.args[2]:
            return "call"
    return None


def ev(t, env, sub=None):
    t = strip(t)
    if sub is not None and isinstance(t, T):
        r = sub(t)
        if r is not None:
            return ev(r, env, sub)
    k = kind(t)
    if k == "const":
        return t.v
    if k == "gamma":
        return ev(t.args[1] if ev(t.args[0], env, sub) else t.args[2], env, sub)
    if k == "and":
        return all(ev(x, env, sub) for x in t.args)
    if k == "or":
        return any(ev(x, env, sub) for x in t.args)
    if k == "not":
        return not ev(t.args[0], env, sub)
    if k == "truth":
        return bool(ev(t.args[0], env, sub))
    if k == "notin":
        return not ev(T("cmp", "in", *t.args[1:]), env, sub)
    if k == "bin" and t.args[0] in BIN:
        return BIN[t.args[0]](ev(t.args[1], env, sub), ev(t.args[2], env, sub))
    if k == "un":
        v = ev(t.args[1], env, sub)
        return -v if t.args[0] == "USub" else +v if t.args[0] == "UAdd" else not v
    if k == "cmp":
        return CMP[t.args[0]](ev(t.args[1], env, sub), ev(t.args[2], env, sub))
    if k == "call":
        return CALLS[t.args[0].name](*[ev(x, env, sub) for x in t.args[1]])
    a = norm(t)
    if a not in env:
        raise Unknown(a)
    return env[a]


def atoms(t, out, role="val", sub=None):
    """Collect atoms with the roles they are used in."""
    t = strip(t)
    if sub is not None and isinstance(t, T):
        r = sub(t)
        if r is not None:
            return atoms(r, out, role, sub)
    k = kind(t)
    if k == "const":
        return
    if k == "gamma":
        atoms(t.args[0], out, "bool", sub)
        atoms(t.args[1], out, role, sub)
        atoms(t.args[2], out, role, sub)
    elif k in ("and", "or"):
        for x in t.args:
            atoms(x, out, "bool", sub)
    elif k in ("not", "truth"):
        atoms(t.args[0], out, "bool", sub)
    elif k == "notin":
        atoms(T("cmp", "in", *t.args[1:]), out, "bool", sub)
    elif k == "bin":
        atoms(t.args[1], out, "num", sub)
        atoms(t.args[2], out, "num", sub)
    elif k == "un":
        atoms(t.args[1], out, "num", sub)
    elif k == "cmp":
        none = any(x == K(None) for x in t.args[1:])
        for x in t.args[1:]:
            atoms(x, out, "none" if none else "num", sub)
    elif k == "call":
        for x in t.args[1]:
            atoms(x, out, role if role != "bool" else "bool", sub)
    else:
        out.setdefault(norm(t), set()).add(role)


def is_bool(a):
    return isinstance(a, T) and a.op in ("cmp", "isinstance", "in", "looped", "exc") or not isinstance(a, T)


def domain(a, roles):
    if is_bool(a):
        return (True, False)
    if isinstance(a, T) and a.op == "call" and isinstance(a.args[0], Ext) and a.args[0].name == "builtins.len":
        return tuple(range(1, 26))
    if isinstance(a, T) and a.op == "call" and isinstance(a.args[0], Ext) and a.args[0].name == "numpy.ndim":
        return (0, 1)
    if roles <= {"none"}:
        return (None, 2)
    if roles <= {"bool"}:
        return (True, False)
    if roles <= {"bool", "none"}:
        return (None, 1)
    return (None, 1, 2, 3)


def envs(terms, limit=20000, sub=None, fixed=None):
    """All assignments of the atoms of the terms."""
    at = {}
    for t in terms:
        atoms(t, at, "bool", sub)
    fixed = fixed or {}
    names = [a for a in at if a not in fixed]
    doms = [domain(a, at[a]) for a in names]
    n = 1
    for d in doms:
        n *= len(d)
    if n > limit:
        raise Unknown("{} assignments".format(n))
    for vals in itertools.product(*doms):
        env = dict(fixed)
        env.update(zip(names, vals))
        yield env


def holds(pc, env, sub=None):
    """Are all conditions of a path condition met?"""
    return all(bool(ev(c, env, sub)) == p for c, p in pc)
