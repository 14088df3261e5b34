"""Reference cells, maps and numerical evaluation of extracted geometric expressions."""
import itertools
import math

from values import K, T

CELLS = {
    "tetra": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "pyramid": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (.5, .5, 1)],
    "wedge": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
    "hexahedron": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
}


class CantEval(Exception):
    pass


def maps():
    """Maps that keep planar faces planar and cells convex: affine and projective."""
    A = [
        (((1, 0, 0), (0, 1, 0), (0, 0, 1)), (0, 0, 0), (0, 0, 0)),
        (((1.3, 0.2, -0.1), (-0.3, 0.9, 0.25), (0.15, -0.2, 1.7)), (0.4, -0.7, 0.3), (0, 0, 0)),
        (((1.1, -0.2, 0.3), (0.25, 1.4, -0.15), (-0.1, 0.35, 0.8)), (-1.2, 0.5, 2.0), (0.23, 0.11, 0.17)),
        (((0.7, 0.1, 0.2), (-0.15, 1.2, 0.3), (0.2, -0.25, 1.5)), (3.0, -2.0, 0.1), (-0.12, 0.21, 0.31)),
        (((2.1, 0.3, -0.2), (0.1, 0.6, 0.15), (0.3, 0.1, 0.9)), (0.2, 0.1, -5.0), (0.05, -0.18, 0.27)),
    ]
    out = []
    for M, b, c in A:
        def f(p, M=M, b=b, c=c):
            w = 1 + sum(x * y for x, y in zip(c, p))
            return tuple((sum(M[i][j] * p[j] for j in range(3)) + b[i]) / w for i in range(3))
        out.append(f)
    return out


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def norm(a):
    return math.sqrt(dot(a, a))


def vec_area(pts):
    """Vector area of a planar polygon."""
    s = (0.0, 0.0, 0.0)
    for i in range(1, len(pts) - 1):
        c = cross(sub(pts[i], pts[0]), sub(pts[i + 1], pts[0]))
        s = tuple(x + y for x, y in zip(s, c))
    return tuple(x / 2 for x in s)


def centroid(pts):
    n = float(len(pts))
    return tuple(sum(p[i] for p in pts) / n for i in range(3))


def hull_faces(cell):
    """{frozenset of nodes: outward cycle} of the faces of a reference cell."""
    P = CELLS[cell]
    n = len(P)
    c = centroid(P)
    out = {}
    for i, j, k in itertools.combinations(range(n), 3):
        nv = cross(sub(P[j], P[i]), sub(P[k], P[i]))
        if norm(nv) < 1e-12:
            continue
        d = [dot(nv, sub(P[m], P[i])) for m in range(n)]
        if all(x <= 1e-12 for x in d) or all(x >= -1e-12 for x in d):
            on = [m for m in range(n) if abs(d[m]) < 1e-12]
            if frozenset(on) in out:
                continue
            if dot(nv, sub(P[i], c)) < 0:
                nv = tuple(-x for x in nv)
            fc = centroid([P[m] for m in on])
            u = sub(P[on[0]], fc)
            v = cross(nv, u)
            on.sort(key=lambda m: math.atan2(dot(sub(P[m], fc), v) / norm(v), dot(sub(P[m], fc), u) / norm(u)))
            out[frozenset(on)] = on
    return out


def volume(cell, X):
    """Exact volume of the (convex, planar faced) image X of a reference cell."""
    v = 0.0
    for cyc in hull_faces(cell).values():
        pts = [X[m] for m in cyc]
        v += dot(vec_area(pts), pts[0]) / 3.0
    return abs(v)


FN = {"sqrt": lambda x: math.sqrt(x), "abs": abs, "argmax": lambda *xs: xs.index(max(xs)), "argmin": lambda *xs: xs.index(min(xs)),
      "min": lambda *xs: min(xs), "max": lambda *xs: max(xs), "any": lambda *xs: any(xs), "all": lambda *xs: all(xs)}
BIN = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b,
       "Pow": lambda a, b: a ** b, "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b}
CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "is": lambda a, b: a is b, "isnot": lambda a, b: a is not b}


def num(t, env, memo=None):
    """Value of an extracted scalar expression; env maps leaf terms to numbers."""
    memo = {} if memo is None else memo

    def go(t):
        if isinstance(t, K):
            return t.v
        if not isinstance(t, T):
            raise CantEval(t)
        if t in memo:
            return memo[t]
        if t in env:
            r = env[t]
        elif t.op == "bin" and t.args[0] in BIN:
            r = BIN[t.args[0]](go(t.args[1]), go(t.args[2]))
        elif t.op == "un":
            r = -go(t.args[1]) if t.args[0] == "USub" else go(t.args[1])
        elif t.op == "fn" and t.args[0] in FN:
            r = FN[t.args[0]](*[go(a) for a in t.args[1:]])
        elif t.op == "cmp" and t.args[0] in CMP:
            r = CMP[t.args[0]](go(t.args[1]), go(t.args[2]))
        elif t.op in ("gamma", "sel"):
            r = go(t.args[1]) if go(t.args[0]) else go(t.args[2])
        elif t.op == "and":
            r = all(go(a) for a in t.args)
        elif t.op == "or":
            r = any(go(a) for a in t.args)
        elif t.op in ("not",):
            r = not go(t.args[0])
        elif t.op == "truth":
            r = bool(go(t.args[0]))
        else:
            raise CantEval(t)
        memo[t] = r
        return r
    return go(t)


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * (1.0 + abs(a) + abs(b))
