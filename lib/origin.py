"""Values of unknown content carried through a writer and the matching reader."""
from engine import Dead
from tx import Exhausted
from nd import NdC
from values import DictC, K, ListC, Ref, T, Tup

FAIL = ("bad-index", "keyerror", "raise", "bad-shape", "certain-failure", "stop")


def real(name):
    return T("scalar", name)


def ranked(I, *terms):
    """Their values increase in the given order."""
    for t in terms:
        I.ranks.setdefault(t, 1000 + len(I.ranks))
    return terms


def integer(I, name):
    t = T("scalar", name)
    I.kinds[t] = "int"
    return t


class Arr:
    """A numpy array of given entries."""

    def __init__(self, *rows):
        self.rows = rows


def build(I, o):
    if isinstance(o, (K, T, Tup, Ref)):
        return o
    if isinstance(o, dict):
        return I.new_dict([(K(k) if not isinstance(k, T) else k, build(I, v)) for k, v in o.items()])
    if isinstance(o, list):
        return I.new_list([build(I, v) for v in o])
    if isinstance(o, tuple):
        return Tup([build(I, v) for v in o])
    if isinstance(o, Arr):
        rows = o.rows
        if rows and isinstance(rows[0], (tuple, list)):
            return I.nd((len(rows), len(rows[0])), [build(I, x) for r in rows for x in r])
        return I.nd((len(rows),), [build(I, x) for x in rows])
    return K(o)


class Unknown:
    """Something whose structure is not known."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "?{!r}".format(self.v)[:200]


def tree(I, v, depth=0):
    """Nested Python data with terms at the leaves."""
    v = I.resolve(v)
    if depth > 12:
        return Unknown(v)
    if isinstance(v, K):
        return v.v
    if isinstance(v, Tup):
        return [tree(I, x, depth + 1) for x in v.items]
    if isinstance(v, Ref):
        c = I.read(v.id)
        if isinstance(c, NdC):
            def rows(shape, flat):
                if not shape:
                    return tree(I, flat[0], depth + 1)
                if len(shape) == 1:
                    return [tree(I, x, depth + 1) for x in flat]
                n = len(flat) // shape[0] if shape[0] else 0
                return [rows(shape[1:], flat[i * n:(i + 1) * n]) for i in range(shape[0])]
            return rows(c.shape, c.flat)
        if isinstance(c, DictC):
            if c.base is not None or c.loose:
                return Unknown(v)
            return {(k.v if isinstance(k, K) else k): tree(I, x, depth + 1) for k, x in c.ent.items()}
        if isinstance(c, ListC):
            items = I.concrete(v)
            if items is None:
                return Unknown(I.snap(v))
            return [tree(I, x, depth + 1) for x in items]
        return Unknown(v)
    items = I.concrete(v) if isinstance(v, T) and v.op not in ("scalar", "coord", "txt") else None
    if items is not None:
        return [tree(I, x, depth + 1) for x in items]
    return v


def attempt(I, f, *a, **k):
    """(value, None) or (None, the event that certainly stops it)."""
    n = len(I.effects)
    I.opaque = []
    I.steps = 0
    try:
        return f(*a, **k), None
    except Exhausted as e:
        I.opaque.append((str(e), None))
        return None, "exhausted"
    except Dead:
        es = [e for e in I.effects[n:] if e.kind in FAIL]
        return None, es[-1] if es else "stops"


def diff(a, b, path="", out=None, same=None):
    """[(path, expected, got)] between two trees; None where not comparable."""
    out = [] if out is None else out
    if isinstance(b, Unknown) or isinstance(a, Unknown):
        out.append((path, a, b))
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                out.append(("{}.{}".format(path, k).lstrip("."), a[k], "<absent>"))
            else:
                diff(a[k], b[k], "{}.{}".format(path, k).lstrip("."), out, same)
        for k in b:
            if k not in a:
                out.append(("{}.{}".format(path, k).lstrip("."), "<absent>", b[k]))
        return out
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            out.append((path + "#", len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            diff(x, y, "{}.{}".format(path, i), out, same)
        return out
    if same(a, b) if same else (a == b and type(a) == type(b)):
        return out
    out.append((path, a, b))
    return out
