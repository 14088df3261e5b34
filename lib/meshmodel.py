"""Meshes of generic geometry built in the array domain."""
from repo import Broken
from values import Cls, K, ListC, Ref, T, Tup
from engine import Dead
from geom import CELLS, maps


def coord(i, d):
    return T("coord", i, d)


def mesh(I, blocks, npts, ndim=3, **kw):
    """Mesh instance; blocks = [(cell type, rows of node numbers)], coordinates are symbols."""
    cls = I.lookup_path("toughio.Mesh")
    if not isinstance(cls, Cls):
        raise Broken("toughio.Mesh not found")
    cells = []
    for ty, rows in blocks:
        data = I.nd((len(rows), len(rows[0])), [K(x) for r in rows for x in r])
        cells.append(Tup([K(ty), data]))
    pts = I.nd((npts, ndim), [coord(i, d) for i in range(npts) for d in range(ndim)])
    return I.call(cls, [pts, I.new_list(cells)], kw, None)


def get(I, m, name):
    """(value, None) of a property, or (None, reason)."""
    n = len(I.effects)
    try:
        v = I.getattr(m, name)
    except Dead:
        return None, "always raises"
    bad = [e for e in I.effects[n:] if e.kind in ("bad-index", "keyerror", "bad-shape") and not e.pc]
    if bad:
        return None, "{} {} at {}".format(bad[0].kind, bad[0].data, bad[0].where())
    return v, None


def nested(I, v):
    """Nested Python lists of scalar terms, or None."""
    v = I.resolve(v)
    a = I.as_nd(v)
    if a is not None:
        return unflat(a.shape, list(a.flat))
    items = I.concrete(v)
    if items is None:
        return None
    out = [nested(I, x) for x in items]
    return None if any(x is None for x in out) else out


def unflat(shape, flat):
    if not shape:
        return flat[0]
    n = len(flat) // shape[0] if shape[0] else 0
    return [unflat(shape[1:], flat[i * n:(i + 1) * n]) for i in range(shape[0])]


def face_rows(I, v):
    """Per cell: list of face node tuples (padding dropped)."""
    rows = nested(I, v)
    if rows is None:
        return None
    out = []
    for cell in rows:
        fs = []
        for f in cell:
            if not all(isinstance(x, K) for x in f):
                return None
            fs.append(tuple(x.v for x in f if x.v >= 0))
        while fs and not fs[-1]:
            fs.pop()
        out.append(fs)
    return out


def environment(X):
    """Coordinate values for the symbols."""
    return {coord(i, d): float(p[d]) for i, p in enumerate(X) for d in range(len(p))}


# ---- glued cells -------------------------------------------------------------


def affine_from(src, dst):
    """Affine map sending 4 points to 4 points."""
    import itertools
    S = [[s[j] - src[0][j] for j in range(3)] for s in src[1:]]
    D = [[d[j] - dst[0][j] for j in range(3)] for d in dst[1:]]
    det = lambda m: (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                     + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    dt = det(S)

    def f(p):
        q = [p[j] - src[0][j] for j in range(3)]
        # coefficients of q in the basis S
        c = []
        for i in range(3):
            M = [list(r) for r in S]
            M[i] = q
            c.append(det(M) / dt)
        return tuple(dst[0][j] + sum(c[i] * D[i][j] for i in range(3)) for j in range(3))
    return f


class Glued:
    """Cells glued face to face, with the coordinates of one realisation."""

    def __init__(self, first, seed=1):
        from geom import maps
        self.cells = []     # (type, node numbers)
        self.X = []
        f = maps()[seed % 2]
        self._add(first, [f(p) for p in CELLS[first]])

    def _add(self, ty, pts):
        ids = []
        for p in pts:
            for i, q in enumerate(self.X):
                if sum((a - b) ** 2 for a, b in zip(p, q)) < 1e-16:
                    ids.append(i)
                    break
            else:
                self.X.append(p)
                ids.append(len(self.X) - 1)
        self.cells.append((ty, ids))

    def glue(self, k, hull_face, ty, face2):
        """Glue a cell of type ty by its reference face face2 on face hull_face of cell k."""
        from geom import centroid, cross, sub, norm
        base, ids = self.cells[k]
        h = [self.X[ids[i]] for i in hull_face]
        P = CELLS[ty]
        g = list(face2)[::-1]
        off = [i for i in range(len(P)) if i not in g][0]
        n = cross(sub(h[1], h[0]), sub(h[2], h[0]))
        c = centroid([self.X[i] for i in ids])
        if sum(a * b for a, b in zip(n, sub(h[0], c))) < 0:
            n = tuple(-x for x in n)
        L = norm(n)
        hc = centroid(h)
        t = tuple(hc[j] + 0.9 * n[j] / L + 0.07 * (h[1][j] - h[0][j]) for j in range(3))
        F = affine_from([P[g[0]], P[g[1]], P[g[2]], P[off]], [h[0], h[1], h[2], t])
        self._add(ty, [F(p) for p in P])

    def blocks(self, order=None):
        """Consecutive cells of the same type share a block."""
        out = []
        idx = order or range(len(self.cells))
        for i in idx:
            ty, ids = self.cells[i]
            if out and out[-1][0] == ty:
                out[-1][1].append(ids)
            else:
                out.append((ty, [ids]))
        return out
