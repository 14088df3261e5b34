"""Array domain: arrays of known shape whose entries are abstract scalars.

NdInterp extends the evaluator with the numpy operations the package uses on
such arrays, so that index tables, permutations and the arrangement of rows can
be followed through vectorised code.  Anything not of known shape stays a term.
"""
import ast
import itertools
import math
import string

from engine import Interp, Dead
from values import (ABSENT, FALSE, NONE, TRUE, UNBOUND, DictC, Ext, InstC, K, ListC, Ref, T, Tup, Val, gamma)

MAX_FLAT = 20000


EXTK = {"string.ascii_uppercase": string.ascii_uppercase, "string.ascii_lowercase": string.ascii_lowercase,
        "string.digits": string.digits, "string.ascii_letters": string.ascii_letters, "numpy.pi": math.pi, "math.pi": math.pi,
        "numpy.newaxis": None}


class NdC:
    __slots__ = ("shape", "flat")

    def __init__(self, shape, flat):
        self.shape = tuple(shape)
        self.flat = tuple(flat)

    def __eq__(self, o):
        return isinstance(o, NdC) and self.shape == o.shape and self.flat == o.flat

    def __hash__(self):
        return hash((self.shape, self.flat))

    def rows(self):
        n = len(self.flat) // self.shape[0] if self.shape[0] else 0
        return [(self.shape[1:], self.flat[i * n:(i + 1) * n]) for i in range(self.shape[0])]


def prod(s):
    n = 1
    for x in s:
        n *= x
    return n


def numkey(v):
    """Sort key of a scalar: constants by value, terms after them by creation."""
    if isinstance(v, K) and isinstance(v.v, (int, float, bool)):
        return (0, v.v, "")
    if isinstance(v, K):
        return (1, 0, str(v.v))
    return (2, 0, repr(v))


class NdInterp(Interp):
    def resolve(self, v):
        v = Interp.resolve(self, v)
        if isinstance(v, Ext) and v.name in EXTK:
            return K(EXTK[v.name])
        if isinstance(v, Ext) and v.name in self.versions:
            return K(self.versions[v.name])
        return v

    versions = {}

    # ---- construction ---------------------------------------------------

    def nd(self, shape, flat, node=None):
        shape = tuple(shape)
        if not shape:
            return flat[0]
        return self.new("nd", NdC(shape, flat), node)

    # ---- views: arrays sharing the storage of another one ----------------------

    up = None
    down = None
    rowcache = None

    def view(self, r, base, idx):
        """r shares the storage of base: its entries are those of base at idx (a sequence, or a function giving it)."""
        r = r if isinstance(r, Ref) else None
        if r is not None and r.id != base.id and self.is_arr(r):
            if self.up is None:
                self.up, self.down = {}, {}
            self.up[r.id] = [base.id, idx]
            self.down.setdefault(base.id, []).append(r.id)

    def positions(self, id, n):
        e = self.up[id]
        if callable(e[1]):
            try:
                e[1] = e[1](self.read(e[0]).shape)
            except (ValueError, IndexError, AttributeError, TypeError):
                e[1] = None
        return e[1] if e[1] is not None and len(e[1]) == n else None

    def write(self, id, content):
        Interp.write(self, id, content)
        if type(content) is NdC and self.up is not None:
            e = self.up.get(id)
            if e is not None:
                bc = self.read(e[0])
                idx = self.positions(id, len(content.flat)) if type(bc) is NdC else None
                if idx is not None:
                    flat = list(bc.flat)
                    for i, x in zip(idx, content.flat):
                        flat[i] = x
                    if tuple(flat) != bc.flat:
                        self.write(e[0], NdC(bc.shape, flat))
            if id in self.down:
                self.push(id, content)

    def push(self, id, content):
        for v in self.down[id]:
            c = self.read(v)
            if type(c) is not NdC:
                continue
            idx = self.positions(v, len(c.flat))
            if idx is None or len(idx) and max(idx) >= len(content.flat):
                continue
            flat = tuple(content.flat[i] for i in idx)
            if flat != c.flat:
                c = NdC(c.shape, flat)
                Interp.write(self, v, c)
                if v in self.down:
                    self.push(v, c)

    def through(self, f, args, kwargs, node, pick=None):
        """Function giving the positions read by a rearranging operation."""
        def g(shape):
            n = prod(shape)
            a = self.nd(shape, [K(i) for i in range(n)])
            r = f([a] + list(args), kwargs, node)
            if pick is not None:
                r = self.concrete(r)[pick]
            return [x.v for x in self.read(r.id).flat]
        return g

    def rows_of(self, ref):
        """Rows of an array, sharing its storage."""
        c = self.read(ref.id)
        if len(c.shape) < 2:
            return [self.nd(s, f) for s, f in c.rows()]
        if self.rowcache is None:
            self.rowcache = {}
        got = self.rowcache.get(ref.id)
        if got is not None and len(got) == c.shape[0] and all(
                type(x) is NdC and x.shape == c.shape[1:] for x in (self.read(r.id) for r in got)):
            return list(got)
        n = prod(c.shape[1:])
        out = []
        for i, (s, f) in enumerate(c.rows()):
            r = self.nd(s, f)
            self.view(r, ref, range(i * n, (i + 1) * n))
            out.append(r)
        self.rowcache[ref.id] = out
        return list(out)

    def as_nd(self, v, depth=0):
        """NdC of an array-like of known shape, a scalar () NdC, or None."""
        v = self.resolve(v)
        if isinstance(v, Ref):
            c = self.read(v.id)
            if isinstance(c, NdC):
                return c
            if isinstance(c, ListC) and c.kind != "set":
                items = c.items()
                return self.stack_nd(items, depth) if items is not None else None
            if isinstance(c, InstC) and c.cls and c.cls.fields:
                return None
            return None
        if isinstance(v, Tup):
            return self.stack_nd(list(v.items), depth)
        if isinstance(v, T) and v.op == "nd":
            return NdC(v.args[0], v.args[1])
        if isinstance(v, T) and v.op == "list":
            items = ListC(v.args[0]).items()
            return self.stack_nd(items, depth) if items is not None and v.args[1] != "set" else None
        if isinstance(v, K):
            return NdC((), (v,))
        if isinstance(v, T) and self.is_scalar(v):
            return NdC((), (v,))
        return None

    def is_scalar(self, v):
        if v.op in ("coord", "scalar", "mean"):
            return True
        if v.op == "bin":
            return all(isinstance(a, K) or isinstance(a, T) and self.is_scalar(a) for a in v.args[1:])
        if v.op == "un":
            return isinstance(v.args[1], K) or self.is_scalar(v.args[1])
        if v.op == "nsum":
            return True
        if v.op in ("fn", "sel"):
            return True
        if v.op in ("gamma",):
            return all(isinstance(a, K) or isinstance(a, T) and self.is_scalar(a) for a in v.args[1:])
        if v.op in ("and", "or", "not"):
            return all(isinstance(a, K) or isinstance(a, T) and self.is_scalar(a) for a in v.args)
        if v.op == "cmp":
            return all(isinstance(a, K) or isinstance(a, T) and self.is_scalar(a) for a in v.args[1:])
        return False


    def stack_nd(self, items, depth):
        if depth > 6:
            return None
        sub = [self.as_nd(x, depth + 1) for x in items]
        if any(s is None for s in sub):
            return None
        if not sub:
            return NdC((0,), ())
        sh = sub[0].shape
        if any(s.shape != sh for s in sub):
            return None
        return NdC((len(sub),) + sh, tuple(itertools.chain.from_iterable(s.flat for s in sub)))

    def is_arr(self, v):
        return isinstance(v, Ref) and isinstance(self.read(v.id), NdC)

    doubt = 0

    def cannot_raise(self, handlers, effects):
        for h in handlers:
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            if not all(isinstance(t, ast.Name) and t.id == "KeyError" for t in ts):
                return False
        return not self.doubt and not any(e.kind in ("call", "mcall", "raise", "keyerror", "maykeyerror", "table-call", "unknown-name")
                                          for e in effects)

    # ---- overrides ---------------------------------------------------------

    def merge_content(self, c, a, b):
        if isinstance(a, NdC) and isinstance(b, NdC):
            if a.shape == b.shape:
                return NdC(a.shape, [x if x is y or x == y else gamma(c, x, y) for x, y in zip(a.flat, b.flat)])
            return a
        return super().merge_content(c, a, b)

    def deepcopy(self, v, memo):
        w = self.resolve(v)
        if isinstance(w, Ref) and self.is_arr(w):
            if w.id not in memo:
                memo[w.id] = self.new("nd", self.read(w.id))
            return memo[w.id]
        return super().deepcopy(v, memo)

    def generalise(self, id, base, c, loopid):
        if isinstance(base, NdC):
            return NdC(base.shape, [x if isinstance(c, NdC) and c.shape == base.shape and c.flat[i] == x
                                    else self.fresh("scalar") for i, x in enumerate(base.flat)])
        return super().generalise(id, base, c, loopid)

    def const(self, v, depth=0):
        w = self.resolve(v)
        if isinstance(w, Ref) and self.is_arr(w):
            return self.pylist(self.read(w.id))
        if isinstance(w, T) and w.op == "nd":
            return self.pylist(NdC(*w.args))
        return super().const(v, depth)

    def pylist(self, c):
        if not c.shape:
            return self.const(c.flat[0])
        return [self.pylist(NdC(s, f)) for s, f in c.rows()]

    def snap(self, v, depth=0):
        if isinstance(v, Ref) and self.is_arr(v):
            c = self.read(v.id)
            return T("nd", c.shape, tuple(c.flat))
        return super().snap(v, depth)

    def iter_plan(self, v, node=None, depth=0):
        w = self.resolve(v)
        if isinstance(w, T) and w.op == "nd":
            c = NdC(*w.args)
            return [("item", self.nd(s, f)) for s, f in c.rows()]
        if isinstance(w, Ref) and self.is_arr(w):
            return [("item", r) for r in self.rows_of(w)]
        return super().iter_plan(v, node, depth)

    def concrete(self, v):
        w = self.resolve(v)
        if isinstance(w, Ref) and self.is_arr(w):
            return self.rows_of(w)
        return super().concrete(v)

    def segs_of(self, v, node=None):
        w = self.resolve(v)
        if isinstance(w, Ref) and self.is_arr(w):
            return [("item", r) for r in self.rows_of(w)]
        return super().segs_of(v, node)

    def truth(self, v, node=None):
        w = self.resolve(v)
        if isinstance(w, Ref) and self.is_arr(w):
            c = self.read(w.id)
            if len(c.flat) == 1:
                return self.truth(c.flat[0], node)
            return T("truth", self.snap(w))
        return super().truth(v, node)

    def x_len(self, args, kwargs, node):
        v = self.resolve(args[0])
        if isinstance(v, T) and v.op == "nd":
            return K(v.args[0][0])
        if isinstance(v, Ref) and self.is_arr(v):
            return K(self.read(v.id).shape[0])
        return super().x_len(args, kwargs, node)

    def isinstance_(self, v, cls):
        w = self.resolve(v)
        if isinstance(w, Ref) and self.is_arr(w) and isinstance(self.resolve(cls), Ext):
            return K(self.resolve(cls).name == "numpy.ndarray")
        if isinstance(w, Ref) and isinstance(self.resolve(cls), Ext):
            c = self.read(w.id)
            if isinstance(c, InstC) and c.cls is not None and any(isinstance(b, T) and b.args[0] == self.resolve(cls).name for b in c.cls.bases):
                return TRUE
        return super().isinstance_(v, cls)

    # ---- indexing ------------------------------------------------------------

    def index(self, key, shape):
        """List of (axis index lists, keep?) per axis, or None; handles slices, ints, arrays, None."""
        keys = list(key.items) if isinstance(key, Tup) else [key]
        n_real = sum(1 for k in keys if not (k == NONE or k == K(Ellipsis)))
        if any(k == K(Ellipsis) for k in keys):
            i = [k == K(Ellipsis) for k in keys].index(True)
            keys[i:i + 1] = [T("slicekey", NONE, NONE, NONE)] * (len(shape) - n_real)
        out = []
        ax = 0
        for k in keys:
            k = self.resolve(k)
            if k == NONE:
                out.append(("new",))
                continue
            if ax >= len(shape):
                return self.beyond("{} indices for an array of shape {}".format(n_real, tuple(shape)))
            n = shape[ax]
            if isinstance(k, T) and k.op == "slicekey":
                if not all(isinstance(x, K) for x in k.args):
                    return None
                try:
                    out.append(("sl", list(range(n))[slice(*[x.v for x in k.args])]))
                except (TypeError, ValueError):
                    return None
                ax += 1
            elif isinstance(k, K) and isinstance(k.v, int) and not isinstance(k.v, bool):
                if not -n <= k.v < n:
                    return self.beyond("index {} of {} entries".format(k.v, n))
                out.append(("int", k.v % n))
                ax += 1
            else:
                a = self.as_nd(k)
                if a is None or not all(isinstance(x, K) and isinstance(x.v, (int, bool)) for x in a.flat):
                    return None
                if a.flat and all(isinstance(x.v, bool) for x in a.flat):
                    m = len(a.shape)
                    if a.shape != tuple(shape[ax:ax + m]):
                        return None
                    hits = [i for i, x in enumerate(a.flat) if x.v]
                    if m == 1:
                        out.append(("adv", (len(hits),), hits))
                    else:
                        out.append(("mask", m, hits))
                    ax += m
                else:
                    if not all(-n <= x.v < n for x in a.flat):
                        return self.beyond("index {} of {} entries".format([x.v for x in a.flat if not -n <= x.v < n][0], n))
                    out.append(("adv", a.shape, [x.v % n for x in a.flat]))
                    ax += 1
        while ax < len(shape):
            out.append(("sl", list(range(shape[ax]))))
            ax += 1
        return out

    def beyond(self, why):
        if hasattr(self, "fails"):
            self.effect("bad-index", K(why), None, None)
            raise Dead()

    def picks(self, key, shape):
        """(result shape, flat source positions) of a[key]."""
        ix = self.index(key, shape)
        if ix is None:
            return None
        strides = [prod(shape[i + 1:]) for i in range(len(shape))]
        if any(x[0] == "mask" for x in ix):
            if ix[0][0] != "mask" or any(x[0] not in ("sl",) for x in ix[1:]):
                return None
            m, hits = ix[0][1], ix[0][2]
            sub = prod(shape[m:])
            rest = ix[1:]
            if any(len(x[1]) != shape[m + i] for i, x in enumerate(rest)):
                return None
            return (len(hits),) + tuple(shape[m:]), [h * sub + j for h in hits for j in range(sub)]
        adv = [x for x in ix if x[0] == "adv"]
        # every adv index broadcast together
        bshape = ()
        if adv:
            try:
                for x in adv:
                    bshape = bcast(bshape, x[1])
            except ValueError:
                return None
        pos_adv = [i for i, x in enumerate(ix) if x[0] == "adv" or (adv and x[0] == "int")]
        contiguous = pos_adv == list(range(pos_adv[0], pos_adv[-1] + 1)) if pos_adv else True
        dims = []   # list of ("sl", list, axis) / ("adv") / ("new")
        ax = 0
        fixed = 0
        advs = []
        placed = False
        order = []
        for x in ix:
            if x[0] == "new":
                order.append(("new",))
                continue
            if x[0] == "int":
                if adv:
                    advs.append((ax, (), [x[1]]))
                    if not placed:
                        placed = True
                        order.append(("adv",))
                else:
                    fixed += x[1] * strides[ax]
            elif x[0] == "adv":
                advs.append((ax, x[1], x[2]))
                if not placed:
                    placed = True
                    order.append(("adv",))
            else:
                order.append(("sl", [j * strides[ax] for j in x[1]]))
            ax += 1
        if placed and not contiguous:
            order = [("adv",)] + [o for o in order if o[0] != "adv"]
        axes = []
        shp = []
        for o in order:
            if o[0] == "new":
                shp.append(1)
                axes.append([0])
            elif o[0] == "sl":
                shp.append(len(o[1]))
                axes.append(o[1])
            else:
                shp += list(bshape)
                offs = [0] * prod(bshape)
                for axi, s, idx in advs:
                    for j, q in enumerate(bindex(s, bshape)):
                        offs[j] += idx[q] * strides[axi]
                axes.append(offs)
        flat = [fixed]
        for a in axes:
            flat = [f + o for f in flat for o in a]
            if len(flat) > MAX_FLAT:
                return None
        return tuple(shp), flat

    def getitem(self, base, key, node=None):
        r = self.getitem1(base, key, node)
        if isinstance(r, T) and r.op == "get":
            self.doubt += 1
        return r

    def getitem1(self, base, key, node=None):
        b = self.resolve(base)
        if isinstance(b, Ext) and b.name in ("numpy.r_", "numpy.c_"):
            items = list(key.items) if isinstance(key, Tup) else [key]
            ps = [self.as_nd(x) for x in items]
            if all(p is not None for p in ps):
                ps = [NdC(p.shape or (1,), p.flat) for p in ps]
                if b.name == "numpy.r_":
                    r = self.cat(ps, 0, node)
                else:
                    r = self.cat([NdC(p.shape + (1,) if len(p.shape) == 1 else p.shape, p.flat) for p in ps], 1, node)
                if r is not None:
                    return r
        if isinstance(b, T) and b.op == "nd":
            b = self.nd(b.args[0], b.args[1], node)
        if isinstance(b, Ref) and self.is_arr(b):
            c = self.read(b.id)
            p = self.picks(self.resolve(key), c.shape)
            if p is None:
                k = self.resolve(key)
                if isinstance(k, K) and isinstance(k.v, int):
                    self.effect("bad-index", b, k, node)
                return T("get", self.snap(b), self.snap(key))
            r = self.nd(p[0], [c.flat[i] for i in p[1]], node)
            if p[0] and self.basic(key):
                self.view(r, b, p[1])
            return r
        return super().getitem(base, key, node)

    def basic(self, key):
        """Whether indexing by key gives a view."""
        k = self.resolve(key)
        for x in k.items if isinstance(k, Tup) else [k]:
            x = self.resolve(x)
            if not (isinstance(x, K) and (x.v is None or x.v is Ellipsis or isinstance(x.v, int) and not isinstance(x.v, bool))
                    or isinstance(x, T) and x.op == "slicekey"):
                return False
        return True

    def setitem(self, base, key, v, node, aug=False):
        b = self.resolve(base)
        if isinstance(b, Ref) and self.is_arr(b):
            self.effect("mutate", b, ("augitem" if aug else "setitem", key, v), node)
            c = self.read(b.id)
            p = self.picks(self.resolve(key), c.shape)
            a = self.as_nd(v)
            if p is not None and a is not None:
                try:
                    src = bindex(a.shape, p[0])
                except ValueError:
                    src = None
                if src is not None:
                    flat = list(c.flat)
                    for q, s in zip(p[1], src):
                        flat[q] = a.flat[s]
                    self.write(b.id, NdC(c.shape, flat))
                    return
            if p is not None:
                flat = list(c.flat)
                for q in p[1]:
                    flat[q] = self.fresh("scalar")
                self.write(b.id, NdC(c.shape, flat))
                return
            self.write(b.id, NdC(c.shape, [self.fresh("scalar") for _ in c.flat]))
            return
        super().setitem(base, key, v, node, aug)

    # ---- arithmetic -------------------------------------------------------------

    def scalar_op(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, K) and isinstance(b, K):
            return Interp.binop(self, op, a, b, None)
        if op == "Mult" and K(0) in (a, b):
            return K(0)
        if op == "Mult" and a in (K(1), K(1.0)):
            return b
        if op == "Mult" and b in (K(1), K(1.0)) or op == "Div" and b in (K(1), K(1.0)):
            return a
        if op == "Add" and a in (K(0), K(0.0)):
            return b
        if op in ("Add", "Sub") and b in (K(0), K(0.0)):
            return a
        if isinstance(a, T) and a.op == "gamma" and isinstance(b, K):
            return gamma(a.args[0], self.scalar_op(op, a.args[1], b), self.scalar_op(op, a.args[2], b))
        return T("bin", op, a, b)

    def elementwise(self, f, a, b, node=None):
        sh = bcast(a.shape, b.shape)
        ia, ib = bindex(a.shape, sh), bindex(b.shape, sh)
        return self.nd(sh, [f(a.flat[i], b.flat[j]) for i, j in zip(ia, ib)], node)

    def binop(self, op, a, b, node):
        a, b = self.resolve(a), self.resolve(b)
        if self.is_arr(a) or self.is_arr(b) or isinstance(a, T) and self.is_scalar(a) or isinstance(b, T) and self.is_scalar(b):
            x, y = self.as_nd(a), self.as_nd(b)
            if x is not None and y is not None:
                try:
                    return self.elementwise(lambda p, q: self.scalar_op(op, p, q), x, y, node)
                except ValueError:
                    self.effect("bad-shape", a, b, node)
            return T("bin", op, self.snap(a), self.snap(b))
        return super().binop(op, a, b, node)

    def scalar_compare(self, op, a, b, node):
        return Interp.compare(self, op, a, b, node)

    def compare(self, op, a, b, node):
        x, y = self.resolve(a), self.resolve(b)
        if op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE") and (self.is_arr(x) or self.is_arr(y)):
            p, q = self.as_nd(x), self.as_nd(y)
            if p is not None and q is not None:
                try:
                    return self.elementwise(lambda s, t: self.scalar_compare(op, s, t, node), p, q, node)
                except ValueError:
                    pass
            return T("cmp", op, self.snap(x), self.snap(y))
        if op in ("In", "NotIn") and self.is_arr(y) and isinstance(x, K):
            c = self.read(y.id)
            if all(isinstance(z, K) for z in c.flat):
                r = any(z.v == x.v for z in c.flat)
                return K(r if op == "In" else not r)
        return super().compare(op, a, b, node)

    def e_UnaryOp(self, n):
        import ast
        if not isinstance(n.op, ast.Not):
            v = self.eval(n.operand)
            if self.is_arr(v):
                c = self.read(v.id)
                op = type(n.op).__name__
                if op == "USub":
                    return self.nd(c.shape, [self.scalar_op("Mult", K(-1), x) for x in c.flat], n)
                if op == "Invert" and all(isinstance(x, K) for x in c.flat):
                    return self.nd(c.shape, [K(not x.v) if isinstance(x.v, bool) else K(~x.v) for x in c.flat], n)
                return T("un", op, self.snap(v))
        return super().e_UnaryOp(n)

    def inplace(self, op, old, v, node):
        o = self.resolve(old)
        if self.is_arr(o):
            r = self.binop(op, o, v, node)
            if self.is_arr(r) and self.read(r.id).shape == self.read(o.id).shape:
                self.effect("mutate", o, ("iop", op), node)
                self.write(o.id, self.read(r.id))
                return o
            return r
        return super().inplace(op, old, v, node)

    # ---- attributes and methods ---------------------------------------------------

    def getattr(self, base, name, node=None):
        b = self.resolve(base)
        if self.is_arr(b):
            c = self.read(b.id)
            if name == "shape":
                return Tup([K(x) for x in c.shape])
            if name == "ndim":
                return K(len(c.shape))
            if name == "size":
                return K(len(c.flat))
            if name == "T":
                r = self.transpose(c, None, node)
                self.view(r, b, self.through(self.n_transpose, [], {}, node))
                return r
            if name == "flat":
                return self.nd((len(c.flat),), c.flat, node)
            return T("attr", self.snap(b), name)
        return super().getattr(base, name, node)

    METHODS = {"sum", "mean", "min", "max", "reshape", "ravel", "flatten", "tolist", "astype", "copy", "transpose",
               "any", "all", "cumsum", "argsort", "squeeze", "repeat", "prod", "item", "argmin", "argmax", "sort", "fill"}

    def method(self, base, name, args, kwargs, node, star=()):
        b = self.resolve(base)
        if isinstance(b, T) and b.op == "nd":
            b = self.nd(b.args[0], b.args[1], node)
        if self.is_arr(b):
            c = self.read(b.id)
            if name == "tolist":
                return self.nested(c)
            if name == "fill" and args:
                self.effect("mutate", b, ("fill",) + tuple(args), node)
                self.write(b.id, NdC(c.shape, [args[0]] * len(c.flat)))
                return NONE
            if name == "sort":
                self.effect("mutate", b, ("sort",), node)
                r = self.n_sort([b] + list(args), kwargs, node)
                if r is not None and self.is_arr(r):
                    self.write(b.id, self.read(r.id))
                return NONE
            if name in self.METHODS:
                f = getattr(self, "n_" + name, None)
                if f is not None:
                    r = f([b] + list(args), kwargs, node)
                    if r is not None:
                        self.viewing(name, f, b, args, kwargs, r, node)
                        return r
            sargs = tuple(self.snap(a) for a in args)
            skw = tuple(sorted((k, self.snap(v)) for k, v in kwargs.items()))
            self.effect("mcall", b, (name, sargs, skw, tuple(args)), node)
            return T("mcall", self.snap(b), name, sargs, skw)
        return super().method(base, name, args, kwargs, node, star)

    VIEWS = {"transpose", "reshape", "ravel", "squeeze", "swapaxes", "moveaxis", "split", "array_split"}

    def viewing(self, name, f, b, args, kwargs, r, node):
        if name not in self.VIEWS:
            return
        if self.is_arr(r):
            self.view(r, b, self.through(f, args, kwargs, node))
        elif name in ("split", "array_split") and isinstance(r, Ref):
            for i, x in enumerate(self.concrete(r) or []):
                if isinstance(x, Ref):
                    self.view(x, b, self.through(f, args, kwargs, node, i))

    def nested(self, c):
        if not c.shape:
            return c.flat[0]
        return self.new_list([self.nested(NdC(s, f)) for s, f in c.rows()])

    def call_ext(self, fn, args, kwargs, node, star=()):
        if not star and fn.name in ("itertools.chain.from_iterable", "itertools.chain"):
            parts = self.concrete(args[0]) if fn.name.endswith("iterable") else list(args)
            if parts is not None:
                segs = []
                for p in parts:
                    segs += self.segs_of(p, node)
                return self.new_segs(segs, "gen", node)
        if fn.name.startswith("numpy.") and not star:
            out = self.resolve(kwargs["out"]) if "out" in kwargs else None
            if self.is_arr(out):
                r = self.resolve(self.call_ext(fn, args, {k: v for k, v in kwargs.items() if k != "out"}, node))
                self.setitem(out, K(Ellipsis), r, node)
                return out
            f = getattr(self, "n_" + fn.name[6:].replace(".", "_"), None)
            if f is not None:
                try:
                    r = f(list(args), dict(kwargs), node)
                except (ValueError, IndexError):
                    r = None
                if r is not None:
                    if fn.name[6:] in self.VIEWS and args:
                        b = self.resolve(args[0])
                        if self.is_arr(b):
                            self.viewing(fn.name[6:], f, b, list(args[1:]), dict(kwargs), r, node)
                    return r
        return super().call_ext(fn, args, kwargs, node, star)

    # ---- numpy ---------------------------------------------------------------------

    def arr(self, args, kwargs, name="a"):
        v = args[0] if args else kwargs.get(name)
        return self.as_nd(v) if v is not None else None

    def const_arg(self, args, kwargs, i, name, default=None):
        v = args[i] if len(args) > i else kwargs.get(name)
        if v is None:
            return default
        v = self.resolve(v)
        if isinstance(v, K):
            return v.v
        if isinstance(v, Tup) and all(isinstance(x, K) for x in v.items):
            return tuple(x.v for x in v.items)
        if isinstance(v, Ref):
            c = self.read(v.id)
            if isinstance(c, ListC) and c.items() is not None and all(isinstance(x, K) for x in c.items()):
                return tuple(x.v for x in c.items())
        raise ValueError

    def n_array(self, args, kwargs, node):
        a = self.arr(args, kwargs, "object")
        return self.nd(a.shape, a.flat, node) if a is not None and a.shape else (a.flat[0] if a is not None else None)

    n_copy = n_array

    def n_asarray(self, args, kwargs, node):
        if len(args) == 1 and not kwargs and self.is_arr(self.resolve(args[0])):
            return self.resolve(args[0])
        return self.n_array(args, kwargs, node)

    n_asanyarray = n_ascontiguousarray = n_asarray

    def n_atleast_1d(self, args, kwargs, node):
        if len(args) == 1 and self.is_arr(self.resolve(args[0])):
            return self.resolve(args[0])
        a = self.arr(args, kwargs)
        return None if a is None else self.nd(a.shape or (1,), a.flat, node)

    def shape_arg(self, args, kwargs, i=0):
        s = self.const_arg(args, kwargs, i, "shape")
        s = (s,) if isinstance(s, int) else tuple(s)
        if prod(s) > MAX_FLAT:
            raise ValueError
        return s

    def n_zeros(self, args, kwargs, node):
        s = self.shape_arg(args, kwargs)
        dt = self.resolve(args[1] if len(args) > 1 else kwargs.get("dtype", NONE))
        z = K(0) if isinstance(dt, Ext) and "int" in dt.name else K(0.0)
        return self.nd(s, [z] * prod(s), node)

    def n_ones(self, args, kwargs, node):
        s = self.shape_arg(args, kwargs)
        dt = self.resolve(args[1] if len(args) > 1 else kwargs.get("dtype", NONE))
        z = K(1) if isinstance(dt, Ext) and "int" in dt.name else K(1.0)
        return self.nd(s, [z] * prod(s), node)

    def n_full(self, args, kwargs, node):
        s = self.shape_arg(args, kwargs)
        v = self.as_nd(args[1] if len(args) > 1 else kwargs["fill_value"])
        if v is None:
            return None
        return self.nd(s, [v.flat[i] for i in bindex(v.shape, s)], node)

    def n_empty(self, args, kwargs, node):
        s = self.shape_arg(args, kwargs)
        return self.nd(s, [self.fresh("scalar") for _ in range(prod(s))], node)

    def n_zeros_like(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        return None if a is None else self.nd(a.shape, [K(0.0)] * len(a.flat), node)

    def n_ones_like(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        return None if a is None else self.nd(a.shape, [K(1.0)] * len(a.flat), node)

    def n_full_like(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        v = self.as_nd(args[1])
        return None if a is None or v is None else self.nd(a.shape, [v.flat[i] for i in bindex(v.shape, a.shape)], node)

    def n_arange(self, args, kwargs, node):
        if not all(isinstance(self.resolve(a), K) for a in args):
            return None
        vals = [self.resolve(a).v for a in args]
        if not all(isinstance(v, int) for v in vals):
            return None
        r = range(*vals)
        return self.nd((len(r),), [K(i) for i in r], node) if len(r) <= MAX_FLAT else None

    def axis(self, args, kwargs, i=1, default=None):
        return self.const_arg(args, kwargs, i, "axis", default)

    def parts(self, v):
        items = self.concrete(v)
        if items is None:
            return None
        out = [self.as_nd(x) for x in items]
        return None if any(x is None for x in out) else out

    def n_concatenate(self, args, kwargs, node):
        ps = self.parts(args[0])
        ax = self.axis(args, kwargs, 1, 0)
        if not ps:
            return None
        return self.cat(ps, ax, node)

    def cat(self, ps, ax, node):
        nd = len(ps[0].shape)
        if nd == 0 or any(len(p.shape) != nd for p in ps):
            return None
        ax %= nd
        for p in ps:
            if p.shape[:ax] + p.shape[ax + 1:] != ps[0].shape[:ax] + ps[0].shape[ax + 1:]:
                return None
        outer = prod(ps[0].shape[:ax])
        flat = []
        for o in range(outer):
            for p in ps:
                n = prod(p.shape[ax:])
                flat += p.flat[o * n:(o + 1) * n]
        sh = list(ps[0].shape)
        sh[ax] = sum(p.shape[ax] for p in ps)
        return self.nd(sh, flat, node)

    def n_vstack(self, args, kwargs, node):
        ps = self.parts(args[0])
        if not ps:
            return None
        return self.cat([NdC((1,) + p.shape if len(p.shape) == 1 else p.shape, p.flat) for p in ps], 0, node)

    n_row_stack = n_vstack

    def n_hstack(self, args, kwargs, node):
        ps = self.parts(args[0])
        if not ps:
            return None
        return self.cat(ps, 0 if len(ps[0].shape) == 1 else 1, node)

    def n_column_stack(self, args, kwargs, node):
        ps = self.parts(args[0])
        if not ps:
            return None
        return self.cat([NdC(p.shape + (1,) if len(p.shape) == 1 else p.shape, p.flat) for p in ps], 1, node)

    n_c_ = None

    def n_stack(self, args, kwargs, node):
        ps = self.parts(args[0])
        ax = self.axis(args, kwargs, 1, 0)
        if not ps:
            return None
        nd = len(ps[0].shape) + 1
        ax %= nd
        ps = [NdC(p.shape[:ax] + (1,) + p.shape[ax:], p.flat) for p in ps]
        return self.cat(ps, ax, node)

    def n_tile(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        reps = self.const_arg(args, kwargs, 1, "reps")
        if a is None:
            return None
        reps = (reps,) if isinstance(reps, int) else tuple(reps)
        d = max(len(reps), len(a.shape))
        reps = (1,) * (d - len(reps)) + reps
        sh = (1,) * (d - len(a.shape)) + a.shape
        cur = NdC(sh, a.flat)
        for ax, r in enumerate(reps):
            if r == 0:
                s = list(cur.shape)
                s[ax] = 0
                cur = NdC(s, ())
            elif r > 1:
                x = self.cat([cur] * r, ax, node)
                cur = self.read(x.id)
        return self.nd(cur.shape, cur.flat, node)

    def n_repeat(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        n = self.const_arg(args, kwargs, 1, "repeats")
        ax = self.axis(args, kwargs, 2)
        if a is None:
            return None
        if ax is None:
            a = NdC((len(a.flat),), a.flat)
            ax = 0
        ax %= len(a.shape)
        reps = [n] * a.shape[ax] if isinstance(n, int) else list(n)
        if len(reps) != a.shape[ax]:
            return None
        idx = [i for i, r in enumerate(reps) for _ in range(r)]
        return self.take(a, idx, ax, node)

    def take(self, a, idx, ax, node):
        outer = prod(a.shape[:ax])
        inner = prod(a.shape[ax + 1:])
        n = a.shape[ax]
        flat = []
        for o in range(outer):
            for i in idx:
                b = (o * n + i) * inner
                flat += a.flat[b:b + inner]
        return self.nd(a.shape[:ax] + (len(idx),) + a.shape[ax + 1:], flat, node)

    def n_split(self, args, kwargs, node):
        a = self.arr(args, kwargs, "ary")
        if a is None:
            return None
        v = self.resolve(args[1])
        ax = self.axis(args, kwargs, 2, 0) % len(a.shape)
        n = a.shape[ax]
        if isinstance(v, K) and isinstance(v.v, int):
            if not v.v or n % v.v:
                return None
            cuts = [n // v.v * i for i in range(1, v.v)]
        else:
            c = self.as_nd(v)
            if c is None or not all(isinstance(x, K) for x in c.flat):
                return None
            cuts = [x.v for x in c.flat]
        edges = [0] + cuts + [n]
        return self.new_list([self.take(a, list(range(n))[p:q], ax, node) for p, q in zip(edges, edges[1:])], "list", node)

    n_array_split = n_split

    def reduce(self, a, ax, f, node, keep=False):
        if ax is None:
            return f(list(a.flat))
        if isinstance(ax, tuple):
            raise ValueError
        ax %= len(a.shape)
        outer, inner, n = prod(a.shape[:ax]), prod(a.shape[ax + 1:]), a.shape[ax]
        flat = [f([a.flat[(o * n + j) * inner + i] for j in range(n)]) for o in range(outer) for i in range(inner)]
        sh = a.shape[:ax] + ((1,) if keep else ()) + a.shape[ax + 1:]
        return self.nd(sh, flat, node) if sh else flat[0]

    def add_all(self, xs):
        r = K(0)
        for x in xs:
            r = self.scalar_op("Add", r, x)
        return r

    def _red(self, f):
        def g(args, kwargs, node):
            a = self.arr(args, kwargs)
            if a is None:
                return None
            keep = bool(self.const_arg([], kwargs, 0, "keepdims", False))
            return self.reduce(a, self.axis(args, kwargs), f, node, keep)
        return g

    def n_sum(self, args, kwargs, node):
        return self._red(self.add_all)(args, kwargs, node)

    def n_prod(self, args, kwargs, node):
        def f(xs):
            r = K(1)
            for x in xs:
                r = self.scalar_op("Mult", r, x)
            return r
        return self._red(f)(args, kwargs, node)

    def n_mean(self, args, kwargs, node):
        return self._red(lambda xs: self.scalar_op("Div", self.add_all(xs), K(float(len(xs)))) if xs else K(0.0))(args, kwargs, node)

    def n_average(self, args, kwargs, node):
        if set(kwargs) - {"a", "axis", "weights"} or len(args) > 3:
            return None
        a = self.arr(args, kwargs, "a")
        w = args[2] if len(args) > 2 else kwargs.get("weights", NONE)
        if a is None:
            return None
        if self.resolve(w) == NONE:
            return self.n_mean(args[:2], {k: v for k, v in kwargs.items() if k != "weights"}, node)
        w = self.as_nd(w)
        if w is None:
            return None
        ax = self.axis(args, kwargs)
        mul = lambda x, y: self.scalar_op("Mult", x, y)
        if w.shape == a.shape:
            ws = w
        elif ax is None or isinstance(ax, tuple) or len(w.shape) != 1 or w.shape[0] != a.shape[ax]:
            if hasattr(self, "fails"):
                self.fails("average of {} numbers with {} weights".format(a.shape, w.shape), node)
            return None
        else:
            ax %= len(a.shape)
            inner = prod(a.shape[ax + 1:])
            ws = NdC(a.shape, [w.flat[i // inner % a.shape[ax]] for i in range(len(a.flat))])
        pq = NdC(a.shape, [mul(x, y) for x, y in zip(a.flat, ws.flat)])
        up, down = self.reduce(pq, ax, self.add_all, node), self.reduce(ws, ax, self.add_all, node)
        if not isinstance(up, Ref):
            return self.scalar_op("Div", up, down)
        p, q = self.as_nd(up), self.as_nd(down)
        return self.nd(p.shape, [self.scalar_op("Div", x, y) for x, y in zip(p.flat, q.flat)], node)

    def n_linalg_norm(self, args, kwargs, node):
        a = self.arr(args, kwargs, "x")
        if a is None or len(args) > 1:
            return None
        ax = self.axis([], kwargs)
        return self.reduce(a, ax, lambda xs: T("fn", "sqrt", self.add_all([self.scalar_op("Mult", x, x) for x in xs])), node,
                           bool(self.const_arg([], kwargs, 0, "keepdims", False)))

    def _map(self, name, pyf):
        def g(args, kwargs, node):
            a = self.arr(args, kwargs)
            if a is None or len(args) != 1:
                return None
            out = [K(pyf(x.v)) if isinstance(x, K) and isinstance(x.v, (int, float)) else T("fn", name, x) for x in a.flat]
            return self.nd(a.shape, out, node) if a.shape else out[0]
        return g

    def n_abs(self, args, kwargs, node):
        return self._map("abs", abs)(args, kwargs, node)

    n_absolute = n_abs

    def n_sqrt(self, args, kwargs, node):
        return self._map("sqrt", lambda x: x ** 0.5)(args, kwargs, node)

    def n_square(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        return None if a is None else self.nd(a.shape, [self.scalar_op("Mult", x, x) for x in a.flat], node)

    def _ext(self, f, name):
        def h(xs):
            if all(isinstance(x, K) for x in xs):
                return K(f(x.v for x in xs))
            return T("fn", name, *xs)
        return h

    def n_min(self, args, kwargs, node):
        return self._red(self._ext(min, "min"))(args, kwargs, node)

    def n_max(self, args, kwargs, node):
        return self._red(self._ext(max, "max"))(args, kwargs, node)

    n_amin, n_amax = n_min, n_max

    def _two(self, f, args, kwargs, node):
        if kwargs or len(args) != 2 or not any(self.is_arr(self.resolve(a)) for a in args):
            return None
        a, b = self.as_nd(args[0]), self.as_nd(args[1])
        if a is None or b is None:
            return None
        return self.elementwise(lambda x, y: f([self.resolve(x), self.resolve(y)]), a, b, node)

    def n_maximum(self, args, kwargs, node):
        return self._two(self._ext(max, "max"), args, kwargs, node)

    def n_minimum(self, args, kwargs, node):
        return self._two(self._ext(min, "min"), args, kwargs, node)

    n_fmax, n_fmin = n_maximum, n_minimum

    def n_any(self, args, kwargs, node):
        return self._red(self._ext(any, "any"))(args, kwargs, node)

    def n_all(self, args, kwargs, node):
        return self._red(self._ext(all, "all"))(args, kwargs, node)

    def n_cumsum(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        if a is None or len(a.shape) != 1:
            return None
        out, r = [], K(0)
        for x in a.flat:
            r = self.scalar_op("Add", r, x)
            out.append(r)
        return self.nd(a.shape, out, node)

    def n_diff(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        if a is None or self.const_arg(args, kwargs, 1, "n", 1) != 1:
            return None
        ax = self.axis(args, kwargs, 2, -1) % len(a.shape)
        n = a.shape[ax]
        hi = self.as_nd(self.take(a, list(range(1, n)), ax, node))
        lo = self.as_nd(self.take(a, list(range(n - 1)), ax, node))
        return self.elementwise(lambda p, q: self.scalar_op("Sub", p, q), hi, lo, node)

    ranks = {}

    def rank(self, a):
        """The order of the entries is known."""
        return a is not None and (all(isinstance(x, K) for x in a.flat) or all(x in self.ranks for x in a.flat))

    def numkey(self, v):
        return (0, self.ranks[v], "") if v in self.ranks else numkey(v)

    def n_sort(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        ax = self.axis(args, kwargs, 1, -1)
        if not self.rank(a):
            return None
        ax %= len(a.shape)
        if ax != len(a.shape) - 1:
            return None
        n = a.shape[-1]
        flat = []
        for i in range(0, len(a.flat), n or 1):
            flat += sorted(a.flat[i:i + n], key=self.numkey)
        return self.nd(a.shape, flat, node)

    def n_argsort(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        if not self.rank(a) or len(a.shape) != 1:
            return None
        return self.nd(a.shape, [K(i) for i in sorted(range(len(a.flat)), key=lambda i: self.numkey(a.flat[i]))], node)

    def n_unique(self, args, kwargs, node):
        a = self.arr(args, kwargs, "ar")
        if not self.rank(a):
            return None
        ax = self.axis([], kwargs)
        if ax not in (None, 0):
            return None
        if ax is None:
            keys = [((), (x,)) for x in a.flat]
        else:
            keys = a.rows()
        ks = [tuple(self.numkey(x) for x in f) for _, f in keys]
        uniq = sorted(set(ks))
        first = [ks.index(u) for u in uniq]
        inv = [uniq.index(k) for k in ks]
        if ax is None:
            u = self.nd((len(uniq),), [a.flat[i] for i in first], node)
        else:
            u = self.take(a, first, 0, node)
        out = [u]

        def flag(n):
            v = kwargs.get(n)
            return isinstance(v, K) and v.v
        if flag("return_index"):
            out.append(self.nd((len(first),), [K(i) for i in first], node))
        if flag("return_inverse"):
            out.append(self.nd((len(inv),), [K(i) for i in inv], node))
        if flag("return_counts"):
            out.append(self.nd((len(uniq),), [K(ks.count(u_)) for u_ in uniq], node))
        return Tup(out) if len(out) > 1 else u

    def n_ndim(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        return None if a is None else K(len(a.shape))

    def n_shape(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        return None if a is None else Tup([K(x) for x in a.shape])

    def n_size(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        return None if a is None else K(len(a.flat))

    def n_reshape(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        if a is None:
            return None
        if len(args) > 2:
            s = tuple(x.v for x in args[1:])
        else:
            s = self.const_arg(args, kwargs, 1, "newshape")
            s = (s,) if isinstance(s, int) else tuple(s)
        order = self.const_arg([], kwargs, 0, "order", "C")
        n = len(a.flat)
        if -1 in s:
            k = prod([x for x in s if x != -1])
            s = tuple(n // k if x == -1 else x for x in s)
        if prod(s) != n:
            return None
        if order == "F":
            src = self.as_nd(self.transpose(a, None, node))
            r = self.transpose(NdC(tuple(reversed(s)), src.flat), None, node)
            return r
        if order != "C":
            return None
        return self.nd(s, a.flat, node)

    def n_ravel(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        order = self.const_arg(args, kwargs, 1, "order", "C")
        if a is None:
            return None
        if order == "F":
            a = self.as_nd(self.transpose(a, None, node)) if len(a.shape) > 1 else a
        elif order != "C":
            return None
        return self.nd((len(a.flat),), a.flat, node)

    n_flatten = n_ravel

    def n_squeeze(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        return None if a is None else self.nd([x for x in a.shape if x != 1], a.flat, node)

    def transpose(self, c, axes, node):
        d = len(c.shape)
        axes = tuple(reversed(range(d))) if axes is None else tuple(axes)
        sh = [c.shape[i] for i in axes]
        st = [prod(c.shape[i + 1:]) for i in range(d)]
        flat = [c.flat[sum(ix * st[axes[k]] for k, ix in enumerate(idx))] for idx in itertools.product(*[range(s) for s in sh])]
        return self.nd(sh, flat, node)

    def n_transpose(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        if a is None:
            return None
        if len(args) > 2:
            axes = tuple(x.v for x in args[1:])
        else:
            axes = self.const_arg(args, kwargs, 1, "axes")
        return self.transpose(a, axes, node)

    def n_swapaxes(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        i, j = args[1].v, args[2].v
        ax = list(range(len(a.shape)))
        ax[i], ax[j] = ax[j], ax[i]
        return self.transpose(a, ax, node)

    def n_moveaxis(self, args, kwargs, node):
        return None

    def n_astype(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        if a is None:
            return None
        dt = self.resolve(args[1] if len(args) > 1 else kwargs.get("dtype", NONE))
        name = dt.name.split(".")[-1].rstrip("_0123456789") if isinstance(dt, Ext) else dt.v if isinstance(dt, K) else ""
        f = {"bool": bool, "int": int, "float": float}.get(name)
        out = []
        for x in a.flat:
            if f is None:
                out.append(x)
            elif isinstance(x, K) and isinstance(x.v, (int, float, bool)):
                out.append(K(f(x.v)))
            elif f is bool:
                out.append(Interp.compare(self, "NotEq", x, K(0), node))
            else:
                out.append(x)
        return self.nd(a.shape, out, node)

    def n_copy_m(self, args, kwargs, node):
        return self.n_array(args, kwargs, node)

    def n_meshgrid(self, args, kwargs, node):
        a = [self.as_nd(x) for x in args]
        if any(x is None or len(x.shape) != 1 for x in a):
            return None
        ij = self.const_arg([], kwargs, 0, "indexing", "xy") == "ij"
        sizes = [x.shape[0] for x in a]
        d = len(a)
        perm = list(range(d))
        if not ij and d > 1:
            perm[0], perm[1] = 1, 0
        sh = [sizes[p] for p in perm]
        out = []
        for k in range(d):
            axk = perm.index(k)
            out.append(self.nd(sh, [a[k].flat[idx[axk]] for idx in itertools.product(*[range(s) for s in sh])], node))
        return self.new_list(out, "list", node)

    def n_where(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        if a is None:
            return None
        if len(args) == 1:
            if len(a.shape) != 1 or not all(isinstance(x, K) for x in a.flat):
                return None
            hits = [i for i, x in enumerate(a.flat) if x.v]
            return Tup([self.nd((len(hits),), [K(i) for i in hits], node)])
        if len(args) == 3:
            x, y = self.as_nd(args[1]), self.as_nd(args[2])
            if x is None or y is None:
                return None
            sh = bcast(a.shape, bcast(x.shape, y.shape))
            return self.nd(sh, [self.pick(a.flat[c], x.flat[i], y.flat[j]) for c, i, j in zip(
                bindex(a.shape, sh), bindex(x.shape, sh), bindex(y.shape, sh))], node)
        return None

    def pick(self, c, x, y):
        if isinstance(c, K):
            return x if c.v else y
        return x if x == y else T("sel", c, x, y)

    def n_dot(self, args, kwargs, node):
        a, b = self.as_nd(args[0]), self.as_nd(args[1])
        if a is None or b is None or not a.shape or len(b.shape) not in (1, 2):
            return None
        n = a.shape[-1]
        if b.shape[0] != n:
            return None
        m = b.shape[1] if len(b.shape) == 2 else 1
        out = []
        for i in range(0, len(a.flat), n):
            for j in range(m):
                out.append(self.add_all([self.scalar_op("Mult", a.flat[i + k], b.flat[k * m + j]) for k in range(n)]))
        sh = a.shape[:-1] + b.shape[1:]
        return self.nd(sh, out, node) if sh else out[0]

    n_matmul = n_dot

    def _logic(self, op):
        def g(args, kwargs, node):
            a, b = self.as_nd(args[0]), self.as_nd(args[1])
            if a is None or b is None:
                return None

            def f(p, q):
                if isinstance(p, K) and isinstance(q, K):
                    return K(bool(p.v and q.v) if op == "and" else bool(p.v or q.v))
                for x, y in ((p, q), (q, p)):
                    if isinstance(x, K):
                        return y if bool(x.v) == (op == "and") else K(bool(x.v))
                return T(op, p, q)
            return self.elementwise(f, a, b, node)
        return g

    def n_logical_and(self, args, kwargs, node):
        return self._logic("and")(args, kwargs, node)

    def n_logical_or(self, args, kwargs, node):
        return self._logic("or")(args, kwargs, node)

    def n_logical_not(self, args, kwargs, node):
        a = self.arr(args, kwargs)
        if a is None:
            return None
        return self.nd(a.shape, [K(not x.v) if isinstance(x, K) else T("not", x) for x in a.flat], node)

    def n_digitize(self, args, kwargs, node):
        x, b = self.as_nd(args[0]), self.as_nd(args[1])
        if x is None or b is None or not all(isinstance(v, K) for v in x.flat + b.flat):
            return None
        right = self.const_arg(args, kwargs, 2, "right", False)
        out = [K(sum(1 for v in b.flat if (v.v < q.v if right else v.v <= q.v))) for q in x.flat]
        return self.nd(x.shape, out, node) if x.shape else out[0]

    def n_searchsorted(self, args, kwargs, node):
        b, x = self.as_nd(args[0]), self.as_nd(args[1])
        if x is None or b is None or not all(isinstance(v, K) for v in x.flat + b.flat):
            return None
        right = self.const_arg(args, kwargs, 2, "side", "left") == "right"
        out = [K(sum(1 for v in b.flat if (v.v <= q.v if right else v.v < q.v))) for q in x.flat]
        return self.nd(x.shape, out, node) if x.shape else out[0]

    def n_ravel_multi_index(self, args, kwargs, node):
        parts = self.concrete(args[0])
        dims = self.const_arg(args, kwargs, 1, "dims")
        order = self.const_arg([], kwargs, 0, "order", "C")
        if parts is None:
            return None
        ps = [self.as_nd(p) for p in parts]
        if any(p is None for p in ps) or len(ps) != len(dims):
            return None
        st = []
        for i in range(len(dims)):
            st.append(prod(dims[i + 1:]) if order == "C" else prod(dims[:i]))
        r = None
        for p, q in zip(ps, st):
            t = NdC(p.shape, [self.scalar_op("Mult", x, K(q)) for x in p.flat])
            r = t if r is None else NdC(bcast(r.shape, t.shape), [self.scalar_op("Add", r.flat[i], t.flat[j]) for i, j in zip(
                bindex(r.shape, bcast(r.shape, t.shape)), bindex(t.shape, bcast(r.shape, t.shape)))])
        return self.nd(r.shape, r.flat, node)

    def n_divmod(self, args, kwargs, node):
        a, b = self.as_nd(args[0]), self.as_nd(args[1])
        if a is None or b is None:
            return None
        return Tup([self.elementwise(lambda p, q: self.scalar_op("FloorDiv", p, q), a, b, node),
                    self.elementwise(lambda p, q: self.scalar_op("Mod", p, q), a, b, node)])

    def n_delete(self, args, kwargs, node):
        return None

    def n_roll(self, args, kwargs, node):
        return None

    def n_flip(self, args, kwargs, node):
        return None

    def n_copyto(self, args, kwargs, node):
        if kwargs or len(args) != 2 or not self.is_arr(self.resolve(args[0])):
            return None
        self.setitem(args[0], K(Ellipsis), args[1], node)
        return NONE

    def n_put(self, args, kwargs, node):
        b = self.resolve(args[0])
        if kwargs or len(args) != 3 or not self.is_arr(b) or len(self.read(b.id).shape) != 1:
            return None
        self.setitem(b, args[1], args[2], node)
        return NONE

    def n_add(self, args, kwargs, node):
        return self.binop("Add", args[0], args[1], node) if not kwargs else None

    def n_subtract(self, args, kwargs, node):
        return self.binop("Sub", args[0], args[1], node) if not kwargs else None

    def n_multiply(self, args, kwargs, node):
        return self.binop("Mult", args[0], args[1], node) if not kwargs else None

    def n_cross(self, args, kwargs, node):
        a, b = self.as_nd(args[0]), self.as_nd(args[1])
        if a is None or b is None or a.shape != b.shape or a.shape[-1] != 3 or kwargs:
            return None
        out = []
        s = self.scalar_op
        for i in range(0, len(a.flat), 3):
            p, q = a.flat[i:i + 3], b.flat[i:i + 3]
            for j in range(3):
                k, l = (j + 1) % 3, (j + 2) % 3
                out.append(s("Sub", s("Mult", p[k], q[l]), s("Mult", p[l], q[k])))
        return self.nd(a.shape, out, node)

    def n_einsum(self, args, kwargs, node):
        spec = self.resolve(args[0])
        ops = [self.as_nd(x) for x in args[1:]]
        if kwargs or not isinstance(spec, K) or not isinstance(spec.v, str) or any(o is None for o in ops) or not ops:
            return None
        t = spec.v.replace(" ", "")
        if "." in t:
            return None
        ins, _, out = t.partition("->")
        ins = ins.split(",")
        if "->" not in t:
            out = "".join(sorted(c for c in set("".join(ins)) if "".join(ins).count(c) == 1))
        if len(ins) != len(ops):
            return None
        size = {}
        for s, o in zip(ins, ops):
            if len(s) != len(o.shape):
                raise Dead("einsum")
            for c, n in zip(s, o.shape):
                if size.setdefault(c, n) != n:
                    raise Dead("einsum")
        summed = [c for c in size if c not in out]
        total = prod([size[c] for c in size])
        if total > MAX_FLAT:
            return None
        flat = []
        for oi in itertools.product(*[range(size[c]) for c in out]):
            e = dict(zip(out, oi))
            acc = None
            for si in itertools.product(*[range(size[c]) for c in summed]):
                e.update(zip(summed, si))
                term = None
                for s, o in zip(ins, ops):
                    k = 0
                    for c, n in zip(s, o.shape):
                        k = k * n + e[c]
                    v = o.flat[k]
                    term = v if term is None else self.scalar_op("Mult", term, v)
                acc = term if acc is None else self.scalar_op("Add", acc, term)
            flat.append(acc if acc is not None else K(0))
        return self.nd([size[c] for c in out], flat, node)

    def _arg(self, f, name):
        def h(xs):
            if all(isinstance(x, K) for x in xs):
                vals = [x.v for x in xs]
                return K(vals.index(f(vals)))
            return T("fn", name, *xs)
        return h

    def n_argmin(self, args, kwargs, node):
        return self._red(self._arg(min, "argmin"))(args, kwargs, node)

    def n_argmax(self, args, kwargs, node):
        return self._red(self._arg(max, "argmax"))(args, kwargs, node)

    def n_lexsort(self, args, kwargs, node):
        """Indices sorting by the last key first."""
        a = self.arr(args, kwargs, "keys")
        if a is None or len(a.shape) != 2 or set(kwargs) - {"keys", "axis"}:
            return None
        rows = [f for _, f in a.rows()]
        if not all(all(isinstance(x, K) for x in r) or all(x in self.ranks for x in r) for r in rows):
            return None
        n = a.shape[1]
        return self.nd((n,), [K(i) for i in sorted(range(n), key=lambda i: tuple(self.numkey(r[i]) for r in reversed(rows)))], node)


def bcast(s, t):
    n = max(len(s), len(t))
    a = (1,) * (n - len(s)) + tuple(s)
    b = (1,) * (n - len(t)) + tuple(t)
    out = []
    for x, y in zip(a, b):
        if x != y and x != 1 and y != 1:
            raise ValueError
        out.append(y if x == 1 else x)
    return tuple(out)


def bindex(s, out):
    """Flat source index of every element of the broadcast of shape s to out."""
    n = len(out)
    if len(s) > n:
        s2 = s[len(s) - n:]
        if prod(s) != prod(s2):
            raise ValueError
        s = s2
    a = (1,) * (n - len(s)) + tuple(s)
    for x, y in zip(a, out):
        if x not in (1, y):
            raise ValueError
    st = [0] * n
    acc = 1
    for i in range(n - 1, -1, -1):
        st[i] = 0 if a[i] == 1 else acc
        acc *= a[i]
    flat = [0]
    for i in range(n):
        flat = [f + j * st[i] for f in flat for j in range(out[i])]
    return flat
