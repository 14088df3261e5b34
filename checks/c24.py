"""C24: labels of cells.

The labeler is interpreted for numbers of cells that no table can hold: the
index of a cell is kept as a digit (i // d) % m of an unknown i, and big tables
of texts as one symbolic entry. A label is then a chain of texts picked by
digits; it is decided from the radices of the chain whether two cells of the
range can get the same label.
"""
import math

from values import K, T, Tup
import scen
from c17 import Obs
from origin import attempt, tree
from par import pmap
from tx import TextInterp, Unfollowed, hole, mk, pcs

RULES = {
    "L1": "labels of different cells are different",
    "L2": "labels have the length asked for, or the shortest one that is enough",
    "L3": "labels start with a letter, followed by letters or digits, and end with digits",
    "L5": "a mesh labels its own cells, with its own label length",
    "L4": "every number of cells up to the capacity of the length is accepted",
}
WHERE = "toughio/_mesh/_common.py labeler"
BIG = 600
CAP = 31850  # 26 letters, 35 x 35 letters or non-zero digits, times 10 ** (length - 3)


def top(lane):
    """The greatest value of a digit; all values up to it are taken."""
    n, d, m, post = lane.args
    t = min(m - 1, (n - 1) // d) if m else (n - 1) // d
    for op, k in post:
        t = min(t, k - 1) if op == "mod" else t // k
    return t


def value(lane, i):
    n, d, m, post = lane.args
    t = (i // d) % m if m else i // d
    for op, k in post:
        t = t % k if op == "mod" else t // k
    return t


class Labels(TextInterp):
    def __init__(self, *a, **k):
        self.tables = {}
        super().__init__(*a, **k)

    def lane(self, v):
        v = self.resolve(v)
        return v if isinstance(v, T) and v.op == "lane" else None

    def n_arange(self, args, kwargs, node):
        a = [self.resolve(x) for x in args]
        if len(a) == 1 and isinstance(a[0], K) and isinstance(a[0].v, int) and a[0].v > BIG:
            return T("lane", a[0].v, 1, 0, ())
        return super().n_arange(args, kwargs, node)

    def digit(self, v, k, mod):
        n, d, m, post = v.args
        if post or m and m % k:
            if mod and top(v) < k:
                return v
            return T("lane", n, d, m, post + (("mod" if mod else "div", k),))
        if mod:
            return T("lane", n, d, k, ())
        return T("lane", n, d * k, m // k if m else 0, ())

    def n_divmod(self, args, kwargs, node):
        v, k = self.lane(args[0]), self.resolve(args[1])
        if v is not None and isinstance(k, K) and isinstance(k.v, int) and k.v > 0:
            q, r = self.digit(v, k.v, False), self.digit(v, k.v, True)
            if q is not None:
                return Tup([q, r])
        return super().n_divmod(args, kwargs, node)

    x_divmod = n_divmod

    def n_floor_divide(self, args, kwargs, node):
        r = self.n_divmod(args, kwargs, node)
        return self.tup(r)[0] if isinstance(r, Tup) else None

    def n_mod(self, args, kwargs, node):
        r = self.n_divmod(args, kwargs, node)
        return self.tup(r)[1] if isinstance(r, Tup) else None

    n_remainder = n_mod

    @staticmethod
    def tup(t):
        return list(t.items) if hasattr(t, "items") else list(t)

    def binop(self, op, a, b, node=None):
        v, k = self.lane(a), self.resolve(b)
        if v is not None and op in ("FloorDiv", "Mod") and isinstance(k, K) and isinstance(k.v, int) and k.v > 0:
            r = self.digit(v, k.v, op == "Mod")
            if r is not None:
                return r
        return super().binop(op, a, b, node)

    def big(self, v):
        v = self.resolve(v)
        return v if isinstance(v, T) and v.op == "bigtable" else None

    def n_array(self, args, kwargs, node):
        return self.big(args[0]) or super().n_array(args, kwargs, node)

    def n_asarray(self, args, kwargs, node):
        return self.big(args[0]) or super().n_asarray(args, kwargs, node)

    def x_len(self, args, kwargs, node):
        v = self.big(args[0])
        return K(v.args[0]) if v is not None else super().x_len(args, kwargs, node)

    def getattr(self, v, name, node=None):
        w = self.big(v)
        if w is not None and name == "size":
            return K(w.args[0])
        return super().getattr(v, name, node)

    def getitem(self, base, key, node=None):
        t = self.big(base)
        if t is not None:
            r = self.some(t, self.resolve(key), node)
            if r is not None:
                return r
        k = self.lane(key)
        if k is not None:
            b = self.resolve(base)
            t = self.big(b)
            if t is not None:
                n, width = t.args[0], t.args[2]
            elif self.is_arr(b):
                flat = self.read(b.id).flat
                if not all(isinstance(x, K) and isinstance(x.v, str) for x in flat):
                    return super().getitem(base, key, node)
                n, width = len(flat), len(flat[0].v) if len({len(x.v) for x in flat}) == 1 else None
                t = T("smalltable", tuple(x.v for x in flat))
            else:
                return super().getitem(base, key, node)
            if top(k) >= n:
                self.fails("entry {} of a table of {}".format(top(k), n), node)
            return T("pick", t, k, width)
        return super().getitem(base, key, node)

    def some(self, t, k, node):
        if isinstance(k, K) and isinstance(k.v, int):
            flat = [k]
        elif self.is_arr(k):
            flat = [self.resolve(x) for x in self.read(k.id).flat]
        else:
            return None
        if not all(isinstance(x, K) and isinstance(x.v, int) for x in flat):
            return None
        if any(not -t.args[0] <= x.v < t.args[0] for x in flat):
            self.fails("an entry of a table of {}".format(t.args[0]), node)
        out = [entry(t, x.v % t.args[0]) for x in flat]
        if None in out:
            return None
        return K(out[0]) if isinstance(k, K) else self.n_array([self.new_list([K(x) for x in out])], {}, node)

    def x_zip(self, args, kwargs, node):
        a = [self.resolve(x) for x in args]
        if a and all(isinstance(x, T) and x.op == "pick" for x in a):
            return T("bigzip", *a)
        return super().x_zip(args, kwargs, node)

    def e_ListComp(self, n):
        if len(n.generators) == 1 and not n.generators[0].ifs:
            it = self.resolve(self.eval(n.generators[0].iter))
            size, v = None, None
            if isinstance(it, T) and it.op == "range":
                b = [self.resolve(x) for x in it.args]
                b = [x for x in b if x != K(None)]
                if all(isinstance(x, K) and isinstance(x.v, int) for x in b):
                    r = range(*[x.v for x in b])
                    if len(r) > BIG and r.start == 0 and r.step == 1:
                        size = len(r)
            elif isinstance(it, T) and it.op == "bigzip":
                return self.whole(n, it)
            if size:
                return self.table(n, size)
        return super().e_ListComp(n)

    e_GeneratorExp = e_ListComp

    def at(self, n, v):
        """The element of the comprehension for v."""
        g = n.generators[0]
        name = getattr(g.target, "id", None)
        if name is None:
            raise Unfollowed("target")
        fr = self.ctx.frame
        old = self.read(fr.id)
        self.write(fr.id, dict(old, **{name: v}))
        try:
            return self.resolve(self.eval(n.elt))
        finally:
            c = dict(self.read(fr.id))
            if name in old:
                c[name] = old[name]
            else:
                c.pop(name, None)
            self.write(fr.id, c)

    def table(self, n, size):
        probes = sorted({i for p in (1, 10, 100, 1000, 10000, 100000, 1000000) for i in (p - 1, p, p + 1, 7 * p + 3, size - p, size // 2 + p) if 0 <= i < size})
        got = {}
        for i in probes:
            r = self.at(n, K(i))
            if not (isinstance(r, K) and isinstance(r.v, str)):
                raise Unfollowed("table of {!r}".format(r)[:80])
            got[i] = r.v
        ws = {len(x) for x in got.values()}
        w = ws.pop() if len(ws) == 1 else None
        plain = all(x.isdigit() and int(x) == i for i, x in got.items())
        t = T("bigtable", size, tuple(sorted(got.items())), w, plain)
        return T("bigtable", size, tuple(sorted(got.items())), w, plain)

    def whole(self, n, it):
        g = n.generators[0]
        items = [mk([hole(p, "s", p.args[2], False, False)]) for p in it.args]
        fr = self.ctx.frame
        old = self.read(fr.id)
        try:
            self.assign(g.target, Tup(items))
            r = self.resolve(self.eval(n.elt))
        finally:
            self.write(fr.id, old)
        return T("bigtable", it.args[0].args[1].args[0], r, None, False)


def entry(t, i):
    """Text of entry i of a table, or None."""
    if t.op == "smalltable":
        return t.args[0][i]
    if len(t.args) > 3 and t.args[3]:
        return str(i).zfill(t.args[2]) if t.args[2] else str(i)
    return dict(t.args[1]).get(i)


def run_one(n, length):
    I = Labels()
    I.logged = True
    f = I.lookup_path("toughio._mesh._common.labeler")
    v, why = attempt(I, I.call, f, [K(n)] + ([K(length)] if length else []), {}, None)
    return I, v, why


def expected(n):
    k = 0
    while n > 3185000 * 10 ** k:
        k += 1
    return 5 + k


def case(spec):
    n, length = spec
    if n == "mesh":
        return of_mesh(length)
    o = Obs()
    label = "labels of {} cells, length {}".format(n, length)
    L = length or expected(n)
    I, v, why = run_one(n, length)
    if why is not None or I.opaque:
        stop = why is not None and not isinstance(why, str) and not I.opaque
        o.check("L4", False if stop else None, "{}: stops at {}".format(label, why.where()) if stop else "{}: {} {}".format(label, why, [str(x)[:120] for x in I.opaque[:2]]), "stop|{}".format(spec))
        return o.out
    o.check("L4", True, "", "")
    v = I.resolve(v)
    if not (isinstance(v, T) and v.op == "bigtable"):
        r = tree(I, v)
        if not isinstance(r, list) or not all(isinstance(x, str) for x in r):
            o.check("L1", None, label + ": " + str(r)[:100], "")
            return o.out
        judge(o, label, n, L, r, spec)
        return o.out
    if not isinstance(v.args[1], T) or v.args[1].op != "txt":
        o.check("L1", None, label + ": " + str(v)[:100], "")
        return o.out
    parts = []
    for p in pcs(v.args[1]):
        if isinstance(p, K):
            parts.append(p.v)
        elif p.op == "hole" and isinstance(p.args[0], T) and p.args[0].op == "pick":
            parts.append(p.args[0])
        else:
            o.check("L1", None, label + ": " + str(p)[:100], "")
            return o.out
    if v.args[0] != n:
        o.check("L2", False, "{}: {} labels are made".format(label, v.args[0]), "number|{}".format(spec))

    def text(i):
        s = ""
        for p in parts:
            if isinstance(p, str):
                s += p
                continue
            t, lane, _ = p.args
            e = entry(t, value(lane, i))
            if e is None:
                return None
            s += e
        return s
    # witnesses: cells at the turns of every digit
    picks = [p for p in parts if not isinstance(p, str)]
    radix = sorted({1} | {p.args[1].args[1] * k for p in picks for _, k in p.args[1].args[3]} | {p.args[1].args[1] for p in picks} | {p.args[1].args[1] * p.args[1].args[2] for p in picks if p.args[1].args[2]})
    near = sorted({i for d in radix for k in (0, 1, 2, 9, 10, 25, 26, 34, 35) for i in (k * d - 1, k * d, k * d + 1) if 0 <= i < n} | {n - 1, n // 2} | set(range(min(n, 50))))
    texts = {i: text(i) for i in near}
    known = {i: s for i, s in texts.items() if s is not None}
    judge(o, label, n, L, [known[i] for i in sorted(known)], spec, sorted(known))
    # proof: the digits are those of a mixed radix, and every table tells them apart
    d, ok = 1, bool(picks)
    for p in sorted(picks, key=lambda p: p.args[1].args[1]):
        t, lane, w = p.args
        N, dd, m, post = lane.args
        if post or d % dd:
            ok = False
        distinct = len(set(t.args[0])) == len(t.args[0]) if t.op == "smalltable" else t.args[3]
        ok = ok and distinct and w is not None
        d = math.lcm(d, dd * m) if m else n
    if d < n:
        ok = False
    o.check("L1", True if ok else None, "{}: not shown to be different".format(label), "")
    return o.out


def judge(o, label, n, L, labels, spec, index=None):
    seen = {}
    for k, s in enumerate(labels):
        i = index[k] if index else k
        if s in seen:
            o.check("L1", False, "{}: cells {} and {} are both called {!r}".format(label, seen[s], i, s), "same|{}".format(spec))
            break
        seen[s] = i
    else:
        o.check("L1", True, "", "")
    if not index:
        o.check("L2", len(labels) == n, "{}: {} labels are made".format(label, len(labels)), "number|{}".format(spec))
    bad = [s for s in labels if len(s) != L]
    o.check("L2", not bad, "{}: {!r} is not of length {}".format(label, bad[:1], L), "length|{}".format(spec))
    bad = [s for s in labels if not (s[:1].isalpha() and s.isalnum() and s.isascii() and s[3:].isdigit())]
    o.check("L3", not bad, "{}: {!r} is not a valid name".format(label, bad[:1]), "form|{}".format(spec))


def of_mesh(L):
    """Labels of a mesh are those of its number of cells and of its length."""
    o = Obs()
    I = Labels()
    m = scen.mesh(I)
    if L:
        I.setattr(m, "label_length", K(L), None)
    v, why = attempt(I, I.getattr, m, "labels")
    J = Labels()
    w, why2 = attempt(J, J.call, J.lookup_path("toughio._mesh._common.labeler"), [K(3), K(L)], {}, None)
    if why is not None or why2 is not None or I.opaque or J.opaque:
        o.check("L5", None, "labels of a mesh, length {}: not followed {} {}".format(L, why, I.opaque[:1]), "")
        return o.out
    v, w = tree(I, v), tree(J, w)
    o.check("L5", v == w, "labels of a mesh of 3 cells, label length {}: {} where {} is expected".format(L, v, w), "mesh|{}".format(L))
    return o.out


def specs():
    for L in (None, 5, 6, 7, 8, 9):
        yield "mesh", L
    for L in (5, 6, 7, 8, 9):
        for n in (1, 2, 10, 101, 300):
            yield n, L
        top = CAP * 10 ** (L - 3)
        for n in (10 ** (L - 3) + 601, 35 * 10 ** (L - 3) + 1, 35 * 35 * 10 ** (L - 3) + 1, top // 2, top - 1, top):
            yield n, L
    for n in (1, 7, 100, 599, 601, 3500, 122501, 3184999, 3185000, 3185001, 31850000, 31850001, 318500000, 318500001, 3185000000, 3185000001, 31850000000):
        yield n, None


def run(rep, tier):
    for r, d in RULES.items():
        rep.rule(r, d)
    todo = list(specs())
    for c, r in zip(todo, pmap(case, todo)):
        if r is None:
            rep.unknown("L1", WHERE, "{}: not followed".format(c))
            continue
        for rule, ok, msg, key in r:
            if ok is None:
                rep.unknown(rule, WHERE, str(msg)[:400])
            elif ok:
                rep.ok(rule, str(c))
            else:
                rep.bad(rule, WHERE, str(msg)[:400], "{}|{}".format(rule, key))
    rep.analysed["numbers of cells and lengths"] = len(todo)
