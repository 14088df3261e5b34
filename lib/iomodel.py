"""Models of the TOUGH input writer and reader extracted from the source.

The writer is interpreted with an unknown parameter dictionary in which every
top-level parameter is present; what reaches file.write() is recorded as a
sequence of text lines and fixed-width records.  The reader is interpreted with
an unknown file in which only the block headers (those the writer emits) are
known; each decoded field is a term slot(record, i).
"""
import re

from engine import Ctx, Interp
from repo import Broken
from values import (ABSENT, FALSE, NONE, UNBOUND, Bound, DictC, Ext, InstC, K, ListC, Ref, T, Tup, Val, gamma, pos, walk)

WRITE = "toughio._io.input.tough._write.write"
READ = "toughio._io.input.tough._read.read"
HEADER = re.compile(r"^([A-Z+]{3,5}) *-{3,}")


def new_ctx(I, module="toughio"):
    fr = Ref("frame")
    I.write(fr.id, {})
    I.fparent[fr.id] = None
    I.ctx = Ctx(I.repo.modules[module], fr, "<check>")


def fn_quals(I, name):
    """Qualified names of module-level package functions called name."""
    out = []
    for m, fr in I.modframe.items():
        v = I.heap[fr.id].get(name)
        q = getattr(v, "qual", None)
        if q and q not in out:
            out.append(q)
    return out


def arg(args, kwargs, i, name, default=NONE):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


# ---- layouts ---------------------------------------------------------------


def layouts(t, depth=0):
    """{variant: layout string} for a layout term, or None when unknown."""
    if isinstance(t, K) and isinstance(t.v, str):
        return {None: t.v}
    if isinstance(t, T):
        if t.op == "fmt":
            return layouts(t.args[0], depth + 1)
        if t.op == "get" and isinstance(t.args[0], T) and t.args[0].op == "table":
            out = {}
            for k, v in t.args[0].args[0]:
                if isinstance(k, K) and isinstance(v, K) and isinstance(v.v, str):
                    out[k.v] = v.v
            return out or None
        if t.op == "gamma" and depth < 8:
            a, b = layouts(t.args[1], depth + 1), layouts(t.args[2], depth + 1)
            if a is None:
                return b
            if b is None:
                return a
            out = dict(a)
            for k, v in b.items():
                if k in out and out[k] != v:
                    out[(k, len(out))] = v
                else:
                    out[k] = v
            return out
    return None


def tokens(layout):
    """[(start, end, kind, precision)]"""
    out = []
    pos = 0
    for tok in layout.split(","):
        kind = tok[-1]
        w, _, p = tok[:-1].partition(".")
        w = int(w)
        out.append((pos, pos + w, kind, int(p) if p else None))
        pos += w
    return out


def columns(lay, i):
    """{variant: (start, end, kind)} of slot i."""
    out = {}
    for k, s in lay.items():
        try:
            tk = tokens(s)
        except ValueError:
            continue
        if i < len(tk):
            out[k] = tk[i][:3]
    return out


def same_columns(la, i, lb, j):
    """Do slot i of layouts la and slot j of lb occupy the same columns?"""
    ca, cb = columns(la, i), columns(lb, j)
    if not ca or not cb:
        return False
    common = [k for k in ca if k in cb]
    if len(common) < min(len(la), len(lb)) or not common:
        va, vb = set(ca.values()), set(cb.values())
        return va == vb or bool(va & vb) and not common
    # label layouts: variant 0 is the layout of continuation records
    return all(ca[k][:2] == cb[k][:2] and ca[k][2].lower() == cb[k][2].lower() for k in common)


# ---- parameter provenance ------------------------------------------------------


def strip(t):
    while isinstance(t, T) and t.op in ("copy", "shallow"):
        t = t.args[0]
    return t


def keylabel(k):
    if isinstance(k, K):
        return k.v
    return "*"


CONV = {"builtins.int", "builtins.float", "builtins.str", "builtins.bool", "numpy.array", "numpy.asarray",
        "numpy.full", "numpy.float64", "builtins.list", "builtins.tuple", "builtins.abs", "numpy.ravel",
        "numpy.atleast_1d", "builtins.sorted"}
CONVM = {"upper", "lower", "strip", "rstrip", "lstrip", "tolist", "astype", "ljust", "rjust", "title", "copy"}


class Prov:
    """Paths into `root` a value comes from, with `derived` ones apart."""

    def __init__(self, root, leaf=None, interp=None):
        self.root = root
        self.leaf = leaf
        self.I = interp

    def paths(self, t, depth=0):
        """Set of (path, derived?)."""
        out = set()
        self._paths(t, out, False, depth)
        return out

    def _add(self, out, derived, ps):
        for p in ps:
            out.add((p, derived))

    def _paths(self, t, out, derived, depth):
        if depth > 40:
            return
        d = depth + 1
        if self.leaf is not None:
            l = self.leaf(t)
            if l is not None:
                out.add((l, derived))
                return
        t = strip(t)
        if t == self.root:
            out.add(((), derived))
            return
        if isinstance(t, Tup):
            for x in t.items:
                self._paths(x, out, derived, d)
            return
        if isinstance(t, Ref) and self.I is not None:
            self._paths(self.I.snap(t), out, derived, d)
            return
        if not isinstance(t, T):
            return
        op, a = t.op, t.args
        if op == "gamma":
            self._paths(a[1], out, derived, d)
            self._paths(a[2], out, derived, d)
        elif op == "get":
            base = strip(a[0])
            if isinstance(base, T) and base.op == "slice" and isinstance(a[1], K) and isinstance(a[1].v, int):
                lo = base.args[1].v if isinstance(base.args[1], K) else "*"
                k = (lo or 0) + a[1].v if lo != "*" else "*"
                for p, dv in self.paths(base.args[0], d):
                    out.add((p + (k,), dv or derived))
                return
            if isinstance(base, T) and base.op == "table":
                for _, v in base.args[0]:
                    self._paths(v, out, derived, d)
                return
            for p, dv in self.paths(base, d):
                out.add((p + (keylabel(a[1]),), dv or derived))
        elif op == "elem":
            x = strip(a[0])
            if isinstance(x, T) and x.op == "keys":
                for p, dv in self.paths(x.args[0], d):
                    out.add((p + ("#key",), dv or derived))
            elif isinstance(x, T) and x.op in ("values", "items"):
                for p, dv in self.paths(x.args[0], d):
                    out.add((p + ("*",), dv or derived))
            else:
                for p, dv in self.paths(x, d):
                    out.add((p + ("*",), dv or derived))
        elif op == "slice":
            for p, dv in self.paths(a[0], d):
                out.add((p, dv or derived))
        elif op == "call":
            name = a[0].name if isinstance(a[0], Ext) else None
            dv = derived or name not in CONV
            for x in a[1]:
                self._paths(x, out, dv, d)
            for _, x in a[2]:
                self._paths(x, out, dv, d)
        elif op == "mcall":
            self._paths(a[0], out, derived or a[1] not in CONVM, d)
            if a[1] not in CONVM:
                for x in a[2]:
                    self._paths(x, out, True, d)
        elif op in ("format", "join", "fstr", "format1", "list", "tupleof", "bin", "un"):
            dv = derived or op in ("bin",)
            for x in _vals(a):
                self._paths(x, out, dv, d)
        elif op == "truth":
            for x in _vals(a):
                self._paths(x, out, derived, d)
        elif op in ("cmp", "not", "and", "or", "isinstance"):
            for x in _vals(a):
                self._paths(x, out, True, d)
        elif op == "loopvar":
            self._paths(a[3], out, derived, d)
        elif op in ("stararg", "starargs", "idx"):
            for x in _vals(a):
                self._paths(x, out, True, d)


def _vals(a):
    for x in a:
        if isinstance(x, (T, Tup, K, Ref)):
            yield x
        elif isinstance(x, tuple):
            # list segments carry loop descriptors and gamma conditions: skip them
            if len(x) == 4 and x[0] == "gamma" and isinstance(x[1], (T, K)):
                yield from _vals(x[2:])
            elif len(x) == 4 and x[0] == "each":
                yield from _vals((x[3],))
            else:
                yield from _vals(x)


def spread(segs, n):
    """Alternatives of list contents: {position: [(value, element offset or None)]} up to n.

    A spliced or repeated part starting at position i covers every later one;
    its element for position j is then j - i.
    """
    out = {}
    positions = {0}

    def put(p, v, e):
        if p < n:
            out.setdefault(p, []).append((v, e))

    def rec(segs, starts):
        for s in segs:
            if s[0] == "item":
                for p in starts:
                    put(p, s[1], None)
                starts = {p + 1 for p in starts if p + 1 <= n}
            elif s[0] == "splice":
                new = set()
                for p in starts:
                    for j in range(p, n):
                        put(j, s[1], j - p)
                    new |= set(range(p, n + 1))
                starts = new if len(segs) > 1 else new
            elif s[0] == "gamma":
                a = rec(s[2], set(starts))
                b = rec(s[3], set(starts))
                # an optional item of a pruned list: positions keep counting
                if not s[3] or not s[2]:
                    starts = a if not s[3] else b
                else:
                    starts = a | b
            else:
                new = set()
                for p in starts:
                    for j in range(p, n):
                        for q in flat_items(s[3]):
                            put(j, q, "*")
                    new |= set(range(p, n + 1))
                starts = new
        return starts
    rec(segs, positions)
    return out


def flat_items(segs):
    for s in segs:
        if s[0] in ("item", "splice"):
            yield s[1]
        elif s[0] == "gamma":
            yield from flat_items(s[2])
            yield from flat_items(s[3])
        else:
            yield from flat_items(s[3])


class Out:
    __slots__ = ("kind", "text", "layout", "values", "multi", "pc", "where", "n", "block", "slots", "term", "eff", "blank")


class Writer:
    """What toughio.write_input(..., block=...) sends to the file, in order."""

    def __init__(self, I, mode="all", present=True):
        self.I = I
        self.mode = mode
        self.outs = []
        self.root = T("sym", "parameters")
        fn = I.lookup_path(WRITE)
        if fn is None:
            raise Broken("writer {} not found".format(WRITE))
        params = self.root
        if present:
            tab = I.lookup_path("toughio._io.input.tough._common.Parameters")
            try:
                keys = list(I.const(tab))
            except Exception:
                keys = []
            if keys:
                params = I.new_dict({K(k): T("get", self.root, K(k)) for k in keys})
        I.effects.clear()
        I.call(fn, [T("sym", "filename"), params, K(mode)], {}, None)
        self.effects = list(I.effects)
        n = 0
        for e in self.effects:
            if e.kind == "mcall" and e.data[0] in ("write", "writelines") and is_file(e.target):
                for v in e.data[1]:
                    vals = [v]
                    if e.data[0] == "writelines":
                        vals = [x for x in flat_items(v.args[0])] if isinstance(v, T) and v.op == "list" else [v]
                    for x in vals:
                        self.add(x, e, n)
                        n += 1
        cur = None
        for o in self.outs:
            if o.kind == "text" and o.text is not None:
                m = HEADER.match(o.text)
                if m:
                    cur = m.group(1)
                    o.kind = "header"
            o.block = cur
        self.prov = Prov(self.root, interp=I)

    def add(self, v, e, n, extra=()):
        if isinstance(v, T) and v.op == "gamma":
            c, p = pos(v.args[0])
            self.add(v.args[1], e, n, extra + ((c, p),))
            self.add(v.args[2], e, n, extra + ((c, not p),))
            return
        o = Out()
        o.pc, o.where, o.n, o.eff, o.term = e.pc + extra, e.where(), n, e, v
        o.text = o.layout = o.values = o.slots = None
        o.multi = o.blank = False
        o.block = None
        if isinstance(v, K) and isinstance(v.v, str):
            o.kind, o.text = "text", v.v
        elif isinstance(v, T) and v.op == "rec":
            o.kind = "rec"
            o.layout = layouts(v.args[0])
            o.values = v.args[1]
            o.multi = v.args[2] == K(True)
            o.where = v.args[3].v
            o.blank = isinstance(v.args[0], T) and v.args[0].op == "list" and not v.args[0].args[0]
        else:
            o.kind = "other"
        self.outs.append(o)

    def headers(self):
        out = []
        for o in self.outs:
            if o.kind == "header" and o.block not in out:
                out.append(o.block)
        return out

    def slots(self, o):
        """{slot index: set of (path, derived)} of a record."""
        if o.slots is not None:
            return o.slots
        n = 0
        if o.layout:
            for s in o.layout.values():
                n = max(n, len(s.split(",")))
        res = {}
        self._slots(o.values, n, o.multi, res)
        o.slots = res
        return res

    def _slots(self, v, n, multi, res, depth=0):
        v0 = strip(v)
        if isinstance(v0, T) and v0.op == "gamma" and depth < 10:
            self._slots(v0.args[1], n, multi, res, depth + 1)
            self._slots(v0.args[2], n, multi, res, depth + 1)
            return
        if isinstance(v0, Tup):
            v0 = T("list", tuple(("item", x) for x in v0.items), "tuple")
        if isinstance(v0, T) and v0.op == "list":
            alts = spread(v0.args[0], n)
            for p, vals in alts.items():
                for x, e in vals:
                    ps = self.prov.paths(x)
                    if e is None:
                        res.setdefault(p, set()).update(ps)
                    elif e == "*":
                        res.setdefault(p, set()).update(ps)
                    else:
                        res.setdefault(p, set()).update(
                            (q + (self._elem(x, e, multi),), d) for q, d in ps)
            return
        if isinstance(v0, K):
            return
        for q, d in self.prov.paths(v0):
            for j in range(n):
                res.setdefault(j, set()).add((q + (self._elem(v0, j, multi),), d))

    def _elem(self, x, e, multi):
        if multi:
            return "*"
        x = strip(x)
        if isinstance(x, T) and x.op == "slice":
            lo = x.args[1]
            if isinstance(lo, K) and (lo.v is None or isinstance(lo.v, int)):
                return (lo.v or 0) + e
            return "*"
        return e

    def block_of(self, name):
        return [o for o in self.outs if o.block == name]


def is_file(t):
    while isinstance(t, T) and t.op in ("enter",):
        t = t.args[0]
    return isinstance(t, T) and t.op in ("open", "openfile") or isinstance(t, T) and t.op == "sym"


def hook_records(I):
    """Keep fixed-width record encoding/decoding symbolic."""

    def h_rec(I, fn, args, kw, node):
        data = arg(args, kw, 0, "data")
        fmt = arg(args, kw, 1, "fmt")
        multi = I.resolve(arg(args, kw, 2, "multi", FALSE))
        where = "{}:{} in {}".format(I.ctx.module.rel, getattr(node, "lineno", 0), I.ctx.func)
        t = T("rec", I.snap(fmt), I.snap(data), multi, K(where))
        I.effect("writerec", t, (fmt, data, multi), node)
        return I.new_list([t], node=node)

    def h_fmt(I, fn, args, kw, node):
        return T("fmt", I.snap(arg(args, kw, 0, "fmt")), I.snap(arg(args, kw, 1, "ignore_types")))

    for name, h in (("write_record", h_rec), ("str2format", h_fmt)):
        for q in fn_quals(I, name):
            I.hooks[q] = h


class Reader:
    """What toughio.read_input returns, in terms of decoded fields."""

    def __init__(self, I, headers):
        self.I = I
        self.n = 0
        self.cur = None
        self.records = []
        self.marks = []
        fn = I.lookup_path(READ)
        if fn is None:
            raise Broken("reader {} not found".format(READ))

        hd = "----1----*----2----*----3----*----4----*----5----*----6----*----7----*----8\n"
        lines = [K("{:5}{}".format(x, hd)) for x in headers]
        state = {"used": False}

        def h_rd(I, fn, args, kw, node):
            line, fmt = arg(args, kw, 0, "data"), arg(args, kw, 1, "fmt")
            lay = layouts(I.snap(fmt))
            if lay is None:
                I.effect("readrec-unknown", None, None, node)
                return None
            cnt = max(len(s.split(",")) for s in lay.values() if s)
            if len(lay) > 1:
                cnt = max(len(s.split(",")) for k, s in lay.items() if k != 0 and not (isinstance(k, tuple) and k[0] == 0))
            self.n += 1
            where = "{}:{} in {}".format(I.ctx.module.rel, getattr(node, "lineno", 0), I.ctx.func)
            rd = T("rd", K(self.cur), K(self.n), I.snap(fmt), I.snap(line), K(where), I.resolve_pc() if False else NONE)
            I.effect("readrec", rd, (fmt, line), node)
            if not I.discovery:
                self.records.append((rd, lay, I.pc, where))
            self.lay[rd] = lay
            return I.new_list([T("slot", rd, i) for i in range(cnt)], node=node)

        self.lay = {}
        for q in fn_quals(I, "read_record"):
            I.hooks[q] = h_rd

        def ih(I, v, node):
            if isinstance(v, T) and v.op == "iterlines" and not state["used"]:
                state["used"] = True
                return [("item", x) for x in lines]
            return None

        def item(v):
            if isinstance(v, K) and isinstance(v.v, str) and v.v.endswith(hd):
                self.cur = v.v[:5].strip()
                if not I.discovery:
                    self.marks.append((self.cur, dict(I.heap), len(I.effects)))

        I.iter_hook, I.item_hook = ih, item
        I.effects.clear()
        self.result = I.call(fn, [T("sym", "filename"), T("sym", "label_length")], {}, None)
        I.iter_hook = I.item_hook = None
        self.scripted = state["used"]
        self.effects = list(I.effects)
        self.out = {}   # slot term -> set of (path, derived)
        self.keyterms = {}
        self.linepaths = set()
        self.collect(self.result, ())
        self.used = set()       # slots occurring in what the reader does (keys, conditions)
        for e in self.effects:
            for x in (e.target, e.data):
                for y in walk(x) if isinstance(x, Val) else [z for q in x if isinstance(q, Val) for z in walk(q)] \
                        if isinstance(x, (tuple, list)) else ():
                    if isinstance(y, T) and y.op == "slot":
                        self.used.add(y)
        self.loops = {T("looped", i): it for i, it in I.loopmap.items()}
        self.marks.append((None, dict(I.heap), len(I.effects)))
        self.block_keys = {}    # block -> {top-level key set while that block is read: value}
        if isinstance(self.result, Ref):
            for (blk, h0, _), (_, h1, _) in zip(self.marks, self.marks[1:]):
                a, b = h0.get(self.result.id), h1.get(self.result.id)
                if isinstance(a, DictC) and isinstance(b, DictC):
                    d = self.block_keys.setdefault(blk, {})
                    for k, v in b.ent.items():
                        if isinstance(k, K) and a.ent.get(k) != v:
                            d[k.v] = v
        self.text_groups = {blk: set(d) for blk, d in self.block_keys.items() if d}
        self.flag_blocks = {}
        for blk, d in self.block_keys.items():
            for k, v in d.items():
                if isinstance(v, K) and isinstance(v.v, bool):
                    self.flag_blocks.setdefault(k, {})[blk] = v.v

    def slot_paths(self):
        return self.out

    def leaf(self, t):
        if isinstance(t, T) and t.op == "slot":
            return ("@", t)
        return None

    def put(self, v, path, derived=False):
        if isinstance(v, T) and any(isinstance(x, T) and x.op == "iterlines" for x in walk(v)) \
                and not any(isinstance(x, T) and x.op == "slot" for x in walk(v)):
            self.linepaths.add(path)
        p = Prov(T("nothing"), leaf=lambda t: (t,) if isinstance(t, T) and t.op == "slot" else None, interp=self.I)
        res = set()
        # leaves
        acc = set()
        p._paths(v, acc, False, 0)
        for leaf, dv in acc:
            if leaf and isinstance(leaf[0], T) and leaf[0].op == "slot":
                self.out.setdefault(leaf[0], set()).add((path, dv or derived))

    def collect(self, v, path, depth=0):
        I = self.I
        v = I.resolve(v)
        if depth > 25 or v in (ABSENT, UNBOUND):
            return
        if isinstance(v, Ref):
            c = I.read(v.id)
            if isinstance(c, DictC):
                for k, x in c.ent.items():
                    if isinstance(k, K):
                        self.collect(x, path + (k.v,), depth + 1)
                    else:
                        self.put(k, path + ("#key",))
                        self.keyterms.setdefault(path, set()).add(k)
                        self.collect(x, path + ("*",), depth + 1)
                if c.base is not None:
                    self.collect(c.base, path, depth + 1)
            elif isinstance(c, ListC):
                self.collect_segs(c.segs, path, depth)
            return
        if isinstance(v, T):
            if v.op == "gamma":
                self.collect(v.args[1], path, depth + 1)
                self.collect(v.args[2], path, depth + 1)
                return
            if v.op == "list":
                self.collect_segs(v.args[0], path, depth)
                return
            if v.op == "dict":
                for k, x in v.args[0]:
                    if isinstance(k, K):
                        self.collect(x, path + (k.v,), depth + 1)
                    else:
                        self.put(k, path + ("#key",))
                        self.keyterms.setdefault(path, set()).add(k)
                        self.collect(x, path + ("*",), depth + 1)
                if isinstance(v.args[1], T):
                    self.collect(v.args[1], path, depth + 1)
                return
            if v.op in ("copy", "shallow"):
                self.collect(v.args[0], path, depth + 1)
                return
            if v.op == "updated":
                self.collect(v.args[0], path, depth + 1)
                self.collect(v.args[1], path, depth + 1)
                return
        if isinstance(v, Tup):
            for i, x in enumerate(v.items):
                self.collect(x, path + (i,), depth + 1)
            return
        self.put(v, path)

    def collect_segs(self, segs, path, depth):
        i = 0
        for s in segs:
            if s[0] == "item":
                self.collect(s[1], path + (i,), depth + 1)
                i = i + 1 if i != "*" else "*"
            elif s[0] == "splice":
                self.collect(s[1], path, depth + 1)
                i = "*"
            elif s[0] == "gamma":
                a, b = s[2], s[3]
                na, nb = len(a), len(b)
                for x, part in ((0, a), (1, b)):
                    j = i
                    for q in part:
                        if q[0] == "item":
                            self.collect(q[1], path + (j,), depth + 1)
                            j = j + 1 if j != "*" else "*"
                        else:
                            self.collect_segs((q,), path, depth) if j == 0 else self.collect_any((q,), path, depth)
                            j = "*"
                if i != "*":
                    flat = all(q[0] == "item" for q in a + b)
                    i = i + max(na, nb) if flat and (not na or not nb or na == nb) else "*"
            else:
                self.collect_any(s[3], path, depth)
                i = "*"

    def collect_any(self, segs, path, depth):
        for x in flat_items(segs):
            self.collect(x, path + ("*",), depth + 1)


def compatible(p, q):
    """Can paths p and q name the same parameter?  Trailing indices may be missing on one side."""
    n = min(len(p), len(q))
    for a, b in zip(p, q):
        if a == b or a == "*" or b == "*":
            if "#key" in (a, b) and a != b:
                return False
            continue
        return False
    rest = p[n:] + q[n:]
    return all(x == "*" or isinstance(x, int) for x in rest)
