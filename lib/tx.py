"""Text and file domain: texts made of literal characters and formatted numbers, and files holding them.

TextInterp follows a writer and a reader through the text between them.  A
number whose value is not known is a hole: something without blanks that is
read back as the same number.  Loops whose condition is known are unrolled.
"""
import argparse
import ast
import builtins
import json
import math
import operator
import posixpath
import re
import string
import struct

from engine import Dead
from nd import NdC, NdInterp
from values import ABSENT, FALSE, NONE, TRUE, Cls, Ext, InstC, K, ListC, DictC, NpInt, Ref, T, Tup

SPEC = re.compile(r"^(?:(.)?([<>=^]))?([-+ ])?#?(0)?(\d+)?(?:,|_)?(?:\.(\d+))?([a-zA-Z%])?$")
PCT = re.compile(r"%([-+ 0#]*)(\d+|\*)?(?:\.(\d+|\*))?([a-zA-Z%])")
NPTYPES = {
    "int64": ("numpy.int64", "numpy.integer", "numpy.signedinteger", "numpy.number", "numpy.generic", "numbers.Integral", "numbers.Number", "builtins.object"),
    "float64": ("numpy.float64", "numpy.floating", "numpy.inexact", "numpy.number", "numpy.generic", "builtins.float", "numbers.Real", "numbers.Number", "builtins.object"),
    "float32": ("numpy.float32", "numpy.floating", "numpy.inexact", "numpy.number", "numpy.generic", "numbers.Real", "numbers.Number", "builtins.object"),
    "bool_": ("numpy.bool_", "numpy.generic", "builtins.object"),
}
SCALARS = ("scalar", "coord", "mean", "bin", "fn", "sel", "un")
WS = " \t\n\r\x0b\x0c"
MAX_UNROLL = 3000
CONST_MATH = {"ceil": "ceil", "floor": "floor", "sqrt": "sqrt", "fabs": "fabs", "absolute": "fabs", "trunc": "trunc"}


ORDER = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}


class Size:
    """Class of numbers: sign, number of digits of an integer, of the exponent of a real, and its direction."""

    def __init__(self, neg=False, digits=1, exp=2, huge=False):
        self.neg, self.digits, self.exp, self.huge = neg, digits, exp, huge

    def about(self):
        """A number which compares with ordinary constants as every number of the class does."""
        x = 1e99 if self.huge else 1e-20
        return -x if self.neg else x

    def length(self, integer, prec, typ):
        """Length of the longest text of a number of the class."""
        s = int(self.neg)
        if integer and typ in (None, "d", "n"):
            return s + self.digits
        p = 6 if prec is None else int(prec)
        if typ in ("g", "G", "n"):
            p = max(p, 1)
            if integer and self.digits <= p:
                return s + self.digits
            return s + (p + 1 if p > 1 else 1) + 2 + (2 if integer else self.exp)
        if typ in ("e", "E"):
            return s + (2 + p if p else 1) + 2 + (2 if integer else self.exp)
        if typ in ("f", "F"):
            n = self.digits if integer else 1 if not self.huge else 10 ** (self.exp - 1) + 1
            return s + n + (1 + p if p else 0)
        if typ is None and prec is None:
            return s + 18 + 2 + self.exp
        return None

    def __repr__(self):
        return "{}{}".format("negative " if self.neg else "", "with {}-digit exponent".format(self.exp) if self.digits == 1 else "of {} digits".format(self.digits))


class FileC:
    __slots__ = ("name", "mode", "pos", "closed")

    def __init__(self, name, mode, pos=0, closed=False):
        self.name, self.mode, self.pos, self.closed = name, mode, pos, closed

    def __eq__(self, o):
        return isinstance(o, FileC) and (self.name, self.mode, self.pos, self.closed) == (o.name, o.mode, o.pos, o.closed)

    def __hash__(self):
        return hash((self.name, self.mode, self.pos, self.closed))


class Unfollowed(Exception):
    pass


class Exhausted(BaseException):
    """The analysis of one case is given up."""


def mk(pieces):
    out = []
    for p in pieces:
        if isinstance(p, K):
            if not p.v:
                continue
            if out and isinstance(out[-1], K):
                out[-1] = K(out[-1].v + p.v)
                continue
        out.append(p)
    if not out:
        return K("")
    if len(out) == 1 and isinstance(out[0], K):
        return out[0]
    return T("txt", tuple(out))


def is_text(v):
    return isinstance(v, K) and isinstance(v.v, str) or isinstance(v, T) and v.op == "txt"


def pcs(v):
    return list(v.args[0]) if isinstance(v, T) else ([v] if v.v else [])


def hole(val, conv, width, left, right):
    """conv: 'd' integer text, 'e' real text, 's' str() of a number."""
    return T("hole", val, conv, width, left, right)


ARRAY = set("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes
cumprod cumsum data device diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize mT max mean min nbytes
ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size
sort squeeze std strides sum swapaxes take to_device tobytes tofile tolist tostring trace transpose var view
""".split()) | set(x for x in dir(object)) | {"__len__", "__getitem__", "__setitem__", "__iter__", "__contains__", "__array__", "__next__",
                                         "__add__", "__sub__", "__mul__", "__truediv__", "__copy__", "__deepcopy__"}


class TextInterp(NdInterp):
    signs = {}          # {scalar term: "-"}
    kinds = {}
    max_recursion = 12
    nptypes = {}
    ranks = {}
    sizes = {}          # {scalar term: Size}
    real_size = None    # Size of every other real number
    int_size = None

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.signs = {}
        self.sizes = {}
        self.kinds = {}     # {scalar term: "int"}
        self.nptypes = {}   # {scalar term: "int64"...}: numbers known to be numpy scalars (the others are Python's)
        self.ranks = {}      # {scalar term: number}: order of the values of these symbols

    # ---- representatives ---------------------------------------------------

    def rep(self, h):
        """A text of the form the hole has, for questions about its first character."""
        val, conv, w, l, r = h.args
        if conv == "j":
            return "{"
        z = self.size(val)
        s = ("-" if self.signs.get(val) == "-" or z and z.neg else "") + ("1" if self.is_int(val) or conv == "d" else "1.5")
        return " " * 3 + s if l else s

    def is_int(self, v, depth=0):
        if isinstance(v, K):
            return isinstance(v.v, (int, bool))
        if not isinstance(v, T) or depth > 40:
            return False
        if self.kinds.get(v) == "int":
            return True
        if v.op == "bin" and v.args[0] in ("Add", "Sub", "Mult", "FloorDiv", "Mod"):
            return all(self.is_int(x, depth + 1) for x in v.args[1:3])
        if v.op == "sel":
            return all(self.is_int(x, depth + 1) for x in v.args[1:3])
        if v.op == "fn":
            return v.args[0] in ("argmax", "argmin", "int", "len", "floor")
        return False

    def size(self, v):
        z = self.sizes.get(v) or (self.int_size if self.is_int(v) else self.real_size)
        if z is not None and z.neg and v.op != "scalar" and self.nonneg(v):
            return Size(False, z.digits, z.exp, z.huge)
        return z

    def nonneg(self, v, depth=0):
        """Never negative, by its form."""
        v = self.resolve(v) if depth == 0 else v
        if depth > 200:
            return False
        if isinstance(v, K):
            return isinstance(v.v, (int, float)) and v.v >= 0
        if not isinstance(v, T):
            return False
        a = v.args
        if v.op == "fn":
            if a[0] in ("abs", "fabs", "sqrt", "exp", "norm"):
                return True
            return a[0] in ("max", "maximum") and any(self.nonneg(x, depth + 1) for x in a[1:])
        if v.op == "bin":
            if a[0] == "Mult" and a[1] == a[2] or a[0] == "Pow" and isinstance(a[2], K) and a[2].v in (0.5, 2, 4):
                return True
            return a[0] in ("Add", "Mult", "Div", "Pow") and all(self.nonneg(x, depth + 1) for x in a[1:3])
        if v.op == "sel":
            return all(self.nonneg(x, depth + 1) for x in a[1:3])
        return False

    def number(self, v):
        v = self.resolve(v)
        return isinstance(v, T) and v.op in SCALARS

    # ---- formatting ------------------------------------------------------------

    def fmt_one(self, v, spec, node=None):
        """Pieces of format(v, spec)."""
        v = self.resolve(v)
        if isinstance(v, Ref) and self.is_arr(v) and (self.read(v.id).shape == () or not spec and len(self.read(v.id).flat) == 1):
            v = self.read(v.id).flat[0]
        if isinstance(v, Ref) and self.is_arr(v) or self.sort(v) in ("tuple", "list", "dict"):
            if spec:
                self.fails("a container cannot be formatted with '{}'".format(spec), node)
            if not isinstance(v, Ref) or not self.is_arr(v):
                items = self.concrete(v)
                if items is not None and all(isinstance(x, K) for x in items):
                    return [K(str(tuple(x.v for x in items) if isinstance(v, Tup) else [x.v for x in items]))]
        m = SPEC.match(spec)
        if not m:
            raise Unfollowed(spec)
        fill, align, sign, zero, w, prec, typ = m.groups()
        w = int(w) if w else None
        if isinstance(v, K):
            try:
                return [K(format(v.v, spec))]
            except (ValueError, TypeError) as e:
                self.fails("{!r} cannot be formatted with '{}'".format(v.v, spec), node)
        if is_text(v):
            if typ not in (None, "s"):
                self.fails("text cannot be formatted with '{}'".format(spec), node)
            if w is None and prec is None:
                return pcs(v)
            n = self.width(v)
            if n is not None and prec is None and w is not None:
                pad = " " * max(0, w - n)
                return [K(pad)] + pcs(v) if align == ">" else pcs(v) + [K(pad)]
            raise Unfollowed("padding")
        if not self.number(v):
            raise Unfollowed(v)
        if typ == "d" and not self.is_int(v):
            self.fails("a real number cannot be formatted with '{}'".format(spec), node)
        if typ == "s":
            self.fails("a number cannot be formatted with '{}'".format(spec), node)
        z = self.size(v)
        conv = "d" if typ == "d" or self.is_int(v) and typ in (None, "g") else "e"
        if conv == "d" and typ == "g" and z and z.digits > int(prec or 6):
            conv = "e"
        L = z.length(self.is_int(v), prec, typ) if z else None
        if L is not None:
            w = max(w or 0, L)
            pad = w > L
            return [hole(v, conv, w, pad and align in (None, ">", "=", "^"), pad and align in ("<", "^"))]
        if w is None:
            return [hole(v, conv, None, False, False)]
        left = align in (None, ">", "=", "^")
        right = align in ("<", "^")
        need = 8 + int(prec) if prec and typ in ("e", "E") else None
        if need is not None and w < need - 1:
            left = right = False        # may fill the field
        return [hole(v, conv, w, left, right)]

    def fails(self, why, node):
        self.effect("certain-failure", K(why), None, node)
        raise Dead()

    def str_format(self, fmt, args, kwargs, node):
        out = []
        auto = 0
        for lit, name, spec, conv in string.Formatter().parse(fmt):
            if lit:
                out.append(K(lit))
            if name is None:
                continue
            base = re.match(r"[^.\[]*", name).group()
            if base != name:
                raise Unfollowed("attribute in format")
            if base == "":
                if auto >= len(args):
                    self.fails("format string '{}' has more fields than values".format(fmt), node)
                a = args[auto]
                auto += 1
            elif base.isdigit():
                if int(base) >= len(args):
                    self.fails("format string '{}' has more fields than values".format(fmt), node)
                a = args[int(base)]
            elif base in kwargs:
                a = kwargs[base]
            else:
                raise Unfollowed("field " + base)
            if "{" in spec:
                sub = []
                for l2, n2, s2, c2 in string.Formatter().parse(spec):
                    sub.append(l2)
                    if n2 is not None:
                        if n2 == "":
                            b = self.resolve(args[auto])
                            auto += 1
                        elif n2.isdigit():
                            b = self.resolve(args[int(n2)])
                        else:
                            b = self.resolve(kwargs[n2])
                        if not isinstance(b, K):
                            raise Unfollowed("nested field")
                        sub.append(format(b.v, s2))
                spec = "".join(sub)
            out += self.fmt_one(a, spec, node)
        return mk(out)

    def pct_format(self, fmt, args, node):
        out, pos, i = [], 0, 0
        if "*" in fmt:
            # widths among the arguments become part of the format
            new, rest, n, at = [], [], 0, 0
            for m in PCT.finditer(fmt):
                new.append(fmt[at:m.start()])
                at = m.end()
                t = m.group(0)
                if m.group(4) == "%":
                    new.append(t)
                    continue
                for g in (2, 3):
                    if m.group(g) == "*":
                        v = self.resolve(args[n]) if n < len(args) else None
                        if not isinstance(v, K) or not isinstance(v.v, int):
                            raise Unfollowed("width in format")
                        t = t.replace("*", str(v.v), 1)
                        n += 1
                new.append(t)
                rest += args[n:n + 1]
                n += 1
            fmt, args = "".join(new) + fmt[at:], rest + list(args[n:])
        if "%" in PCT.sub("", fmt):
            raise Unfollowed("format " + fmt)
        for m in PCT.finditer(fmt):
            out.append(K(fmt[pos:m.start()]))
            pos = m.end()
            flags, w, p, c = m.groups()
            if c == "%":
                out.append(K("%"))
                continue
            if i >= len(args):
                self.fails("format string has more fields than values", node)
            v = self.resolve(args[i])
            i += 1
            if isinstance(v, K):
                try:
                    out.append(K(m.group(0) % v.v))
                except (TypeError, ValueError):
                    self.fails("{!r} cannot be formatted with '{}'".format(v.v, m.group(0)), node)
                continue
            if c in "di" and self.number(v) and not self.is_int(v):
                # %d cuts a real number to an integer
                out.append(hole(T("fn", "int", v), "d", int(w) if w else None, bool(w), False))
                continue
            spec = ("<" if "-" in flags else ">" if w else "") + (w or "") + ("." + p if p else "") + ("" if c in "s" else c.replace("i", "d"))
            out += self.fmt_one(v, spec, node)
        out.append(K(fmt[pos:]))
        return mk(out)

    def width(self, v):
        n = 0
        for p in pcs(v):
            if isinstance(p, K):
                n += len(p.v)
            elif p.args[2] is None:
                return None
            else:
                n += p.args[2]
        return n

    # ---- text operations ----------------------------------------------------------

    def lstrip(self, v, chars=WS):
        ps = pcs(v)
        while ps:
            if isinstance(ps[0], K):
                s = ps[0].v.lstrip(chars)
                if s:
                    ps[0] = K(s)
                    break
                ps.pop(0)
            else:
                h = ps[0].args
                if " " in chars:
                    ps[0] = hole(h[0], h[1], h[2] if not h[3] else None, False, h[4])
                break
        return mk(ps)

    def rstrip(self, v, chars=WS):
        ps = pcs(v)
        while ps:
            if isinstance(ps[-1], K):
                s = ps[-1].v.rstrip(chars)
                if s:
                    ps[-1] = K(s)
                    break
                ps.pop()
            else:
                h = ps[-1].args
                if " " in chars:
                    ps[-1] = hole(h[0], h[1], h[2] if not h[4] else None, h[3], False)
                break
        return mk(ps)

    def split(self, v, sep, maxsplit=-1):
        out = []
        cur = []
        n = 0
        if sep is None:
            if maxsplit >= 0:
                raise Unfollowed("maxsplit")
            v = self.rstrip(self.lstrip(v))
            glued = False
            for p in pcs(v):
                if isinstance(p, K):
                    for tok in re.findall(r"\s+|\S+", p.v):
                        if tok.isspace():
                            if cur:
                                out.append(mk(cur))
                            cur = []
                        else:
                            cur.append(K(tok))
                    continue
                h = p.args
                if h[3] and cur:
                    out.append(mk(cur))
                    cur = []
                cur.append(hole(h[0], h[1], None, False, False))
                if h[4]:
                    out.append(mk(cur))
                    cur = []
            if cur:
                out.append(mk(cur))
            return out
        for p in pcs(v):
            if isinstance(p, K):
                parts = p.v.split(sep)
                for i, s in enumerate(parts):
                    if i and (maxsplit < 0 or n < maxsplit):
                        out.append(mk(cur))
                        cur = []
                        n += 1
                    elif i:
                        cur.append(K(sep))
                    cur.append(K(s))
            else:
                if any(c in "0123456789+-.eE" for c in sep):
                    raise Unfollowed("separator in number")
                cur.append(p)
        out.append(mk(cur))
        return out

    def cut(self, v, lo, hi):
        """v[lo:hi] for known positions."""
        n = self.width(v)
        ps = pcs(v)
        lo = 0 if lo is None else lo
        if lo < 0 or hi is not None and hi < 0:
            if n is None:
                # count from the end over literals
                out = list(ps)
                if lo >= 0 and hi is not None and hi < 0:
                    k = -hi
                    while k and out:
                        if not isinstance(out[-1], K):
                            raise Unfollowed("slice")
                        s = out.pop().v
                        if len(s) > k:
                            out.append(K(s[:-k]))
                            k = 0
                        else:
                            k -= len(s)
                    return self.cut(mk(out), lo, None)
                raise Unfollowed("slice")
            lo = max(0, lo + n) if lo < 0 else lo
            hi = hi + n if hi is not None and hi < 0 else hi
        out = []
        pos = 0
        for p in ps:
            if hi is not None and pos is not None and pos >= hi:
                break
            if isinstance(p, K):
                if pos is None:
                    if hi is not None:
                        raise Unfollowed("slice")
                    out.append(p)
                    continue
                a, b = max(0, lo - pos), None if hi is None else hi - pos
                out.append(K(p.v[a:b]))
                pos += len(p.v)
                continue
            w = p.args[2]
            if pos is None or pos >= lo and (hi is None or w is not None and pos + w <= hi):
                if pos is None and hi is not None:
                    raise Unfollowed("slice")
                out.append(p)
                pos = None if pos is None or w is None else pos + w
            elif w is not None and pos + w <= lo:
                pos += w
            else:
                a = max(0, lo - pos)
                b = None if hi is None else hi - pos
                keep = None if w is None and b is None else (w if b is None else b if w is None else min(b, w)) - a
                out.append(hole(T("cutoff", p.args[0]), "e", keep, p.args[3] and not a, False))
                pos = None if w is None else pos + w
        return mk(out)

    def find(self, v, sub, start=0):
        """Position of sub, -1, or None when not known."""
        pos = 0
        for p in pcs(v):
            if isinstance(p, K):
                i = p.v.find(sub, max(0, start - pos) if pos is not None else 0)
                if i >= 0:
                    return pos + i if pos is not None else None
                pos = pos + len(p.v) if pos is not None else None
            else:
                if any(c in "0123456789+-.eE" for c in sub) and len(sub) == 1:
                    return None
                pos = pos + p.args[2] if pos is not None and p.args[2] is not None else None
        return -1

    def first(self, v):
        """Representative of the beginning of a text."""
        s = ""
        for p in pcs(v):
            s += p.v if isinstance(p, K) else self.rep(p)
            if len(s.strip()) > 12:
                break
        return s

    def text_method(self, base, name, args, kwargs, node):
        args = [self.resolve(a) for a in args]

        def lit(i, d=None):
            if len(args) <= i:
                return d
            if not isinstance(args[i], K):
                raise Unfollowed("argument")
            return args[i].v
        if name == "strip":
            c = lit(0) or WS
            return self.rstrip(self.lstrip(base, c), c)
        if name == "lstrip":
            return self.lstrip(base, lit(0) or WS)
        if name == "rstrip":
            return self.rstrip(base, lit(0) or WS)
        if name == "split":
            return self.new_list(self.split(base, lit(0), lit(1, -1)), node=node)
        if name == "splitlines" and not args:
            xs = self.split(base, "\n")
            return self.new_list(xs[:-1] if xs and xs[-1] == K("") else xs, node=node)
        if name in ("upper", "lower", "title"):
            return mk([K(getattr(p.v, name)()) if isinstance(p, K) else p for p in pcs(base)])
        if name == "replace":
            w = self.resolve(args[0]) if args else None
            if isinstance(w, T) and w.op == "txt" and len(args) == 2:
                return self.replace_text(base, w, lit(1))
            a, b = lit(0), lit(1)
            if not a:
                raise Unfollowed("replace")
            ps = []
            for p in pcs(base):
                if isinstance(p, K):
                    ps.append(K(p.v.replace(a, b)))
                elif a == " " and b == "":
                    ps.append(hole(p.args[0], p.args[1], None, False, False))
                else:
                    if all(c in "0123456789+-.eE " for c in a):
                        raise Unfollowed("replace in number")
                    ps.append(p)
            return mk(ps)
        if name in ("startswith", "endswith"):
            pre = args[0]
            opts = [pre.v] if isinstance(pre, K) else [x.v for x in pre.items] if isinstance(pre, Tup) else None
            if opts is None:
                raise Unfollowed("prefix")
            ps = pcs(base)
            if name == "startswith":
                s = self.first(base)
                return K(any(s.startswith(o) for o in opts))
            if isinstance(ps[-1], K) and all(len(ps[-1].v) >= len(o) for o in opts):
                return K(any(ps[-1].v.endswith(o) for o in opts))
            if not isinstance(ps[-1], K):
                return K(any(self.rep(ps[-1]).endswith(o) for o in opts if not o[-1:].isdigit()))
            raise Unfollowed("suffix")
        if name in ("find", "index"):
            r = self.find(base, lit(0), lit(1, 0))
            if r is None:
                raise Unfollowed("position")
            if r < 0 and name == "index":
                self.fails("'{}' not found".format(lit(0)), node)
            return K(r)
        if name in ("isdigit", "isalpha", "isalnum", "isspace", "isnumeric"):
            ps = pcs(base)
            s = "".join(p.v if isinstance(p, K) else self.rep(p).strip() for p in ps)
            return K(getattr(s, name)())
        if name == "join":
            raise Unfollowed("join")
        if name == "count":
            c = lit(0)
            if any(x in "0123456789+-.eE " for x in c):
                raise Unfollowed("count")
            return K(sum(p.v.count(c) for p in pcs(base) if isinstance(p, K)))
        if name == "encode":
            return base
        raise Unfollowed(name)

    # ---- hooks into the evaluator -----------------------------------------------------

    def replace_text(self, v, old, new):
        """v.replace(old, new) for an old text with numbers in it, which occurs once."""
        P, O = pcs(v), pcs(old)
        first = next(i for i, p in enumerate(O) if not isinstance(p, K))
        at = [i for i, p in enumerate(P) if p == O[first]]
        if len(at) != 1 or at[0] < first:
            raise Unfollowed("replace")
        i = at[0] - first
        if i + len(O) > len(P) or P[i + 1:i + len(O) - 1] != O[1:-1]:
            raise Unfollowed("replace")
        head, tail = P[i], P[i + len(O) - 1]
        if len(O) == 1:
            return mk(P[:i] + [K(new)] + P[i + 1:])
        a, b = O[0], O[-1]
        if isinstance(a, K):
            if not (isinstance(head, K) and head.v.endswith(a.v)):
                raise Unfollowed("replace")
            head = K(head.v[:len(head.v) - len(a.v)])
        elif head == a:
            head = K("")
        if isinstance(b, K):
            if not (isinstance(tail, K) and tail.v.startswith(b.v)):
                raise Unfollowed("replace")
            tail = K(tail.v[len(b.v):])
        elif tail == b:
            tail = K("")
        return mk(P[:i] + [head, K(new), tail] + P[i + len(O):])

    def doubtful(self, e):
        self.opaque.append((repr(e), self.ctx.func if self.ctx else None))
        return None

    def deepcopy(self, v, memo):
        w = self.resolve(v)
        if isinstance(w, T) and (w.op in SCALARS or w.op in ("txt", "hole", "bytes")):
            return w
        return super().deepcopy(v, memo)

    def call_ext(self, fn, args, kwargs, node, star=()):
        mod, _, name = fn.name.rpartition(".")
        if not star and not kwargs and args:
            vals = [self.resolve(a) for a in args]
            if all(isinstance(v, K) for v in vals):
                f = None
                if mod in ("numpy", "math") and name in CONST_MATH:
                    f = getattr(math, CONST_MATH[name])
                elif mod == "builtins" and name in ("min", "max", "abs", "round", "divmod", "pow", "ord", "chr", "repr"):
                    f = getattr(builtins, name)
                if f is not None:
                    try:
                        r = f(*[v.v for v in vals])
                        if mod == "numpy":
                            r = float(r)
                        return Tup([K(x) for x in r]) if isinstance(r, tuple) else K(r)
                    except (ValueError, TypeError, ArithmeticError):
                        pass
        return super().call_ext(fn, args, kwargs, node, star)

    def getattr(self, base, name, node=None):
        b = self.resolve(base)
        if self.is_file(b) and name not in ("name", "mode", "closed"):
            return T("fmeth", b, K(name))
        self.known_attr(b, name, node)
        return super().getattr(base, name, node) if node is not None else super().getattr(base, name)

    def call(self, fn, args, kwargs, node, star=()):
        f = self.resolve(fn)
        if isinstance(f, T) and f.op == "fmeth":
            return self.method(f.args[0], f.args[1].v, args, kwargs, node, star)
        return super().call(fn, args, kwargs, node, star)

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.budget:
            raise Exhausted("more than {} statements".format(self.budget))
        return super().stmt(s)

    kinds = {}
    steps = 0
    budget = 400000

    def plain(self, v):
        """Comparable Python value of a known value or tuple of them; None otherwise."""
        v = self.resolve(v)
        if isinstance(v, K):
            return (v.v,)
        if v in self.ranks:
            return (self.ranks[v],)
        if isinstance(v, Tup) or isinstance(v, Ref):
            items = self.concrete(v)
            if items is None:
                return None
            xs = [self.plain(x) for x in items]
            return (tuple(x[0] for x in xs),) if all(x is not None for x in xs) else None
        return None

    def keyed(self, items, kwargs, node):
        key = kwargs.get("key")
        out = []
        for x in items:
            k = self.plain(x if key is None or self.resolve(key) == NONE else self.call(self.resolve(key), [x], {}, node))
            if k is None:
                return None
            out.append((k[0], x))
        return out

    def x_sorted(self, args, kwargs, node):
        items = self.concrete(args[0])
        rev = self.resolve(kwargs.get("reverse", FALSE))
        if items is not None and isinstance(rev, K):
            ks = self.keyed(items, kwargs, node)
            if ks is not None:
                try:
                    return self.new_list([x for _, x in sorted(ks, key=lambda p: p[0], reverse=bool(rev.v))], "list", node)
                except TypeError:
                    pass
        return super().x_sorted(args, kwargs, node)

    def x_set(self, args, kwargs, node):
        items = self.concrete(args[0]) if args else []
        if items is not None:
            out = {}
            for x in items:
                k = self.plain(x)
                if k is None:
                    break
                out.setdefault(k, x)
            else:
                return self.new_list(list(out.values()), "set", node)
        return super().x_set(args, kwargs, node)

    def keyed_minmax(self, f, args, kwargs, node):
        items = self.concrete(args[0]) if len(args) == 1 else list(args)
        if items and not set(kwargs) - {"key"}:
            ks = self.keyed(items, kwargs, node)
            if ks is not None:
                try:
                    return f(ks, key=lambda p: p[0])[1]
                except TypeError:
                    pass
        if items and len(items) > 1 and not kwargs and any(self.unlike(x, y) for x, y in zip(items, items[1:])):
            self.fails("None or text among numbers to be ordered", node)
        return None

    def x_max(self, args, kwargs, node):
        return self.keyed_minmax(max, args, kwargs, node) or super().x_max(args, kwargs, node)

    def x_min(self, args, kwargs, node):
        return self.keyed_minmax(min, args, kwargs, node) or super().x_min(args, kwargs, node)

    def dict_get(self, base, c, key, node):
        if isinstance(key, K) and c.base is None and not c.loose and all(isinstance(k, (K, Tup)) for k in c.ent):
            v = self.resolve(c.ent[key]) if key in c.ent else ABSENT
            if v is ABSENT:
                self.effect("keyerror", base, key, node)
                raise Dead()
        return super().dict_get(base, c, key, node)

    def notnone(self, v):
        return isinstance(v, T) and (v.op in ("txt", "hole", "nd") or v.op in SCALARS) or super().notnone(v)

    def isinstance_(self, v, cls):
        w, c = self.resolve(v), self.resolve(cls)
        if isinstance(w, T) and w in self.nptypes and isinstance(c, (Ext, Cls)):
            return K(getattr(c, "name", "") in NPTYPES[self.nptypes[w]])
        if isinstance(w, K) and isinstance(w.v, NpInt) and isinstance(c, (Ext, Cls)):
            return K(getattr(c, "name", "") in NPTYPES["int64"])
        if isinstance(w, T) and hasattr(c, "name") and not isinstance(c, Tup):
            if w.op == "txt":
                return K(c.name in ("builtins.str", "builtins.object"))
            if w.op in SCALARS:
                ints = ("builtins.int", "numpy.integer", "numpy.int64", "numbers.Integral", "numbers.Number", "numpy.number")
                reals = ("builtins.float", "numpy.floating", "numpy.float64", "numbers.Real", "numbers.Number", "numpy.number")
                return K(c.name in (ints if self.is_int(w) else reals))
        return super().isinstance_(v, cls)

    def const_method(self, base, name, args, kwargs, node):
        if isinstance(base, K) and isinstance(base.v, bytes) and name == "decode":
            return K(base.v.decode("utf-8"))
        if isinstance(base, K) and isinstance(base.v, str):
            try:
                if name == "format":
                    return self.str_format(base.v, [self.resolve(a) for a in args], kwargs, node)
                if name == "join" and len(args) == 1:
                    items = self.concrete(args[0])
                    if items is not None:
                        items = [self.resolve(x) for x in items]
                        if all(is_text(x) for x in items):
                            ps = []
                            for i, x in enumerate(items):
                                if i:
                                    ps.append(base)
                                ps += pcs(x)
                            return mk(ps)
            except Unfollowed as e:
                self.doubtful(e)
        return super().const_method(base, name, args, kwargs, node)

    def e_JoinedStr(self, n):
        try:
            out = []
            for v in n.values:
                p = self.eval(v)
                if not is_text(p):
                    raise Unfollowed("f-string")
                out += pcs(p)
            return mk(out)
        except Unfollowed:
            return super().e_JoinedStr(n)

    def e_FormattedValue(self, n):
        v = self.resolve(self.eval(n.value))
        spec = self.eval(n.format_spec) if n.format_spec else K("")
        if isinstance(spec, K):
            try:
                return mk(self.fmt_one(v, spec.v, n))
            except Unfollowed as e:
                self.doubtful(e)
        return T("format1", self.snap(v), spec)

    def binop(self, op, a, b, node):
        a, b = self.resolve(a), self.resolve(b)
        if op == "Add" and is_text(a) and is_text(b):
            return mk(pcs(a) + pcs(b))
        if op == "Mult" and isinstance(a, T) and a.op == "txt" and isinstance(b, K) and isinstance(b.v, int):
            return mk(pcs(a) * b.v)
        if op == "Mod" and isinstance(a, K) and isinstance(a.v, str):
            args = list(b.items) if isinstance(b, Tup) else [b]
            try:
                return self.pct_format(a.v, args, node)
            except Unfollowed as e:
                self.doubtful(e)
        if self.unlike(a, b, node) and not (op == "Mult" and any(isinstance(x, K) and isinstance(x.v, int) for x in (a, b))) and op != "Mod":
            self.fails("{} of {} and {}".format(op, self.sort(a), self.sort(b)), node)
        if self.is_arr(a) or self.is_arr(b):
            n = len(self.effects)
            r = super().binop(op, a, b, node)
            if any(e.kind == "bad-shape" for e in self.effects[n:]):
                self.fails("shapes that do not fit", node)
            return r
        return super().binop(op, a, b, node)

    def sort(self, v):
        """'None', 'text' or 'number' where that is certain."""
        v = self.resolve(v)
        if v == NONE:
            return "None"
        if is_text(v):
            return "text"
        if isinstance(v, K) and isinstance(v.v, (int, float)) or self.number(v):
            return "number"
        if isinstance(v, Tup):
            return "tuple"
        if isinstance(v, Ref):
            c = self.read(v.id)
            if isinstance(c, DictC):
                return "dict"
            if isinstance(c, ListC) and self.plain_list(v):
                return "list"
        return None

    def literal(self, v, node):
        """v is a number written in the operation itself (hence no numpy number)."""
        return node is not None and isinstance(v, K) and any(
            isinstance(x, ast.Constant) and type(x.value) is type(v.v) and x.value == v.v for x in ast.iter_child_nodes(node))

    def unlike(self, a, b, node=None):
        """Arithmetic or ordering of the two raises a TypeError."""
        p, q = self.sort(a), self.sort(b)
        box = ("list", "tuple", "dict")
        if p in box and q in ("number", "text"):
            return q == "number" and self.literal(b, node)
        if q in box and p in ("number", "text"):
            return p == "number" and self.literal(a, node)
        return p is not None and q is not None and (p != q or p == "None")

    def inplace(self, op, old, v, node):
        o, w = self.resolve(old), self.resolve(v)
        if op == "Add" and is_text(o) and is_text(w):
            return mk(pcs(o) + pcs(w))
        return super().inplace(op, old, v, node)

    def ordered(self, op, x, y):
        """Comparison decided by the order or the class of numbers."""
        if x in self.ranks and y in self.ranks and op in ORDER:
            return K(ORDER[op](self.ranks[x], self.ranks[y]))
        if op in ORDER and (self.number(x) and isinstance(y, K) or self.number(y) and isinstance(x, K)):
            t = x if self.number(x) else y
            z = self.size(t) if t.op == "scalar" else None
            c = y if isinstance(y, K) else x
            if z is not None and isinstance(c.v, (int, float)) and (c.v == 0 or 1e-9 < abs(c.v) < 1e60) and not self.is_int(x if c is y else y):
                return K(ORDER[op](z.about() if c is y else x.v, y.v if c is y else z.about()))
        return None

    def scalar_compare(self, op, a, b, node):
        return self.ordered(op, self.resolve(a), self.resolve(b)) or super().scalar_compare(op, a, b, node)

    def compare(self, op, a, b, node):
        x, y = self.resolve(a), self.resolve(b)
        r = self.ordered(op, x, y)
        if r is not None:
            return r
        if op in ORDER and op not in ("Eq", "NotEq") and self.unlike(x, y, node):
            self.fails("{} and {} cannot be ordered".format(self.sort(x), self.sort(y)), node)
        if op in ORDER and op not in ("Eq", "NotEq"):
            p, q = (self.items_of(z) for z in (x, y))
            if p is not None and q is not None and all(isinstance(z, K) for z in p + q):
                try:
                    return K(ORDER[op]([z.v for z in p], [z.v for z in q]))
                except TypeError:
                    pass
        if op in ("Eq", "NotEq"):
            for p, q in ((x, y), (y, x)):
                if isinstance(p, T) and p.op == "txt":
                    if p == q:
                        return K(op == "Eq")
                    if isinstance(q, K) and isinstance(q.v, str):
                        if self.certainly_different(p, q.v):
                            return K(op == "NotEq")
                    elif isinstance(q, K):
                        return K(op == "NotEq")
        return super().compare(op, a, b, node)

    def items_of(self, v):
        """Entries of a tuple or list."""
        if isinstance(v, Tup):
            return [self.resolve(z) for z in v.items]
        if isinstance(v, Ref) and isinstance(self.read(v.id), ListC):
            it = self.read(v.id).items()
            return None if it is None else [self.resolve(z) for z in it]
        return None

    def certainly_different(self, p, s):
        """No text of form p is s."""
        i = 0
        ps = pcs(p)
        if isinstance(ps[0], K):
            if not s.startswith(ps[0].v):
                return True
        if isinstance(ps[-1], K) and not s.endswith(ps[-1].v):
            return True
        return not re.search(r"\d", s)

    def contains(self, a, b, node):
        x, y = self.resolve(a), self.resolve(b)
        if isinstance(x, K) and isinstance(x.v, str) and isinstance(y, T) and y.op == "txt":
            if any(isinstance(p, K) and x.v in p.v for p in pcs(y)):
                return TRUE
            if not all(c in "0123456789+-.eE " for c in x.v):
                return FALSE
        if isinstance(x, T) and x.op == "txt":
            items = self.concrete(y)
            if items is None and isinstance(y, Ref):
                c = self.dict_content(y)
                if c is not None and c.base is None and not c.loose:
                    items = list(c.ent)
            if isinstance(y, K) and isinstance(y.v, str):
                s = self.first(x).strip()
                return K(s in y.v)
            if items is not None:
                rs = [self.compare("Eq", x, i, node) for i in items]
                if all(r == FALSE for r in rs):
                    return FALSE
                if any(r == TRUE for r in rs):
                    return TRUE
        if y == NONE:
            self.fails("None is searched", node)
        if isinstance(x, K) and isinstance(y, T) and y.op == "rawbytes":
            return K(x.v in y.args[0])
        if isinstance(x, K) and isinstance(x.v, bytes) and isinstance(y, T) and y.op == "bytes" and all(isinstance(f[0], K) for f in y.args[0]):
            try:
                raw = b"".join(f[0].v if isinstance(f[0].v, bytes) else struct.pack(f[1], f[0].v) for f in y.args[0])
            except struct.error:
                return super().contains(a, b, node)
            return K(x.v in raw)
        return super().contains(a, b, node)

    def truth(self, v, node=None):
        w = self.resolve(v)
        if self.is_arr(w) and len(self.read(w.id).flat) != 1:
            if not self.read(w.id).flat:
                return FALSE
            self.fails("the truth value of an array is ambiguous", node)
        if isinstance(w, T) and w.op in ("txt", "hole", "bytes", "rawbytes"):
            return TRUE
        return super().truth(v, node)

    def getitem1(self, base, key, node=None):
        b, k = self.resolve(base), self.resolve(key)
        if b == NONE and node is not None:
            self.fails("None cannot be subscripted", node)
        if isinstance(b, T) and b.op == "txt":
            if isinstance(k, K) and isinstance(k.v, int):
                if k.v == 0:
                    return K(self.first(b)[0])
                try:
                    n = self.width(b)
                    if n is not None and not -n <= k.v < n:
                        self.effect("bad-index", b, k, node)
                        raise Dead()
                    r = self.cut(b, k.v, k.v + 1 if k.v != -1 else None)
                    if isinstance(r, K):
                        return r
                    pos = 0
                    for p in pcs(b):
                        w = len(p.v) if isinstance(p, K) else p.args[2]
                        if pos == k.v and not isinstance(p, K) and p.args[3]:
                            return K(" ")
                        if w is None:
                            break
                        pos += w
                except Unfollowed:
                    pass
                ps = pcs(b)
                if k.v == -1:
                    return K((ps[-1].v if isinstance(ps[-1], K) else self.rep(ps[-1]))[-1])
        return super().getitem1(base, key, node)

    def getslice(self, base, key, node):
        b = self.resolve(base)
        if b == NONE:
            self.fails("None cannot be sliced", node)
        if isinstance(b, T) and b.op == "txt":
            lo, hi, st = [self.resolve(x) for x in key.args[:3]]
            if all(isinstance(x, K) for x in (lo, hi, st)) and st.v in (None, 1):
                try:
                    return self.cut(b, lo.v, hi.v)
                except Unfollowed as e:
                    self.doubtful(e)
        return super().getslice(base, key, node)

    def x_len(self, args, kwargs, node):
        v = self.resolve(args[0])
        if isinstance(v, K) and not isinstance(v.v, (str, bytes)):
            self.fails("{!r} has no length".format(v.v), node)
        if isinstance(v, T) and v.op == "txt":
            n = self.width(v)
            if n is not None:
                return K(n)
        if isinstance(v, Ref) and isinstance(self.read(v.id), ListC) and self.read(v.id).kind == "set":
            items = self.read(v.id).items()
            ks = [self.plain(x) for x in items] if items is not None else [None]
            if None not in ks:
                return K(len(set(ks)))
        if isinstance(v, T) and v.op == "bytes":
            return K(sum(f[2] for f in v.args[0]))
        return super().x_len(args, kwargs, node)

    def x_str(self, args, kwargs, node):
        v = self.resolve(args[0]) if args else K("")
        if is_text(v):
            return v
        if self.number(v):
            return mk([hole(v, "d" if self.is_int(v) else "e", None, False, False)])
        return super().x_str(args, kwargs, node)

    def x_repr(self, args, kwargs, node):
        return self.x_str(args, kwargs, node) if self.number(args[0]) else None

    def x_float(self, args, kwargs, node):
        v = self.resolve(args[0]) if args else K(0.0)
        if isinstance(v, Ref) and self.is_arr(v) and len(self.read(v.id).flat) == 1:
            v = self.read(v.id).flat[0]
        if isinstance(v, K):
            try:
                return K(float(v.v))
            except (ValueError, TypeError):
                self.fails("float({!r})".format(v.v), node)
        if self.number(v):
            return v
        if isinstance(v, T) and v.op == "txt":
            w = self.rstrip(self.lstrip(v))
            ps = pcs(w)
            if len(ps) == 1:
                if isinstance(ps[0].args[0], T) and ps[0].args[0].op == "cutoff":
                    self.effect("cut", ps[0].args[0], None, node)
                return ps[0].args[0]
            return self.fused(w, node, "float")
        return None

    def fused(self, w, node, what):
        """Conversion of a token made of several pieces."""
        ps = pcs(w)
        if any(isinstance(p, K) and not re.match(r"^[0-9+\-.eE]*$", p.v) for p in ps):
            self.fails("{} of text".format(what), node)
        self.effect("fused", w, None, node)
        return T("scalar", "fused", w)

    def x_int(self, args, kwargs, node):
        v = self.resolve(args[0]) if args else K(0)
        if isinstance(v, Ref) and self.is_arr(v) and len(self.read(v.id).flat) == 1:
            v = self.read(v.id).flat[0]
        if isinstance(v, K):
            try:
                return K(int(v.v))
            except (ValueError, TypeError):
                self.fails("int({!r})".format(v.v), node)
        if self.number(v):
            return v if self.is_int(v) else T("fn", "int", v)
        if isinstance(v, T) and v.op == "txt":
            w = self.rstrip(self.lstrip(v))
            ps = pcs(w)
            if len(ps) == 1:
                if isinstance(ps[0].args[0], T) and ps[0].args[0].op == "cutoff":
                    self.effect("cut", ps[0].args[0], None, node)
                    return ps[0].args[0]
                if ps[0].args[1] != "d":
                    self.fails("int() of a real number's text", node)
                return ps[0].args[0]
            return self.fused(w, node, "int")
        return None

    # ---- control -----------------------------------------------------------------

    def s_While(self, s):
        state = {"sym": False}

        def plan():
            for _ in range(MAX_UNROLL):
                c = self.cond(s.test)
                k = self.known(c)
                if k is False:
                    return
                if k is None:
                    break
                yield ("item", NONE)
            state["sym"] = True
            self.doubtful("while")
            self.loopn += 1
            yield ("loop", self.loopn, T("while", self.loopn), [("item", NONE)])

        def body(_):
            if state["sym"]:
                c = self.cond(s.test)
                k = self.known(c)
                if k is False:
                    return False
                if k is None:
                    self.assume(c, True)
            return self.block(s.body)

        return self.run_plan(plan(), body, s)

    def cannot_raise(self, handlers, effects):
        if self.doubt:
            return False
        for e in effects:
            if e.kind in ("certain-failure", "raise", "keyerror", "maykeyerror", "unknown-name", "bad-index", "bad-shape", "table-call"):
                return False
            if e.kind == "mcall" or e.kind == "call":
                return False
        return True

    def s_Try(self, s):
        """Bodies that certainly fail, and bodies that certainly do not, are followed without a choice."""
        caught = [h for h in s.handlers]
        if not caught:
            return super().s_Try(s)
        lvl = self.begin()
        n = len(self.effects)
        nexits = len(self.ctx.exits)
        pc0 = self.pc
        nop = len(self.opaque)
        ok = self.safe(lambda: self.block(s.body))
        failed = [e for e in self.effects[n:] if e.kind in ("certain-failure", "keyerror", "stop", "bad-index")]
        raised = [e for e in self.effects[n:] if e.kind == "raise"]
        exits = len(self.ctx.exits) > nexits
        delta = self.capture(lvl)
        self.rollback(lvl)
        if (ok or exits and not failed and not raised) and not failed and len(self.opaque) == nop and self.pc == pc0:
            # certainly no exception
            self.apply(delta)
            if ok and s.orelse:
                ok = self.block(s.orelse)
            if ok and s.finalbody:
                ok = self.block(s.finalbody)
            return ok
        if not ok and not exits and (failed or raised) and self.pc == pc0 or not ok and failed and len(failed) == 1 and not raised and not exits:
            last = (failed or raised)[-1]
            del self.effects[n:]
            del self.ctx.exits[nexits:]
            self.pc = pc0
            h = self.handler_for(s.handlers, last)
            if h is not None:
                self.apply(delta)
                if h.name:
                    self.bind(h.name, T("sym", "exception"))
                ok = self.block(h.body)
                if s.finalbody and ok:
                    ok = self.block(s.finalbody)
                return ok
            if s.finalbody:
                self.apply(delta)
                self.block(s.finalbody)
            self.effects.append(last)
            return False
        del self.effects[n:]
        del self.ctx.exits[nexits:]
        self.pc = pc0
        return super().s_Try(s)

    def handler_for(self, handlers, e):
        kind = {"keyerror": ("KeyError", "LookupError"), "stop": ("StopIteration",), "bad-index": ("IndexError", "LookupError"),
                "certain-failure": ("ValueError", "TypeError", "AttributeError")}.get(e.kind)
        if e.kind == "raise":
            v = e.target
            name = getattr(v, "name", None) or (getattr(v.args[0], "name", "") if isinstance(v, T) and v.args else "")
            kind = (str(name).split(".")[-1],)
        for h in handlers:
            t = h.type
            names = ["Exception"] if t is None else [getattr(x, "id", getattr(x, "attr", "")) for x in (t.elts if hasattr(t, "elts") else [t])]
            if "Exception" in names or "BaseException" in names or any(n in kind for n in names):
                return h
        return None

    # ---- files --------------------------------------------------------------------

    def content(self, name):
        return self.heap.get(("fs", name), ())

    def set_content(self, name, pieces):
        self.write(("fs", name), tuple(pieces))

    def put_text(self, name, text):
        self.set_content(name, [K(text)] if isinstance(text, str) else pcs(text))

    def is_file(self, v):
        return isinstance(v, Ref) and isinstance(self.read(v.id), FileC)

    def x_open(self, args, kwargs, node):
        name = self.resolve(args[0])
        mode = self.resolve(args[1] if len(args) > 1 else kwargs.get("mode", K("r")))
        v = super().x_open(args, kwargs, node)
        if not isinstance(name, K) or not isinstance(mode, K):
            return v
        if "w" in mode.v:
            self.set_content(name.v, ())
        elif ("fs", name.v) not in self.heap:
            self.effect("certain-failure", K("no such file: {}".format(name.v)), None, node)
            raise Dead()
        return self.new("file", FileC(name.v, mode.v), node)

    def lines_of(self, name):
        key = ("lines", name, self.content(name))
        r = getattr(self, "_lc", {}).get(key)
        if r is None:
            out = [[]]
            for p in self.content(name):
                if isinstance(p, K) and isinstance(p.v, str):
                    parts = p.v.split("\n")
                    for i, s in enumerate(parts):
                        if i:
                            out[-1].append(K("\n"))
                            out.append([])
                        if s:
                            out[-1].append(K(s))
                else:
                    out[-1].append(p)
            r = [mk(x) for x in out if x]
            self._lc = dict(getattr(self, "_lc", {}))
            self._lc[key] = r
        return r

    def readline(self, ref):
        c = self.read(ref.id)
        ls = self.lines_of(c.name)
        if c.pos >= len(ls):
            return K("")
        self.write(ref.id, FileC(c.name, c.mode, c.pos + 1, c.closed))
        return ls[c.pos]

    def append_text(self, ref, v, node):
        c = self.read(ref.id)
        v = self.resolve(v)
        if "w" not in c.mode and "a" not in c.mode and "+" not in c.mode:
            self.fails("write to a file opened for reading", node)
        if isinstance(v, T) and v.op == "bytes" or isinstance(v, K) and isinstance(v.v, bytes):
            if "b" not in c.mode:
                self.fails("bytes written to a text file", node)
            fs = v.args[0] if isinstance(v, T) else ((K(v.v), "s", len(v.v)),)
            self.set_content(c.name, self.content(c.name) + tuple(T("bfield", *f) for f in fs))
            return
        if not is_text(v):
            self.doubtful("written value {!r}".format(v)[:120])
            v = T("txt", (T("hole", T("unknown", self.snap(v)), "e", None, False, False),))
        elif "b" in c.mode:
            self.fails("text written to a binary file", node)
        self.set_content(c.name, tuple(pcs(mk(list(self.content(c.name)) + pcs(v)))))

    def file_method(self, ref, name, args, kwargs, node):
        c = self.read(ref.id)
        if name in ("write",):
            self.effect("mcall", ref, (name, tuple(self.snap(a) for a in args), (), tuple(args)), node)
            self.append_text(ref, args[0], node)
            return NONE
        if name == "writelines":
            self.effect("mcall", ref, (name, tuple(self.snap(a) for a in args), (), tuple(args)), node)
            items = self.concrete(args[0])
            if items is None and is_text(self.resolve(args[0])):
                items = [args[0]]
            if items is None:
                self.doubtful("writelines")
                return NONE
            for x in items:
                self.append_text(ref, x, node)
            return NONE
        if name == "readline":
            return self.readline(ref)
        if name == "readlines":
            out = []
            while True:
                l = self.readline(ref)
                if l == K(""):
                    return self.new_list(out, node=node)
                out.append(l)
        if name == "read":
            n = self.resolve(args[0]) if args else NONE
            if n == NONE:
                out = []
                while True:
                    l = self.readline(ref)
                    if l == K(""):
                        return mk(out)
                    out += pcs(l)
            if "b" in c.mode and isinstance(n, K):
                return self.read_bytes(ref, c, n.v, node)
            return None
        if name == "tell":
            return K(c.pos)
        if name == "seek":
            p = self.resolve(args[0])
            if isinstance(p, K):
                self.write(ref.id, FileC(c.name, c.mode, p.v, c.closed))
                return p
        if name in ("close", "flush", "__exit__"):
            if name == "close":
                self.effect("closed", ref, None, node)
            return NONE
        if name == "__enter__":
            return ref
        if name == "__next__":
            return self.x_next([ref], {}, node)
        return None

    def read_bytes(self, ref, c, n, node):
        """Next n bytes of a binary file; the position counts fields."""
        fs = self.content(c.name)
        if not all(isinstance(f, T) and f.op == "bfield" for f in fs):
            s = ""
            for f in fs:
                s += f.v if isinstance(f, K) else "1.5" if f.op == "hole" else "?"
                if len(s) > n:
                    break
            return T("rawbytes", s[:n].encode())
        out, got, i = [], 0, c.pos
        while got < n and i < len(fs):
            out.append(fs[i].args)
            got += fs[i].args[2]
            i += 1
        if got != n:
            self.effect("certain-failure", K("{} bytes are read where the file has fields of {}".format(
                n, "+".join(str(f[2]) for f in out) or "none")), None, node)
            raise Dead()
        self.write(ref.id, FileC(c.name, c.mode, i, c.closed))
        if n == 0:
            return K(b"")
        if "raw" in getattr(self, "flags", ()):
            return T("bytes", tuple(out))
        return T("bytes", tuple(out))

    # ---- JSON ----------------------------------------------------------------------------

    def item(self, v):
        """The Python number of a numpy scalar."""
        if v in self.nptypes and v.op == "scalar" and v.args[0].startswith("np:"):
            t = T("scalar", v.args[0][3:])
            if self.is_int(v):
                self.kinds[t] = "int"
            return t
        return v

    def frozen(self, v, node, keep=None, depth=0):
        """Value of a JSON text holding v; fails as json.dumps does, after asking keep (its default=)."""
        if keep is not None:
            w = self.resolve(v)
            other = isinstance(w, T) and self.nptypes.get(w, "float64") != "float64" or self.is_arr(w) or isinstance(w, K) and not (
                w.v is None or isinstance(w.v, (bool, int, float, str)) and not isinstance(w.v, NpInt))
            if isinstance(w, Ref) and isinstance(self.read(w.id), ListC) and self.read(w.id).kind in ("set", "gen", "ndarray"):
                other = True
            if other:
                if depth > 30:
                    raise Unfollowed("deep JSON")
                w = self.method(keep, "default", [w], {}, node) if isinstance(keep, Ref) else self.call(keep, [w], {}, node)
                return self.frozen(w, node, keep, depth + 1)
        v = self.resolve(v)
        if depth > 30:
            raise Unfollowed("deep JSON")
        if isinstance(v, K):
            if v.v is None or isinstance(v.v, (bool, int, float, str)) and not isinstance(v.v, NpInt):
                return v
            self.fails("{} cannot be stored in JSON".format(type(v.v).__name__), node)
        if isinstance(v, T) and v in self.nptypes and self.nptypes[v] != "float64":
            self.fails("numpy.{} cannot be stored in JSON".format(self.nptypes[v]), node)
        if isinstance(v, T) and v.op in SCALARS:
            return self.item(v)
        if isinstance(v, Tup):
            return T("jlist", tuple(self.frozen(x, node, keep, depth + 1) for x in v.items))
        if isinstance(v, Ref):
            c = self.read(v.id)
            if self.is_arr(v):
                self.fails("an array cannot be stored in JSON", node)
            if isinstance(c, DictC):
                if c.base is not None or c.loose:
                    raise Unfollowed("JSON of a dictionary of unknown keys")
                out = []
                for k, x in c.ent.items():
                    k = self.resolve(k)
                    if isinstance(k, K) and (k.v is None or isinstance(k.v, (bool, int, float, str))) and not isinstance(k.v, NpInt):
                        k = k if isinstance(k.v, str) else K(json.dumps(k.v))
                    elif isinstance(k, (Tup, Ref)) or isinstance(k, K):
                        self.fails("a key of that kind cannot be stored in JSON", node)
                    else:
                        raise Unfollowed("JSON key")
                    out.append((k, self.frozen(x, node, keep, depth + 1)))
                return T("jdict", tuple(out))
            if isinstance(c, ListC):
                items = self.concrete(v)
                if items is None:
                    raise Unfollowed("JSON of a list of unknown length")
                if c.kind in ("set", "gen", "ndarray"):
                    self.fails("a {} cannot be stored in JSON".format(c.kind), node)
                return T("jlist", tuple(self.frozen(x, node, keep, depth + 1) for x in items))
        raise Unfollowed("JSON value {!r}".format(v)[:200])

    def thaw(self, v, node):
        if isinstance(v, T) and v.op == "jlist":
            return self.new_list([self.thaw(x, node) for x in v.args[0]], node=node)
        if isinstance(v, T) and v.op == "jdict":
            return self.new_dict([(k, self.thaw(x, node)) for k, x in v.args[0]], node=node)
        return v

    def segs_of(self, v, node=None):
        w = self.resolve(v)
        if self.is_file(w):
            v = self.file_method(w, "readlines", [], {}, node)
        return super().segs_of(v, node)

    def x_json_dumps(self, args, kwargs, node):
        if set(kwargs) - {"indent", "sort_keys", "separators", "default", "ensure_ascii", "allow_nan", "cls"}:
            return None
        keep = self.resolve(kwargs.get("default", NONE))
        keep = None if keep == NONE else keep
        cls = self.resolve(kwargs.get("cls", NONE))
        if cls != NONE:
            keep = self.instantiate(cls, [], {}, node) if isinstance(cls, Cls) else None
            if keep is None:
                return None
        try:
            v = self.frozen(args[0], node, keep)
            if self.resolve(kwargs.get("sort_keys", FALSE)) != FALSE:
                def srt(x):
                    if isinstance(x, T) and x.op == "jdict":
                        return T("jdict", tuple(sorted(((k, srt(y)) for k, y in x.args[0]), key=lambda p: p[0].v)))
                    return T("jlist", tuple(srt(y) for y in x.args[0])) if isinstance(x, T) and x.op == "jlist" else x
                v = srt(v)
        except Unfollowed as e:
            self.doubtful(e)
            return None
        return T("txt", (hole(T("json", v), "j", None, False, False),))

    def x_json_dump(self, args, kwargs, node):
        t = self.x_json_dumps(args, kwargs, node)
        if t is None:
            return None
        self.method(args[1], "write", [t], {}, node)
        return NONE

    def x_json_loads(self, args, kwargs, node):
        v = self.resolve(args[0])
        if kwargs:
            return None
        ps = [p for p in pcs(v) if not (isinstance(p, K) and not p.v.strip())] if is_text(v) else []
        if len(ps) == 1 and isinstance(ps[0], T) and ps[0].op == "hole" and ps[0].args[1] == "j":
            return self.thaw(ps[0].args[0].args[0], node)
        if len(ps) == 1 and isinstance(ps[0], K):
            try:
                return self.unpy(json.loads(ps[0].v))
            except ValueError:
                self.fails("no JSON text", node)
        return None

    def x_json_load(self, args, kwargs, node):
        return self.x_json_loads([self.method(args[0], "read", [], {}, node)], kwargs, node)

    def method(self, base, name, args, kwargs, node, star=()):
        b = self.resolve(base)
        if b == NONE and not name.startswith("__"):
            self.fails("None has no {}".format(name), node)
        if isinstance(b, K) and isinstance(b.v, NpInt) and name in ("item", "tolist") and not args:
            return K(int(b.v))
        if isinstance(b, T) and b.op in SCALARS and name in ("item", "tolist") and not args:
            return self.item(b)
        self.known_attr(b, name, node)
        if self.is_file(b):
            r = self.file_method(b, name, args, kwargs, node)
            if r is not None:
                return r
            self.doubtful("file." + name)
        if isinstance(b, T) and b.op == "txt":
            try:
                return self.text_method(b, name, args, kwargs, node)
            except Unfollowed as e:
                self.doubtful(e)
        if isinstance(b, T) and b.op == "argparser" and not star:
            try:
                return self.parser_method(b, name, args, kwargs, node)
            except Unfollowed as e:
                self.doubtful(e)
        if isinstance(b, T) and b.op == "match":
            i = self.resolve(args[0]) if args else K(0)
            if name == "group" and isinstance(i, K) and isinstance(i.v, int):
                return b.args[0].items[i.v]
            if name == "groups":
                return Tup(b.args[0].items[1:])
            if name in ("start", "end"):
                return b.args[1 if name == "start" else 2]
        if isinstance(b, T) and b.op == "bytes" and name == "decode":
            fs = b.args[0]
            if len(fs) == 1 and isinstance(fs[0][0], K) and isinstance(fs[0][0].v, bytes):
                return K(fs[0][0].v.decode())
        return super().method(base, name, args, kwargs, node, star)

    def known_attr(self, b, name, node):
        """Fails where an object of a known kind has no such attribute."""
        if self.is_arr(b):
            kind, names = "an array", ARRAY
        elif isinstance(b, Tup):
            kind, names = "a tuple", dir(tuple)
        elif isinstance(b, Ref) and isinstance(self.read(b.id), ListC) and self.read(b.id).kind == "list" and self.plain_list(b):
            kind, names = "a list", dir(list)
        else:
            return
        if name not in names:
            self.fails("{} has no {}".format(kind, name), node)

    def drain(self, w, node):
        """Values of iter(callable, sentinel)."""
        while True:
            l = self.resolve(self.call(w.args[0], [], {}, node))
            if self.compare("Eq", l, w.args[1], node) == TRUE:
                return
            yield l

    def iter_plan(self, v, node=None, depth=0):
        w = self.resolve(v)
        if w == NONE:
            self.fails("None is not iterable", node)
        if isinstance(w, T) and w.op == "calliter":
            return (("item", x) for x in self.drain(w, node))
        if self.is_file(w):
            def gen():
                while True:
                    l = self.readline(w)
                    if l == K(""):
                        return
                    yield ("item", l)
            return gen()
        if isinstance(w, K) and isinstance(w.v, str):
            return [("item", K(c)) for c in w.v]
        return super().iter_plan(v, node, depth)

    def concrete(self, v):
        w = self.resolve(v)
        if self.is_file(w):
            out = []
            while True:
                l = self.readline(w)
                if l == K(""):
                    return out
                out.append(l)
        return super().concrete(v)

    def x_next(self, args, kwargs, node):
        v = self.resolve(args[0])
        if isinstance(v, T) and v.op == "calliter":
            for x in self.drain(v, node):
                return x
            if len(args) > 1:
                return args[1]
            self.effect("stop", v, None, node)
            raise Dead()
        if self.is_file(v):
            l = self.readline(v)
            if l == K(""):
                if len(args) > 1:
                    return args[1]
                self.effect("stop", v, None, node)
                raise Dead()
            return l
        if isinstance(v, Ref) and isinstance(self.read(v.id), ListC):
            items = self.concrete(v)
            if items:
                if self.read(v.id).kind in ("gen", "iter"):
                    self.write(v.id, ListC([("item", x) for x in items[1:]], self.read(v.id).kind))
                return items[0]
        return super().x_next(args, kwargs, node)

    def x_iter(self, args, kwargs, node):
        v = self.resolve(args[0])
        if len(args) == 2:
            return T("calliter", v, self.resolve(args[1]))
        if self.is_file(v):
            return v
        items = self.concrete(v)
        if items is not None:
            return self.new_segs([("item", x) for x in items], "iter", node)
        return super().x_iter(args, kwargs, node)

    def merge_content(self, c, a, b):
        if isinstance(a, FileC) or isinstance(b, FileC) or isinstance(a, tuple) or isinstance(b, tuple):
            if a != b:
                self.doubtful("file state depends on a condition")
            return a
        return super().merge_content(c, a, b)

    def generalise(self, id, base, c, loopid):
        if isinstance(base, (FileC, tuple)):
            self.doubtful("file used in a loop")
            return base
        return super().generalise(id, base, c, loopid)

    def close(self, base, c, loopid, itv):
        if isinstance(base, (FileC, tuple)) or isinstance(c, (FileC, tuple)):
            return c
        return super().close(base, c, loopid, itv)

    # ---- binary --------------------------------------------------------------------

    def codes(self, fmt, node):
        order = fmt[0] if fmt[:1] in "<>=!@" else "@"
        body = fmt[1:] if fmt[:1] in "<>=!@" else fmt
        out = []
        for n, c in re.findall(r"(\d*)([a-zA-Z?])", body.replace(" ", "")):
            if c == "s":
                out.append(("s", int(n or 1)))
            else:
                out += [(c, struct.calcsize("=" + c))] * (int(n) if n else 1)
        total = struct.calcsize(fmt)
        if total != sum(w for _, w in out):
            raise Unfollowed("padding in " + fmt)
        return order, out

    def x_struct_pack(self, args, kwargs, node):
        fmt = self.resolve(args[0])
        vals = [self.resolve(a) for a in args[1:]]
        vals = [self.read(v.id).flat[0] if self.is_arr(v) and len(self.read(v.id).flat) == 1 else v for v in vals]
        if not isinstance(fmt, K):
            return None
        try:
            order, cs = self.codes(fmt.v, node)
        except Unfollowed as e:
            self.doubtful(e)
            return None
        if len(cs) != len(vals):
            self.fails("struct.pack('{}') of {} values".format(fmt.v, len(vals)), node)
        out = []
        for (c, w), v in zip(cs, vals):
            if isinstance(v, K):
                try:
                    raw = struct.pack((order if order in "<>=!@" else "@") + ("%ds" % w if c == "s" else c), v.v)
                    if c == "s":
                        v = K(raw)
                except (struct.error, TypeError):
                    self.fails("{!r} cannot be packed as '{}'".format(v.v, c), node)
            elif c in "bBhHiIlLqQ" and self.number(v) and not self.is_int(v):
                self.fails("a real number cannot be packed as '{}'".format(c), node)
            out.append((v, ("<" if order == "<" else ">" if order in ">!" else "=") + c, w))
        return T("bytes", tuple(out)) if out else K(b"")

    def x_struct_unpack(self, args, kwargs, node):
        fmt, data = self.resolve(args[0]), self.resolve(args[1])
        if not isinstance(fmt, K):
            return None
        try:
            order, cs = self.codes(fmt.v, node)
        except Unfollowed as e:
            self.doubtful(e)
            return None
        cs = [(c, w) for c, w in cs if w]
        if isinstance(data, K) and data.v == b"" and not cs:
            return Tup([K(b"")] if fmt.v.endswith("s") else [])
        if not isinstance(data, T) or data.op != "bytes":
            return None
        fs = data.args[0]
        norm = ("<" if order == "<" else ">" if order in ">!" else "=")
        if len(fs) != len(cs) or any(f[2] != w or f[1][1:] != c or f[1][0] != norm for f, (c, w) in zip(fs, cs)):
            got = "".join(f[1] if f[1][1:] != "s" else "%ds" % f[2] for f in fs)
            self.fails("struct.unpack('{}') of fields written as '{}'".format(fmt.v, got[:60]), node)
        return Tup([f[0] for f in fs])

    def x_struct_calcsize(self, args, kwargs, node):
        f = self.resolve(args[0])
        return K(struct.calcsize(f.v)) if isinstance(f, K) else None

    # ---- regular expressions on known texts ------------------------------------------

    def re_call(self, name, args, kwargs, node):
        args = [self.resolve(a) for a in args]
        if all(isinstance(a, K) for a in args) and not kwargs and name in ("search", "match", "fullmatch", "findall", "split", "sub"):
            r = getattr(re, name)(*[a.v for a in args])
            if isinstance(r, list):
                return self.new_list([K(x) for x in r], node=node)
            if r is None or isinstance(r, str):
                return K(r)
            return T("match", Tup([K(r.group())] + [K(g) for g in r.groups()]), K(r.start()), K(r.end()))
        return None

    def x_re_search(self, args, kwargs, node):
        return self.re_call("search", args, kwargs, node)

    def x_re_match(self, args, kwargs, node):
        return self.re_call("match", args, kwargs, node)

    def x_re_fullmatch(self, args, kwargs, node):
        return self.re_call("fullmatch", args, kwargs, node)

    def x_re_findall(self, args, kwargs, node):
        return self.re_call("findall", args, kwargs, node)

    def x_re_split(self, args, kwargs, node):
        return self.re_call("split", args, kwargs, node)

    def x_re_sub(self, args, kwargs, node):
        return self.re_call("sub", args, kwargs, node)

    def os_path(f):
        def g(self, args, kwargs, node):
            vs = [self.resolve(a) for a in args]
            if not kwargs and vs and all(isinstance(v, K) and isinstance(v.v, str) for v in vs):
                r = f(*[v.v for v in vs])
                return Tup([K(x) for x in r]) if isinstance(r, tuple) else K(r)
            return None
        return g

    x_os_path_split = os_path(posixpath.split)
    x_os_path_splitext = os_path(posixpath.splitext)
    x_os_path_join = os_path(posixpath.join)
    x_os_path_basename = os_path(posixpath.basename)
    x_os_path_dirname = os_path(posixpath.dirname)
    del os_path

    def file_there(self, args, kwargs, node):
        v = self.resolve(args[0]) if args else None
        return K(("fs", v.v) in self.heap) if isinstance(v, K) and isinstance(v.v, str) else None

    x_os_path_isfile = x_os_path_exists = file_there

    # ---- command lines ------------------------------------------------------------

    def x_argparse_ArgumentParser(self, args, kwargs, node):
        self.loopn += 1
        p = T("argparser", self.loopn)
        self.write(("args", p), ())
        return p

    def parser_method(self, p, name, args, kwargs, node):
        if name == "add_argument":
            flags = tuple(self.resolve(a) for a in args)
            kw = tuple(sorted((k, self.resolve(v)) for k, v in kwargs.items()))
            self.write(("args", p), self.read(("args", p)) + ((flags, kw, node),))
            return NONE
        if name in ("add_argument_group", "add_mutually_exclusive_group"):
            return p
        if name == "parse_args":
            argv = self.concrete(self.resolve(args[0])) if args else None
            if argv is None or not all(isinstance(x, K) for x in argv):
                raise Unfollowed("command line")
            try:
                ns = self.parser(p).parse_args([x.v for x in argv])
            except SystemExit:
                self.fails("the command line is refused", node)
            cls = Cls("Namespace", None, [T("sym", "argparse.Namespace")], {}, None, "argparse.Namespace")
            return self.new("inst", InstC(cls, {k: self.lift(v) for k, v in vars(ns).items()}))
        raise Unfollowed("parser." + name)

    def lift(self, v):
        return self.new_list([K(x) for x in v]) if isinstance(v, (list, tuple)) else K(v)

    def parser(self, p):
        """The parser described by the calls made on p."""
        class Parser(argparse.ArgumentParser):
            def error(self, message):
                raise SystemExit(message)

            def exit(self, status=0, message=None):
                raise SystemExit(message)

        out = Parser()
        for flags, kw, _ in self.read(("args", p)):
            d = {}
            for k, v in kw:
                if k in ("help", "metavar"):
                    continue
                if k == "type":
                    d[k] = {"builtins.int": int, "builtins.float": float, "builtins.str": str, "int": int, "float": float, "str": str}.get(getattr(v, "name", None))
                    if d[k] is None:
                        raise Unfollowed("type of an option")
                elif isinstance(v, K):
                    d[k] = v.v
                else:
                    items = self.concrete(v)
                    if items is None and isinstance(v, Ref) and isinstance(self.read(v.id), DictC):
                        items = list(self.read(v.id).ent)
                    if items is None or not all(isinstance(x, K) for x in items):
                        raise Unfollowed("{} of an option".format(k))
                    d[k] = [x.v for x in items]
            if not all(isinstance(x, K) for x in flags):
                raise Unfollowed("name of an option")
            try:
                out.add_argument(*[x.v for x in flags], **d)
            except (ValueError, TypeError) as e:
                self.fails("add_argument: {}".format(e), None)
        return out

    def x_time_ctime(self, args, kwargs, node):
        return K("Thu Jan  1 00:00:00 1970")

    # ---- numpy text -----------------------------------------------------------------

    def n_savetxt(self, args, kwargs, node):
        f, x = self.resolve(args[0]), self.as_nd(args[1])
        fmt = self.resolve(args[2] if len(args) > 2 else kwargs.get("fmt", K("%.18e")))
        delim = self.resolve(kwargs.get("delimiter", args[3] if len(args) > 3 else K(" ")))
        if not self.is_file(f) or x is None or set(kwargs) - {"fmt", "delimiter"}:
            self.doubtful("savetxt")
            return NONE
        rows = x.rows()
        fl = [fmt.v] if isinstance(fmt, K) else [y.v for y in self.concrete(fmt)]
        for s, r in rows:
            if len(fl) not in (1, len(r)):
                self.fails("savetxt: {} formats for {} columns".format(len(fl), len(r)), node)
            ps = []
            try:
                for i, v in enumerate(r):
                    if i:
                        ps.append(delim)
                    ps += pcs(self.pct_format(fl[i if len(fl) > 1 else 0], [v], node))
            except Unfollowed as e:
                self.doubtful(e)
            self.append_text(f, mk(ps + [K("\n")]), node)
        return NONE
