"""Abstract values of the gated value-graph evaluator.

K      a constant
T      a term: where a value comes from (hash-consed, immutable)
Tup    a tuple of values
Ref    identity of a mutable object whose content lives in the abstract heap
Fn, Bound, Cls, Mod, Ext, Partial   callables, classes, modules, foreign names
"""


class Val:
    __slots__ = ()


class NpInt(int):
    """An integer constant of numpy's type."""


class K(Val):
    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v
        try:
            self._h = hash((type(v).__name__, v))
        except TypeError:
            self._h = hash(type(v).__name__)

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and (self.v == o.v or self.v is o.v)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return repr(self.v)


_terms = {}


class T(Val):
    __slots__ = ("op", "args", "_h", "__weakref__")

    def __new__(cls, op, *args):
        key = (op,) + args
        t = _terms.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t._h = hash(key)
            _terms[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


class Tup(Val):
    __slots__ = ("items", "_h")

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(("Tup",) + self.items)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


class Ref(Val):
    __slots__ = ("id", "kind", "site")
    _n = 0

    def __init__(self, kind, site=None):
        Ref._n += 1
        self.id = Ref._n
        self.kind = kind
        self.site = site

    def __repr__(self):
        return "<{}#{}>".format(self.kind, self.id)


class Fn(Val):
    __slots__ = ("node", "module", "frame", "defaults", "kwdefaults", "name", "owner", "kind", "qual", "wraps")

    def __init__(self, node, module, frame, name, qual, owner=None):
        self.node = node
        self.module = module
        self.frame = frame
        self.defaults = []
        self.kwdefaults = {}
        self.name = name
        self.qual = qual
        self.owner = owner
        self.kind = None
        self.wraps = None

    def __repr__(self):
        return "<fn {}>".format(self.qual)


class Bound(Val):
    __slots__ = ("self_", "fn", "_h")

    def __init__(self, self_, fn):
        self.self_ = self_
        self.fn = fn
        self._h = hash((self_, fn))

    def __eq__(self, o):
        return isinstance(o, Bound) and o.self_ == self.self_ and o.fn == self.fn

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "<bound {} {}>".format(self.self_, self.fn)


class Cls(Val):
    __slots__ = ("name", "module", "bases", "ns", "node", "qual", "fields")

    def __init__(self, name, module, bases, ns, node, qual, fields=None):
        self.name = name
        self.module = module
        self.bases = bases
        self.ns = ns
        self.node = node
        self.qual = qual
        self.fields = fields

    def lookup(self, name):
        if name in self.ns:
            return self.ns[name]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += b.mro()
        return out

    def __repr__(self):
        return "<class {}>".format(self.qual)


class Mod(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Mod) and o.name == self.name

    def __hash__(self):
        return hash(("Mod", self.name))

    def __repr__(self):
        return "<mod {}>".format(self.name)


class Ext(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("Ext", self.name))

    def __repr__(self):
        return self.name


class Partial(Val):
    __slots__ = ("fn", "args", "kwargs", "_h")

    def __init__(self, fn, args, kwargs):
        self.fn = fn
        self.args = tuple(args)
        self.kwargs = dict(kwargs)
        self._h = hash((fn, self.args, tuple(sorted(self.kwargs))))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Partial) and (self.fn, self.args, self.kwargs) == (o.fn, o.args, o.kwargs)


class Super(Val):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


ABSENT = T("absent")
UNBOUND = T("unbound")
TRUE, FALSE, NONE = K(True), K(False), K(None)


# ---- heap contents (immutable) -------------------------------------------


class ListC:
    """segs: ("item", v) | ("splice", v) | ("gamma", c, segs, segs)
    | ("each", loop, iterable, segs)"""
    __slots__ = ("segs", "kind")

    def __init__(self, segs, kind="list"):
        self.segs = tuple(segs)
        self.kind = kind

    def __eq__(self, o):
        return isinstance(o, ListC) and self.segs == o.segs and self.kind == o.kind

    def items(self):
        """Concrete item list or None."""
        out = []
        for s in self.segs:
            if s[0] != "item":
                return None
            out.append(s[1])
        return out


class DictC:
    """base: None (closed) or a value providing the remaining entries."""
    __slots__ = ("base", "ent", "loose", "kind")

    def __init__(self, base, ent, loose=False, kind="dict"):
        self.base = base
        self.ent = ent
        self.loose = loose
        self.kind = kind

    def __eq__(self, o):
        return (isinstance(o, DictC) and self.base == o.base and self.loose == o.loose
                and self.kind == o.kind and self.ent == o.ent
                and list(self.ent) == list(o.ent))


class InstC:
    __slots__ = ("cls", "attrs", "base")

    def __init__(self, cls, attrs, base=None):
        self.cls = cls
        self.attrs = attrs
        self.base = base

    def __eq__(self, o):
        return isinstance(o, InstC) and self.cls is o.cls and self.base == o.base and self.attrs == o.attrs


# ---- terms ----------------------------------------------------------------


def gamma(c, a, b):
    if isinstance(c, K):
        return a if c.v else b
    if a is b or a == b:
        return a
    if isinstance(c, T) and c.op == "not":
        return gamma(c.args[0], b, a)
    if isinstance(a, T) and a.op == "gamma" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, T) and b.op == "gamma" and b.args[0] is c:
        b = b.args[2]
    if a == b:
        return a
    if a == TRUE and b == FALSE:
        return c if is_boolean(c) else T("gamma", c, a, b)
    if a == FALSE and b == TRUE:
        return neg(c)
    return T("gamma", c, a, b)


def is_boolean(c):
    return isinstance(c, T) and c.op in ("cmp", "not", "and", "or", "isinstance", "in", "truth")


def neg(c):
    if isinstance(c, K):
        return K(not c.v)
    if isinstance(c, T) and c.op == "not":
        return c.args[0]
    if isinstance(c, T) and c.op == "cmp":
        inv = {"==": "!=", "!=": "==", "is": "isnot", "isnot": "is", "in": "notin", "notin": "in"}
        if c.args[0] in inv:
            return T("cmp", inv[c.args[0]], *c.args[1:])
    return T("not", c)


def pos(c):
    """Canonical (term, polarity)."""
    p = True
    while isinstance(c, T):
        if c.op == "not":
            c, p = c.args[0], not p
        elif c.op == "truth":
            c = c.args[0]
        elif c.op == "cmp" and c.args[0] in ("!=", "isnot", "notin"):
            c, p = T("cmp", {"!=": "==", "isnot": "is", "notin": "in"}[c.args[0]], *c.args[1:]), not p
        else:
            break
    return c, p


def children(v):
    if isinstance(v, T):
        for a in v.args:
            yield from _sub(a)
    elif isinstance(v, Tup):
        yield from v.items
    elif isinstance(v, Bound):
        yield v.self_
    elif isinstance(v, Partial):
        yield from v.args
        yield from v.kwargs.values()


def _sub(a):
    if isinstance(a, Val):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from _sub(x)


def walk(v, seen=None):
    seen = set() if seen is None else seen
    stack = [v]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        stack.extend(children(x))


def show(v, depth=0):
    if not isinstance(v, T):
        return repr(v)
    if depth > 7:
        return "…"
    a = v.args
    d = depth + 1

    def s(x):
        if isinstance(x, T):
            return show(x, d)
        if isinstance(x, tuple):
            return "(" + ",".join(s(y) for y in x) + ")"
        return repr(x)

    if v.op == "sym":
        return a[0]
    if v.op == "get":
        return "{}[{}]".format(s(a[0]), s(a[1]))
    if v.op == "attr":
        return "{}.{}".format(s(a[0]), a[1])
    if v.op == "bin":
        return "({} {} {})".format(s(a[1]), a[0], s(a[2]))
    if v.op == "cmp":
        return "({} {} {})".format(s(a[1]), a[0], s(a[2]))
    if v.op == "gamma":
        return "γ({} ? {} : {})".format(*map(s, a))
    if v.op == "call":
        return "{}({})".format(s(a[0]), ", ".join([s(x) for x in a[1]] + ["{}={}".format(k, s(x)) for k, x in a[2]]))
    if v.op == "mcall":
        return "{}.{}({})".format(s(a[0]), a[1], ", ".join([s(x) for x in a[2]] + ["{}={}".format(k, s(x)) for k, x in a[3]]))
    if v.op == "elem":
        return "elem{}({})".format(a[1], s(a[0]))
    if v.op == "copy":
        return "copy({})".format(s(a[0]))
    return "{}({})".format(v.op, ", ".join(s(x) for x in a))
