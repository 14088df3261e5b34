"""Gated value-graph evaluator: an abstract interpreter of the package source.

Nothing of the package is executed.  Statements are interpreted over abstract
values (values.py): constants are folded, everything else becomes a term that
records its origin; the two outcomes of an undecided branch are merged with
gamma nodes; a loop over an unknown iterable is interpreted once for a generic
element; package functions are inlined; mutations, calls of foreign functions
and raises are recorded as effects together with the conditions guarding them.
"""
import ast
import builtins as _b
import sys

from repo import Broken, Repo
from values import (ABSENT, FALSE, NONE, TRUE, UNBOUND, Bound, Cls, DictC, Ext, Fn, InstC, K, ListC, Mod, Partial,
                    Ref, Super, T, Tup, Val, children, gamma, is_boolean, neg, pos, walk)

sys.setrecursionlimit(20000)

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "sort", "reverse",
            "popitem", "add", "discard", "fill", "put", "itemset", "resize", "partition", "appendleft"}
IMPURE = {"builtins.open", "builtins.next", "builtins.input", "builtins.iter"}
IMPURE_METHODS = {"readline", "read", "readlines", "tell", "seek", "write", "close"}
MISSING = object()
MAX_UNROLL = 600
MAX_DEPTH = 40


class Effect:
    __slots__ = ("kind", "module", "line", "func", "target", "data", "pc", "stack", "node")

    def __init__(self, kind, module, line, func, target, data, pc, stack, node):
        self.kind, self.module, self.line, self.func = kind, module, line, func
        self.target, self.data, self.pc, self.stack, self.node = target, data, pc, stack, node

    def where(self):
        return "{}:{} in {}".format(self.module.rel if self.module else "?", self.line, self.func)

    def __repr__(self):
        return "<{} {} {} {}>".format(self.kind, self.where(), self.target, self.data)


class Exit:
    __slots__ = ("kind", "pc", "delta", "value")

    def __init__(self, kind, pc, delta, value=None):
        self.kind, self.pc, self.delta, self.value = kind, pc, delta, value


class Ctx:
    """Activation: current module, frame, function name."""
    __slots__ = ("module", "frame", "func", "exits", "level", "owner", "self_", "yields", "node")

    def __init__(self, module, frame, func, owner=None, self_=None):
        self.module, self.frame, self.func = module, frame, func
        self.exits = []
        self.level = 0
        self.owner = owner
        self.self_ = self_
        self.yields = None
        self.node = None


class Dead(Exception):
    """Control does not continue past an expression (a callee always raises)."""


class Interp:
    max_recursion = 2

    def __init__(self, repo=None, hooks=None, preload=True):
        self.repo = repo or Repo()
        self.hooks = hooks or {}
        self.ext_hooks = {}
        self.heap = {}
        self.log = None  # writes on every path, in order, when a list
        self.journal = []
        self.pc = ()
        self.effects = []
        self.fparent = {}
        self.modframe = {}
        self.ctx = None
        self.stack = []
        self.redirect = {}  # {frame id: {name: frame the name is bound in}}
        self.loopn = 0
        self.uid = 0
        self.discovery = 0
        self.script = None
        self.inlined = set()
        self.opaque = []
        self.calls_seen = 0
        self.inst_of = {}
        self.iter_hook = None
        self.loopmap = {}
        self.item_hook = None
        if preload:
            for name in sorted(self.repo.modules):
                self.import_module(name)

    # ---- heap with journal ------------------------------------------------

    def read(self, id):
        return self.heap.get(id, MISSING)

    def write(self, id, content):
        if self.journal:
            top = self.journal[-1]
            if id not in top:
                top[id] = self.heap.get(id, MISSING)
        self.heap[id] = content
        if self.log is not None and not self.discovery:
            self.log.append((id, content, self.pc))

    def begin(self):
        self.journal.append({})
        return len(self.journal) - 1

    def capture(self, level):
        out = {}
        for j in self.journal[level:]:
            for id in j:
                out[id] = self.heap.get(id, MISSING)
        return out

    def rollback(self, level):
        while len(self.journal) > level:
            for id, old in self.journal.pop().items():
                if old is MISSING:
                    self.heap.pop(id, None)
                else:
                    self.heap[id] = old

    def apply(self, delta):
        for id, c in delta.items():
            if c is not MISSING:
                self.write(id, c)

    def merge_deltas(self, c, da, db):
        """Delta equivalent to (da if c else db) on the current heap."""
        out = {}
        for id in list(da) + [i for i in db if i not in da]:
            base = self.heap.get(id, MISSING)
            a = da.get(id, base)
            b = db.get(id, base)
            out[id] = self.merge_content(c, a, b)
        return out

    def merge_content(self, c, a, b):
        if a is b or b is MISSING:
            return a
        if a is MISSING:
            return b
        if type(a) is not type(b):
            return a
        if isinstance(a, dict):  # frame
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                va, vb = a.get(k, UNBOUND), b.get(k, UNBOUND)
                out[k] = va if va is vb else gamma(c, va, vb)
            return out
        if isinstance(a, ListC):
            n = 0
            while n < len(a.segs) and n < len(b.segs) and a.segs[n] == b.segs[n]:
                n += 1
            if n == len(a.segs) == len(b.segs):
                return a
            ta, tb = a.segs[n:], b.segs[n:]
            if len(ta) == len(tb) and all(x[0] == "item" for x in ta + tb):
                return ListC(a.segs[:n] + tuple(("item", gamma(c, x[1], y[1])) for x, y in zip(ta, tb)), a.kind)
            return ListC(a.segs[:n] + (("gamma", c, a.segs[n:], b.segs[n:]),), a.kind)
        if isinstance(a, DictC):
            ent = {}
            base = a.base
            if a.base != b.base:
                base = gamma(c, a.base or T("nobase"), b.base or T("nobase"))
            for k in list(a.ent) + [k for k in b.ent if k not in a.ent]:
                va = a.ent.get(k, ABSENT)
                vb = b.ent.get(k, ABSENT)
                if va is ABSENT and a.base is not None:
                    va = self.base_get(a.base, k)
                if vb is ABSENT and b.base is not None:
                    vb = self.base_get(b.base, k)
                ent[k] = va if va is vb else gamma(c, va, vb)
            return DictC(base, ent, a.loose or b.loose, a.kind)
        if isinstance(a, InstC):
            attrs = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                va = a.attrs.get(k, ABSENT)
                vb = b.attrs.get(k, ABSENT)
                if va is ABSENT and a.base is not None:
                    va = T("attr", a.base, k)
                if vb is ABSENT and b.base is not None:
                    vb = T("attr", b.base, k)
                attrs[k] = va if va is vb else gamma(c, va, vb)
            return InstC(a.cls, attrs, a.base)
        return a

    # ---- helpers ------------------------------------------------------------

    def new(self, kind, content, node=None):
        r = Ref(kind, (self.ctx.module.rel if self.ctx else None, getattr(node, "lineno", None)))
        self.write(r.id, content)
        return r

    def new_list(self, items, kind="list", node=None):
        return self.new("list", ListC([("item", x) for x in items], kind), node)

    def new_segs(self, segs, kind="list", node=None):
        return self.new("list", ListC(segs, kind), node)

    def new_dict(self, ent=None, base=None, node=None):
        return self.new("dict", DictC(base, dict(ent or {})), node)

    def fresh(self, op, *args):
        self.uid += 1
        return T(op, *(args + (self.uid,)))

    def effect(self, kind, target, data=None, node=None):
        if self.discovery:
            return
        c = self.ctx
        self.effects.append(Effect(kind, c.module if c else None, getattr(node, "lineno", 0), c.func if c else "?",
                                   target, data, self.pc, tuple(self.stack), node))

    def known(self, c):
        """Truth of a condition given the path condition, or None."""
        if isinstance(c, K):
            return bool(c.v)
        t, p = pos(c)
        if isinstance(t, K):
            return bool(t.v) == p
        for (q, v) in self.pc:
            if q is t:
                return v == p
            if v and isinstance(q, T) and q.op == "cmp" and q.args[0] == "==" and isinstance(t, T) and t.op == "cmp" \
                    and t.args[0] == "==" and q.args[1] is t.args[1] and isinstance(q.args[2], K) \
                    and isinstance(t.args[2], K) and q.args[2] != t.args[2]:
                return not p
            if v and isinstance(q, T) and q.op == "and":
                for x in q.args:
                    xt, xp = pos(x)
                    if xt is t:
                        return xp == p
            if not v and isinstance(q, T) and q.op == "or":
                for x in q.args:
                    xt, xp = pos(x)
                    if xt is t:
                        return xp != p
        if isinstance(t, T) and t.op == "and":
            ks = [self.known(x) for x in t.args]
            if any(k is False for k in ks):
                return not p
            if all(k is True for k in ks):
                return p
        if isinstance(t, T) and t.op == "or":
            ks = [self.known(x) for x in t.args]
            if any(k is True for k in ks):
                return p
            if all(k is False for k in ks):
                return not p
        return None

    def resolve(self, v):
        while isinstance(v, T) and v.op == "gamma":
            k = self.known(v.args[0])
            if k is None:
                return v
            v = v.args[1] if k else v.args[2]
        return v

    def assume(self, c, polarity):
        t, p = pos(c)
        if isinstance(t, K):
            return
        self.pc = self.pc + ((t, p == polarity),)

    def branch(self, cond, fa, fb):
        """Run fa under cond and fb under not cond; value gated. May raise Dead."""
        k = self.known(cond)
        if k is True:
            return fa()
        if k is False:
            return fb()
        pc0 = self.pc
        lvl = self.begin()
        self.assume(cond, True)
        try:
            va, da = fa(), None
            da = self.capture(lvl)
        except Dead:
            va = da = None
        self.rollback(lvl)
        self.pc = pc0
        lvl = self.begin()
        self.assume(cond, False)
        try:
            vb, db = fb(), None
            db = self.capture(lvl)
        except Dead:
            vb = db = None
        self.rollback(lvl)
        self.pc = pc0
        if da is None and db is None:
            raise Dead()
        if db is None:
            self.apply(da)
            self.assume(cond, True)
            return va
        if da is None:
            self.apply(db)
            self.assume(cond, False)
            return vb
        self.apply(self.merge_deltas(cond, da, db))
        if va is None and vb is None:
            return None
        return gamma(cond, va, vb)

    def distribute(self, v, f, depth=0):
        """Apply f to v; when v is a gamma, to each alternative under its guard."""
        v = self.resolve(v)
        if isinstance(v, T) and v.op == "gamma" and depth < 8:
            c, a, b = v.args
            if a is ABSENT or a is UNBOUND:
                return self.distribute(b, f, depth + 1)
            if b is ABSENT or b is UNBOUND:
                return self.distribute(a, f, depth + 1)
            return self.branch(c, lambda: self.distribute(a, f, depth + 1), lambda: self.distribute(b, f, depth + 1))
        return f(v)

    # ---- modules ---------------------------------------------------------------

    def import_module(self, name):
        if name in self.modframe:
            return True
        if name not in self.repo.modules:
            return False
        parent = name.rpartition(".")[0]
        if parent:
            self.import_module(parent)
            if name in self.modframe:
                return True
        m = self.repo.modules[name]
        fr = Ref("frame")
        saved = self.journal, self.pc, self.ctx, self.stack, self.discovery
        self.journal, self.pc, self.stack, self.discovery = [], (), [], 0
        self.heap[fr.id] = {"__name__": K(name), "__file__": K(m.rel)}
        self.modframe[name] = fr
        self.fparent[fr.id] = None
        self.ctx = Ctx(m, fr, "<module>")
        try:
            self.block(m.tree.body)
        except Dead:
            pass
        self.journal, self.pc, self.ctx, self.stack, self.discovery = saved
        return True

    def module_attr(self, name, attr):
        """Attribute of a package module, or None."""
        if self.import_module(name):
            fr = self.heap[self.modframe[name].id]
            if attr in fr:
                return fr[attr]
            sub = name + "." + attr
            if sub in self.repo.modules:
                self.import_module(sub)
                return Mod(sub)
        return None

    def lookup_path(self, dotted):
        """Value of 'toughio.x.y' or None."""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.repo.modules:
                v = Mod(m)
                for p in parts[i:]:
                    v = self.getattr(v, p)
                    if v is None or (isinstance(v, T)):
                        return None
                return v
        return None

    def do_import(self, node):
        m = self.ctx.module
        if isinstance(node, ast.Import):
            for a in node.names:
                top = a.name.split(".")[0]
                if a.asname:
                    self.bind(a.asname, Mod(a.name) if a.name in self.repo.modules else Ext(a.name))
                else:
                    self.bind(top, Mod(top) if top in self.repo.modules else Ext(top))
                if a.name in self.repo.modules:
                    self.import_module(a.name)
        else:
            mod = m.resolve_relative(node.level, node.module)
            for a in node.names:
                if mod in self.repo.modules:
                    if a.name == "*":
                        fr = self.import_module(mod) and self.heap[self.modframe[mod].id]
                        names = fr.get("__all__")
                        keys = None
                        if isinstance(names, Ref):
                            items = self.read(names.id).items()
                            keys = [x.v for x in items or [] if isinstance(x, K)]
                        for k in keys if keys is not None else [x for x in fr if not x.startswith("_")]:
                            v = self.module_attr(mod, k)
                            if v is not None:
                                self.bind(k, v)
                        continue
                    v = self.module_attr(mod, a.name)
                    if v is None:
                        self.effect("import-missing", Ext(mod + "." + a.name), None, node)
                        v = Ext(mod + "." + a.name)
                    self.bind(a.asname or a.name, v)
                else:
                    if mod and mod.split(".")[0] == "toughio":
                        self.effect("import-missing", Ext(mod + "." + a.name), None, node)
                    self.bind(a.asname or a.name, Ext((mod + "." if mod else "") + a.name))

    # ---- names ------------------------------------------------------------------

    def bind(self, name, v):
        fr = self.ctx.frame
        if fr.id in self.redirect:
            fr = self.redirect[fr.id].get(name, fr)
        d = dict(self.heap[fr.id])
        d[name] = v
        self.write(fr.id, d)

    def name(self, name, node=None):
        fr = self.ctx.frame
        while fr is not None:
            d = self.heap.get(fr.id)
            if d and name in d:
                v = self.resolve(d[name])
                if isinstance(v, T) and v.op == "gamma":
                    v = self.drop_unbound(v)
                if v is UNBOUND:
                    self.effect("unbound", K(name), None, node)
                    return T("sym", "?" + name)
                return v
            fr = self.fparent.get(fr.id)
        if name == "__class__" and self.ctx.owner:
            return self.ctx.owner
        if hasattr(_b, name):
            if name in ("True", "False", "None"):
                return K(getattr(_b, name))
            return Ext("builtins." + name)
        self.effect("unknown-name", K(name), None, node)
        return T("sym", "?" + name)

    def drop_unbound(self, v):
        if isinstance(v, T) and v.op == "gamma":
            a, b = v.args[1], v.args[2]
            if a is UNBOUND:
                return self.drop_unbound(b)
            if b is UNBOUND:
                return self.drop_unbound(a)
        return v

    # ---- statements --------------------------------------------------------------

    def block(self, stmts):
        for s in stmts:
            if not self.stmt(s):
                return False
        return True

    def exit(self, kind, value=None):
        self.ctx.exits.append(Exit(kind, self.pc, self.capture(self.ctx.level), value))

    def stmt(self, s):
        self.ctx.node = s
        try:
            return getattr(self, "s_" + type(s).__name__)(s)
        except Dead:
            return False

    def s_Expr(self, s):
        self.eval(s.value)
        return True

    def s_Pass(self, s):
        return True

    def s_Global(self, s):
        fr = self.modframe.get(self.ctx.module.name)
        if fr is not None and fr is not self.ctx.frame:
            self.redirect.setdefault(self.ctx.frame.id, {}).update({n: fr for n in s.names})
        return True

    def s_Nonlocal(self, s):
        for n in s.names:
            fr = self.fparent.get(self.ctx.frame.id)
            while fr is not None and n not in (self.heap.get(fr.id) or {}):
                fr = self.fparent.get(fr.id)
            if fr is not None:
                self.redirect.setdefault(self.ctx.frame.id, {})[n] = fr
        return True

    def s_Import(self, s):
        self.do_import(s)
        return True

    s_ImportFrom = s_Import

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)
        return True

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))
        return True

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.name(t.id, t)
            v = self.eval(s.value)
            self.bind(t.id, self.inplace(op, old, v, s))
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            old = self.getattr(base, t.attr, t)
            v = self.eval(s.value)
            self.setattr(base, t.attr, self.inplace(op, old, v, s), s)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            key = self.eval_slice(t.slice)
            old = self.getitem(base, key, t)
            v = self.eval(s.value)
            self.setitem(base, key, self.inplace(op, old, v, s), s, aug=True)
        return True

    def inplace(self, op, old, v, node):
        old = self.resolve(old)
        if op == "Add":
            if isinstance(old, Ref) and old.kind == "list":
                c = self.read(old.id)
                if isinstance(c, ListC) and c.kind == "list":
                    self.write(old.id, ListC(c.segs + tuple(self.segs_of(v, node)), c.kind))
                    self.effect("mutate", old, ("iadd", v), node)
                    return old
            if isinstance(old, T) and old.op == "gamma" and any(
                    isinstance(x, Ref) and x.kind == "list" for x in (old.args[1], old.args[2])):
                return self.distribute(old, lambda o: self.inplace(op, o, v, node))
        if isinstance(old, T):
            self.effect("augassign", old, (op, v), node)
        return self.binop(op, old, v, node)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.exit("return", v)
        return False

    def s_Break(self, s):
        self.exit("break")
        return False

    def s_Continue(self, s):
        self.exit("continue")
        return False

    def s_Raise(self, s):
        v = self.eval(s.exc) if s.exc is not None else T("sym", "reraise")
        self.effect("raise", v, None, s)
        return False

    def s_Assert(self, s):
        c = self.cond(s.test)
        k = self.known(c)
        if k is False:
            return False
        if k is None:
            self.assume(c, True)
        return True

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value)
                key = self.eval_slice(t.slice)
                self.effect("mutate", base, ("delitem", key), s)
                self.dict_delete(base, key)
            elif isinstance(t, ast.Attribute):
                base = self.eval(t.value)
                self.effect("mutate", base, ("delattr", K(t.attr)), s)
        return True

    def s_If(self, s):
        c = self.cond(s.test)
        return self.if_(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def if_(self, c, fa, fb):
        k = self.known(c)
        if k is not None:
            return fa() if k else fb()
        pc0 = self.pc
        lvl = self.begin()
        self.assume(c, True)
        da = self.capture(lvl) if self.safe(fa) else None
        # capture must follow the execution
        if da is not None:
            da = self.capture(lvl)
        pca = self.pc
        self.rollback(lvl)
        self.pc = pc0
        lvl = self.begin()
        self.assume(c, False)
        okb = self.safe(fb)
        db = self.capture(lvl) if okb else None
        pcb = self.pc
        self.rollback(lvl)
        self.pc = pc0
        if da is None and db is None:
            return False
        if db is None:
            self.apply(da)
            self.pc = pca
            return True
        if da is None:
            self.apply(db)
            self.pc = pcb
            return True
        self.apply(self.merge_deltas(c, da, db))
        return True

    def safe(self, f):
        try:
            return f()
        except Dead:
            return False

    def s_With(self, s):
        opened = []
        for item in s.items:
            v = self.eval(item.context_expr)
            self.effect("with-enter", v, None, s)
            opened.append(v)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v if isinstance(v, (Ref, Bound)) or (isinstance(v, T)) else T("enter", v))
        ok = self.block(s.body)
        for v in reversed(opened):
            self.effect("with-exit", v, None, s)
        return ok

    def s_Try(self, s):
        # handlers for optional imports are never taken
        def optional_import(h):
            names = []
            t = h.type
            for n in ([t] if not isinstance(t, ast.Tuple) else t.elts) if t is not None else []:
                names.append(getattr(n, "id", getattr(n, "attr", "")))
            return names and all(n in ("ImportError", "ModuleNotFoundError") for n in names)

        handlers = [h for h in s.handlers if not optional_import(h)]
        pc0 = self.pc
        if not handlers:
            ok = self.safe(lambda: self.block(s.body))
            if ok and s.orelse:
                ok = self.block(s.orelse)
            if s.finalbody:
                ok2 = self.block(s.finalbody)
                ok = ok and ok2
            return ok
        exc = self.fresh("exc", K("{}:{}".format(self.ctx.module.rel, s.lineno)))

        def body():
            ok = self.block(s.body)
            if ok and s.orelse:
                ok = self.block(s.orelse)
            if s.finalbody and ok:
                ok = self.block(s.finalbody)
            return ok

        def handle(hs):
            if not hs:
                return False
            h = hs[0]

            def run():
                if h.name:
                    self.bind(h.name, T("sym", "exception"))
                ok = self.block(h.body)
                if s.finalbody and ok:
                    ok = self.block(s.finalbody)
                return ok
            if len(hs) == 1:
                return run()
            return self.if_(T("excis", exc, K(h.lineno)), run, lambda: handle(hs[1:]))

        # state at the handler: anything between before and after the body
        lvl = self.begin()
        self.assume(exc, True)
        nexits = len(self.ctx.exits)
        neff = len(self.effects)
        mark_discovery = self.discovery
        self.discovery += 1
        self.doubt = 0
        self.safe(lambda: self.block(s.body))
        self.discovery = mark_discovery
        sure = self.cannot_raise(handlers, self.effects[neff:])
        partial = self.capture(lvl)
        self.rollback(lvl)
        self.pc = pc0
        del self.ctx.exits[nexits:]
        del self.effects[neff:]
        if sure:
            return body()

        def handler():
            p = self.fresh("partial")
            self.apply(self.merge_deltas(p, partial, {}))
            return handle(handlers)

        return self.if_(exc, handler, body)

    def cannot_raise(self, handlers, effects):
        """True if the body just tried certainly raises nothing the handlers catch."""
        return False

    def s_FunctionDef(self, s):
        fn = self.make_fn(s, s.name)
        v = fn
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, s)
        self.bind(s.name, v)
        return True

    def make_fn(self, node, name, owner=None):
        prefix = self.ctx.module.name + "." if self.ctx.func == "<module>" else \
            self.ctx.module.name + "." + self.ctx.func + ".<locals>."
        if owner is not None:
            prefix = owner.qual + "."
        fn = Fn(node, self.ctx.module, self.ctx.frame, name, prefix + name, owner)
        fn.defaults = [self.eval(d) for d in node.args.defaults]
        fn.kwdefaults = {a.arg: self.eval(d) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d}
        return fn

    def decorate(self, d, v, node):
        dec = self.eval(d)
        if isinstance(dec, Ext) and dec.name in ("builtins.property", "builtins.staticmethod", "builtins.classmethod"):
            if isinstance(v, Fn):
                v.kind = dec.name.split(".")[1]
            return v
        if isinstance(dec, T) and dec.op == "propsetter":
            v.kind = "setter"
            return v
        if isinstance(dec, Ext) and dec.name.endswith("abstractmethod"):
            return v
        r = self.call(dec, [v], {}, node)
        return r

    def s_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        qual = self.ctx.module.name + "." + s.name
        cls = Cls(s.name, self.ctx.module, bases, {}, s, qual)
        outer = self.ctx
        fr = Ref("frame")
        self.write(fr.id, {})
        self.fparent[fr.id] = outer.frame
        self.ctx = Ctx(outer.module, fr, outer.func)
        # class bodies: functions close over the enclosing (module) frame
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                saved = self.ctx.frame
                decs = []
                setter = False
                for d in st.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                        setter = d.attr
                    else:
                        decs.append(d)
                self.ctx.frame = outer.frame
                fn = self.make_fn(st, st.name, cls)
                self.ctx.frame = saved
                v = fn
                for d in reversed(decs):
                    v = self.decorate(d, v, st)
                if setter:
                    fn.kind = setter
                    self.bind(st.name + "." + setter, fn)
                else:
                    self.bind(st.name, v)
            else:
                self.stmt(st)
        cls.ns = dict(self.heap[fr.id])
        self.ctx = outer
        self.bind(s.name, cls)
        return True

    # ---- loops ---------------------------------------------------------------------

    def s_For(self, s):
        it = self.eval(s.iter)

        def body(v):
            self.assign(s.target, v)
            return self.block(s.body)

        return self.loop_over(it, body, s)

    def loop_over(self, it, body, node):
        """Run body(v) for the elements of it; consumes break/continue exits."""
        plan = self.iter_plan(it, node)
        return self.run_plan(plan, body, node)

    def run_plan(self, plan, body, node):
        ctx = self.ctx
        outer_exits, outer_level, pc0 = ctx.exits, ctx.level, self.pc
        breaks = []
        returns = []
        lvl0 = self.begin()
        ok = True

        def once(v, body=body):
            """One iteration; merges continue exits. True if the loop goes on."""
            ctx.exits, ctx.level = [], len(self.journal)
            lvl = self.begin()
            pc1 = self.pc
            try:
                go = body(v)
            except Dead:
                go = False
            exits, ctx.exits, ctx.level = ctx.exits, outer_exits, outer_level
            fall = self.capture(lvl) if go else None
            pc2 = self.pc
            self.rollback(lvl)
            self.pc = pc1
            conts = []
            for e in exits:
                if e.kind == "continue":
                    conts.append(e)
                else:
                    # make the delta relative to the loop start
                    full = self.capture(lvl0)
                    full.update(e.delta)
                    (breaks if e.kind == "break" else returns).append(Exit(e.kind, e.pc, full, e.value))
            if fall is None and not conts:
                return False
            alts = [(self.pc_cond(pc1, e.pc), e.delta) for e in conts]
            if fall is None:
                acc = alts.pop()[1]
            else:
                acc = fall
                if not conts:
                    self.pc = pc2
            for c, d in reversed(alts):
                acc = self.merge_deltas(c, d, acc)
            self.apply(acc)
            return True

        for p in plan:
            if p[0] == "item":
                if self.item_hook is not None:
                    self.item_hook(p[1])
                ok = once(p[1])
                if not ok:
                    break
            else:
                ok = self.symbolic(p, once, node, breaks, returns)
                if not ok:
                    break
        delta = self.capture(lvl0) if ok else None
        pc_end = self.pc
        self.rollback(lvl0)
        self.pc = pc0
        # returns leave the function
        for e in returns:
            full = self.capture(outer_level)
            full.update(e.delta)
            outer_exits.append(Exit("return", e.pc, full, e.value))
        orelse = getattr(node, "orelse", None) if isinstance(node, (ast.For, ast.While)) else None
        if delta is not None and orelse:
            lvl = self.begin()
            self.apply(delta)
            ok2 = self.block(orelse)
            delta = self.capture(lvl) if ok2 else None
            self.rollback(lvl)
            self.pc = pc0
        if delta is None and not breaks:
            return False
        if not breaks:
            self.apply(delta)
            self.pc = pc_end if not returns else pc_end
            return True
        alts = [(self.pc_cond(pc0, e.pc), e.delta) for e in breaks]
        if delta is None:
            acc = alts.pop()[1]
        else:
            acc = delta
        for c, d in reversed(alts):
            acc = self.merge_deltas(c, d, acc)
        self.apply(acc)
        return True

    def pc_cond(self, pc0, pc1):
        extra = pc1[len(pc0):]
        if not extra:
            return TRUE
        cs = tuple(c if p else T("not", c) for c, p in extra)
        return cs[0] if len(cs) == 1 else T("and", *cs)

    def symbolic(self, p, once, node, breaks, returns):
        """Generic iteration of plan entry p (not a concrete item)."""
        if p[0] == "gamma":
            _, c, pa, pb = p
            state = {"ok": True}

            def run(pl):
                def f():
                    for q in pl:
                        if q[0] == "item":
                            if not once(q[1]):
                                return False
                        elif not self.symbolic(q, once, node, breaks, returns):
                            return False
                    return True
                return f
            return self.if_(c, run(pa), run(pb))
        loopid = p[1]
        itv = p[2]
        elems = p[3]  # nested plan evaluated inside the loop (list of plan entries)

        def iteration():
            alive = False
            for q in elems:
                if q[0] == "item":
                    alive = once(q[1]) or alive
                    if not alive:
                        break
                else:
                    alive = self.symbolic(q, once, node, breaks, returns) or alive
            return alive

        return self.fix(iteration, loopid, itv, breaks, returns, node)

    def fix(self, iteration, loopid, itv, breaks, returns, node):
        pc0 = self.pc
        self.loopmap[loopid] = itv
        nb, nr = len(breaks), len(returns)
        # pass 1: discover what the body modifies
        lvl = self.begin()
        self.discovery += 1
        try:
            iteration()
        finally:
            self.discovery -= 1
        d1 = self.capture(lvl)
        for e in breaks[nb:] + returns[nr:]:
            for id, c in e.delta.items():
                d1.setdefault(id, c)
        self.rollback(lvl)
        self.pc = pc0
        del breaks[nb:]
        del returns[nr:]
        modified = {}
        for id, c in d1.items():
            base = self.read(id)
            if base is not MISSING and base is not c and not (type(base) is type(c) and base == c):
                modified[id] = (base, c)
        # pass 2: generic iteration
        lvl = self.begin()
        for id, (base, c) in modified.items():
            self.write(id, self.generalise(id, base, c, loopid))
        self.assume(T("looped", loopid), True)
        pc_in = self.pc
        alive = iteration()
        end = self.capture(lvl)
        self.rollback(lvl)
        self.pc = pc0
        # close: contents after any number of iterations
        out = {}
        if not alive:
            end = {}
            for id, (base, c) in modified.items():
                end[id] = base
        for id, c in end.items():
            base = self.read(id)
            if base is MISSING:
                out[id] = c
            elif id in modified:
                out[id] = self.close(base, c, loopid, itv)
            else:
                out[id] = self.close(base, c, loopid, itv)
        for e in breaks[nb:]:
            for id in list(e.delta):
                base = self.read(id)
                if base is not MISSING:
                    e.delta[id] = self.close(base, e.delta[id], loopid, itv)
        self.apply(out)
        return True

    def generalise(self, id, base, c, loopid):
        if isinstance(base, dict):
            out = {}
            for k, v in base.items():
                nv = c.get(k, UNBOUND)
                out[k] = v if nv is v or nv == v else T("loopvar", k, id, loopid, v)
            return out
        if isinstance(base, ListC):
            return ListC([("splice", T("prev", id, loopid))], base.kind)
        if isinstance(base, DictC):
            ent = {}
            grew = False
            cc = c.ent if isinstance(c, DictC) else {}
            for k, v in base.ent.items():
                nv = cc.get(k, v)
                ent[k] = v if nv is v or nv == v else T("loopvar", k, id, loopid, v)
            grew = any(k not in base.ent for k in cc)
            return DictC(base.base, ent, base.loose or grew, base.kind)
        if isinstance(base, InstC):
            attrs = {}
            cc = c.attrs if isinstance(c, InstC) else {}
            for k, v in base.attrs.items():
                nv = cc.get(k, v)
                attrs[k] = v if nv is v or nv == v else T("loopvar", k, id, loopid, v)
            return InstC(base.cls, attrs, base.base)
        return base

    def close(self, base, c, loopid, itv):
        if c is base or c is MISSING:
            return base
        L = T("looped", loopid)
        if isinstance(base, dict) and isinstance(c, dict):
            out = dict(base)
            for k, v in c.items():
                b = base.get(k, UNBOUND)
                if v is b or v == b:
                    out[k] = b
                elif isinstance(v, T) and v.op == "loopvar" and v.args[2] == loopid and v.args[0] == k:
                    out[k] = b
                else:
                    out[k] = gamma(L, v, b)
            return out
        if isinstance(base, ListC) and isinstance(c, ListC):
            if c.segs and c.segs[0][0] == "splice" and isinstance(c.segs[0][1], T) and c.segs[0][1].op == "prev" \
                    and c.segs[0][1].args[1] == loopid:
                rest = c.segs[1:]
                if not rest:
                    return base
                return ListC(base.segs + (("each", loopid, itv, rest),), base.kind)
            if c == base:
                return base
            return ListC((("gamma", L, c.segs, base.segs),), base.kind)
        if isinstance(base, DictC) and isinstance(c, DictC):
            ent = {}
            for k in list(base.ent) + [k for k in c.ent if k not in base.ent]:
                b = base.ent.get(k, ABSENT)
                v = c.ent.get(k, ABSENT)
                if b is ABSENT and base.base is not None and isinstance(base.base, Val):
                    b = self.base_get(base.base, k)
                if isinstance(v, T) and v.op == "loopvar" and v.args[2] == loopid and v.args[0] == k:
                    v = b
                ent[k] = b if (v is b or v == b) else gamma(L, v, b)
            return DictC(c.base, ent, base.loose, base.kind)
        if isinstance(base, InstC) and isinstance(c, InstC):
            attrs = {}
            for k in list(base.attrs) + [k for k in c.attrs if k not in base.attrs]:
                b = base.attrs.get(k, ABSENT)
                v = c.attrs.get(k, ABSENT)
                attrs[k] = b if (v is b or v == b) else gamma(L, v, b)
            return InstC(base.cls, attrs, base.base)
        return c

    def s_While(self, s):
        self.loopn += 1
        loopid = self.loopn

        def body(_):
            c = self.cond(s.test)
            k = self.known(c)
            if k is False:
                return False
            if k is None:
                self.assume(c, True)
            return self.block(s.body)

        always = False
        if isinstance(s.test, ast.Constant) and s.test.value:
            always = True
        ctx = self.ctx
        ok = self.run_plan([("loop", loopid, T("while", loopid), [("item", NONE)])], body, s)
        if not always:
            return True
        return ok

    # ---- iteration -------------------------------------------------------------------

    def iter_plan(self, v, node=None, depth=0):
        """Plan: list of ("item", v) | ("gamma", c, plan, plan) | ("loop", id, iterable, plan)."""
        v = self.resolve(v)
        if self.iter_hook:
            p = self.iter_hook(self, v, node)
            if p is not None:
                return p
        if isinstance(v, Tup):
            return [("item", x) for x in v.items]
        if isinstance(v, K):
            if isinstance(v.v, (str, bytes, tuple, range, frozenset)):
                return [("item", K(x)) for x in v.v]
            return [self.gen_loop(v)]
        if isinstance(v, Ref):
            c = self.read(v.id)
            if isinstance(c, ListC):
                return self.segs_plan(c.segs, depth)
            if isinstance(c, DictC):
                return self.dict_plan(v, "keys")
        if isinstance(v, T):
            if v.op == "gamma" and depth < 6:
                c, a, b = v.args
                if a is ABSENT or a is UNBOUND:
                    return self.iter_plan(b, node, depth + 1)
                if b is ABSENT or b is UNBOUND:
                    return self.iter_plan(a, node, depth + 1)
                pa, pb = self.iter_plan(a, node, depth + 1), self.iter_plan(b, node, depth + 1)
                if pa == pb:
                    return pa
                if len(pa) == len(pb) and all(x[0] == "item" for x in pa) and all(x[0] == "item" for x in pb):
                    return [("item", gamma(c, x[1], y[1])) for x, y in zip(pa, pb)]
                return [("gamma", c, pa, pb)]
            if v.op == "get" and isinstance(v.args[0], T) and v.args[0].op == "table":
                ns = set()
                for _, x in v.args[0].args[0]:
                    x = self.read(x.id) if isinstance(x, Ref) else x
                    its = x.items() if isinstance(x, ListC) else x.items if isinstance(x, Tup) else None
                    ns.add(None if its is None else len(its))
                if len(ns) == 1 and None not in ns:
                    return [("item", T("get", v, K(i))) for i in range(ns.pop())]
            if v.op in ("keys", "values", "items") and isinstance(v.args[0], Ref):
                return self.dict_plan(v.args[0], v.op)
            if v.op in ("keys", "values", "items") and isinstance(v.args[0], T) and self.heap.get(("ov", v.args[0])):
                return self.dict_plan(v.args[0], v.op)
            if v.op == "list":
                return self.segs_plan(v.args[0], depth)
        return [self.gen_loop(v)]

    def gen_loop(self, v):
        self.loopn += 1
        i = self.loopn
        return ("loop", i, v, [("item", self.generic(v, i))])

    def generic(self, v, i):
        """Generic element of v in loop i."""
        if isinstance(v, Ref):
            c = self.read(v.id)
            if isinstance(c, ListC) and len(c.segs) == 1 and c.segs[0][0] == "each" and len(c.segs[0][3]) == 1 \
                    and c.segs[0][3][0][0] == "item":
                return c.segs[0][3][0][1]
            if isinstance(c, ListC) and len(c.segs) == 1 and c.segs[0][0] == "splice":
                return self.generic(c.segs[0][1], i)
            if isinstance(c, ListC):
                its = c.items()
                if its and all(x == its[0] for x in its):
                    return its[0]
            return T("elem", self.snap(v), i)
        if isinstance(v, T):
            if v.op == "keys":
                return T("elem", v, i)
            if v.op == "items":
                k = T("elem", T("keys", v.args[0]), i)
                return Tup([k, self.getitem(v.args[0], k)])
            if v.op == "values":
                return self.getitem(v.args[0], T("elem", T("keys", v.args[0]), i))
            if v.op == "zip":
                return Tup([self.generic(a, i) for a in v.args])
            if v.op == "enumerate":
                return Tup([T("idx", v.args[0], v.args[1], i), self.generic(v.args[0], i)])
            if v.op in ("reversed", "sorted"):
                return self.generic(v.args[0], i)
            if v.op == "list":
                segs = v.args[0]
                if len(segs) == 1 and segs[0][0] == "each" and len(segs[0][3]) == 1 and segs[0][3][0][0] == "item":
                    return segs[0][3][0][1]
                if len(segs) == 1 and segs[0][0] == "splice":
                    return self.generic(segs[0][1], i)
        return T("elem", v, i)

    def segs_plan(self, segs, depth=0):
        out = []
        for s in segs:
            if s[0] == "item":
                out.append(s)
            elif s[0] == "splice":
                out += self.iter_plan(s[1], None, depth + 1) if depth < 6 else [self.gen_loop(s[1])]
            elif s[0] == "gamma":
                k = self.known(s[1])
                if k is not None:
                    out += self.segs_plan(s[2] if k else s[3], depth + 1)
                else:
                    out.append(("gamma", s[1], self.segs_plan(s[2], depth + 1), self.segs_plan(s[3], depth + 1)))
            elif s[0] == "each":
                self.loopn += 1
                out.append(("loop", self.loopn, s[2], self.segs_plan(s[3], depth + 1)))
        return out

    def presence(self, v):
        """Condition under which an entry value is present."""
        if v is ABSENT:
            return FALSE
        if isinstance(v, T) and v.op == "gamma":
            a, b = self.presence(v.args[1]), self.presence(v.args[2])
            if a == TRUE and b == TRUE:
                return TRUE
            c = v.args[0]
            if a == b:
                return a
            if b == FALSE:
                return c if a == TRUE else T("and", c, a)
            if a == FALSE:
                return neg(c) if b == TRUE else T("and", neg(c), b)
            if a == TRUE:
                return T("or", c, b)
            if b == TRUE:
                return T("or", neg(c), a)
            return T("gamma", c, a, b)
        return TRUE

    def strip_absent(self, v):
        if isinstance(v, T) and v.op == "gamma":
            c, a, b = v.args
            a, b = self.strip_absent(a), self.strip_absent(b)
            if a is ABSENT:
                return b
            if b is ABSENT:
                return a
            return gamma(c, a, b)
        return v

    def dict_content(self, v):
        if isinstance(v, Ref):
            c = self.read(v.id)
            return c if isinstance(c, DictC) else None
        if isinstance(v, T):
            return self.heap.get(("ov", v))
        return None

    def dict_plan(self, v, what):
        c = self.dict_content(v)
        out = []

        def make(k, val):
            return k if what == "keys" else val if what == "values" else Tup([k, val])
        for k, val in c.ent.items():
            val = self.resolve(val)
            p = self.presence(val)
            kn = self.known(p)
            if kn is False:
                continue
            it = [("item", make(k, self.strip_absent(val)))]
            if not isinstance(k, K) and not isinstance(k, Tup) and self.is_generic(k):
                # entry made in a loop: stands for any number of entries
                self.loopn += 1
                it = [("loop", self.loopn, k, it)]
            if kn is None and not (isinstance(p, T) and p.op == "looped"):
                out.append(("gamma", p, it, []))
            elif kn is None:
                self.loopn += 1
                out.append(("loop", self.loopn, k, it)) if it[0][0] == "item" else out.extend(it)
            else:
                out += it
        if c.base is not None:
            self.loopn += 1
            i = self.loopn
            key = T("elem", T("keys", c.base), i)
            out.append(("loop", i, T("keys", c.base), [("item", make(key, self.base_get(c.base, key)))]))
        elif c.loose:
            self.loopn += 1
            i = self.loopn
            key = T("elem", T("keys", T("loosedict", v)), i)
            out.append(("loop", i, key, [("item", make(key, T("get", T("loosedict", v), key)))]))
        return out

    def is_generic(self, k):
        for x in walk(k):
            if isinstance(x, T) and x.op in ("elem", "loopvar", "slot", "next", "idx"):
                return True
        return False

    def concrete(self, v):
        """List of values if v iterates concretely, else None."""
        plan = self.iter_plan(v)
        if len(plan) <= MAX_UNROLL and all(p[0] == "item" for p in plan):
            return [p[1] for p in plan]
        return None

    def segs_of(self, v, node=None):
        """Segments contributed by iterating v."""
        v = self.resolve(v)
        if isinstance(v, Ref):
            c = self.read(v.id)
            if isinstance(c, ListC):
                return list(c.segs)
        plan = self.iter_plan(v, node)
        return self.plan_segs(plan, v)

    def plan_segs(self, plan, v=None):
        if len(plan) == 1 and plan[0][0] == "loop" and v is not None and isinstance(v, T):
            return [("splice", v)]
        out = []
        for p in plan:
            if p[0] == "item":
                out.append(p)
            elif p[0] == "gamma":
                out.append(("gamma", p[1], tuple(self.plan_segs(p[2])), tuple(self.plan_segs(p[3]))))
            else:
                out.append(("each", p[1], p[2], tuple(self.plan_segs(p[3]))))
        return out

    def snap(self, v, depth=0):
        """Immutable snapshot of a value for use inside terms."""
        if isinstance(v, Ref) and depth < 6:
            c = self.read(v.id)
            if isinstance(c, ListC):
                return T("list", self.snap_segs(c.segs, depth + 1), c.kind)
            if isinstance(c, DictC):
                return T("dict", tuple((k, self.snap(x, depth + 1)) for k, x in c.ent.items()),
                         self.snap(c.base, depth + 1) if c.base is not None else None)
            return v
        if isinstance(v, Tup):
            return Tup([self.snap(x, depth + 1) for x in v.items])
        if isinstance(v, T) and v.op == "gamma" and depth < 6:
            return gamma(v.args[0], self.snap(v.args[1], depth + 1), self.snap(v.args[2], depth + 1))
        if isinstance(v, T) and v.op in ("keys", "values", "items") and isinstance(v.args[0], Ref):
            return T(v.op, self.snap(v.args[0], depth + 1))
        return v

    def snap_segs(self, segs, depth=0):
        out = []
        for s in segs:
            if s[0] in ("item", "splice"):
                out.append((s[0], self.snap(s[1], depth)))
            elif s[0] == "gamma":
                out.append(("gamma", s[1], self.snap_segs(s[2], depth), self.snap_segs(s[3], depth)))
            else:
                out.append(("each", s[1], self.snap(s[2], depth) if isinstance(s[2], Val) else s[2],
                            self.snap_segs(s[3], depth)))
        return tuple(out)

    # ---- assignment --------------------------------------------------------------------

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, len(t.elts) if not star else None)
            if star:
                i = star[0]
                n_after = len(t.elts) - i - 1
                if items is not None:
                    for e, x in zip(t.elts[:i], items[:i]):
                        self.assign(e, x)
                    self.assign(t.elts[i].value, self.new_list(items[i:len(items) - n_after]))
                    for e, x in zip(t.elts[i + 1:], items[len(items) - n_after:]):
                        self.assign(e, x)
                else:
                    for j, e in enumerate(t.elts[:i]):
                        self.assign(e, self.getitem(v, K(j)))
                    self.assign(t.elts[i].value, T("slice", v, K(i), K(-n_after) if n_after else NONE, NONE))
                    for j, e in enumerate(t.elts[i + 1:]):
                        self.assign(e, self.getitem(v, K(j - n_after)))
                return
            for i, e in enumerate(t.elts):
                self.assign(e, items[i] if items is not None else self.getitem(v, K(i)))
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval_slice(t.slice), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, v, n):
        v = self.resolve(v)
        if isinstance(v, (Tup, K)) or isinstance(v, Ref):
            if isinstance(v, Ref) and self.inst_content(v) is not None:
                c = self.inst_content(v)
                if c.cls and c.cls.fields:
                    return [c.attrs.get(f, T("attr", v, f)) for f in c.cls.fields]
                return None
            try:
                items = self.concrete(v)
            except RecursionError:
                items = None
            if items is not None and (n is None or len(items) == n):
                return items
        return None

    def inst_content(self, v):
        if isinstance(v, Ref):
            c = self.read(v.id)
            return c if isinstance(c, InstC) else None
        return None

    def setattr(self, base, name, v, node):
        def f(b):
            if isinstance(b, Ref):
                c = self.read(b.id)
                if isinstance(c, InstC):
                    if c.cls is not None:
                        st = c.cls.lookup(name + ".setter")
                        if isinstance(st, Fn):
                            self.call(Bound(b, st), [v], {}, node)
                            return None
                    self.effect("setattr", b, (name, v), node)
                    attrs = dict(c.attrs)
                    attrs[name] = v
                    self.write(b.id, InstC(c.cls, attrs, c.base))
                    return None
                self.effect("setattr", b, (name, v), node)
                return None
            if isinstance(b, T):
                cls = self.class_of(b)
                if cls is not None:
                    st = cls.lookup(name + ".setter")
                    if isinstance(st, Fn):
                        self.call(Bound(b, st), [v], {}, node)
                        return None
                self.effect("setattr", b, (name, v), node)
                key = ("oa", b)
                c = self.heap.get(key) or InstC(None, {}, b)
                attrs = dict(c.attrs)
                attrs[name] = v
                self.write(key, InstC(None, attrs, b))
                return None
            self.effect("setattr", b, (name, v), node)
            return None
        self.distribute(base, f)

    def setitem(self, base, key, v, node, aug=False):
        key = self.resolve(key)

        def f(b):
            if isinstance(b, Ref):
                c = self.read(b.id)
                self.effect("mutate", b, ("augitem" if aug else "setitem", key, v), node)
                if isinstance(c, DictC):
                    ent = dict(c.ent)
                    ent[key] = v
                    self.write(b.id, DictC(c.base, ent, c.loose, c.kind))
                elif isinstance(c, ListC):
                    items = c.items()
                    if items is not None and isinstance(key, K) and isinstance(key.v, int) \
                            and -len(items) <= key.v < len(items):
                        items[key.v] = v
                        self.write(b.id, ListC([("item", x) for x in items], c.kind))
                    elif isinstance(key, K) and isinstance(key.v, int) and key.v >= 0 and key.v < len(c.segs) \
                            and all(s[0] == "item" for s in c.segs[:key.v + 1]):
                        segs = list(c.segs)
                        segs[key.v] = ("item", v)
                        self.write(b.id, ListC(segs, c.kind))
                    elif items is not None and isinstance(key, T) and key.op == "slicekey" \
                            and all(isinstance(x, K) for x in key.args) and self.concrete_items(v) is not None:
                        try:
                            items[slice(*[x.v for x in key.args])] = self.concrete_items(v)
                            self.write(b.id, ListC([("item", x) for x in items], c.kind))
                        except (ValueError, TypeError):
                            self.effect("bad-index", b, key, node)
                            self.write(b.id, ListC([("splice", T("setitem", self.snap(b), key, self.snap(v)))], c.kind))
                    elif isinstance(key, T) and key.op == "slicekey" and key.args == (NONE, NONE, NONE):
                        self.write(b.id, ListC(self.segs_of(v, node), c.kind))
                    else:
                        self.write(b.id, ListC([("splice", T("setitem", self.snap(b), key, self.snap(v)))], c.kind))
                return None
            if isinstance(b, T):
                self.effect("mutate", b, ("augitem" if aug else "setitem", key, v), node)
                ok = ("ov", b)
                c = self.heap.get(ok) or DictC(b, {})
                ent = dict(c.ent)
                ent[key] = v
                self.write(ok, DictC(b, ent, c.loose))
                return None
            self.effect("mutate", b, ("augitem" if aug else "setitem", key, v), node)
            return None
        self.distribute(base, f)

    def concrete_items(self, v):
        v = self.resolve(v)
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref) and isinstance(self.read(v.id), ListC):
            return self.read(v.id).items()
        return None

    def dict_delete(self, base, key):
        if isinstance(base, Ref):
            c = self.read(base.id)
            if isinstance(c, DictC):
                ent = dict(c.ent)
                ent.pop(key, None)
                self.write(base.id, DictC(c.base, ent, c.loose, c.kind))
            elif isinstance(c, ListC):
                items = c.items()
                if items is not None and isinstance(key, K):
                    try:
                        del items[key.v]
                        self.write(base.id, ListC([("item", x) for x in items], c.kind))
                        return
                    except Exception:
                        pass
                self.write(base.id, ListC([("splice", T("delitem", self.snap(base), key))], c.kind))

    # ---- access -----------------------------------------------------------------------

    def base_get(self, base, key):
        """Entry of an open dict's base."""
        if isinstance(base, T) and base.op == "gamma":
            return gamma(base.args[0], self.base_get(base.args[1], key), self.base_get(base.args[2], key))
        if isinstance(base, T) and base.op == "nobase":
            return ABSENT
        if isinstance(base, Ref):
            return self.getitem(base, key)
        if isinstance(base, T) and base.op == "updated":
            # updated(old, new): new overrides old
            old, new = base.args
            return gamma(T("cmp", "in", key, new), T("get", new, key), self.base_get(old, key))
        return T("get", base, key)

    def getitem(self, base, key, node=None):
        base = self.resolve(base)
        key = self.resolve(key)
        if isinstance(key, T) and key.op == "gamma" and isinstance(base, (Tup, Ref)):
            return gamma(key.args[0], self.getitem(base, key.args[1], node), self.getitem(base, key.args[2], node))
        if isinstance(base, T) and base.op == "gamma":
            c, a, b = base.args
            if a is ABSENT or a is UNBOUND:
                return self.getitem(b, key, node)
            if b is ABSENT or b is UNBOUND:
                return self.getitem(a, key, node)
            pc0 = self.pc
            self.assume(c, True)
            va = self.getitem(a, key, node)
            self.pc = pc0
            self.assume(c, False)
            vb = self.getitem(b, key, node)
            self.pc = pc0
            return gamma(c, va, vb)
        if isinstance(key, T) and key.op == "slicekey":
            return self.getslice(base, key, node)
        if isinstance(base, K):
            if isinstance(key, K):
                try:
                    return K(base.v[key.v])
                except Exception:
                    self.effect("bad-index", base, key, node)
                    return T("get", base, key)
            return T("get", base, key)
        if isinstance(base, Tup):
            if isinstance(key, K) and isinstance(key.v, int) and -len(base.items) <= key.v < len(base.items):
                return base.items[key.v]
            if not isinstance(key, K):
                return T("get", base, key)
            self.effect("bad-index", base, key, node)
            return T("get", base, key)
        if isinstance(base, Ref):
            c = self.read(base.id)
            if isinstance(c, ListC):
                return self.list_get(base, c, key, node)
            if isinstance(c, DictC):
                return self.dict_get(base, c, key, node)
            if isinstance(c, InstC) and c.cls and c.cls.fields and isinstance(key, K) and isinstance(key.v, int):
                return c.attrs.get(c.cls.fields[key.v], T("get", base, key))
            return T("get", base, key)
        if isinstance(base, T):
            if base.op == "list":
                segs = base.args[0]
                lc = ListC(segs)
                return self.list_get(base, lc, key, node)
            if base.op == "dict":
                ent = dict(base.args[0])
                if key in ent:
                    return ent[key]
                if not isinstance(key, K):
                    return T("get", base, key)
            ov = self.heap.get(("ov", base))
            if ov is not None and key in ov.ent:
                return self.strip_absent(self.resolve(ov.ent[key]))
            return T("get", base, key)
        return T("get", base, key) if isinstance(base, Val) else T("sym", "?")

    def list_get(self, base, c, key, node):
        if isinstance(key, K) and isinstance(key.v, int) and not isinstance(key.v, bool):
            i = key.v
            items = c.items()
            if items is not None:
                if -len(items) <= i < len(items):
                    return items[i]
                self.effect("bad-index", base, key, node)
                return T("get", self.snap(base), key)
            if i >= 0 and i < len(c.segs) and all(s[0] == "item" for s in c.segs[:i + 1]):
                return c.segs[i][1]
            if i < 0 and -i <= len(c.segs) and all(s[0] == "item" for s in c.segs[i:]):
                return c.segs[i][1]
            if len(c.segs) == 1 and c.segs[0][0] == "splice":
                return self.getitem(c.segs[0][1], key, node)
            if len(c.segs) == 1 and c.segs[0][0] == "each" and len(c.segs[0][3]) == 1 and c.segs[0][3][0][0] == "item":
                return c.segs[0][3][0][1]
            if i == -1 and c.segs and c.segs[-1][0] == "each" and len(c.segs[-1][3]) == 1 \
                    and c.segs[-1][3][0][0] == "item" and isinstance(c.segs[-1][3][0][1], Ref):
                return c.segs[-1][3][0][1]
        elif isinstance(key, T) and len(c.segs) == 1 and c.segs[0][0] == "each" and len(c.segs[0][3]) == 1 \
                and c.segs[0][3][0][0] == "item":
            return c.segs[0][3][0][1]
        elif isinstance(key, T):
            items = c.items()
            if items and isinstance(items[0], (Ref,)) and all(i is items[0] for i in items):
                return items[0]
        return T("get", self.snap(base), self.snap(key))

    def dict_get(self, base, c, key, node):
        if key in c.ent:
            v = self.resolve(c.ent[key])
            if v is ABSENT:
                self.effect("keyerror", base, key, node)
                return T("get", self.snap(base), key)
            p = self.presence(v)
            if p != TRUE:
                kn = self.known(p)
                if kn is not True:
                    self.effect("maykeyerror", base, (key, p), node)
            return self.strip_absent(v)
        if isinstance(key, K):
            dyn = [k for k in c.ent if isinstance(k, T)]
            if c.base is not None:
                v = self.base_get(c.base, key)
                if v is ABSENT:
                    self.effect("keyerror", base, key, node)
                return v
            if dyn or c.loose:
                if len(dyn) == 1:
                    return self.strip_absent(c.ent[dyn[0]])
                return T("get", T("loosedict", base), key)
            self.effect("keyerror", base, key, node)
            return T("get", self.snap(base), key)
        # symbolic key
        if c.base is not None and not c.ent:
            return self.base_get(c.base, key)
        dyn = [k for k in c.ent if isinstance(k, T)]
        if c.base is None and not c.loose and len(c.ent) == 1 and dyn:
            return self.strip_absent(c.ent[dyn[0]])
        if c.base is None and c.ent and all(isinstance(k, K) for k in c.ent) and len(c.ent) <= 40:
            vals = [self.strip_absent(self.resolve(v)) for v in c.ent.values()]
            if all(isinstance(v, (K, Ref, Fn, Cls)) for v in vals):
                return T("get", T("table", tuple((k, v) for k, v in zip(c.ent, vals)), base), key)
        return T("get", T("loosedict", base), key)

    def getslice(self, base, key, node):
        lo, hi, step = key.args
        items = None
        if isinstance(base, K):
            if all(isinstance(x, K) for x in key.args):
                try:
                    return K(base.v[slice(lo.v, hi.v, step.v)])
                except Exception:
                    return T("slice", base, lo, hi, step)
            return T("slice", base, lo, hi, step)
        if isinstance(base, Tup):
            items = list(base.items)
        elif isinstance(base, Ref):
            c = self.read(base.id)
            if isinstance(c, ListC):
                items = c.items()
                if items is None and all(isinstance(x, K) for x in key.args):
                    # prefix/suffix of a partially known list
                    l = lo.v or 0
                    if hi.v is None and step.v is None and l >= 0 and all(s[0] == "item" for s in c.segs[:l]):
                        return self.new_segs(c.segs[l:], c.kind, node)
                    if lo.v in (None, 0) and hi.v is not None and hi.v >= 0 and step.v is None and \
                            len(c.segs) >= hi.v and all(s[0] == "item" for s in c.segs[:hi.v]):
                        return self.new_segs(c.segs[:hi.v], c.kind, node)
                    if len(c.segs) == 1 and c.segs[0][0] == "splice":
                        return self.new_segs([("splice", self.getitem(c.segs[0][1], key, node))], c.kind, node)
        elif isinstance(base, T) and base.op == "list":
            items = ListC(base.args[0]).items()
        if items is not None and all(isinstance(x, K) for x in key.args):
            try:
                sub = items[slice(lo.v, hi.v, step.v)]
            except Exception:
                return T("slice", self.snap(base), lo, hi, step)
            return Tup(sub) if isinstance(base, Tup) else self.new_list(sub, "list", node)
        return T("slice", self.snap(base), lo, hi, step)

    # ---- attributes ---------------------------------------------------------------------

    def class_of(self, v):
        """Repo class of a symbolic instance (declared through inst_of)."""
        while isinstance(v, T) and v.op == "copy":
            v = v.args[0]
        return self.inst_of.get(v)

    def getattr(self, base, name, node=None):
        base = self.resolve(base)
        if isinstance(base, Mod):
            v = self.module_attr(base.name, name)
            if v is None:
                self.effect("missing-attr", base, name, node)
                return T("attr", base, name)
            return v
        if isinstance(base, Ext):
            return Ext(base.name + "." + name)
        if isinstance(base, Cls):
            v = base.lookup(name)
            if v is not None:
                return v
            if name == "__name__":
                return K(base.name)
            if base.fields is not None and name == "_fields":
                return Tup([K(x) for x in base.fields])
            return T("attr", base, name)
        if isinstance(base, Super):
            for b in base.cls.bases:
                if isinstance(b, Cls):
                    v = b.lookup(name)
                    if v is not None:
                        return self.bind_method(base.self_, v, node)
            return T("attr", T("super", base.self_), name)
        if isinstance(base, Fn):
            if base.kind == "property" and name in ("setter", "getter", "deleter"):
                return T("propsetter", base)
            if name in ("__name__", "__doc__"):
                return K(base.name) if name == "__name__" else K(ast.get_docstring(base.node))
            c = self.heap.get(("oa", base))
            if c is not None and name in c.attrs:
                return c.attrs[name]
            return T("attr", base, name)
        if isinstance(base, T) and base.op == "gamma":
            c, a, b = base.args
            if a is ABSENT or a is UNBOUND:
                return self.getattr(b, name, node)
            if b is ABSENT or b is UNBOUND:
                return self.getattr(a, name, node)
            if any(isinstance(x, (Ref, Mod, Cls, Fn)) for x in (a, b)) or self.class_of(a) or self.class_of(b):
                return self.branch(c, lambda: self.getattr(a, name, node), lambda: self.getattr(b, name, node))
            return T("attr", base, name)
        if isinstance(base, Ref):
            c = self.read(base.id)
            if isinstance(c, InstC):
                if name == "__dict__":
                    return T("attr", base, name)
                if c.cls is not None:
                    m = c.cls.lookup(name)
                    if isinstance(m, Fn) and m.kind == "property":
                        return self.call(Bound(base, m), [], {}, node)
                if name in c.attrs:
                    v = self.resolve(c.attrs[name])
                    return self.strip_absent(v)
                if c.cls is not None:
                    m = c.cls.lookup(name)
                    if m is not None:
                        return self.bind_method(base, m, node)
                if name == "__class__":
                    return c.cls
                if c.base is not None:
                    return T("attr", c.base, name)
                self.effect("missing-attr", base, name, node)
                return T("attr", base, name)
            return T("attr", base, name)
        if isinstance(base, T):
            ov = self.heap.get(("oa", base))
            if ov is not None and name in ov.attrs:
                return self.strip_absent(self.resolve(ov.attrs[name]))
            cls = self.class_of(base)
            if cls is not None:
                m = cls.lookup(name)
                if isinstance(m, Fn) and m.kind == "property":
                    return self.call(Bound(base, m), [], {}, node)
                if m is not None:
                    return self.bind_method(base, m, node)
                if cls.fields is None and not name.startswith("__"):
                    pass
        return T("attr", base, name)

    def bind_method(self, self_, m, node):
        if isinstance(m, Fn):
            if m.kind == "property":
                return self.call(Bound(self_, m), [], {}, node)
            if m.kind == "staticmethod":
                return m
            return Bound(self_, m)
        return m

    # ---- expressions ----------------------------------------------------------------------

    def eval(self, n):
        return self.resolve(getattr(self, "e_" + type(n).__name__, self.e_unknown)(n))

    def e_unknown(self, n):
        self.opaque.append((self.ctx.module.rel, getattr(n, "lineno", 0), type(n).__name__))
        return self.fresh("unknown", type(n).__name__)

    def e_Constant(self, n):
        return K(n.value)

    def e_Name(self, n):
        return self.name(n.id, n)

    def e_Attribute(self, n):
        return self.getattr(self.eval(n.value), n.attr, n)

    def e_Tuple(self, n):
        items = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                x = self.concrete(self.eval(e.value))
                if x is None:
                    return T("tupleof", *[self.snap(self.eval(q.value if isinstance(q, ast.Starred) else q)) for q in n.elts])
                items += x
            else:
                items.append(self.eval(e))
        return Tup(items)

    def e_List(self, n):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                segs += self.segs_of(self.eval(e.value), n)
            else:
                segs.append(("item", self.eval(e)))
        return self.new_segs(segs, "list", n)

    def e_Set(self, n):
        return self.new_list([self.eval(e) for e in n.elts], "set", n)

    def e_Dict(self, n):
        r = self.new_dict({}, None, n)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(r, self.eval(v), n)
            else:
                kv = self.eval(k)
                vv = self.eval(v)
                c = self.read(r.id)
                ent = dict(c.ent)
                ent[kv] = vv
                self.write(r.id, DictC(c.base, ent, c.loose))
        return r

    def e_JoinedStr(self, n):
        parts = [self.eval(v) for v in n.values]
        if all(isinstance(p, K) for p in parts):
            return K("".join(str(p.v) for p in parts))
        return T("fstr", tuple(self.snap(p) for p in parts))

    def e_FormattedValue(self, n):
        v = self.eval(n.value)
        spec = self.eval(n.format_spec) if n.format_spec else K("")
        if isinstance(v, K) and isinstance(spec, K):
            try:
                return K(format(v.v, spec.v))
            except Exception:
                pass
        return T("format1", self.snap(v), spec)

    def e_Lambda(self, n):
        fn = Fn(n, self.ctx.module, self.ctx.frame, "<lambda>", self.ctx.module.name + "." + self.ctx.func + ".<lambda>")
        fn.defaults = [self.eval(d) for d in n.args.defaults]
        return fn

    def e_IfExp(self, n):
        c = self.cond(n.test)
        return self.branch(c, lambda: self.eval(n.body), lambda: self.eval(n.orelse))

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def e_Starred(self, n):
        return T("star", self.eval(n.value))

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else NONE
        y = self.ctx.yields
        if y is not None:
            c = self.read(y.id)
            self.write(y.id, ListC(c.segs + (("item", v),), c.kind))
        return NONE

    def e_YieldFrom(self, n):
        v = self.eval(n.value)
        y = self.ctx.yields
        if y is not None:
            c = self.read(y.id)
            self.write(y.id, ListC(c.segs + tuple(self.segs_of(v, n)), c.kind))
        return NONE

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def rec(vals):
            v = self.eval(vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: rec(vals[1:]), lambda: v)
            return self.branch(c, lambda: v, lambda: rec(vals[1:]))
        return rec(n.values)

    def cond(self, n):
        """Evaluate an expression in boolean context."""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            pc0 = self.pc
            out = []
            result = None
            for v in n.values:
                c = self.cond(v)
                k = self.known(c)
                if k is None:
                    out.append(c)
                    self.assume(c, isand)
                elif k != isand:
                    result = K(not isand)
                    break
            self.pc = pc0
            if result is not None:
                # earlier undecided operands cannot change the outcome
                return result
            if not out:
                return K(isand)
            if len(out) == 1:
                return out[0]
            return T("and" if isand else "or", *out)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return neg(self.cond(n.operand))
        v = self.eval(n)
        return self.truth(v, n)

    def truth(self, v, node=None):
        v = self.resolve(v)
        if isinstance(v, K):
            return K(bool(v.v))
        if isinstance(v, Tup):
            return K(bool(v.items))
        if isinstance(v, (Fn, Bound, Cls, Mod, Ext, Partial)):
            return TRUE
        if isinstance(v, Ref):
            c = self.read(v.id)
            if isinstance(c, ListC):
                if not c.segs:
                    return FALSE
                if any(s[0] == "item" for s in c.segs):
                    return TRUE
                return T("truth", T("nonempty", self.snap(v)))
            if isinstance(c, DictC):
                if not c.ent and c.base is None and not c.loose:
                    return FALSE
                if any(self.presence(x) == TRUE for x in c.ent.values()):
                    return TRUE
                if len(c.ent) == 0 and c.base is not None and not c.loose and isinstance(c.base, T):
                    return self.truth(c.base)
                ps = [self.presence(x) for x in c.ent.values()]
                if c.base is None and not c.loose and ps:
                    return ps[0] if len(ps) == 1 else T("or", *ps)
                return T("truth", T("nonempty", self.snap(v)))
            return TRUE
        if isinstance(v, T):
            if v.op == "gamma":
                c, a, b = v.args
                if a is not ABSENT and b is not ABSENT and a is not UNBOUND and b is not UNBOUND:
                    ta, tb = self.truth(a), self.truth(b)
                    if ta == tb:
                        return ta
                    if isinstance(ta, K) and isinstance(tb, K):
                        return c if ta.v else neg(c)
                    if isinstance(tb, K):
                        return T("and", c, ta) if not tb.v else T("or", neg(c), ta)
                    if isinstance(ta, K):
                        return T("or", c, tb) if ta.v else T("and", neg(c), tb)
            if is_boolean(v) or v.op in ("looped", "exc"):
                return v
            if v.op in ("copy",):
                return self.truth(v.args[0])
            if v.op in ("sorted", "reversed"):
                return self.truth(v.args[0])
            self.effect("truth-test", v, None, node)
            return T("truth", v)
        return T("truth", T("sym", "?"))

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return neg(self.cond(n.operand))
        v = self.eval(n.operand)
        op = type(n.op).__name__
        if isinstance(v, K):
            try:
                return K({"USub": lambda x: -x, "UAdd": lambda x: +x, "Invert": lambda x: ~x}[op](v.v))
            except Exception:
                pass
        if op == "USub" and isinstance(v, T) and v.op == "un" and v.args[0] == "USub":
            return v.args[1]
        return T("un", op, self.snap(v))

    def e_BinOp(self, n):
        return self.binop(type(n.op).__name__, self.eval(n.left), self.eval(n.right), n)

    def binop(self, op, a, b, node):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, K) and isinstance(b, K):
            try:
                return K(_BIN[op](a.v, b.v))
            except Exception:
                return T("bin", op, a, b)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and isinstance(self.read(x.id), ListC) and self.read(x.id).kind == "list":
                    if isinstance(y, K) and isinstance(y.v, int) and y.v <= 400:
                        return self.new_segs(self.read(x.id).segs * y.v, "list", node)
                    if isinstance(y, T):
                        self.loopn += 1
                        return self.new_segs([("each", self.loopn, T("range", y), self.read(x.id).segs)], "list", node)
                if isinstance(x, Tup) and isinstance(y, K) and isinstance(y.v, int):
                    return Tup(x.items * y.v)
        if op == "Add":
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            ra = isinstance(a, Ref) and isinstance(self.read(a.id), ListC) and self.read(a.id).kind == "list"
            rb = isinstance(b, Ref) and isinstance(self.read(b.id), ListC) and self.read(b.id).kind == "list"
            if ra or rb:
                def isseq(x):
                    return isinstance(x, Ref) or (isinstance(x, T) and x.op == "gamma")
                if (ra or isseq(a)) and (rb or isseq(b)) or ra or rb:
                    if not ((ra and isinstance(b, K)) or (rb and isinstance(a, K))):
                        return self.new_segs(self.alt_segs(a, node) + self.alt_segs(b, node), "list", node)
            if isinstance(a, T) and a.op == "list" and a.args[1] == "list":
                return self.new_segs(list(a.args[0]) + self.alt_segs(b, node), "list", node)
        if op == "Mod" and isinstance(a, K) and isinstance(a.v, str):
            return T("fmt%", a, self.snap(b))
        if isinstance(a, T) and a.op == "gamma" and isinstance(b, K) and self.const_gamma(a):
            return self.distribute(a, lambda x: self.binop(op, x, b, node))
        if isinstance(b, T) and b.op == "gamma" and isinstance(a, K) and self.const_gamma(b):
            return self.distribute(b, lambda x: self.binop(op, a, x, node))
        return T("bin", op, self.snap(a), self.snap(b))

    def alt_segs(self, v, node):
        v = self.resolve(v)
        if isinstance(v, T) and v.op == "gamma":
            c, a, b = v.args
            return [("gamma", c, tuple(self.alt_segs(a, node)), tuple(self.alt_segs(b, node)))]
        return self.segs_of(v, node)

    def const_gamma(self, v, d=0):
        if isinstance(v, K):
            return True
        return isinstance(v, T) and v.op == "gamma" and d < 6 and self.const_gamma(v.args[1], d + 1) \
            and self.const_gamma(v.args[2], d + 1)

    def e_Compare(self, n):
        left = self.eval(n.left)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r)
            out.append(self.compare(type(op).__name__, left, right, n))
            left = right
        if len(out) == 1:
            return out[0]
        if any(o == FALSE for o in out):
            return FALSE
        out = [o for o in out if o != TRUE]
        return TRUE if not out else out[0] if len(out) == 1 else T("and", *out)

    def compare(self, op, a, b, node):
        a, b = self.resolve(a), self.resolve(b)
        sym = {"Eq": "==", "NotEq": "!=", "Is": "is", "IsNot": "isnot", "In": "in", "NotIn": "notin", "Lt": "<",
               "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
        if sym in ("notin", "!=", "isnot"):
            return neg(self.compare({"notin": "In", "!=": "Eq", "isnot": "Is"}[sym], a, b, node))
        if sym in ("in",):
            return self.contains(a, b, node)
        if isinstance(a, T) and a.op == "gamma" and (sym in ("is", "==") or isinstance(b, K)) and isinstance(b, K):
            return self.gate_bool(a, lambda x: self.compare(op, x, b, node))
        if isinstance(b, T) and b.op == "gamma" and isinstance(a, K):
            return self.gate_bool(b, lambda x: self.compare(op, a, x, node))
        if isinstance(a, K) and isinstance(b, K):
            try:
                return K(bool({"==": lambda: a.v == b.v, "is": lambda: a.v is b.v or (a.v == b.v and type(a.v) is type(b.v)),
                               "<": lambda: a.v < b.v, "<=": lambda: a.v <= b.v, ">": lambda: a.v > b.v,
                               ">=": lambda: a.v >= b.v}[sym]()))
            except Exception:
                return T("cmp", sym, a, b)
        if sym == "is" or sym == "==":
            for x, y in ((a, b), (b, a)):
                if y == NONE and (isinstance(x, (Ref, Tup, Fn, Bound, Cls, Mod, Partial)) or self.notnone(x)):
                    return FALSE
            if a == b and isinstance(a, (K, Tup, Cls, Fn)):
                return TRUE
            if sym == "==" and isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
                cs = [self.compare("Eq", x, y, node) for x, y in zip(a.items, b.items)]
                if all(c == TRUE for c in cs):
                    return TRUE
                if any(c == FALSE for c in cs):
                    return FALSE
            r = self.equal_containers(a, b, node) if sym == "==" else None
            if r is not None:
                return r
            if isinstance(a, K) and not isinstance(b, K):
                a, b = b, a
        return T("cmp", sym, self.snap(a), self.snap(b))

    def equal_containers(self, a, b, node):
        """TRUE/FALSE when the kinds or sizes of two containers decide, None otherwise."""
        def kind(x):
            if isinstance(x, K):
                return "scalar" if x.v is None or isinstance(x.v, (str, bytes, int, float, complex)) else None
            if isinstance(x, Tup):
                return "tuple"
            if isinstance(x, Ref):
                c = self.read(x.id)
                if isinstance(c, DictC) and c.base is None and not c.loose and not any(isinstance(k, T) for k in c.ent):
                    return "dict"
                if isinstance(c, ListC) and self.plain_list(x) and c.items() is not None:
                    return "list"
            return None
        if isinstance(a, Ref) and a == b:
            return TRUE if kind(a) else None
        p, q = kind(a), kind(b)
        if p is None or q is None or p == q == "scalar":
            return None
        if p != q:
            return FALSE
        if p == "dict":
            x, y = self.read(a.id), self.read(b.id)
            if any(v is ABSENT or isinstance(v, T) and v.op == "gamma" for c in (x, y) for v in c.ent.values()):
                return None
            if set(x.ent) != set(y.ent):
                return FALSE
            cs = [self.compare("Eq", x.ent[k], y.ent[k], node) for k in x.ent]
        elif p == "list":
            x, y = self.read(a.id).items(), self.read(b.id).items()
            if len(x) != len(y):
                return FALSE
            cs = [self.compare("Eq", u, v, node) for u, v in zip(x, y)]
        else:
            if len(a.items) != len(b.items):
                return FALSE
            return None
        if all(c == TRUE for c in cs):
            return TRUE
        return FALSE if any(c == FALSE for c in cs) else None

    def plain_list(self, ref):
        return self.read(ref.id).kind == "list"

    def gate_bool(self, v, f):
        c, a, b = v.args
        if a is ABSENT or a is UNBOUND:
            return f(b)
        if b is ABSENT or b is UNBOUND:
            return f(a)
        pc0 = self.pc
        self.assume(c, True)
        ra = f(self.resolve(a))
        self.pc = pc0
        self.assume(c, False)
        rb = f(self.resolve(b))
        self.pc = pc0
        if ra == rb:
            return ra
        if isinstance(ra, K) and isinstance(rb, K):
            return c if ra.v else neg(c)
        if isinstance(rb, K):
            return T("and", c, ra) if not rb.v else T("or", neg(c), ra)
        if isinstance(ra, K):
            return T("or", c, rb) if ra.v else T("and", neg(c), rb)
        return T("gamma", c, ra, rb)

    def notnone(self, v):
        return isinstance(v, T) and v.op in ("list", "dict", "fstr", "format", "bin", "keys", "values", "items", "sorted",
                                             "zip", "enumerate", "range", "rec", "tupleof", "copy_nn", "enter", "next",
                                             "open", "join", "len") or \
            (isinstance(v, T) and v.op == "call" and isinstance(v.args[0], Ext) and v.args[0].name in
             ("builtins.len", "builtins.int", "builtins.float", "builtins.str", "numpy.array", "numpy.zeros",
              "numpy.concatenate", "numpy.full", "numpy.asarray", "numpy.transpose", "numpy.ndim")) or \
            (isinstance(v, T) and v.op == "mcall" and v.args[1] in ("strip", "lower", "upper", "split", "readline",
                                                                    "replace", "join", "format", "rstrip", "lstrip"))

    def contains(self, a, b, node):
        b = self.resolve(b)
        if isinstance(b, T) and b.op == "gamma":
            return self.gate_bool(b, lambda x: self.contains(a, x, node))
        if isinstance(b, T) and b.op == "keys":
            b = self.resolve(b.args[0])
            if isinstance(b, T) and b.op == "gamma":
                return self.gate_bool(b, lambda x: self.contains(a, x, node))
        if isinstance(a, T) and a.op == "gamma" and self.const_gamma(a):
            return self.gate_bool(a, lambda x: self.contains(x, b, node))
        if isinstance(b, K) and isinstance(a, K):
            try:
                return K(a.v in b.v)
            except Exception:
                return T("cmp", "in", a, b)
        if isinstance(b, Ref):
            c = self.read(b.id)
            if isinstance(c, DictC):
                if a in c.ent:
                    return self.presence(self.resolve(c.ent[a])) if not isinstance(a, T) else \
                        self.presence(self.resolve(c.ent[a]))
                if c.base is None and not c.loose and not c.ent:
                    return FALSE
                if isinstance(a, K) or self.fixed(a):
                    if c.base is None and not c.loose and all(isinstance(k, K) or self.fixed(k) for k in c.ent):
                        return FALSE
                    if c.base is not None:
                        return self.in_base(a, c.base)
                return T("cmp", "in", a, self.snap(b))
            if isinstance(c, ListC):
                items = c.items()
                if items is not None:
                    return self.in_items(a, items, b)
                return T("cmp", "in", a, self.snap(b))
        if isinstance(b, Tup):
            return self.in_items(a, list(b.items), b)
        if isinstance(b, T):
            ov = self.heap.get(("ov", b))
            if ov is not None and a in ov.ent:
                return self.presence(self.resolve(ov.ent[a]))
            if b.op == "list":
                items = ListC(b.args[0]).items()
                if items is not None:
                    return self.in_items(a, items, b)
            while isinstance(b, T) and b.op == "copy":
                b = b.args[0]
            return T("cmp", "in", self.snap(a), b)
        return T("cmp", "in", self.snap(a), self.snap(b))

    def fixed(self, v):
        return isinstance(v, Tup) and all(isinstance(x, K) or self.fixed(x) for x in v.items)

    def in_base(self, a, base):
        if isinstance(base, T) and base.op == "gamma":
            x, y = self.in_base(a, base.args[1]), self.in_base(a, base.args[2])
            return x if x == y else T("gamma", base.args[0], x, y)
        if isinstance(base, T) and base.op == "nobase":
            return FALSE
        if isinstance(base, T) and base.op == "updated":
            return T("or", T("cmp", "in", a, base.args[1]), self.in_base(a, base.args[0]))
        while isinstance(base, T) and base.op == "copy":
            base = base.args[0]
        return T("cmp", "in", a, base)

    def in_items(self, a, items, b):
        res = [self.compare("Eq", a, x, None) for x in items]
        if any(r == TRUE for r in res):
            return TRUE
        rest = [r for r in res if r != FALSE]
        if not rest:
            return FALSE
        if isinstance(a, K) or not all(isinstance(x, K) for x in items):
            return T("cmp", "in", self.snap(a), self.snap(b))
        return rest[0] if len(rest) == 1 else T("or", *rest)

    def e_Subscript(self, n):
        base = self.eval(n.value)
        return self.getitem(base, self.eval_slice(n.slice), n)

    def eval_slice(self, s):
        if isinstance(s, ast.Slice):
            return T("slicekey", *[self.snap(self.eval(x)) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return Tup([self.eval_slice(e) for e in s.elts])
        v = self.eval(s)
        return v

    # ---- comprehensions -----------------------------------------------------------------

    def comp(self, n, emit):
        outer = self.ctx
        fr = Ref("frame")
        self.write(fr.id, {})
        self.fparent[fr.id] = outer.frame
        ctx = Ctx(outer.module, fr, outer.func, outer.owner, outer.self_)
        ctx.level = outer.level
        ctx.yields = outer.yields

        def rec(gens):
            if not gens:
                emit()
                return True
            g = gens[0]
            self.ctx = outer if gens is n.generators else ctx
            it = self.eval(g.iter)
            self.ctx = ctx

            def body(v):
                self.assign(g.target, v)

                def conds(ifs):
                    if not ifs:
                        return rec(gens[1:])
                    c = self.cond(ifs[0])
                    return self.if_(c, lambda: conds(ifs[1:]), lambda: True)
                return conds(g.ifs)

            return self.loop_over(it, body, n)
        try:
            if not rec(n.generators):
                raise Dead()
        finally:
            self.ctx = outer

    def e_ListComp(self, n):
        out = self.new_list([], "list", n)

        def emit():
            v = self.eval(n.elt)
            c = self.read(out.id)
            self.write(out.id, ListC(c.segs + (("item", v),), c.kind))
        self.comp(n, emit)
        return out

    def e_GeneratorExp(self, n):
        return self.e_ListComp(n)

    def e_SetComp(self, n):
        r = self.e_ListComp(n)
        c = self.read(r.id)
        self.write(r.id, ListC(c.segs, "set"))
        return r

    def e_DictComp(self, n):
        out = self.new_dict({}, None, n)

        def emit():
            k = self.eval(n.key)
            v = self.eval(n.value)
            c = self.read(out.id)
            ent = dict(c.ent)
            ent[k] = v
            self.write(out.id, DictC(c.base, ent, c.loose))
        self.comp(n, emit)
        return out

    # ---- calls ------------------------------------------------------------------------

    def e_Call(self, n):
        # super() needs the context
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            if n.args:
                cls, s = [self.eval(a) for a in n.args]
                return Super(cls, s) if isinstance(cls, Cls) else T("super", s)
            return Super(self.ctx.owner, self.ctx.self_)
        method = None
        if isinstance(n.func, ast.Attribute):
            base = self.eval(n.func.value)
            args, kwargs, star = self.call_args(n)
            return self.method(base, n.func.attr, args, kwargs, n, star)
        fn = self.eval(n.func)
        args, kwargs, star = self.call_args(n)
        return self.call(fn, args, kwargs, n, star)

    def call_args(self, n):
        args, kwargs, star = [], {}, []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                items = self.concrete(v)
                if items is not None:
                    args += items
                else:
                    star.append(("*", v, len(args)))
            else:
                args.append(self.eval(a))
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                c = self.dict_content(v)
                if c is not None and c.base is None and not c.loose and all(
                        isinstance(x, K) and self.presence(self.resolve(y)) == TRUE for x, y in c.ent.items()):
                    for x, y in c.ent.items():
                        kwargs[x.v] = y
                else:
                    star.append(("**", v, None))
            else:
                kwargs[k.arg] = v
        return args, kwargs, star

    def method(self, base, name, args, kwargs, node, star=()):
        base = self.resolve(base)
        if isinstance(base, T) and base.op == "gamma":
            c, a, b = base.args
            if a is ABSENT or a is UNBOUND:
                return self.method(b, name, args, kwargs, node, star)
            if b is ABSENT or b is UNBOUND:
                return self.method(a, name, args, kwargs, node, star)
            return self.branch(c, lambda: self.method(a, name, args, kwargs, node, star),
                               lambda: self.method(b, name, args, kwargs, node, star))
        if isinstance(base, (Mod, Cls, Super, Fn, Bound)):
            return self.call(self.getattr(base, name, node), args, kwargs, node, star)
        if isinstance(base, Ext):
            return self.call(Ext(base.name + "." + name), args, kwargs, node, star)
        if isinstance(base, Ref):
            c = self.read(base.id)
            if isinstance(c, InstC):
                f = self.getattr(base, name, node)
                if isinstance(f, T) and f.op == "attr" and c.cls is not None and c.cls.fields and name == "_replace":
                    attrs = dict(c.attrs)
                    attrs.update(kwargs)
                    return self.new("inst", InstC(c.cls, attrs))
                h = self.ext_hooks.get("." + name) if isinstance(f, T) else None
                r = h(self, base, args, kwargs, node) if h is not None else None
                return r if r is not None else self.call(f, args, kwargs, node, star)
            if isinstance(c, ListC):
                return self.list_method(base, c, name, args, kwargs, node)
            if isinstance(c, DictC):
                return self.dict_method(base, name, args, kwargs, node)
        if isinstance(base, (K, Tup)):
            return self.const_method(base, name, args, kwargs, node)
        if isinstance(base, T):
            cls = self.class_of(base)
            if cls is not None and cls.lookup(name) is not None:
                return self.call(self.getattr(base, name, node), args, kwargs, node, star)
            ova = self.heap.get(("oa", base))
            if ova is not None and name in ova.attrs:
                return self.call(self.getattr(base, name, node), args, kwargs, node, star)
            if name in ("keys", "values", "items") and not args:
                return T(name, base)
            if name in ("update", "get", "pop", "setdefault") and not self.is_module_like(base):
                return self.dict_method(base, name, args, kwargs, node)
            if name == "copy" and not args:
                return self.fresh("shallow", base)
            if name in MUTATORS:
                self.effect("mutate", base, (name,) + tuple(args), node)
                if name in ("append", "extend", "insert", "add"):
                    key = ("app", base)
                    cur = self.heap.get(key) or ListC([], "list")
                    segs = [("item", args[-1])] if name != "extend" else self.segs_of(args[0]) if args else []
                    self.write(key, ListC(cur.segs + tuple(segs), "list"))
                return self.fresh("mresult", base, name) if name in ("pop", "popitem") else NONE
            if name == "setter":
                return T("propsetter", base)
            if name == "split" and base.op in ("list",):
                pass
            sargs = tuple(self.snap(a) for a in args) + tuple(T("star", s[0], self.snap(s[1])) for s in star)
            skw = tuple(sorted((k, self.snap(v)) for k, v in kwargs.items()))
            self.effect("mcall", base, (name, sargs, skw, tuple(args)), node)
            h = self.ext_hooks.get("." + name)
            if h is not None:
                r = h(self, base, args, kwargs, node)
                if r is not None:
                    return r
            if name in IMPURE_METHODS:
                return self.fresh("mcall", base, name, sargs, skw)
            return T("mcall", base, name, sargs, skw)
        f = self.getattr(base, name, node)
        return self.call(f, args, kwargs, node, star)

    def is_module_like(self, t):
        return False

    def list_method(self, base, c, name, args, kwargs, node):
        if name in MUTATORS:
            self.effect("mutate", base, (name,) + tuple(args), node)
        if name in ("append", "add"):
            self.write(base.id, ListC(c.segs + (("item", args[0]),), c.kind))
            return NONE
        if name in ("extend",) or (name == "update" and c.kind == "set"):
            self.write(base.id, ListC(c.segs + tuple(self.alt_segs(args[0], node)), c.kind))
            return NONE
        if name == "insert":
            if args[0] == K(0):
                self.write(base.id, ListC((("item", args[1]),) + c.segs, c.kind))
            else:
                items = c.items()
                if items is not None and isinstance(args[0], K):
                    items.insert(args[0].v, args[1])
                    self.write(base.id, ListC([("item", x) for x in items], c.kind))
                else:
                    self.write(base.id, ListC(c.segs + (("item", args[1]),), c.kind))
            return NONE
        if name == "pop":
            items = c.items()
            i = args[0] if args else K(-1)
            if items and isinstance(i, K):
                try:
                    v = items.pop(i.v)
                    self.write(base.id, ListC([("item", x) for x in items], c.kind))
                    return v
                except Exception:
                    pass
            if i == K(0) and c.segs and c.segs[0][0] == "item":
                self.write(base.id, ListC(c.segs[1:], c.kind))
                return c.segs[0][1]
            snap = self.snap(base)
            self.write(base.id, ListC([("splice", T("popped", snap))], c.kind))
            return T("get", snap, i)
        if name in ("sort", "reverse"):
            items = c.items()
            if items is not None and all(isinstance(x, K) for x in items) and not kwargs:
                vals = [x.v for x in items]
                try:
                    getattr(vals, name)()
                    self.write(base.id, ListC([("item", K(x)) for x in vals], c.kind))
                    return NONE
                except Exception:
                    pass
            self.write(base.id, ListC([("splice", T("sorted" if name == "sort" else "reversed", self.snap(base)))], c.kind))
            return NONE
        if name == "clear":
            self.write(base.id, ListC([], c.kind))
            return NONE
        if name == "copy":
            return self.new_segs(c.segs, c.kind, node)
        if name == "index":
            items = c.items()
            if items is not None and isinstance(args[0], K):
                for i, x in enumerate(items):
                    if x == args[0]:
                        return K(i)
        if name == "count":
            items = c.items()
            if items is not None and all(isinstance(x, K) for x in items) and isinstance(args[0], K):
                return K(sum(x == args[0] for x in items))
        if name == "tolist":
            return self.new_segs(c.segs, "list", node)
        if name == "remove":
            items = c.items()
            if items is not None and args[0] in items:
                items.remove(args[0])
                self.write(base.id, ListC([("item", x) for x in items], c.kind))
            return NONE
        sargs = tuple(self.snap(a) for a in args)
        skw = tuple(sorted((k, self.snap(v)) for k, v in kwargs.items()))
        self.effect("mcall", base, (name, sargs, skw, tuple(args)), node)
        h = self.ext_hooks.get("." + name)
        if h is not None:
            r = h(self, base, args, kwargs, node)
            if r is not None:
                return r
        return T("mcall", self.snap(base), name, sargs, skw)

    def dict_method(self, base, name, args, kwargs, node):
        if name in ("keys", "values", "items"):
            return T(name, base)
        if name == "update":
            for a in args:
                self.dict_update(base, a, node)
            if kwargs:
                for k, v in kwargs.items():
                    self.setitem(base, K(k), v, node)
            return NONE
        if name == "get":
            d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            c = self.contains(args[0], base, node)
            return self.branch(c, lambda: self.getitem(base, args[0], node), lambda: d)
        if name == "setdefault":
            d = args[1] if len(args) > 1 else NONE
            c = self.contains(args[0], base, node)

            def setd():
                self.setitem(base, args[0], d, node)
                return d
            return self.branch(c, lambda: self.getitem(base, args[0], node), setd)
        if name == "pop":
            self.effect("mutate", base, ("pop",) + tuple(args), node)
            v = self.getitem(base, args[0], node) if len(args) == 1 else self.branch(
                self.contains(args[0], base, node), lambda: self.getitem(base, args[0], node), lambda: args[1])
            self.dict_delete(base, args[0])
            return v
        if name == "copy":
            if isinstance(base, Ref):
                c = self.read(base.id)
                return self.new("dict", DictC(c.base, dict(c.ent), c.loose, c.kind), node)
            return self.fresh("shallow", base)
        if name == "clear":
            self.effect("mutate", base, ("clear",), node)
            if isinstance(base, Ref):
                self.write(base.id, DictC(None, {}))
            return NONE
        sargs = tuple(self.snap(a) for a in args)
        return T("mcall", self.snap(base), name, sargs, ())

    def dict_update(self, base, new, node):
        base = self.resolve(base)
        if isinstance(base, T) and base.op == "gamma":
            self.distribute(base, lambda b: self.dict_update(b, new, node))
            return
        new = self.resolve(new)
        if isinstance(new, T) and new.op == "gamma":
            c, a, b = new.args
            a = None if a in (ABSENT, UNBOUND) else a
            b = None if b in (ABSENT, UNBOUND) else b
            if a is None or b is None:
                return self.dict_update(base, a or b, node)
            self.branch(c, lambda: self.dict_update(base, a, node), lambda: self.dict_update(base, b, node))
            return
        nc = self.dict_content(new)
        self.effect("mutate", base, ("update", new), node)
        if isinstance(base, Ref):
            c = self.read(base.id)
            key = base.id
        else:
            key = ("ov", base)
            c = self.heap.get(key) or DictC(base, {})
        if not isinstance(c, DictC):
            return
        ent = dict(c.ent)
        bb, loose = c.base, c.loose
        if nc is not None:
            if nc.base is not None and nc.base is not new:
                ent, bb = self._update_base(ent, bb, nc.base)
            elif nc.base is new:
                ent, bb = self._update_base(ent, bb, new)
            for k, v in nc.ent.items():
                v = self.resolve(v)
                p = self.presence(v)
                if p == TRUE:
                    ent[k] = v
                elif p != FALSE:
                    old = ent.get(k, ABSENT)
                    if old is ABSENT and bb is not None:
                        old = self.base_get(bb, k)
                    ent[k] = gamma(p, self.strip_absent(v), old)
            loose = loose or nc.loose
        elif isinstance(new, T):
            ent, bb = self._update_base(ent, bb, new)
        else:
            items = self.concrete(new)
            if items is not None:
                for it in items:
                    ent[self.getitem(it, K(0))] = self.getitem(it, K(1))
        self.write(key, DictC(bb, ent, loose, c.kind))

    def _update_base(self, ent, bb, new):
        src = new
        while isinstance(src, T) and src.op == "copy":
            src = src.args[0]
        out = {}
        for k, v in ent.items():
            out[k] = gamma(T("cmp", "in", k, src), T("get", new, k), v)
        return out, (new if bb is None else T("updated", bb, new))

    # ---- call ---------------------------------------------------------------------------

    def call(self, fn, args, kwargs, node, star=()):
        fn = self.resolve(fn)
        self.calls_seen += 1
        if isinstance(fn, T) and fn.op == "gamma":
            c, a, b = fn.args
            if a in (ABSENT, UNBOUND):
                return self.call(b, args, kwargs, node, star)
            if b in (ABSENT, UNBOUND):
                return self.call(a, args, kwargs, node, star)
            return self.branch(c, lambda: self.call(a, args, kwargs, node, star),
                               lambda: self.call(b, args, kwargs, node, star))
        if isinstance(fn, Partial):
            kw = dict(fn.kwargs)
            kw.update(kwargs)
            return self.call(fn.fn, list(fn.args) + list(args), kw, node, star)
        if isinstance(fn, Bound):
            return self.call_fn(fn.fn, [fn.self_] + list(args), kwargs, node, star)
        if isinstance(fn, Fn):
            return self.call_fn(fn, args, kwargs, node, star)
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kwargs, node, star)
        if isinstance(fn, Ext):
            return self.call_ext(fn, args, kwargs, node, star)
        if isinstance(fn, Ref):
            c = self.read(fn.id)
            m = c.cls.lookup("__call__") if isinstance(c, InstC) and c.cls is not None else None
            if isinstance(m, Fn):
                return self.call_fn(m, [fn] + list(args), kwargs, node, star)
        if isinstance(fn, T) and fn.op == "get" and isinstance(fn.args[0], T) and fn.args[0].op == "table":
            # call through a dispatch table: every entry is a possible callee
            for k, v in fn.args[0].args[0]:
                if isinstance(v, (Fn, Cls, Bound)):
                    self.effect("table-call", v, (tuple(args), tuple(sorted(kwargs.items(), key=lambda x: x[0])), k,
                                                  tuple(star)), node)
            entries = [v for k, v in fn.args[0].args[0] if isinstance(v, (Fn, Cls, Bound))]
            if entries and len(entries) <= 12 and not self.no_table_calls:
                return self._table(fn, list(entries), args, kwargs, node, star, 0)
        sargs = tuple(self.snap(a) for a in args) + tuple(T("star", s[0], self.snap(s[1])) for s in star)
        skw = tuple(sorted((k, self.snap(v)) for k, v in kwargs.items()))
        self.effect("call", fn, (sargs, skw, tuple(args)), node)
        if isinstance(fn, T) and fn.op == "attr":
            return T("mcall", fn.args[0], fn.args[1], sargs, skw)
        return T("call", fn, sargs, skw)

    no_table_calls = False

    def _table(self, fn, entries, args, kwargs, node, star, i):
        if i == len(entries) - 1:
            return self.call(entries[i], args, kwargs, node, star)
        return self.branch(T("is", fn, K(i)), lambda: self.call(entries[i], args, kwargs, node, star),
                           lambda: self._table(fn, entries, args, kwargs, node, star, i + 1))

    def call_fn(self, fn, args, kwargs, node, star=()):
        h = self.hooks.get(fn.qual)
        if h is not None:
            r = h(self, fn, args, kwargs, node)
            if r is not None:
                return r
        depth = len(self.stack)
        if depth > MAX_DEPTH or sum(1 for s in self.stack if s[3] is fn) >= self.max_recursion:
            sargs = tuple(self.snap(a) for a in args)
            self.effect("call", fn, (sargs, (), tuple(args)), node)
            return T("call", fn, sargs, tuple(sorted((k, self.snap(v)) for k, v in kwargs.items())))
        self.inlined.add(fn.qual)
        self.effect("enter", fn, (tuple(args), tuple(sorted(kwargs.items(), key=lambda x: x[0]))), node)
        # bind arguments
        frame = {}
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        pos_args = list(args)
        star_pos = [s for s in star if s[0] == "*"]
        star_kw = [s for s in star if s[0] == "**"]
        if star_pos:
            sv = star_pos[0][1]
            at = star_pos[0][2]
            for j in range(max(0, len(names) - len(pos_args))):
                if names[len(pos_args)] in kwargs:
                    break
                pos_args.append(T("stararg", self.snap(sv), j))
        for nme, v in zip(names, pos_args):
            frame[nme] = v
        if a.vararg:
            extra = pos_args[len(names):]
            if star_pos:
                frame[a.vararg.arg] = T("starargs", self.snap(star_pos[0][1]), tuple(self.snap(x) for x in extra))
            else:
                frame[a.vararg.arg] = Tup(extra)
        elif len(pos_args) > len(names):
            self.effect("arity", fn, ("too many", len(pos_args)), node)
        extra_kw = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in frame:
                    self.effect("arity", fn, ("duplicate", k), node)
                frame[k] = v
            else:
                extra_kw[k] = v
        if a.kwarg:
            d = DictC(None, {K(k): v for k, v in extra_kw.items()})
            if star_kw:
                sv = star_kw[0][1]
                c = self.dict_content(sv)
                d = DictC(self.snap(sv) if c is None or c.base is None and c.loose else (c.base if c.base is not None else None),
                          dict({K(k): v for k, v in extra_kw.items()}, **({} if c is None else {})), False)
                if c is not None:
                    ent = dict(d.ent)
                    ent.update(c.ent)
                    d = DictC(c.base, ent, c.loose)
            frame[a.kwarg.arg] = self.new("dict", d, node)
        elif extra_kw:
            for k in extra_kw:
                self.effect("arity", fn, ("unexpected", k), node)
        nd = len(fn.defaults)
        for j, nme in enumerate(names):
            if nme not in frame:
                dflt = fn.defaults[j - (len(names) - nd)] if j >= len(names) - nd else None
                if star_kw:
                    sv = star_kw[0][1]
                    c = self.dict_content(sv)
                    if c is not None and c.base is None and not c.loose:
                        got = self.resolve(c.ent.get(K(nme), ABSENT))
                        p = self.presence(got)
                        if p == TRUE:
                            frame[nme] = got
                        elif p == FALSE:
                            frame[nme] = dflt if dflt is not None else T("sym", "?" + nme)
                            if dflt is None:
                                self.effect("arity", fn, ("missing", nme), node)
                        else:
                            frame[nme] = gamma(p, self.strip_absent(got), dflt or T("sym", "?" + nme))
                    else:
                        got = T("get", self.snap(sv), K(nme))
                        frame[nme] = gamma(T("cmp", "in", K(nme), self.snap(sv)), got, dflt) if dflt is not None else got
                elif dflt is not None:
                    frame[nme] = dflt
                else:
                    self.effect("arity", fn, ("missing", nme), node)
                    frame[nme] = T("sym", "?" + nme)
        for x in a.kwonlyargs:
            if x.arg not in frame:
                frame[x.arg] = fn.kwdefaults.get(x.arg, T("sym", "?" + x.arg))
        fr = Ref("frame")
        self.write(fr.id, frame)
        self.fparent[fr.id] = fn.frame
        outer = self.ctx
        pc0 = self.pc
        short = fn.qual[len(fn.module.name) + 1:]
        self.ctx = Ctx(fn.module, fr, short, fn.owner, args[0] if fn.owner and args else None)
        self.stack.append((fn.qual, outer.module.rel if outer else None, getattr(node, "lineno", 0), fn))
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body)
            is_gen = self.is_generator(fn.node)
            lvl = self.begin()
            self.ctx.level = lvl
            if is_gen:
                self.ctx.yields = self.new_list([], "gen", node)
            ctx = self.ctx
            ok = self.block(fn.node.body)
            exits = [e for e in ctx.exits if e.kind == "return"]
            fall = self.capture(lvl) if ok else None
            self.rollback(lvl)
            self.pc = pc0
            if fall is None and not exits:
                self.effect("noreturn", fn, None, node)
                raise Dead()
            alts = [(self.pc_cond(pc0, e.pc), e.delta, e.value) for e in exits]
            if fall is None:
                _, acc, val = alts.pop()
                # the remaining paths all raised: nothing to assume
            else:
                acc, val = fall, NONE
            for c, d, v in reversed(alts):
                acc = self.merge_deltas(c, d, acc)
                val = gamma(c, v, val)
            self.apply(acc)
            if is_gen:
                return ctx.yields
            return val
        finally:
            self.ctx = outer
            self.stack.pop()
            self.pc = pc0

    _gen_cache = {}

    def is_generator(self, node):
        r = self._gen_cache.get(node)
        if r is None:
            r = False
            stack = list(node.body)
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                stack.extend(ast.iter_child_nodes(x))
            self._gen_cache[node] = r
        return r

    def instantiate(self, cls, args, kwargs, node, star=()):
        if cls.fields is not None:  # namedtuple
            attrs = {}
            for f, v in zip(cls.fields, args):
                attrs[f] = v
            if star and star[0][0] == "*":
                for j, f in enumerate(cls.fields[len(args):]):
                    attrs[f] = T("get", self.snap(star[0][1]), K(j))
            for k, v in kwargs.items():
                attrs[k] = v
            if len(args) + len(kwargs) != len(cls.fields) and not star:
                self.effect("arity", cls, ("namedtuple", len(args) + len(kwargs)), node)
            return self.new("inst", InstC(cls, attrs), node)
        r = self.new("inst", InstC(cls, {}), node)
        self.effect("new", cls, r, node)
        init = cls.lookup("__init__")
        if isinstance(init, Fn):
            self.call_fn(init, [r] + list(args), kwargs, node, star)
        return r

    # ---- foreign functions -----------------------------------------------------------------

    def call_ext(self, fn, args, kwargs, node, star=()):
        name = fn.name
        h = self.ext_hooks.get(name)
        if h is not None:
            r = h(self, args, kwargs, node)
            if r is not None:
                return r
        short = name.split(".", 1)[1] if name.startswith("builtins.") else None
        f = getattr(self, "x_" + (short if short else name.replace(".", "_")), None)
        if f is not None and not star:
            r = f(args, kwargs, node)
            if r is not None:
                return r
        elif f is not None and short in ("zip",):
            return self.fresh("zipstar", *[self.snap(s[1]) for s in star])
        sargs = tuple(self.snap(a) for a in args) + tuple(T("star", s[0], self.snap(s[1])) for s in star)
        skw = tuple(sorted((k, self.snap(v)) for k, v in kwargs.items()))
        self.effect("call", fn, (sargs, skw, tuple(args)), node)
        if short and not kwargs and not star and all(isinstance(a, K) for a in args) and short in _PURE:
            try:
                return K(getattr(_b, short)(*[a.v for a in args]))
            except Exception:
                pass
        if name in IMPURE:
            return self.fresh("call", fn, sargs, skw)
        return T("call", fn, sargs, skw)

    def x_len(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, T) and v.op == "gamma":
            return self.distribute(v, lambda x: self.x_len([x], {}, node) or T("call", Ext("builtins.len"), (self.snap(x),), ()))
        if isinstance(v, K):
            try:
                return K(len(v.v))
            except Exception:
                return None
        if isinstance(v, Tup):
            return K(len(v.items))
        if isinstance(v, Ref):
            c = self.read(v.id)
            if isinstance(c, ListC) and c.items() is not None and c.kind != "set":
                return K(len(c.items()))
            if isinstance(c, DictC) and c.base is None and not c.loose and all(
                    isinstance(k, K) and self.presence(self.resolve(x)) == TRUE for k, x in c.ent.items()):
                return K(len(c.ent))
        return None

    def x_range(self, args, kwargs, node):
        if all(isinstance(a, K) for a in args):
            try:
                r = range(*[a.v for a in args])
                if len(r) <= MAX_UNROLL:
                    return self.new_list([K(i) for i in r], "range", node)
            except Exception:
                return None
        return T("range", *[self.snap(a) for a in args])

    def x_list(self, args, kwargs, node):
        if not args:
            return self.new_list([], "list", node)
        return self.new_segs(self.alt_segs(args[0], node), "list", node)

    def x_tuple(self, args, kwargs, node):
        if not args:
            return Tup([])
        items = self.concrete(args[0])
        if items is not None:
            return Tup(items)
        return self.new_segs(self.alt_segs(args[0], node), "tuple", node)

    def x_set(self, args, kwargs, node):
        if not args:
            return self.new_list([], "set", node)
        return self.new_segs(self.alt_segs(args[0], node), "set", node)

    x_frozenset = x_set

    def x_dict(self, args, kwargs, node):
        r = self.new_dict({}, None, node)
        if args:
            n = len(self.effects)
            self.dict_update(r, args[0], node)
            del self.effects[n:]
        c = self.read(r.id)
        ent = dict(c.ent)
        for k, v in kwargs.items():
            ent[K(k)] = v
        self.write(r.id, DictC(c.base, ent, c.loose))
        return r

    def x_zip(self, args, kwargs, node):
        lists = [self.concrete(a) for a in args]
        if all(l is not None for l in lists):
            return self.new_list([Tup(x) for x in zip(*lists)], "gen", node)
        return T("zip", *args)

    def x_enumerate(self, args, kwargs, node):
        start = args[1] if len(args) > 1 else kwargs.get("start", K(0))
        items = self.concrete(args[0])
        if items is not None and isinstance(start, K):
            return self.new_list([Tup([K(i + start.v), x]) for i, x in enumerate(items)], "gen", node)
        return T("enumerate", args[0], start)

    def x_sorted(self, args, kwargs, node):
        items = self.concrete(args[0])
        if items is not None and all(isinstance(x, K) for x in items) and not kwargs:
            try:
                return self.new_list([K(x) for x in sorted(x.v for x in items)], "list", node)
            except Exception:
                pass
        if items is None and not kwargs:
            segs = self.segs_of(args[0], node)
            its = [s for s in segs if s[0] == "item"]
            if its and all(isinstance(s[1], K) for s in its):
                try:
                    its = sorted(its, key=lambda s: s[1].v)
                except Exception:
                    pass
                rest = [s for s in segs if s[0] != "item"]
                return self.new_segs(its + rest, "list", node)
        return T("sorted", self.snap(args[0]), tuple(sorted((k, self.snap(v)) for k, v in kwargs.items())))

    def x_reversed(self, args, kwargs, node):
        items = self.concrete(args[0])
        if items is not None:
            return self.new_list(items[::-1], "gen", node)
        return T("reversed", self.snap(args[0]))

    def x_map(self, args, kwargs, node):
        out = self.new_list([], "gen", node)
        lists = args[1:]

        def body(v):
            vals = [v] if len(lists) == 1 else list(v.items) if isinstance(v, Tup) else [v]
            r = self.call(args[0], vals, {}, node)
            c = self.read(out.id)
            self.write(out.id, ListC(c.segs + (("item", r),), c.kind))
            return True
        it = lists[0] if len(lists) == 1 else self.x_zip(lists, {}, node)
        self.loop_over(it, body, node)
        return out

    def x_filter(self, args, kwargs, node):
        out = self.new_list([], "gen", node)

        def body(v):
            c = self.truth(v) if args[0] == NONE else self.truth(self.call(args[0], [v], {}, node))

            def add():
                cc = self.read(out.id)
                self.write(out.id, ListC(cc.segs + (("item", v),), cc.kind))
                return True
            return self.if_(c, add, lambda: True)
        self.loop_over(args[1], body, node)
        return out

    def quant(self, args, isany, node):
        segs = self.segs_of(args[0], node)
        out = []
        exact = True

        def rec(segs):
            nonlocal exact
            for s in segs:
                if s[0] == "item":
                    out.append(self.truth(s[1]))
                elif s[0] == "gamma":
                    n = len(out)
                    rec(s[2])
                    for i in range(n, len(out)):
                        out[i] = T("and", s[1], out[i]) if isany else T("or", neg(s[1]), out[i])
                    n = len(out)
                    rec(s[3])
                    for i in range(n, len(out)):
                        out[i] = T("and", neg(s[1]), out[i]) if isany else T("or", s[1], out[i])
                else:
                    exact = False
        rec(segs)
        if any(o == K(isany) for o in out):
            return K(isany)
        out2 = [o for o in out if o != K(not isany)]
        if exact:
            if not out2:
                return K(not isany)
            if len(out2) == 1:
                return out2[0]
            return T("or" if isany else "and", *out2)
        return T("truth", T("call", Ext("builtins.any" if isany else "builtins.all"), (self.snap(args[0]),), ()))

    def x_any(self, args, kwargs, node):
        return self.quant(args, True, node)

    def x_all(self, args, kwargs, node):
        return self.quant(args, False, node)

    def x_bool(self, args, kwargs, node):
        if not args:
            return FALSE
        return self.truth(args[0])

    def x_isinstance(self, args, kwargs, node):
        return self.isinstance_(args[0], args[1])

    def isinstance_(self, v, cls):
        v = self.resolve(v)
        cls = self.resolve(cls)
        if isinstance(v, T) and v.op == "gamma":
            return self.gate_bool(v, lambda x: self.isinstance_(x, cls))
        if isinstance(cls, Tup):
            rs = [self.isinstance_(v, c) for c in cls.items]
            if any(r == TRUE for r in rs):
                return TRUE
            if all(r == FALSE for r in rs):
                return FALSE
            return T("isinstance", self.snap(v), Tup([c for c in cls.items]))
        if isinstance(cls, Ref):
            items = self.concrete(cls)
            if items is not None:
                return self.isinstance_(v, Tup(items))
        tn = None
        if isinstance(v, K):
            tn = type(v.v)
            if isinstance(cls, Ext):
                py = getattr(_b, cls.name.split(".")[-1], None) if cls.name.startswith("builtins.") else None
                if isinstance(py, type):
                    return K(issubclass(tn, py))
                return FALSE
            return FALSE if isinstance(cls, Cls) else T("isinstance", v, cls)
        if isinstance(v, Tup):
            return K(isinstance(cls, Ext) and cls.name == "builtins.tuple") if isinstance(cls, (Ext, Cls)) else \
                T("isinstance", v, cls)
        if isinstance(v, Ref):
            c = self.read(v.id)
            if isinstance(c, ListC) and isinstance(cls, (Ext, Cls)):
                want = {"list": "builtins.list", "set": "builtins.set", "ndarray": "numpy.ndarray", "tuple": "builtins.tuple"}
                return K(isinstance(cls, Ext) and want.get(c.kind) == cls.name)
            if isinstance(c, DictC) and isinstance(cls, (Ext, Cls)):
                return K(isinstance(cls, Ext) and cls.name == "builtins.dict")
            if isinstance(c, InstC) and isinstance(cls, Cls):
                return K(cls in c.cls.mro()) if c.cls is not None else T("isinstance", v, cls)
            if isinstance(c, InstC) and isinstance(cls, Ext):
                if c.cls is not None and c.cls.fields is not None and cls.name == "builtins.tuple":
                    return TRUE
                return FALSE
        if isinstance(v, T) and v.op in ("list", "dict", "fstr", "tupleof", "keys", "next"):
            want = {"list": "builtins.list", "dict": "builtins.dict", "fstr": "builtins.str", "tupleof": "builtins.tuple"}
            if v.op == "list" and isinstance(cls, Ext):
                kinds = {"list": "builtins.list", "set": "builtins.set", "ndarray": "numpy.ndarray", "tuple": "builtins.tuple"}
                return K(kinds.get(v.args[1]) == cls.name)
            if v.op in want and isinstance(cls, Ext):
                return K(want[v.op] == cls.name)
        if isinstance(v, T) and isinstance(cls, Cls):
            c = self.class_of(v)
            if c is not None:
                return K(cls in c.mro())
        return T("isinstance", self.snap(v), cls)

    def x_hasattr(self, args, kwargs, node):
        v, nme = args
        if isinstance(v, Ref) and isinstance(nme, K):
            c = self.read(v.id)
            if isinstance(c, InstC):
                if nme.v in c.attrs:
                    return TRUE
                if c.cls is not None and c.base is None:
                    return K(c.cls.lookup(nme.v) is not None)
        if isinstance(v, T) and isinstance(nme, K):
            cls = self.class_of(v)
            if cls is not None and cls.lookup(nme.v) is not None:
                return TRUE
        return None

    def x_getattr(self, args, kwargs, node):
        if isinstance(args[1], K):
            return self.getattr(args[0], args[1].v, node)
        return None

    def x_setattr(self, args, kwargs, node):
        if isinstance(args[1], K):
            self.setattr(args[0], args[1].v, args[2], node)
            return NONE
        return None

    def x_str(self, args, kwargs, node):
        if args and isinstance(args[0], K):
            return K(str(args[0].v))
        if args and isinstance(args[0], T) and args[0].op == "gamma" and self.const_gamma(args[0]):
            return self.distribute(args[0], lambda x: K(str(x.v)))
        return None

    def x_max(self, args, kwargs, node):
        return self.minmax(max, args, kwargs)

    def x_min(self, args, kwargs, node):
        return self.minmax(min, args, kwargs)

    def minmax(self, f, args, kwargs):
        items = self.concrete(args[0]) if len(args) == 1 else list(args)
        if items and all(isinstance(x, K) for x in items) and not kwargs:
            try:
                return K(f(x.v for x in items))
            except Exception:
                return None
        return None

    def x_sum(self, args, kwargs, node):
        items = self.concrete(args[0])
        if items is not None and all(isinstance(x, K) for x in items) and len(args) == 1:
            try:
                return K(sum(x.v for x in items))
            except Exception:
                return None
        return None

    def x_iter(self, args, kwargs, node):
        if len(args) == 2:
            return self.fresh("iterlines", self.snap(args[0]), args[1])
        return self.fresh("iter", args[0])

    def x_next(self, args, kwargs, node):
        self.effect("next", args[0], tuple(args[1:]), node)
        return self.fresh("next", self.snap(args[0]))

    def x_open(self, args, kwargs, node):
        v = self.fresh("open", tuple(self.snap(a) for a in args), tuple(sorted((k, self.snap(x)) for k, x in kwargs.items())))
        self.effect("open", v, (tuple(args), tuple(sorted(kwargs.items(), key=lambda x: x[0]))), node)
        return v

    def x_type(self, args, kwargs, node):
        if len(args) == 1 and isinstance(args[0], Ref):
            c = self.read(args[0].id)
            if isinstance(c, InstC) and c.cls is not None:
                return c.cls
        return None

    def x_callable(self, args, kwargs, node):
        if isinstance(args[0], (Fn, Bound, Cls)):
            return TRUE
        return None

    def x_copy_deepcopy(self, args, kwargs, node):
        return self.deepcopy(args[0], {})

    def x_deepcopy(self, args, kwargs, node):
        return self.deepcopy(args[0], {})

    def x_copy_copy(self, args, kwargs, node):
        v = self.resolve(args[0])
        if isinstance(v, Ref):
            c = self.read(v.id)
            return self.new(v.kind, c, node)
        if isinstance(v, T):
            return self.fresh("shallow", v)
        return v

    def deepcopy(self, v, memo):
        v = self.resolve(v)
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            c = self.read(v.id)
            r = Ref(v.kind, v.site)
            memo[v.id] = r
            if isinstance(c, ListC):
                self.write(r.id, ListC(self.copy_segs(c.segs, memo), c.kind))
            elif isinstance(c, DictC):
                base = c.base
                if isinstance(base, Val) and not (isinstance(base, T) and base.op in ("copy", "nobase")):
                    base = self.deepcopy(base, memo)
                self.write(r.id, DictC(base, {k: self.deepcopy(x, memo) for k, x in c.ent.items()}, c.loose, c.kind))
            elif isinstance(c, InstC):
                self.write(r.id, InstC(c.cls, {k: self.deepcopy(x, memo) for k, x in c.attrs.items()},
                                       self.deepcopy(c.base, memo) if c.base is not None else None))
            else:
                return v
            return r
        if isinstance(v, Tup):
            return Tup([self.deepcopy(x, memo) for x in v.items])
        if isinstance(v, T):
            if v in (ABSENT, UNBOUND) or v.op in ("nobase",):
                return v
            if v.op == "gamma":
                return gamma(v.args[0], self.deepcopy(v.args[1], memo), self.deepcopy(v.args[2], memo))
            key = ("T", v)
            if key not in memo:
                r = self.fresh("copy", v)
                memo[key] = r
                ov = self.heap.get(("ov", v))
                if ov is not None:
                    self.write(("ov", r), DictC(r, {k: self.deepcopy(x, memo) for k, x in ov.ent.items()}, ov.loose))
                oa = self.heap.get(("oa", v))
                if oa is not None:
                    self.write(("oa", r), InstC(None, {k: self.deepcopy(x, memo) for k, x in oa.attrs.items()}, r))
            return memo[key]
        return v

    def copy_segs(self, segs, memo):
        out = []
        for s in segs:
            if s[0] in ("item", "splice"):
                out.append((s[0], self.deepcopy(s[1], memo)))
            elif s[0] == "gamma":
                out.append(("gamma", s[1], self.copy_segs(s[2], memo), self.copy_segs(s[3], memo)))
            else:
                out.append(("each", s[1], s[2], self.copy_segs(s[3], memo)))
        return tuple(out)

    def x_functools_wraps(self, args, kwargs, node):
        src = args[0] if args else None
        return Ext("verif.identity") if not isinstance(src, Fn) else Partial(Ext("verif.wrap"), [src], {})

    def x_verif_identity(self, args, kwargs, node):
        return args[0]

    def x_verif_wrap(self, args, kwargs, node):
        if isinstance(args[1], Fn):
            args[1].wraps = args[0]
        return args[1]

    def x_functools_partial(self, args, kwargs, node):
        return Partial(args[0], args[1:], kwargs)

    def x_collections_namedtuple(self, args, kwargs, node):
        fields = None
        if isinstance(args[1], K):
            fields = args[1].v.replace(",", " ").split()
        else:
            items = self.concrete(args[1])
            if items is not None:
                fields = [x.v for x in items]
        if fields is None or not isinstance(args[0], K):
            return None
        return Cls(args[0].v, self.ctx.module, [], {}, node, self.ctx.module.name + "." + args[0].v, fields)

    def x_numpy_array(self, args, kwargs, node):
        v = self.resolve(args[0])
        if isinstance(v, Ref) and isinstance(self.read(v.id), ListC) and not kwargs.get("copy") and len(args) == 1:
            c = self.read(v.id)
            if c.items() is not None:
                return self.new_segs(c.segs, "ndarray", node)
        return None

    def x_numpy_asarray(self, args, kwargs, node):
        return None

    # constants ---------------------------------------------------------------------

    def const_method(self, base, name, args, kwargs, node):
        if isinstance(base, K) and isinstance(base.v, str):
            if name == "join" and len(args) == 1:
                items = self.concrete(args[0])
                if items is not None and all(isinstance(x, K) for x in items):
                    try:
                        return K(base.v.join(x.v for x in items))
                    except Exception:
                        pass
                return T("join", base, self.snap(args[0]))
            if name == "format":
                if all(isinstance(a, K) for a in args) and all(isinstance(a, K) for a in kwargs.values()):
                    try:
                        return K(base.v.format(*[a.v for a in args], **{k: a.v for k, a in kwargs.items()}))
                    except Exception:
                        pass
                return T("format", base, tuple(self.snap(a) for a in args),
                         tuple(sorted((k, self.snap(v)) for k, v in kwargs.items())))
            if all(isinstance(a, (K, Tup)) for a in args) and not kwargs:
                try:
                    r = getattr(base.v, name)(*[self.py(a) for a in args])
                    return self.unpy(r)
                except Exception:
                    pass
        if isinstance(base, K) and isinstance(base.v, (int, float)) and all(isinstance(a, K) for a in args):
            try:
                return K(getattr(base.v, name)(*[a.v for a in args]))
            except Exception:
                pass
        sargs = tuple(self.snap(a) for a in args)
        skw = tuple(sorted((k, self.snap(v)) for k, v in kwargs.items()))
        if isinstance(base, Tup) and name in ("index", "count") and isinstance(args[0], K) and \
                all(isinstance(x, K) for x in base.items):
            vals = [x.v for x in base.items]
            try:
                return K(getattr(vals, name)(args[0].v))
            except Exception:
                pass
        self.effect("mcall", base, (name, sargs, skw, tuple(args)), node)
        return T("mcall", self.snap(base), name, sargs, skw)

    def py(self, v):
        if isinstance(v, K):
            return v.v
        if isinstance(v, Tup):
            return tuple(self.py(x) for x in v.items)
        raise ValueError

    def unpy(self, r):
        if isinstance(r, list):
            return self.new_list([self.unpy(x) for x in r])
        if isinstance(r, tuple):
            return Tup([self.unpy(x) for x in r])
        if isinstance(r, dict):
            return self.new_dict([(K(k), self.unpy(x)) for k, x in r.items()])
        return K(r)

    # ---- plain Python value of a constant structure --------------------------------

    def const(self, v, depth=0):
        """Python value of a fully constant abstract value; raises ValueError."""
        v = self.resolve(v)
        if isinstance(v, K):
            return v.v
        if isinstance(v, Tup):
            return tuple(self.const(x) for x in v.items)
        if isinstance(v, Ref):
            c = self.read(v.id)
            if isinstance(c, ListC):
                items = c.items()
                if items is not None:
                    return [self.const(x) for x in items]
            if isinstance(c, DictC) and c.base is None and not c.loose:
                return {self.const(k): self.const(x) for k, x in c.ent.items()}
        if isinstance(v, T) and v.op == "list":
            items = ListC(v.args[0]).items()
            if items is not None:
                return [self.const(x) for x in items]
        if isinstance(v, T) and v.op == "call" and isinstance(v.args[0], Ext) and v.args[0].name in (
                "numpy.array", "numpy.asarray") and v.args[1]:
            return self.const(v.args[1][0])
        raise ValueError("not constant: {!r}".format(v))


_PURE = {"int", "float", "str", "abs", "round", "repr", "len", "ord", "chr", "divmod", "pow", "bool", "min", "max"}
_BIN = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b if not (
        isinstance(a, str) and b > 5000 or isinstance(b, str) and a > 5000) else None,
    "Div": lambda a, b: a / b, "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b,
    "Pow": lambda a, b: a ** b, "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b,
    "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b, "BitXor": lambda a, b: a ^ b,
}
