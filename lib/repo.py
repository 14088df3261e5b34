"""Loader: parses every module of the package from the current source."""
import ast
import hashlib
import os

ROOT = os.environ.get("TOUGHIO_REPO", "/repo")
PKG = "toughio"


class Broken(Exception):
    """The analysis cannot run (an anchor vanished, a file does not parse)."""


class Module:
    def __init__(self, name, path, is_pkg):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, ROOT)
        self.is_pkg = is_pkg
        with open(path, "rb") as f:
            raw = f.read()
        self.digest = hashlib.sha256(raw).hexdigest()
        self.source = raw.decode("utf-8")
        try:
            self.tree = ast.parse(self.source)
        except SyntaxError as e:
            raise Broken("{} does not parse: {}".format(self.rel, e))
        for node in ast.walk(self.tree):
            for child in ast.iter_child_nodes(node):
                child._parent = node

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]

    def resolve_relative(self, level, modname):
        if not level:
            return modname
        base = self.package().split(".")
        base = base[: len(base) - (level - 1)] if level > 1 else base
        return ".".join(base + ([modname] if modname else []))


class Repo:
    def __init__(self, root=None):
        self.root = root or ROOT
        self.modules = {}
        top = os.path.join(self.root, PKG)
        if not os.path.isdir(top):
            raise Broken("package directory {} not found".format(top))
        for dirpath, dirnames, filenames in os.walk(top):
            dirnames[:] = sorted(d for d in dirnames if d != "__pycache__")
            rel = os.path.relpath(dirpath, self.root).split(os.sep)
            for fn in sorted(filenames):
                if not fn.endswith(".py"):
                    continue
                is_pkg = fn == "__init__.py"
                name = ".".join(rel if is_pkg else rel + [fn[:-3]])
                self.modules[name] = Module(name, os.path.join(dirpath, fn), is_pkg)
        if not self.modules:
            raise Broken("no module found under {}".format(top))

    def functions(self):
        """Every function definition: (module, qualname, node)."""
        for m in self.modules.values():
            yield from self._functions(m, m.tree, "")

    def _functions(self, m, node, prefix):
        for child in ast.iter_child_nodes(node):
            if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + child.name
                yield m, q, child
                yield from self._functions(m, child, q + ".<locals>.")
            elif isinstance(child, ast.ClassDef):
                yield from self._functions(m, child, prefix + child.name + ".")
            else:
                yield from self._functions(m, child, prefix)
