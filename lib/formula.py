"""Interpreter extracting scalar formulas: elementary functions of unknown numbers stay readable terms."""
import math

import geom
from nd import NdInterp
from values import K, T

ONE = {"log": math.log, "exp": math.exp, "sqrt": math.sqrt, "abs": abs, "log10": math.log10, "fabs": abs, "absolute": abs}
ALIAS = {"fabs": "abs", "absolute": "abs", "minimum": "min", "maximum": "max", "fmin": "min", "fmax": "max"}
geom.FN.update({"log": math.log, "exp": math.exp, "log10": math.log10})


class FormulaInterp(NdInterp):
    def scalars(self, args):
        return bool(args) and all(isinstance(a, K) and isinstance(a.v, (int, float)) or isinstance(a, T) and self.is_scalar(a) for a in args)

    def call_ext(self, fn, args, kwargs, node, star=()):
        mod, _, name = fn.name.rpartition(".")
        if mod in ("numpy", "math", "builtins") and not star and not kwargs:
            xs = [self.resolve(a) for a in args]
            if self.scalars(xs) and any(isinstance(x, T) for x in xs):
                n = ALIAS.get(name, name)
                if n in ONE and len(xs) == 1:
                    return T("fn", n, xs[0])
                if n in ("min", "max") and len(xs) > 1:
                    return T("fn", n, *xs)
                if n in ("power", "pow") and len(xs) == 2:
                    return T("bin", "Pow", *xs)
                if n == "clip" and len(xs) == 3:
                    return T("fn", "min", T("fn", "max", xs[0], xs[1]), xs[2])
                if n == "where" and len(xs) == 3:
                    return T("sel", *xs)
                if n in ("float", "float64"):
                    return xs[0]
            if name in ("min", "max") and len(xs) == 1 and mod == "builtins":
                items = self.concrete(xs[0])
                if items and len(items) > 1 and self.scalars(items) and any(isinstance(x, T) for x in items):
                    return T("fn", name, *items)
        return super().call_ext(fn, args, kwargs, node, star)
