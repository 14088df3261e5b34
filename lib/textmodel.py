"""Texts built by formatting, as sequences of fields with columns."""
import re
import string

from values import K, T, Tup

SPEC = re.compile(r"^(?:(.)?([<>=^]))?([-+ ])?#?(0)?(\d+)?(?:,|_)?(?:\.(\d+))?([a-zA-Z%])?$")


class Field:
    __slots__ = ("val", "spec", "width", "kind")

    def __init__(self, val, spec, width, kind):
        self.val, self.spec, self.width, self.kind = val, spec, width, kind

    def __repr__(self):
        return "<{} {} w={}>".format(self.kind, self.val, self.width)


class Opaque(Exception):
    pass


class BadFormat(Opaque):
    """Formatting that fails whenever it is reached."""


def items_of(v):
    if isinstance(v, T) and v.op == "list":
        if all(x[0] == "item" for x in v.args[0]):
            return [x[1] for x in v.args[0]]
        raise Opaque("open list")
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, tuple):
        return list(v)
    raise Opaque(v)


def pieces(v):
    """[Field] of a text value; literal text has kind 'lit'."""
    if isinstance(v, K):
        if not isinstance(v.v, str):
            raise Opaque("not text")
        return [Field(v, None, len(v.v), "lit")] if v.v else []
    if not isinstance(v, T):
        raise Opaque(v)
    if v.op == "bin" and v.args[0] == "Add":
        return pieces(v.args[1]) + pieces(v.args[2])
    if v.op == "fstr":
        out = []
        for p in v.args[0] if len(v.args) == 1 and isinstance(v.args[0], tuple) else v.args:
            out += pieces(p)
        return out
    if v.op == "format1":
        return [one(v.args[0], v.args[1])]
    if v.op == "format":
        fmt, args = v.args[0], v.args[1]
        kw = dict(v.args[2]) if len(v.args) > 2 and v.args[2] else {}
        if isinstance(fmt, T):
            raise Opaque("format text")
        out = []
        auto = 0
        for lit, name, spec, conv in string.Formatter().parse(fmt.v if isinstance(fmt, K) else fmt):
            if lit:
                out.append(Field(K(lit), None, len(lit), "lit"))
            if name is None:
                continue
            if name == "":
                a = args[auto]
                auto += 1
            elif name.isdigit():
                a = args[int(name)]
            elif name in kw:
                a = kw[name]
            else:
                raise Opaque("field " + name)
            out.append(one(a, spec))
        return out
    if v.op == "join" and isinstance(v.args[0], K):
        out = []
        for i, p in enumerate(items_of(v.args[1])):
            if i and v.args[0].v:
                out += pieces(v.args[0])
            out += pieces(p)
        return out
    raise Opaque(v)


def one(a, spec):
    if isinstance(spec, K):
        spec = spec.v
    if not isinstance(spec, str) or "{" in spec:
        raise Opaque("format specification")
    m = SPEC.match(spec)
    if not m:
        raise Opaque("format specification")
    w = int(m.group(5)) if m.group(5) else None
    if isinstance(a, K) and isinstance(a.v, (str, int, float)) and not isinstance(a.v, bool):
        try:
            s = format(a.v, spec)
            f = Field(a, spec, len(s), "text" if isinstance(a.v, str) else "const")
            return f
        except (ValueError, TypeError):
            raise BadFormat("{!r} cannot be formatted with {!r}".format(a.v, spec))
    return Field(a, spec, w, "value")


def lines(fields):
    """Split a field sequence into lines: [[(start, end, Field)]]; start None once a width is unknown."""
    out = [[]]
    pos = 0
    for f in fields:
        if f.kind == "lit":
            parts = f.val.v.split("\n")
            for i, p in enumerate(parts):
                if i:
                    out.append([])
                    pos = 0
                if p:
                    out[-1].append((pos, None if pos is None else pos + len(p), Field(K(p), None, len(p), "lit")))
                    pos = None if pos is None else pos + len(p)
            continue
        end = None if pos is None or f.width is None else pos + f.width
        out[-1].append((pos, end, f))
        pos = end
    return out


def text_of(line):
    """Text of a line when it is constant."""
    s = ""
    for _, _, f in line:
        if f.kind == "value":
            return None
        s += f.val.v if f.kind == "lit" else format(f.val.v, f.spec)
    return s


def column(line, a, b):
    """What stands in columns [a, b): ('blank',), ('text', s), ('value', term, Field) or None when not a unit."""
    s = ""
    for st, en, f in line:
        if st is None or en is None:
            if st is not None and st >= b:
                break
            return None
        if en <= a or st >= b:
            continue
        if f.kind == "value":
            if st >= a and en <= b and not s.strip():
                # nothing else may stand in the column
                rest = [g for x, y, g in line if x is not None and y is not None and x < b and y > a and g is not f]
                if all(g.kind != "value" and not (g.val.v if g.kind == "lit" else format(g.val.v, g.spec)).strip() for g in rest):
                    return ("value", f.val, f)
            return None
        t = f.val.v if f.kind == "lit" else format(f.val.v, f.spec)
        s += t[max(0, a - st):b - st]
    if not s.strip():
        return ("blank",)
    return ("text", s)
