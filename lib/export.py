"""Records exported from a mesh, as lines of abstract text."""
from geom import num
from meshmodel import get, nested
from origin import attempt
from textmodel import BadFormat, Opaque
from tx import pcs
from values import K

WHERE = "toughio/_mesh/tough/_tough.py"


def written(I, m, kw, method="write_tough", name="MESH", files=("MESH", "INCON")):
    """([(where, line)] of the files a mesh export writes, None); (None, [event]) when it always fails."""
    lvl = I.begin()
    try:
        v, e = attempt(I, I.call, I.getattr(m, method), [K(name)], kw, None)
        if e is not None:
            return None, [e] if not isinstance(e, str) else []
        if I.opaque:
            raise Opaque("; ".join(str(o)[:200] for o in I.opaque[:2]))
        out = []
        for f in files:
            out += [(WHERE, l) for l in I.lines_of(f)]
        return out, None
    finally:
        I.rollback(lvl)


def literal(line):
    return "".join(p.v if isinstance(p, K) else "\0" for p in pcs(line))


def block_lines(recs, keyword):
    """Lines of one block as [(where, line)], in order."""
    out = []
    on = False
    for w, l in recs:
        s = literal(l)
        if s.startswith(keyword) and "----" in s:
            on = True
        elif on and not s.strip("\n"):
            on = False
        elif on:
            out.append((w, l))
    return out


def column(line, a, b):
    """What stands in columns [a, b): ('blank',), ('text', s), ('value', term) or None when not a unit."""
    pos, s, val = 0, "", None
    for p in pcs(line):
        if isinstance(p, K):
            s += p.v[max(0, a - pos):max(0, b - pos)]
            pos += len(p.v)
            continue
        w = p.args[2]
        if w is None:
            if pos >= b:
                break
            return None
        if pos < b and pos + w > a:
            if pos < a or pos + w > b or val is not None:
                return None
            val = p.args[0]
        pos += w
    s = s.rstrip("\n")
    if val is not None:
        return None if s.strip() else ("value", val)
    return ("text", s) if s.strip() else ("blank",)


def labels_of(I, m):
    v, w = get(I, m, "labels")
    l = nested(I, v) if v is not None else None
    if l is None or not all(isinstance(x, K) for x in l):
        return None
    return [x.v for x in l]


def value_at(col, env, memo):
    if col is None:
        raise Opaque("column")
    if col[0] == "blank":
        return None
    if col[0] == "text":
        try:
            return float(col[1])
        except ValueError:
            return col[1]
    return num(col[1], env, memo)


def fail(rep, rule, where, case, e, key):
    """Report text that could not be followed: certain failures are violations."""
    if isinstance(e, BadFormat):
        rep.bad(rule, where, "{}: {}".format(case, e), key)
    else:
        rep.unknown(rule, where, "{}: {!r}".format(case, e))
