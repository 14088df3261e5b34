"""C20: blank fields are read as absent values."""
import re

import roundtrip
import toughcases
from origin import attempt, build
from par import pmap
from roundtrip import Out, Trip, event, text, tidy, place, completed
from tx import mk, pcs
from values import K, T

# tables have as many entries as announced
TABLE = re.compile(r"times\.|generators\.[^.]*\.(times|rates|specific_enthalpy)\.")

# what a record is about cannot be left out
NAMES = {"ROCK1", "ROCK2", "AAA00", "AAA01", "AAA02", "TEMPERATURE", "MASS"}

# lines announcing how many records follow
COUNT = re.compile(r"^ROCK1|^ +9 *$|COM1")


def blanks(trip, P, **kw):
    """[(name of the value, file with its field blank)] for every field holding a value."""
    I = trip.I
    out = Out()
    lvl = I.begin()
    ok = trip.write(P, out, **kw)
    whole = I.content("F") if ok else ()
    I.rollback(lvl)
    res = []
    for i, p in enumerate(whole):
        if isinstance(p, T) and p.op == "hole" and p.args[2] and not TABLE.match(str(p.args[0].args[0]) if p.args[0].args else ""):
            res.append((p.args[0], whole[:i] + (K(" " * p.args[2]),) + whole[i + 1:]))
        elif isinstance(p, K):
            for m in re.finditer(r"[^ \n]+", p.v):
                a = p.v.rfind("\n", 0, m.start()) + 1
                b = p.v.find("\n", m.start())
                line = p.v[a:b if b >= 0 else None]
                if "----" in line or line.strip() == "ENDCY" or m.group() in NAMES or m.group()[:5] in NAMES or COUNT.search(line):
                    continue
                res.append((K("{} in '{}'".format(m.group(), line.strip()[:40])), whole[:i] + (K(p.v[:m.start()] + " " * len(m.group()) + p.v[m.end():]),) + whole[i + 1:]))
    return res, out


def complete(trip, P):
    lvl = trip.I.begin()
    trip.write(P, Out())
    whole = trip.I.content("F")
    trip.I.rollback(lvl)
    return whole


def stripped(whole):
    """The file without blanks at the ends of lines."""
    out = []
    for i, p in enumerate(whole):
        if isinstance(p, K):
            t = re.sub(r" +\n", "\n", p.v)
            out.append(K(t))
        else:
            out.append(p)
    return tuple(out)


def shortened(whole):
    """[(name, file)]: lines that end before one of their values."""
    lines = [[]]
    for p in whole:
        if isinstance(p, K):
            for j, s in enumerate(p.v.split("\n")):
                if j:
                    lines.append([])
                if s:
                    lines[-1].append(K(s))
        else:
            lines[-1].append(p)
    for i, l in enumerate(lines):
        head = "".join(p.v if isinstance(p, K) else "" for p in l)
        if "----" in head or COUNT.search(head):
            continue
        for j, p in enumerate(l):
            if isinstance(p, T) and j and not TABLE.match(str(p.args[0].args[0]) if p.args[0].args else "") and not (
                    j == 1 and isinstance(l[0], K) and not l[0].v.strip()):
                new = lines[:i] + [l[:j]] + lines[i + 1:]
                flat = []
                for x in new:
                    flat += x + [K("\n")]
                yield K("line ending before {}".format(text(p.args[0]))), tuple(pcs(mk(flat[:-1])))


def one(trip, P, val, whole):
    I = trip.I
    out = Out()
    lvl = I.begin()
    I.set_content("F", whole)
    t = trip.read(out)
    I.rollback(lvl)
    trip.compare(P, t, out)
    return text(val), out


def run(rep, tier):
    rep.rule("R1", "a file holding blanks in place of any one value is read to its end")
    rep.rule("R2", "the other values are still those of their own fields")
    rep.rule("R3", "what the writer leaves blank when something is omitted can be read back, and no value is invented for it")
    trip = Trip()
    todo = []
    sets = [("all groups", trip.M.full())]
    if tier == "thorough":
        sets.append(("labels of 8 characters", trip.M.full(8)))
    for name, P in sets:
        bs, out = blanks(trip, P)
        if not bs:
            rep.unknown("R1", name, "the written file is not known: {}".format(out.error or out.opaque[:1]))
        todo += [(name, P, v, w) for v, w in bs]
        if bs:
            whole = complete(trip, P)
            todo.append((name, P, T("scalar", "no value: lines without trailing blanks"), stripped(whole)))
            todo += [(name, P, v, w) for v, w in shortened(whole)]
    for c, r in zip(todo, pmap(lambda c: one(trip, *c[1:]), todo)):
        name, P, v, _ = c
        what = text(v)
        if r is None or r[1].opaque:
            rep.unknown("R1", what, "; ".join(r[1].opaque[:2]) if r else "analysis broke")
            continue
        o = r[1]
        rep.count("fields left blank", 1)
        path = tuple(str(v.args[0]).split(".")) if isinstance(v, T) and v.args and isinstance(v.args[0], str) else ()
        if o.error:
            rep.bad("R1", o.error[2], "reading fails ({}) when the field holding {} is blank".format(o.error[1], what),
                    key="R1|{}".format(tidy(path)))
            continue
        rep.ok("R1", what)
        if isinstance(v, K):
            continue
        seq = path[:-1] if path[-1:] and path[-1].isdigit() else path

        def near(p):
            # entries of the list the blank belongs to: its form may change with its length
            return p[:len(seq)] == seq
        bad = [(p, x) for p, x in o.lost if x != what and not (near(p) and any(near(q) and y == x for q, y in o.extra))]
        moved = [(p, x, y) for p, x, y in o.moved]
        extra = [(p, x) for p, x in o.extra if not completed(p, x) and not near(p)]
        for p, x in bad:
            rep.bad("R2", place(p), "{} is not read when the field of {} is blank".format(x, what), key="R2|lost|{}|{}".format(tidy(p), tidy(path)))
        for p, x, y in moved:
            rep.bad("R2", place(p), "'{}' holds {} when the field of {} is blank".format(tidy(p), y, what), key="R2|moved|{}|{}".format(tidy(p), tidy(path)))
        for p, x in extra:
            rep.bad("R2", place(p), "'{}' holds {} when the field of {} is blank".format(tidy(p), x, what), key="R2|extra|{}|{}".format(tidy(p), tidy(path)))
        if not (bad or moved or extra):
            rep.ok("R2", what, n=max(1, o.n))
    res = roundtrip.run(toughcases.omissions)
    roundtrip.judge(rep, "R3", res, roundtrip.omitted_allowed, write=False)
