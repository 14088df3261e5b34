"""C04: blocks are recognised, delimited, ordered, and complete in partial files."""
import roundtrip
import toughcases
from roundtrip import Out, Trip, plain, tidy

WRITER = "toughio/_io/input/tough/_write.py in write_buffer"
HEADINGS = ["ROCKS", "RPCAP", "FLAC", "MULTI", "SOLVR", "START", "PARAM", "SELEC", "INDOM", "MOMOP", "TIMES", "FOFT", "COFT", "GOFT", "GENER",
            "DIFFU", "OUTPU", "ELEME", "COORD", "CONNE", "INCON", "NOVER", "ENDCY"]
AFTER = {"FLAC": "ROCKS", "INDOM": "ROCKS", "RPCAP": None, "COORD": "ELEME", "CONNE": "ELEME", "INCON": "CONNE"}
PARTS = {"gener": (["GENER"], {"generators"}), "mesh": (["ELEME", "COORD", "CONNE"], {"elements", "coordinates", "connections"}),
         "incon": (["INCON"], {"initial_conditions"})}


def heads(lines):
    out = []
    for l in lines:
        w = l[:5].strip()
        if w in HEADINGS and l[:1] == w[:1] and (l[5:6] in ("-", "\n", " ", "") or l[4:5] in ("-", " ")):
            out.append(w)
    return out


def run(rep, tier):
    rep.rule("R1", "written alone or next to any other group, every group is recognised and delimited: all values come back, none is added")
    rep.rule("R2", "a block that completes an earlier one follows it; the end marker is the last block")
    rep.rule("R3", "a partial file holds exactly the blocks of its part, as they are in the complete file, and reads back as that part")
    rep.rule("R4", "every kind of block is written when its group is given")
    res = roundtrip.run(lambda M: list(toughcases.pairs(M)) + ([] if tier != "thorough" else list(toughcases.shapes(M, True))))
    roundtrip.judge(rep, "R1", res)
    order(rep, "R2", [(n, o) for n, o in res])
    partial(rep)


def order(rep, rule, res):
    for name, o in res:
        if o is None or o.opaque or not o.lines:
            continue
        hs = heads(o.lines)
        bad = False
        for a, b in AFTER.items():
            if b and a in hs and b in hs and hs.index(a) < hs.index(b):
                bad = True
                rep.bad(rule, WRITER, "block {} is written before {}, which it completes".format(a, b), key="{}|{}|{}".format(rule, a, b))
        if hs and hs[-1] != "ENDCY":
            bad = True
            rep.bad(rule, WRITER, "{}".format("block {} follows the end marker".format(hs[-1]) if "ENDCY" in hs else "the end marker is not written"),
                    key="{}|ENDCY".format(rule))
        if len(hs) != len(set(hs)):
            bad = True
            d = sorted({h for h in hs if hs.count(h) > 1})
            rep.bad(rule, WRITER, "block {} is written twice".format("/".join(d)), key="{}|twice|{}".format(rule, "/".join(d)))
        if not bad:
            rep.ok(rule, name)


def partial(rep):
    trip = Trip()
    F = dict(trip.M.full(), coordinates=True)
    lvl = trip.I.begin()
    out = Out()
    ok = trip.write(F, out)
    whole = [str(l) for l in trip.I.lines_of("F")] if ok else []
    texts = [plain(l) for l in trip.I.lines_of("F")] if ok else []
    trip.I.rollback(lvl)
    if not ok or out.opaque:
        rep.unknown("R3", WRITER, "the complete file is not known: {}".format(out.error or out.opaque[:1]))
        return
    hs = heads(texts)
    for h in HEADINGS:
        rep.check("R4", h in hs, WRITER, "no block {} is written although its group is given".format(h), key="R4|{}".format(h))
    groups = dict(split(whole, texts))
    for part, (want, keys) in PARTS.items():
        out = Out()
        lvl = trip.I.begin()
        ok = trip.write(F, out, block=part)
        ls = [str(l) for l in trip.I.lines_of("F")] if ok else []
        ts = [plain(l) for l in trip.I.lines_of("F")] if ok else []
        t = trip.read(out) if ok else None
        trip.I.rollback(lvl)
        if out.opaque:
            rep.unknown("R3", WRITER, "part '{}': {}".format(part, out.opaque[0]))
            continue
        if out.error:
            rep.bad("R3", out.error[2], "part '{}' cannot be {}: {}".format(part, {"write": "written", "read": "read back"}[out.phase], out.error[1]), key="R3|error|{}".format(part))
            continue
        got = dict(split(ls, ts))
        for h in sorted(set(got) - set(want), key=HEADINGS.index):
            rep.bad("R3", WRITER, "block {} is written although only part '{}' is asked for".format(h, part), key="R3|more|{}|{}".format(part, h))
        for h in want:
            if h not in got:
                rep.bad("R3", WRITER, "block {} is missing from part '{}'".format(h, part), key="R3|less|{}|{}".format(part, h))
            elif h in groups and [x for x in got[h] if x.strip()] != [x for x in groups[h] if x.strip()]:
                rep.bad("R3", WRITER, "block {} of part '{}' differs from the one of the complete file".format(h, part), key="R3|differs|{}|{}".format(part, h))
            else:
                rep.ok("R3", "{}: {}".format(part, h))
        o = Out()
        trip.compare({k: v for k, v in F.items() if k in keys}, t, o)
        for p, v in o.lost + [x[:2] for x in o.moved]:
            rep.bad("R3", roundtrip.place(p), "'{}' does not come back from a file of part '{}'".format(tidy(p), part), key="R3|lost|{}|{}".format(part, tidy(p)))
        for p, v in o.extra:
            if not roundtrip.completed(p, v):
                rep.bad("R3", roundtrip.place(p), "'{}' holds {} after reading a file of part '{}'".format(tidy(p), v, part), key="R3|extra|{}|{}".format(part, tidy(p)))
        if not (o.lost or o.moved):
            rep.ok("R3", "{} read back".format(part), n=max(1, o.n))


def split(lines, texts):
    """[(heading, lines of the block)]"""
    cur = None
    out = []
    for l, t in zip(lines, texts):
        if heads([t]):
            cur = []
            out.append((heads([t])[0], cur))
        if cur is not None:
            cur.append(l)
    return out
