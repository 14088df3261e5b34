"""C01: every field is read from the record and column it is written to."""
from ev import Unknown, envs, ev, holds, strip
from iomodel import columns, compatible, same_columns
from models import analysed, reader, writer
from values import K, T, Tup, walk

MULTI_LINE = ("TIMES", "GENER", "PARAM", "SELEC", "DIFFU")


def p2s(p):
    return ".".join(str(x) for x in p) or "<all>"


def cols(lay, i):
    c = columns(lay, i)
    return "/".join(sorted({"{}-{}".format(a + 1, b) for a, b, _ in c.values()})) or "?"


def whole_files(rep, tier):
    import roundtrip
    import toughcases
    res = roundtrip.run(lambda M: list(toughcases.shapes(M, True)))
    roundtrip.judge(rep, "R9", res)
    if tier == "thorough":
        roundtrip.judge(rep, "R9", roundtrip.run(lambda M: list(toughcases.omissions(M)) + list(toughcases.pairs(M))), roundtrip.omitted_allowed, write=False)


class Structural:
    """R1-R8 compare the two programs piece by piece for any number of entries; where they disagree with how R9
    sees the same values travel, the pieces were misread: such obligations stay undecided."""

    def __init__(self, rep):
        self.rep = rep

    def __getattr__(self, name):
        return getattr(self.rep, name)

    def bad(self, rule, where, what, key=None):
        self.rep.unknown(rule, where, what)

    def check(self, rule, cond, where, what, key=None):
        if cond:
            self.rep.ok(rule, where)
        else:
            self.rep.unknown(rule, where, what)
        return cond


def run(rep, tier):
    W, R = writer(), reader()
    I = W.I
    rep.rule("R1", "a decoded field is stored under a parameter that the writer puts in those columns of the same block")
    rep.rule("R2", "a field filled from a parameter is handed back by the reader from the same columns")
    rep.rule("R3", "records of a block are consumed in the order they are produced")
    rep.rule("R4", "the number of optional records announced by a field equals the number consumed")
    rep.rule("R5", "digit strings: position p holds option p+1 on both sides")
    rep.rule("R6", "parameters recomputed from fields are recomputed to the value that was written")
    rep.rule("R7", "text lines holding values are stored under the group written to the block")
    rep.rule("R8", "flags read from the presence of a block have the value for which the block is written")
    rep.rule("R9", "carried through the writer and then the reader, every value of every shape of parameter set arrives under its own name and nothing else does")
    whole_files(rep, tier)
    rep = Structural(rep)
    if not R.scripted:
        rep.unknown("R1", R.I.repo.root, "the reader's loop over blocks was not recognised")
        return
    slots = {}
    for s, ps in R.out.items():
        slots.setdefault(s.args[0], {}).setdefault(s.args[1], set()).update(ps)
    info = {rd: (lay, pc, where) for rd, lay, pc, where in R.records}
    pairs = {}
    order = {}
    for blk in W.headers():
        wrecs = [o for o in W.block_of(blk) if o.kind == "rec" and o.layout]
        rrecs = [x for x in R.records if x[0].args[0] == K(blk)]
        opaque = [o for o in W.block_of(blk) if o.kind == "other"]
        for o in opaque:
            rep.unknown("R2", o.where, "content of a line in block {} not resolved".format(blk))
        rep.count("writer records", len(wrecs))
        rep.count("reader records", len(rrecs))
        unresolved = any(e.kind == "readrec-unknown" for e in R.effects)
        seq = []
        for rd, lay, pc, where in rrecs:
            best = None
            cands = []
            mine = slots.get(rd, {})
            for w in wrecs:
                ws = W.slots(w)
                good = bad = 0
                for i, ps in mine.items():
                    if all(d for _, d in ps) and any(not all(d for _, d in q) for q in mine.values()):
                        continue  # recomputed parameters: R6
                    if match(ps, lay, i, w, ws):
                        good += 1
                    else:
                        bad += 1
                if good and not bad:
                    cands.append(w)
                key = (good - bad, good)
                if good and (best is None or key > best[0]):
                    best = (key, w)
            if not mine:
                # nothing of it reaches the result: a header record, paired by its layout
                cands = [w for w in wrecs if w.layout == lay]
            pairs[rd] = cands
            if mine and not cands and wrecs:
                w = best[1] if best else None
                for i, ps in sorted(mine.items(), key=lambda x: str(x[0])):
                    if w is not None and match(ps, lay, i, w, W.slots(w)):
                        rep.ok("R1")
                        continue
                    if all(d for _, d in ps):
                        continue
                    nond = {p for p, d in ps if not d} or {p for p, d in ps}
                    there = find(W, wrecs, nond)
                    name = "/".join(sorted(p2s(p) for p in nond))
                    if there:
                        tgt = w if w is not None else there[0][0]
                        rep.bad("R1", where, "block {}: the field in columns {} is stored as '{}', which {} writes in columns {}".format(
                            blk, cols(lay, i), name, there[0][0].where, "/".join(sorted({cols(x.layout, j) for x, j in there}))),
                            key="R1|{}|{}|{}".format(blk, name, cols(lay, i)))
                    elif opaque:
                        rep.unknown("R1", where, "block {}: origin of '{}' not resolved".format(blk, name))
                    else:
                        rep.bad("R1", where, "block {}: the field in columns {} is stored as '{}', which the writer never writes in this block".format(
                            blk, cols(lay, i), name), key="R1|{}|{}|{}".format(blk, name, cols(lay, i)))
            else:
                rep.ok("R1", "{} {} <- {}".format(blk, where, cands[0].where if cands else "-"), n=max(1, len(mine)))
            if cands and mine:
                seq.append((rd, where, cands))
        # R2
        for w in wrecs:
            ws = W.slots(w)
            for i, ps in sorted(ws.items()):
                nond = {(p, d) for p, d in ps if not d}
                if not nond:
                    continue
                back = False
                for rd, lay, pc, where in rrecs:
                    for j, qs in slots.get(rd, {}).items():
                        if same_columns(w.layout, i, lay, j) and (any(
                                compatible(p, q) for p, _ in nond for q, _ in qs) or all(d for _, d in qs)):
                            back = True
                    if all(p[-1:] == ("#key",) or "order" in str(p[:1]) for p, _ in nond):
                        # names: used to find the entry the record belongs to
                        back = back or any(same_columns(w.layout, i, lay, j) and T("slot", rd, j) in R.used
                                           for j in range(12))
                back = back or any(compatible(p, q) and len(p) == len(q) for p, _ in nond for q in R.linepaths)
                if back:
                    rep.ok("R2", "{} {}: columns {}".format(blk, w.where, cols(w.layout, i)))
                    continue
                if not rrecs:
                    continue  # lines read as text: R7
                if unresolved:
                    rep.unknown("R2", w.where, "a record of the reader has an unresolved layout")
                    continue
                name = "/".join(sorted(p2s(p) for p, _ in nond))
                rep.bad("R2", w.where, "block {}: '{}' is written in columns {} but never read back from there".format(
                    blk, name, cols(w.layout, i)), key="R2|{}|{}|{}".format(blk, name, cols(w.layout, i)))
        # R3
        prev = None
        for rd, where, cands in seq:
            ns = [w.n for w in cands]
            if prev is None:
                prev = (min(ns), where)
                rep.ok("R3")
                continue
            later = [n for n in ns if n >= prev[0]]
            if later:
                prev = (min(later), where)
                rep.ok("R3", "{} {}".format(blk, where))
            else:
                rep.bad("R3", where, "block {}: the record written by {} is read after the one read by {}, but written before it".format(
                    blk, cands[0].where, prev[1]), key="R3|{}|{}".format(blk, cands[0].where.split(" in ")[-1]))
        gating(rep, W, R, blk, wrecs, rrecs, pairs)
    digits(rep, W, R, slots, pairs)
    derived(rep, W, R, pairs)
    texts(rep, W, R)
    flags(rep, W, R)
    rep.assumptions += ["the file handed to the reader contains the block keywords the writer emits",
                        "values fit their fields (C03)"]
    analysed(rep)


def match(ps, lay, i, w, ws):
    """Does record w put one of the paths in the columns of slot i of lay?"""
    nond = {p for p, d in ps if not d}
    use = nond or {p for p, d in ps}
    for j, qs in ws.items():
        if same_columns(lay, i, w.layout, j):
            for p in use:
                if any(compatible(p, q) for q, _ in qs):
                    return True
    return False


def find(W, wrecs, paths):
    out = []
    for w in wrecs:
        for j, qs in W.slots(w).items():
            if any(compatible(p, q) for p in paths for q, d in qs if not d):
                out.append((w, j))
    return out


def item_term(w, i):
    """Term written in slot i, when the record is a plain list."""
    v = strip(w.values)
    if isinstance(v, T) and v.op == "gamma":
        return None
    if isinstance(v, T) and v.op == "list":
        segs = v.args[0]
        if len(segs) > i and all(s[0] == "item" for s in segs[: i + 1]):
            return segs[i][1]
    if isinstance(v, Tup) and len(v.items) > i:
        return v.items[i]
    return None


def alt_items(w, i):
    """[(conditions, term)] of slot i over the alternatives of the record."""
    out = []

    def rec(v, pc):
        v = strip(v)
        if isinstance(v, T) and v.op == "gamma":
            rec(v.args[1], pc + ((v.args[0], True),))
            rec(v.args[2], pc + ((v.args[0], False),))
            return
        if isinstance(v, T) and v.op == "list":
            pos(v.args[0], pc, i)
        elif isinstance(v, Tup) and len(v.items) > i:
            out.append((pc, v.items[i]))

    def pos(segs, pc, k):
        for n, s in enumerate(segs):
            if s[0] == "item":
                if k == 0:
                    out.append((pc, s[1]))
                    return
                k -= 1
            elif s[0] == "gamma":
                pos(s[2] + segs[n + 1:], pc + ((s[1], True),), k)
                pos(s[3] + segs[n + 1:], pc + ((s[1], False),), k)
                return
            else:
                return
    rec(w.values, ())
    return out


def mentions(t, rd):
    return any(isinstance(x, T) and x.op == "slot" and x.args[0] is rd for x in walk(t))


def suffix(pc, base):
    """Conditions of pc that come after those it shares with base."""
    n = 0
    while n < len(pc) and n < len(base) and pc[n] == base[n]:
        n += 1
    return pc[n:]


def gating(rep, W, R, blk, wrecs, rrecs, pairs):
    """Optional records announced by a constant-valued field of an earlier record."""
    for rd, lay, pc, where in rrecs:
        dep = [x for x in rrecs if x[0] is not rd and any(mentions(c, rd) for c, _ in suffix(x[2], pc))]
        if not dep:
            continue
        slots = {x.args[1] for y in dep for c, _ in suffix(y[2], pc) for x in walk(c)
                 if isinstance(x, T) and x.op == "slot" and x.args[0] is rd}
        # loops whose count is the slot are handled by count()
        loops = [y for y in dep if any(isinstance(c, T) and c.op == "cmp" and mentions(c, rd)
                                       and any(isinstance(z, T) and z.op in ("prev", "loopvar") for z in walk(c))
                                       for c, _ in suffix(y[2], pc))
                 or any(isinstance(c, T) and c.op == "looped" for c, _ in suffix(y[2], pc))]
        if loops:
            counts(rep, W, R, blk, rd, lay, pc, where, loops, pairs)
            dep = [y for y in dep if y not in loops]
            if not dep:
                continue
        for w in pairs.get(rd, []) or []:
            outs = [o for o in W.block_of(blk) if o.kind == "rec" and o.n > w.n and o.pc[:len(w.pc)] == w.pc]
            if not outs:
                continue
            terms = {}
            for i in slots:
                t = item_term(w, i)
                if t is None:
                    terms = None
                    break
                terms[i] = t
            if terms is None or any(o.multi for o in outs):
                rep.unknown("R4", where, "block {}: announcing field not resolved".format(blk))
                continue

            def sub(t, rd=rd, terms=terms):
                if isinstance(t, T) and t.op == "slot" and t.args[0] is rd:
                    return terms.get(t.args[1])
                return None
            wg = [suffix(o.pc, w.pc) for o in outs]
            rg = [suffix(y[2], pc) for y in dep]
            allc = [c for g in wg for c, _ in g]
            subc = [c for g in rg for c, _ in g]
            try:
                n = 0
                bad = None
                for env in envs(allc + [T("and", *subc, K(True))] + list(terms.values()), sub=sub):
                    try:
                        nw = sum(holds(g, env) for g in wg)
                        nr = sum(holds(g, env, blanksub(sub, env)) for g in rg)
                    except TypeError:
                        continue
                    n += 1
                    if nw != nr:
                        bad = (env, nw, nr)
                        break
                if bad:
                    env, nw, nr = bad
                    rep.bad("R4", where, "block {}: after the record of {} the writer emits {} optional record(s) where the reader consumes {} (announced by {})".format(
                        blk, w.where, nw, nr, ", ".join("field {}={!r}".format(i, val(t, env)) for i, t in terms.items())),
                        key="R4|{}".format(blk))
                else:
                    rep.ok("R4", "{} {}: {} assignments".format(blk, where, n))
                    rep.count("gating assignments", n)
            except Unknown as e:
                rep.unknown("R4", where, "block {}: {}".format(blk, e))


def val(t, env):
    try:
        return ev(t, env)
    except Exception:
        return "?"


def blanksub(sub, env):
    """A blank field ("" or None written) is None for the reader."""

    def s(t):
        r = sub(t)
        if r is None:
            return None
        v = ev(r, env)
        return K(None if v == "" else v)
    return s


def counts(rep, W, R, blk, rd, lay, pc, where, loops, pairs):
    """A field that counts entries or records of a table that follows."""
    for y in loops:
        lrd, llay, lpc, lwhere = y
        suf = suffix(lpc, pc)
        cmps = [c for c, p in suf if p and isinstance(c, T) and c.op == "cmp" and c.args[0] in ("<", ">", "<=", ">=", "!=")
                and mentions(c, rd)]
        its = [c for c, p in suf if isinstance(c, T) and c.op == "looped"]
        done = False
        for w in pairs.get(rd) or []:
            for i in {x.args[1] for c, _ in suf for x in walk(c)
                      if isinstance(x, T) and x.op == "slot" and x.args[0] is rd}:
                for cond, t in alt_items(w, i):
                    lens = [x for x in walk(t) if isinstance(x, T) and x.op == "call"
                            and getattr(x.args[0], "name", None) == "builtins.len"]
                    if not lens:
                        continue
                    # the counted sequence is the one written in the record read in the loop
                    lw = [o for z in loops for o in pairs.get(z[0]) or []]
                    paths = {q for x in lens for q, _ in W.prov.paths(x.args[1][0])}
                    wp = {q for o in lw for ps in W.slots(o).values() for q, d in ps}
                    if lw and paths and not any(compatible(p, q) for p in paths for q in wp):
                        continue
                    done = True
                    bad = None
                    for c in cmps:
                        # len(out) < n : entries read until n are there
                        op, a, b = c.args
                        mine = b if mentions(b, rd) else a
                        strict = op in ("<", ">", "!=")
                        for n in (1, 2, 3, 7, 8, 9, 16, 17):
                            try:
                                env = {x: n for x in []}
                                v = evlen(t, n)
                                got = ev(mine, {}, lambda z: K(v) if isinstance(z, T) and z.op == "slot" and z.args[0] is rd else None)
                            except (Unknown, TypeError):
                                got = None
                            if got is None:
                                continue
                            want = n if strict else n - 1
                            if got != want:
                                bad = (n, got)
                    if bad:
                        rep.bad("R4", lwhere, "block {}: a table of {} entries is announced such that {} are read".format(blk, *bad),
                                key="R4|count|{}".format(blk))
                    else:
                        rep.ok("R4", "{} {}: count".format(blk, lwhere))
        if not done:
            rep.unknown("R4", lwhere, "block {}: count of table records not resolved".format(blk))
    rangecounts(rep, W, R, blk, rd, where, pairs)


def evlen(t, n):
    """Value of a count term for a sequence of n entries."""
    from ev import norm

    def sub(z):
        if isinstance(z, T) and z.op == "call" and getattr(z.args[0], "name", None) == "builtins.len":
            return K(n)
        if isinstance(z, T) and z.op == "call" and getattr(z.args[0], "name", None) == "numpy.ndim":
            return K(1)
        if isinstance(z, T) and z.op in ("isinstance",):
            return K(True)
        if isinstance(z, T) and z.op == "cmp" and z.args[0] in ("in",):
            return K(True)
        if isinstance(z, T) and z.op == "cmp" and z.args[0] in ("notin",):
            return K(False)
        if isinstance(z, T) and z.op == "cmp" and z.args[0] == "isnot" and z.args[2] == K(None):
            return K(True)
        if isinstance(z, T) and z.op == "cmp" and z.args[0] == "is" and z.args[2] == K(None):
            return K(False)
        return None
    return ev(t, {}, sub)


def rangecounts(rep, W, R, blk, rd, where, pairs):
    """for _ in range(f(field)): as many records as the writer's table needs."""
    for lrd, llay, lpc, lwhere in R.records:
        if lrd.args[0] != K(blk):
            continue
        for c, p in lpc:
            it = R.loops.get(c) if isinstance(c, T) and c.op == "looped" else None
            if it is None or not (isinstance(it, T) and it.op == "range"):
                continue
            if not mentions(it, rd):
                continue
            ncol = max(len(s.split(",")) for s in llay.values())
            for w in pairs.get(rd) or []:
                for i in {x.args[1] for x in walk(it) if isinstance(x, T) and x.op == "slot" and x.args[0] is rd}:
                    for cond, t in alt_items(w, i):
                        lw = pairs.get(lrd) or []
                        lens = [x for x in walk(t) if isinstance(x, T) and x.op == "call"
                                and getattr(x.args[0], "name", None) == "builtins.len"]
                        if not lens or not lw:
                            continue
                        multi = any(o.multi for o in lw)
                        bad = None
                        for n in range(1, 26):
                            try:
                                v = evlen(t, n)
                                args = [ev(a, {}, lambda z: K(v) if isinstance(z, T) and z.op == "slot" and z.args[0] is rd else None)
                                        for a in it.args if isinstance(a, (T, K))]
                                got = len(range(*[int(a) for a in args]))
                            except (Unknown, TypeError, ValueError):
                                got = None
                                break
                            want = -(-n // ncol) if multi else n
                            if got != want:
                                bad = (n, want, got)
                                break
                        if bad:
                            rep.bad("R4", lwhere, "block {}: a table of {} entries takes {} record(s) but {} are read".format(blk, *bad),
                                    key="R4|range|{}".format(blk))
                        elif got is not None:
                            rep.ok("R4", "{} {}: records of a table".format(blk, lwhere))


def digits(rep, W, R, slots, pairs):
    for path, terms in R.keyterms.items():
        for t in terms:
            idx = [x for x in walk(t) if isinstance(x, T) and x.op == "idx"]
            if not idx:
                continue
            sl = [x for x in walk(t) if isinstance(x, T) and x.op == "slot"]
            if not sl:
                continue
            s = sl[0]
            where = s.args[0].args[-2].v
            try:
                start = idx[0].args[1]
                start = start.v if isinstance(start, K) else start
                offs = {ev(t, {}, lambda z: K(p + start) if z is idx[0] else None) - p for p in (0, 1, 5, 17)}
            except (Unknown, TypeError, AttributeError):
                rep.unknown("R5", where, "option number of '{}' not resolved".format(p2s(path)))
                continue
            if len(offs) > 1:
                rep.bad("R5", where, "the option number stored in '{}' does not advance with the position".format(p2s(path)),
                        key="R5|{}".format(p2s(path)))
                continue
            roff = offs.pop()
            for w in pairs.get(s.args[0], []):
                for cond, term in alt_items(w, s.args[1]):
                    js = [x for x in walk(term) if isinstance(x, T) and x.op == "join"]
                    if not js:
                        continue
                    lst = js[0].args[1]
                    seq = lst.args[0] if isinstance(lst, T) and lst.op == "list" else None
                    width = {b - a for a, b, _ in columns(w.layout, s.args[1]).values()}
                    full = seq
                    if seq is not None and len(width) == 1:
                        seq = seq[: min(width)]  # the rest is cut
                    if seq is None or any(x[0] != "item" for x in seq):
                        rep.unknown("R5", w.where, "digit string not resolved")
                        continue
                    if js[0].args[0] != K(""):
                        rep.bad("R5", w.where, "the digits are joined with {!r}".format(js[0].args[0]), key="R5|sep|{}".format(w.block))
                    for pos_, x in enumerate(seq):
                        ks = {q[-1] for q, d in W.prov.paths(x[1]) if len(q) == len(path) + 1 and q[: len(path)] == path}
                        if not ks:
                            rep.unknown("R5", w.where, "position {}".format(pos_))
                        elif pos_ + roff not in ks:
                            rep.bad("R5", w.where, "position {} of the digit string holds option {} but is read as option {} of '{}'".format(
                                pos_ + 1, "/".join(map(str, ks)), pos_ + roff, p2s(path)), key="R5|{}|{}".format(w.block, pos_))
                        else:
                            rep.ok("R5")
                        blank(rep, w, x[1], pos_)
                    rep.check("R5", {len(seq)} == width, w.where, "{} digits are written in a field of {} columns".format(
                        len(seq), width), key="R5|width|{}".format(w.block))


def blank(rep, w, t, pos_):
    """Every alternative of a digit position must be one character: a blank or the digit."""
    t = strip(t)
    if isinstance(t, T) and t.op == "gamma":
        blank(rep, w, t.args[1], pos_)
        blank(rep, w, t.args[2], pos_)
    elif isinstance(t, K) and isinstance(t.v, str):
        rep.check("R5", len(t.v) == 1, w.where, "an unset option at position {} takes {} characters".format(pos_ + 1, len(t.v)),
                  key="R5|blank|{}".format(w.block))


def derived(rep, W, R, pairs):
    """Parameters computed from several fields."""
    from iomodel import strip as st
    I = R.I
    from values import DictC, Ref
    c = I.read(R.result.id) if isinstance(R.result, Ref) else None
    if not isinstance(c, DictC):
        rep.unknown("R6", "result", "the dictionary returned by the reader was not resolved")
        return
    for k, v in c.ent.items():
        v = st(v)
        if not (isinstance(k, K) and isinstance(v, T) and v.op in ("cmp", "and", "or", "not", "bin")):
            continue
        rds = {x.args[0] for x in walk(v) if isinstance(x, T) and x.op == "slot"}
        if len(rds) != 1:
            continue
        rd = rds.pop()
        where = rd.args[-2].v
        for w in pairs.get(rd, []):
            idxs = {x.args[1] for x in walk(v) if isinstance(x, T) and x.op == "slot"}
            alts = [alt_items(w, i) for i in sorted(idxs)]
            if not all(alts):
                rep.unknown("R6", where, "'{}'".format(k.v))
                continue
            combos = {}
            for i, al in zip(sorted(idxs), alts):
                combos[i] = al
            conds = {pc for al in alts for pc, _ in al}
            for pc in conds:
                terms = {i: t for i, al in combos.items() for q, t in al if q == pc}
                if len(terms) != len(idxs):
                    continue

                def sub(t, rd=rd, terms=terms):
                    if isinstance(t, T) and t.op == "slot" and t.args[0] is rd:
                        return terms.get(t.args[1])
                    return None
                src = T("get", W.root, k)
                n = 0
                bad = None
                try:
                    for env in envs([v] + [cc for cc, _ in pc], sub=sub, limit=100000):
                        if src not in env:
                            raise Unknown("'{}' does not decide the fields".format(k.v))
                        try:
                            if not holds(pc, env):
                                continue
                            got = ev(v, env, sub)
                        except TypeError:
                            continue
                        n += 1
                        if bool(got) != bool(env[src]):
                            bad = (env[src], got, {i: val(t, env) for i, t in terms.items()})
                            break
                except Unknown as e:
                    rep.unknown("R6", where, "'{}': {}".format(k.v, e))
                    continue
                if bad:
                    rep.bad("R6", where, "'{}' = {!r} is written as fields {} from which the reader computes {!r}".format(
                        k.v, bad[0], bad[2], bad[1]), key="R6|{}".format(k.v))
                elif n:
                    rep.ok("R6", "{}: {} assignments".format(k.v, n))
                    rep.count("derived assignments", n)


def texts(rep, W, R):
    """History blocks: lines kept as text."""
    from values import DictC, Ref
    c = R.I.read(R.result.id) if isinstance(R.result, Ref) else None
    if not isinstance(c, DictC):
        return
    blocks = set()
    for rd, *_ in R.records:
        blocks.add(rd.args[0].v)
    for blk in W.headers():
        recs = [o for o in W.block_of(blk) if o.kind == "rec" and o.layout]
        if blk in blocks or not recs:
            continue
        for w in recs:
            for i, ps in W.slots(w).items():
                for p, d in ps:
                    if not p or d:
                        continue
                    got = R.text_groups.get(blk)
                    if got is None:
                        rep.unknown("R7", w.where, "block {}".format(blk))
                    elif p[0] in got:
                        rep.ok("R7", "{} -> {}".format(blk, p[0]))
                    else:
                        rep.bad("R7", w.where, "block {} is written from '{}' but its lines are stored as '{}'".format(
                            blk, p[0], "/".join(sorted(got))), key="R7|{}".format(blk))


def flags(rep, W, R):
    from values import DictC, Ref
    c = R.I.read(R.result.id) if isinstance(R.result, Ref) else None
    if not isinstance(c, DictC):
        return
    for k, v in c.ent.items():
        if not (isinstance(k, K) and isinstance(v, K) and isinstance(v.v, bool)):
            continue
        src = T("get", W.root, k)
        # header outs guarded by that parameter alone
        for o in W.outs:
            if o.kind != "header":
                continue
            for cnd, p in o.pc:
                from ev import norm
                if norm(cnd) is src:
                    blkflag = R.flag_blocks.get(k.v)
                    if blkflag and o.block in blkflag:
                        rep.check("R8", blkflag[o.block] == p, o.where,
                                  "block {} is written when '{}' is {} but reading it stores {}".format(o.block, k.v, p, blkflag[o.block]),
                                  key="R8|{}".format(k.v))
