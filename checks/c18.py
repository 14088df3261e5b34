"""C18: exported records put each quantity in its column, in one element order, and skip only absent values."""
from engine import Dead
from export import block_lines, column, fail, literal, value_at, written
from geom import CELLS, CantEval, centroid, close, hull_faces, num, volume
from meshmodel import Glued, environment, mesh
from models import analysed, text_interp
from textmodel import Opaque
from values import K, T

WH = "toughio/_mesh/tough/_tough.py"
ABSENT = -1.0e9


def chain(n):
    """n hexahedra, wedges and tetrahedra glued in a row (types vary, shapes vary)."""
    g = Glued("hexahedron", 1)
    H = [c for c in hull_faces("hexahedron").values()]
    W = {k: [c for c in hull_faces("wedge").values() if len(c) == k] for k in (3, 4)}
    opp = {frozenset(h): next(o for o in H if not set(o) & set(h)) for h in H}
    last, face = 0, H[0]
    for i in range(n - 1):
        if i == n - 2:
            g.glue(last, face, "wedge", W[4][0])
        else:
            g.glue(last, face, "hexahedron", opp[frozenset(face)])
        last += 1
    return g


def run(rep, tier):
    I = text_interp()
    rep.rule("E1", "an ELEME record holds label, material, volume and centre of one cell in their columns")
    rep.rule("E2", "cells of end materials come last, otherwise the mesh order is kept, in ELEME and COORD alike")
    rep.rule("E3", "material_name renames exactly the named materials, the others are written as given")
    rep.rule("E4", "only boundary cells get the infinite volume")
    rep.rule("E5", "an INCON record holds label, porosity, permeability modifiers and primary variables in their columns")
    rep.rule("E6", "values at the absent marker become blanks, every other value is written, cells without any value are left out")
    rep.rule("E7", "the marker produced for a mesh without initial conditions is the one recognised as absent")
    for L in (5, 6, 7, 8, 9):
        elements(rep, I, L, tier)
        incon(rep, I, L, tier)
    default_marker(rep, I)
    rep.assumptions.append("meshes of 5 cells of two types; the written expressions do not depend on the number of cells")
    analysed(rep)


def names(n, L):
    return [("AB%0*d" % (L - 2, 7 * i + 1)) for i in range(n)]


def with_labels(I, L, n, f):
    """Run f with generated labels fixed (their generation is C24's subject)."""
    q = I.lookup_path("toughio._mesh._common.labeler")
    old = I.hooks.get(q.qual)
    labs = names(n, L)
    I.hooks[q.qual] = lambda *a, **k: I.nd((n,), [K(x) for x in labs])
    try:
        return f(labs)
    finally:
        if old is None:
            I.hooks.pop(q.qual, None)
        else:
            I.hooks[q.qual] = old


def build(I, g, extra):
    m = mesh(I, g.blocks(), len(g.X), field_data=I.new_dict([(K(k), I.nd((2,), [K(v), K(3)])) for k, v in
                                                             (("rock1", 1), ("rock2", 2), ("bound", 3))]))
    d = [(K("material"), I.nd((5,), [K(x) for x in (1, 2, 3, 2, 1)]))]
    for k, v in extra:
        d.append((K(k), v))
    I.setattr(m, "cell_data", I.new_dict(d), None)
    return m


MATS = ["rock1", "rock2", "bound", "rock2", "rock1"]


def elements(rep, I, L, tier):
    g = chain(5)
    env = environment(g.X)
    memo = {}
    cases = [({}, {}, [], False), ({"rock1": "ROCKA", "bound": "INFIN"}, {}, [], True),
             ({}, {}, "rock2", False), ({"rock1": "RK1"}, {}, ["rock1", "bound"], True)]
    if L > 5 and tier == "quick":
        cases = cases[3:]
    for mname, _, mend, bc in cases:
        flags = [0, 0, 1, 0, 1] if bc else [0] * 5

        def go(labs):
            extra = [("boundary_condition", I.nd((5,), [K(x) for x in flags]))] if bc else []
            m = build(I, g, extra)
            kw = {"coord": K(True)}
            if mname:
                kw["material_name"] = I.new_dict([(K(a), K(b)) for a, b in mname.items()])
            if mend:
                kw["material_end"] = K(mend) if isinstance(mend, str) else I.new_list([K(x) for x in mend])
            return labs, written(I, m, kw)
        case = "label length {}{}{}{}".format(L, ", material_name" if mname else "", ", material_end" if mend else "", ", boundary" if bc else "")
        try:
            labs, (recs, why) = with_labels(I, L, 5, go)
        except Opaque as e:
            fail(rep, "E1", WH, case, e, "E1|format")
            continue
        if recs is None:
            rep.bad("E1", WH, "{}: writing always fails: {}".format(case, [(e.kind, e.where()) for e in why]), "E1|fail")
            continue
        ends = [mend] if isinstance(mend, str) else mend
        order = [i for i in range(5) if MATS[i] not in ends] + [i for i in range(5) if MATS[i] in ends]
        C = [centroid([g.X[k] for k in ids]) for _, ids in g.cells]
        V = [volume(ty, [g.X[k] for k in ids]) for ty, ids in g.cells]
        try:
            el, co = block_lines(recs, "ELEME"), block_lines(recs, "COORD")
        except Opaque as e:
            fail(rep, "E1", WH, case, e, "E1|format")
            continue
        got = []
        for w, l in el:
            c = column(l, 0, L)
            if not c or c[0] != "text" or c[1] not in labs:
                if c and c[0] == "text":
                    rep.bad("E1", w, "{}: the label columns hold {!r}".format(case, c[1]), "E1|label")
                else:
                    rep.unknown("E1", w, "{}: label not resolved".format(case))
                got.append(None)
                continue
            i = labs.index(c[1])
            got.append(i)
            try:
                mat = column(l, 15, 20)
                want = mname.get(MATS[i], MATS[i])
                rep.check("E3", mat and mat[0] == "text" and mat[1].strip() == want, w, "{}: the material of a {} cell is written {}".format(
                    case, MATS[i], mat), "E3|{}".format(bool(mname)))
                v = value_at(column(l, 20, 30), env, memo)
                ok = isinstance(v, float) and close(v, V[i] * (1e50 if flags[i] else 1.0), 1e-9)
                rep.check("E4" if bc else "E1", ok, w, "{}: the volume columns of a {}cell hold {} (cell volume {:.6g})".format(
                    case, "boundary " if flags[i] else "", v, V[i]), "volume|{}".format(bc))
                for k in range(3):
                    v = value_at(column(l, 50 + 10 * k, 60 + 10 * k), env, memo)
                    rep.check("E1", isinstance(v, float) and close(v, C[i][k]), w, "{}: columns {}-{} hold {} where {} of the centre is {:.6g}".format(
                        case, 51 + 10 * k, 60 + 10 * k, v, "XYZ"[k], C[i][k]), "E1|centre")
                for a, b in ((L, 15), (30, 50)):
                    c = column(l, a, b)
                    rep.check("E1", c is not None and c[0] == "blank", w, "{}: columns {}-{} are not blank".format(case, a + 1, b), "E1|blank")
            except (Opaque, CantEval, ValueError, TypeError, ZeroDivisionError) as e:
                rep.unknown("E1", w, "{}: {!r}".format(case, e))
        if None not in got:
            rep.check("E2", got == order, WH, "{}: elements are written in the order {} instead of {}".format(case, got, order), "E2|ELEME")
        try:
            pts = []
            for w, l in co:
                pts.append([value_at(column(l, 20 * k, 20 * k + 20), env, memo) for k in range(3)])
            idx = [next((i for i in range(5) if all(isinstance(a, float) and close(a, b) for a, b in zip(p, C[i]))), None) for p in pts]
            rep.check("E2", idx == order, WH, "{}: the coordinate records are those of cells {} instead of {}".format(case, idx, order),
                      "E2|COORD")
        except (Opaque, CantEval, ValueError, TypeError, ZeroDivisionError) as e:
            rep.unknown("E2", WH, "{}: coordinates: {!r}".format(case, e))
        rep.count("element records", len(el))
        rep.count("coordinate records", len(co))


def incon(rep, I, L, tier):
    A = ABSENT
    tables = {
        4: [[1.25e5, 2.5, 3.5, 4.5], [A, 0.25, A, 20.0], [A, A, A, A], [7.5e5, A, A, A], [A, A, A, 30.5]],
        2: [[1.25e5, 2.5], [A, 0.25], [A, A], [7.5e5, A], [-5.0, 0.0]],
        6: [[1.25e5, 2.5, 3.5, 4.5, 5.5, 6.5], [A, 0.25, A, 20.0, A, 8.5], [A] * 6, [A, A, A, A, 9.5, A], [7.5e5, A, A, A, A, A]],
    }
    por = [0.1, 0.2, 0.3, 0.4, 0.5]
    per1 = [1.5, 2.5, 3.5, 4.5, 5.5]
    per3 = [[1.5, 2.5, 3.5], [4.5, 5.5, 6.5], [7.5, 8.5, 9.5], [10.5, 11.5, 12.5], [13.5, 14.5, 15.5]]
    cases = [(4, None, None), (4, por, None), (4, None, per3), (4, por, per1), (2, None, None), (6, por, per3), (6, None, None)]
    if L > 5 and tier == "quick":
        cases = cases[:1] + cases[5:6]
    g = chain(5)
    for n, po, pe in cases:
        vals = tables[n]
        for via in ("write_tough", "write_incon"):
            if via == "write_incon" and (L > 5 or n == 2):
                continue

            def go(labs):
                extra = [("initial_condition", I.nd((5, n), [K(x) for r in vals for x in r]))]
                if po:
                    extra.append(("porosity", I.nd((5,), [K(x) for x in po])))
                if pe:
                    extra.append(("permeability", I.nd((5, 3), [K(x) for r in pe for x in r]) if isinstance(pe[0], list) else
                                  I.nd((5,), [K(x) for x in pe])))
                m = build(I, g, extra)
                if via == "write_tough":
                    return labs, written(I, m, {"incon": K(True)})
                return labs, written(I, m, {}, "write_incon", "INCON", ("INCON",))
            case = "label length {}, {} variables{}{}".format(L, n, ", porosity" if po else "", ", permeability" if pe else "")
            try:
                labs, (recs, why) = with_labels(I, L, 5, go)
            except Opaque as e:
                fail(rep, "E5", WH, case, e, "E5|format")
                continue
            if recs is None:
                rep.bad("E5", WH, "{}: writing always fails: {}".format(case, [(e.kind, e.where()) for e in why]), "E5|fail")
                continue
            try:
                ls = block_lines(recs, "INCON")
            except Opaque as e:
                fail(rep, "E5", WH, case, e, "E5|format")
                continue
            nrec = 1 + (1 if n <= 4 else 2)
            want = [i for i in range(5) if po or pe or any(v > A for v in vals[i])]
            check_incon(rep, case, L, labs, ls, nrec, want, vals, po, pe)


def check_incon(rep, case, L, labs, ls, nrec, want, vals, po, pe):
    got = []
    try:
        k = 0
        while k < len(ls):
            w, l = ls[k]
            c = column(l, 0, L)
            if c is None:
                raise Opaque("label")
            lab = c[1] if c[0] == "text" else ""
            if lab not in labs:
                rep.bad("E5", w, "{}: the label columns hold {!r}".format(case, lab), "E5|label")
                return
            i = labs.index(lab)
            got.append(i)
            cols = [("porosity", 15, 30, po[i] if po else None)]
            p3 = (pe[i] if isinstance(pe[i], list) else [pe[i], None, None]) if pe else [None] * 3
            cols += [("permeability modifier {}".format(j + 1), 30 + 10 * j, 40 + 10 * j, p3[j]) for j in range(3)]
            for what, a, b, v in cols:
                one(rep, "E5", case, w, l, what, a, b, v)
            one(rep, "E5", case, w, l, "counters", L, 15, None)
            for r in range(1, nrec):
                if k + r >= len(ls):
                    rep.bad("E5", w, "{}: the records of a cell are incomplete".format(case), "E5|short")
                    return
                w2, l2 = ls[k + r]
                for j in range(4):
                    q = 4 * (r - 1) + j
                    v = vals[i][q] if q < len(vals[i]) else None
                    v = None if v is not None and v <= ABSENT else v
                    one(rep, "E6", case, w2, l2, "primary variable {}".format(q + 1), 20 * j, 20 * j + 20, v)
            k += nrec
            rep.count("initial condition records", nrec)
        rep.check("E6", got == want, WH, "{}: initial conditions are written for cells {} instead of {}".format(case, got, want), "E6|cells")
    except (Opaque, CantEval, ValueError, TypeError) as e:
        rep.unknown("E5", WH, "{}: {!r}".format(case, e))


def one(rep, rule, case, w, l, what, a, b, v):
    got = value_at(column(l, a, b), {}, {}) if l else None
    ok = got is None if v is None else isinstance(got, (int, float)) and close(float(got), v, 1e-3)
    rep.check(rule, ok, w, "{}: columns {}-{} ({}) hold {} instead of {}".format(case, a + 1, b, what, got, "blanks" if v is None else v),
              "{}|{}".format(rule, what.split(" ")[0]))


def default_marker(rep, I):
    """A mesh without initial conditions writes no INCON file."""
    g = chain(5)

    def go(labs):
        return written(I, build(I, g, []), {"incon": K(True)})
    try:
        recs, why = with_labels(I, 5, 5, go)
    except Opaque as e:
        fail(rep, "E7", WH, "mesh without initial conditions", e, "E7|format")
        return
    if recs is None:
        rep.bad("E7", WH, "writing a mesh without initial conditions always fails: {}".format([(e.kind, e.where()) for e in why]), "E7")
        return
    heads = [w for w, l in recs if literal(l).startswith("INCON")]
    rep.check("E7", not heads, heads[0] if heads else WH, "initial conditions are written for a mesh which has none (the default value is not recognised as absent)", "E7")
