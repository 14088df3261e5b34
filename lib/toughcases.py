"""Parameter sets of every shape the TOUGH input format has, with values of unknown content."""
from origin import integer, ranked, real

ROCK = ["density", "porosity", "conductivity", "specific_heat"]
ROCK2 = ["compressibility", "expansivity", "conductivity_dry", "tortuosity", "klinkenberg_parameter",
         "distribution_coefficient_3", "distribution_coefficient_4"]
INTS = {"n_iteration", "verbosity", "n_cycle", "n_second", "n_cycle_print", "porosity_model", "version", "method", "nseq", "nadd", "nads"}
OPTIONS = ["n_iteration", "n_cycle", "n_second", "n_cycle_print", "verbosity", "temperature_dependence_gas",
           "effective_strength_vapor", "t_ini", "t_max", "t_step_max", "t_reduce_factor", "gravity",
           "mesh_scale_factor", "eps1", "eps2", "w_upstream", "w_newton", "derivative_factor"]


class Make:
    """Builds parameter sets; every value is named after its place."""

    def __init__(self, I):
        self.I = I
        self.n = 0

    def __call__(self, name):
        last = name.split(".")[-1]
        return integer(self.I, name) if last in INTS else real(name)

    def some(self, name, n):
        return [real("{}.{}".format(name, i)) for i in range(n)]

    def model(self, name, i, n):
        return {"id": i, "parameters": self.some(name + ".parameters", n)}

    def rock(self, name, per=3, second=True, **kw):
        r = {k: self("rocks.{}.{}".format(name, k)) for k in ROCK}
        r["permeability"] = list(ranked(self.I, *self.some("rocks.{}.permeability".format(name), 3))) if per == 3 else ranked(self.I, real("rocks.{}.permeability".format(name)))[0]
        if second:
            r.update({k: self("rocks.{}.{}".format(name, k)) for k in ROCK2})
        r.update(kw)
        return r

    def element(self, name, mat="ROCK1"):
        e = {k: self("elements.{}.{}".format(name, k)) for k in ("nseq", "nadd", "volume", "heat_exchange_area", "permeability_modifier")}
        e["material"] = mat
        e["center"] = self.some("elements.{}.center".format(name), 3)
        return e

    def connection(self, name, d=1):
        p = "connections.{}.".format(name)
        return {"nseq": self(p + "nseq"), "nadd": [integer(self.I, p + "nadd.0"), integer(self.I, p + "nadd.1")],
                "permeability_direction": d, "nodal_distances": self.some(p + "nodal_distances", 2),
                "interface_area": real(p + "interface_area"), "gravity_cosine_angle": real(p + "gravity_cosine_angle"),
                "radiant_emittance_factor": real(p + "radiant_emittance_factor")}

    def incon(self, name, nu=5, nv=4):
        p = "initial_conditions.{}.".format(name)
        return {"porosity": real(p + "porosity"), "userx": self.some(p + "userx", nu), "values": self.some(p + "values", nv)}

    def generator(self, name, n=None, table=0, enth=None, ty="COM1", tag=""):
        p = "generators.{}{}.".format(name, tag)
        g = {"name": "G01" + tag, "type": ty, "layer_thickness": self(p + "layer_thickness")}
        for k in ("nseq", "nadd", "nads"):
            g[k] = self(p + k)
        if table:
            g["times"] = self.some(p + "times", table)
            g["rates"] = self.some(p + "rates", table)
            if enth == "table":
                g["specific_enthalpy"] = self.some(p + "specific_enthalpy", table)
        else:
            g["rates"] = self(p + "rates")
            if enth:
                g["specific_enthalpy"] = self(p + "specific_enthalpy")
        return g

    def options(self, nt=1):
        o = {k: self("options." + k) for k in OPTIONS}
        o["t_steps"] = self.some("options.t_steps", nt) if nt != 1 else real("options.t_steps.0")
        return o

    def base(self):
        return {"title": "title of the case", "rocks": {"ROCK1": self.rock("ROCK1")}}

    def full(self, L=5):
        A = ["AAA" + str(i).zfill(L - 3) for i in range(3)]
        C = [A[0] + A[1], A[1] + A[2]]
        p = {
            "title": "title of the case",
            "n_component": 3, "n_phase": 2, "n_component_mass": 7, "isothermal": True, "start": True, "nover": True,
            "rocks": {
                "ROCK1": self.rock("ROCK1", relative_permeability=self.model("rocks.ROCK1.relative_permeability", 3, 7),
                                   capillarity=self.model("rocks.ROCK1.capillarity", 7, 5),
                                   initial_condition=self.some("rocks.ROCK1.initial_condition", 4),
                                   permeability_model=self.model("rocks.ROCK1.permeability_model", 4, 7),
                                   equivalent_pore_pressure=self.model("rocks.ROCK1.equivalent_pore_pressure", 5, 6)),
                "ROCK2": self.rock("ROCK2", per=1, second=False),
            },
            "flac": {"creep": True, "porosity_model": self("flac.porosity_model"), "version": self("flac.version")},
            "solver": {"method": self("solver.method"), "z_precond": "Z3", "o_precond": "O4", "rel_iter_max": self("solver.rel_iter_max"),
                       "eps": self("solver.eps")},
            "options": self.options(3),
            "extra_options": {i: (i * 7 + 3) % 10 for i in range(1, 25)},
            "more_options": {i: (i * 3 + i // 10) % 10 for i in range(1, 41)},
            "selections": {"integers": {i: integer(self.I, "selections.integers.%d" % i) if i > 1 else 1 for i in range(1, 17)},
                           "floats": self.some("selections.floats", 8)},
            "generators": {A[0]: self.generator(A[0], enth=True), A[1]: self.generator(A[1], table=6, enth="table")},
            "diffusion": [self.some("diffusion.0", 2), self.some("diffusion.1", 2), self.some("diffusion.2", 2)],
            "times": self.some("times", 9),
            "element_history": A[:2],
            "connection_history": list(C),
            "generator_history": list(A),
            "output": {"format": "CSV", "variables": {"temperature": None, "mass fraction": [1, 2]}},
            "elements": {A[0]: self.element(A[0]), A[1]: self.element(A[1], "ROCK2"), A[2]: self.element(A[2], 12)},
            "connections": {C[0]: self.connection(C[0], 2), C[1]: self.connection(C[1], 3)},
            "initial_conditions": {A[0]: self.incon(A[0]), A[1]: self.incon(A[1], 3, 2)},
            "default": {"initial_condition": self.some("default.initial_condition", 4),
                        "relative_permeability": self.model("default.relative_permeability", 1, 4),
                        "capillarity": self.model("default.capillarity", 2, 3)},
        }
        return p


def shapes(M, deep=False):
    """Parameter sets covering the lengths, forms and combinations the format distinguishes."""
    F = M.full()
    yield "all groups", F, {}, {}
    for L in (6, 7, 8, 9):
        yield "labels of {} characters".format(L), M.full(L), {}, {}
        yield "labels of {} characters, length given".format(L), M.full(L), {}, {"label_length": L}
    yield "labels of 5 characters, length given", F, {}, {"label_length": 5}

    def f(**kw):
        p = dict(F)
        for k, v in kw.items():
            if v is None:
                p.pop(k, None)
            else:
                p[k] = v
        return p
    for n in (1, 2, 4, 7, 8, 9, 16, 17) if deep else (1, 4, 8, 9, 16):
        yield "{} times".format(n), f(times=M.some("times", n)), {}, {}
    for n in (1, 2, 3, 8, 9, 11) if deep else (1, 2, 8, 9):
        yield "{} time steps".format(n), f(options=M.options(n)), {}, {}
    for n in (1, 2, 3, 4) if deep else (1, 3):
        d = dict(F["default"], initial_condition=M.some("default.initial_condition", n))
        yield "{} default initial conditions".format(n), f(default=d), {}, {}
    for n in (5, 6, 8) if deep else (5,):
        d = dict(F["default"], initial_condition=M.some("default.initial_condition", n))
        r = dict(F["rocks"], ROCK1=dict(F["rocks"]["ROCK1"], initial_condition=M.some("rocks.ROCK1.initial_condition", n)))
        yield "{} initial conditions".format(n), f(default=d, rocks=r), {}, {}
    for nu in range(6) if deep else (0, 2, 5):
        for nv in (1, 2, 3, 4, 5, 6) if deep else (1, 4, 6):
            i = {"AAA00": M.incon("AAA00", nu, nv), "AAA01": M.incon("AAA01", 2, nv)}
            yield "initial conditions with {} userx and {} values".format(nu, nv), f(initial_conditions=i), {}, {}
    for n in (2, 4, 5, 8, 9) if deep else (4, 5, 8):
        for e in (None, "table"):
            g = {"AAA00": M.generator("AAA00", table=n, enth=e), "AAA01": M.generator("AAA01", enth=None)}
            yield "generator table of {} with enthalpy {}".format(n, e), f(generators=g), {}, {}
    for n, word in ((2, "two"), (3, "three"), (5, "five")):
        g = {"AAA00": {k: [M("generators.AAA00.{}.{}".format(k, i)) if not isinstance(v, str) else v for i in range(n)]
                       for k, v in M.generator("AAA00", enth=True).items()}}
        g["AAA00"]["type"] = ["COM1", "HEAT", "COM2", "MASS", "COM3"][:n]
        g["AAA00"]["name"] = ["G01", "G02", "G03", "G04", "G05"][:n]
        for k in ("nseq", "nadd", "nads"):
            g["AAA00"][k] = [integer(M.I, "generators.AAA00.{}.{}".format(k, i)) for i in range(n)]
        yield word + " generators in one element", f(generators=dict(g, AAA01=M.generator("AAA01"))), {}, {}
    names = ["AAA{:02d}".format(i) for i in range(12)]
    pairs_ = [x + y for x, y in zip(names, names[1:])]
    many = ["ROCK%d" % i for i in range(1, 6)]
    yield "many entries", f(
        rocks={r: M.rock(r, per=1 + 2 * (i % 2), second=bool(i % 3)) for i, r in enumerate(many)},
        elements={x: M.element(x, many[i % 5]) for i, x in enumerate(names)},
        connections={x: M.connection(x, 1 + i % 3) for i, x in enumerate(pairs_)},
        initial_conditions={x: M.incon(x, i % 6, 6) for i, x in enumerate(names)},
        generators={x: M.generator(x, table=0 if i % 2 else 3 + i, enth="table" if not i % 3 else None) for i, x in enumerate(names)},
        element_history=names, connection_history=pairs_, generator_history=names,
        diffusion=[M.some("diffusion.{}".format(i), 2) for i in range(3)]), {}, {}
    h = {"AAA00": {k: [a, b] for (k, a), b in zip(M.generator("AAA00", table=4, enth="table", tag="0").items(),
                                                  M.generator("AAA00", table=5, enth="table", ty="HEAT", tag="1").values())}}
    yield "two generators with tables in one element", f(generators=h), {}, {}
    R1 = F["rocks"]["ROCK1"]

    def rocks(**kw):
        r = {k: v for k, v in R1.items() if kw.get(k, v) is not None}
        return dict(F["rocks"], ROCK1=dict(r, **{k: v for k, v in kw.items() if v is not None}))
    none2 = {k: None for k in ROCK2}
    for rp in (0, 1):
        for cp in (0, 1):
            for second in (0, 1):
                kw = {}
                if not rp:
                    kw["relative_permeability"] = None
                if not cp:
                    kw["capillarity"] = None
                if not second:
                    kw.update(none2)
                yield "rock {} relative permeability, {} capillarity, {} second record".format(*("with" if x else "without" for x in (rp, cp, second))), \
                    f(rocks=rocks(**kw)), {}, {}
    for k in ROCK2:
        yield "rock with {} alone on the second record".format(k), f(rocks=rocks(**dict({x: None for x in ROCK2 if x != k}, relative_permeability=None, capillarity=None))), {}, {}
    for n in (1, 3, 7) if deep else (1, 7):
        m = {k: M.model("rocks.ROCK1." + k, i, n) for i, k in ((3, "relative_permeability"), (7, "capillarity"), (2, "permeability_model"))}
        m["equivalent_pore_pressure"] = M.model("rocks.ROCK1.equivalent_pore_pressure", 4, min(n, 7))
        yield "models with {} parameters".format(n), f(rocks=rocks(**m)), {}, {}
    yield "no model parameters", f(rocks=rocks(**{k: {"id": i, "parameters": []} for i, k in ((3, "relative_permeability"), (7, "capillarity"), (2, "permeability_model"), (4, "equivalent_pore_pressure"))})), {}, {}
    yield "only default relative permeability", f(default={k: v for k, v in F["default"].items() if k != "capillarity"}), {}, {}
    yield "only default capillarity", f(default={k: v for k, v in F["default"].items() if k != "relative_permeability"}), {}, {}
    yield "rocks without models", f(rocks=rocks(relative_permeability=None, capillarity=None, permeability_model=None, equivalent_pore_pressure=None)), {}, {}
    yield "rocks without flow models and defaults without", f(rocks=rocks(relative_permeability=None, capillarity=None), default=None), {}, {}
    s = F["selections"]
    for n in (1, 7, 9, 16, 17, 24) if deep else (1, 9, 16):
        rows = [M.some("selections.floats.%d" % i, min(8, n - 8 * i)) for i in range(-(-n // 8))]
        yield "{} selection values".format(n), f(selections={"integers": {**s["integers"], 1: len(rows)}, "floats": rows if len(rows) > 1 else rows[0]}), {}, {}
    yield "no selection values", f(selections={"integers": {**s["integers"], 1: 0}}), {}, {}
    yield "element coordinates", f(coordinates=True), {}, {}
    for n in (2, 3):
        v = {"pressure": None, "rate": [1], "mass": [2, -3], "flow": [[1, 2], [3, 4], [1, 3]][:n]}
        yield "{} output rows of one name".format(n), f(output={"format": "CSV", "variables": v}), {}, {}
    yield "output variables alone", f(output={"variables": {"pressure": None, "mass": [1, 2]}}), {}, {}
    yield "output format alone", f(output={"format": "CSV"}), {}, {}
    for n in (1, 2, 8):
        yield "diffusion of {} phases".format(n), f(diffusion=[M.some("diffusion.%d" % i, n) for i in range(3)]), {}, {}
    yield "not isothermal", f(isothermal=False), {}, {}
    yield "numbered equation of state without mass components", f(n_component_mass=None, isothermal=None), {}, {}
    yield "numbered rock types", f(elements={n: dict(e, material=i + 1) for i, (n, e) in enumerate(F["elements"].items())}), {}, {}
    yield "gravity and default steps", f(options={k: v for k, v in F["options"].items() if k != "t_steps"}), {}, {}
    yield "title in two lines", f(title=["first line", "second line"]), {}, {}


def omissions(M):
    """Every group, member and per-entry value left out, or given as None."""
    F = M.full()
    for g in list(F):
        yield "without " + g, {k: v for k, v in F.items() if k != g}, {}, {}
        yield g + " None", dict(F, **{g: None}), {}, {}
    E = F["elements"]
    for n in E:
        yield "without center of {} in a list of coordinates".format(n), dict(F, coordinates=True, elements=dict(E, **{n: {k: v for k, v in E[n].items() if k != "center"}})), {}, {}
        yield "center of {} None in a list of coordinates".format(n), dict(F, coordinates=True, elements=dict(E, **{n: dict(E[n], center=None)})), {}, {}
    for g in ("options", "extra_options", "more_options", "solver", "flac", "selections", "output", "default"):
        ks = list(F[g])
        if len(ks) > 20:
            ks = ks[:3] + ks[-2:]
        for k in ks:
            G = F[g]
            if (g, k) == ("selections", "floats"):
                G = dict(G, integers={**G["integers"], 1: 0})
            yield "without {}.{}".format(g, k), dict(F, **{g: {a: b for a, b in G.items() if a != k}}), {}, {}
            yield "{}.{} None".format(g, k), dict(F, **{g: {**G, k: None}}), {}, {}
    for g in ("rocks", "generators", "elements", "connections", "initial_conditions"):
        for n in F[g]:
            for k in F[g][n]:
                yield "without {}.{}.{}".format(g, n, k), dict(F, **{g: dict(F[g], **{n: {a: b for a, b in F[g][n].items() if a != k}})}), {}, {}
                yield "{}.{}.{} None".format(g, n, k), dict(F, **{g: dict(F[g], **{n: dict(F[g][n], **{k: None})})}), {}, {}


def leaves(x, path=()):
    """[(path, leaf)] without absent values."""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (str(k),))
    elif isinstance(x, (list, tuple)):
        xs = list(x)
        while xs and xs[-1] is None:
            xs.pop()
        if len(xs) == 1 and not isinstance(xs[0], (list, tuple, dict)):
            yield from leaves(xs[0], path)
            return
        for i, v in enumerate(xs):
            yield from leaves(v, path + (str(i),))
    elif x is not None:
        yield path, x


NEEDS = {"n_component": ("n_phase", "n_component_mass", "isothermal"), "n_phase": ("n_component",), "n_component_mass": ("n_component", "n_phase"),
         "isothermal": ("n_component", "n_phase", "n_component_mass")}


def alone(F, *gs):
    """The given groups of F with a title and rock types."""
    keep = {"title", "rocks"} | set(gs)
    for g in gs:
        keep |= set(NEEDS.get(g, ()))
    P = {k: v for k, v in F.items() if k in keep}
    if "flac" not in keep:
        P["rocks"] = {n: {k: v for k, v in r.items() if k not in ("permeability_model", "equivalent_pore_pressure")} for n, r in F["rocks"].items()}
    return P


def pairs(M, all_pairs=True):
    """Every group alone, and every two groups together."""
    F = M.full()
    for k in F["output"]:
        O = dict(F, output={k: F["output"][k]})
        for g in ("generators", "diffusion", "elements", "connections", "initial_conditions", "nover"):
            yield "output {} and {}".format(k, g), alone(O, "output", g), {}, {}
    gs = [g for g in F if g not in ("title", "rocks", "n_phase", "n_component_mass", "isothermal")]
    for i, g in enumerate(gs):
        yield "{} alone".format(g), alone(F, g), {}, {}
        if all_pairs:
            for h in gs[:i]:
                yield "{} and {}".format(h, g), alone(F, g, h), {}, {}
