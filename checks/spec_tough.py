"""Fixed columns of the TOUGH input blocks (TOUGH2 V2 / TOUGH3 user's guides, TOUGH-FLAC for block FLAC).

Each record is a list of (width, kind, parameter paths); kind is t (text), i
(integer) or r (real); no path means columns that carry no parameter.  "L" is
the length of an element label.
"""


def P(*names):
    return [tuple(int(x) if x.isdigit() else x for x in n.split(".")) for n in names]


def idx(name, n, k0=0):
    return [P("{}.{}".format(name, k0 + i)) for i in range(n)]


def par(w, name, n=7):
    return [(10, "r", p) for p in idx(name, n)]


def rpcap(g, n):
    return [(5, "i", P(g + "." + n + ".id")), (5, "t", [])] + par(10, g + "." + n + ".parameters")


SPEC = {
    "ROCKS": [
        [(5, "t", P("rocks.#key", "rocks_order.*")), (5, "i", P("rocks.*.#nad")), (10, "r", P("rocks.*.density")),
         (10, "r", P("rocks.*.porosity")), (10, "r", P("rocks.*.permeability.0", "rocks.*.permeability")),
         (10, "r", P("rocks.*.permeability.1", "rocks.*.permeability")),
         (10, "r", P("rocks.*.permeability.2", "rocks.*.permeability")),
         (10, "r", P("rocks.*.conductivity")), (10, "r", P("rocks.*.specific_heat"))],
        [(10, "r", P("rocks.*." + n)) for n in ("compressibility", "expansivity", "conductivity_dry", "tortuosity",
                                                "klinkenberg_parameter", "distribution_coefficient_3",
                                                "distribution_coefficient_4")],
        rpcap("rocks.*", "relative_permeability"),
        rpcap("rocks.*", "capillarity"),
    ],
    "RPCAP": [rpcap("default", "relative_permeability"), rpcap("default", "capillarity")],
    "FLAC": [
        [(5, "i", P("flac.creep")), (5, "i", P("flac.porosity_model")), (5, "i", P("flac.version"))] + [(5, "i", [])] * 13,
        [(10, "i", P("rocks.*.permeability_model.id", "default.permeability_model.id"))]
        + [(10, "r", P("rocks.*.permeability_model.parameters.%d" % i, "default.permeability_model.parameters.%d" % i)) for i in range(7)],
        [(5, "i", P("rocks.*.equivalent_pore_pressure.id", "default.equivalent_pore_pressure.id")), (5, "t", [])]
        + [(10, "r", P("rocks.*.equivalent_pore_pressure.parameters.%d" % i, "default.equivalent_pore_pressure.parameters.%d" % i)) for i in range(7)],
    ],
    "MULTI": [[(5, "i", P("n_component")), (5, "i", P("n_component")), (5, "i", P("n_phase")), (5, "i", []), (5, "i", P("n_component_mass"))]],
    "SOLVR": [[(1, "i", P("solver.method")), (2, "t", []), (2, "t", P("solver.z_precond")), (3, "t", []),
               (2, "t", P("solver.o_precond")), (10, "r", P("solver.rel_iter_max")), (10, "r", P("solver.eps"))]],
    "PARAM": [
        [(2, "i", P("options.n_iteration")), (2, "i", P("options.verbosity")), (4, "i", P("options.n_cycle")),
         (4, "i", P("options.n_second")), (4, "i", P("options.n_cycle_print")), (24, "t", P("extra_options.*")), (10, "t", []),
         (10, "r", P("options.temperature_dependence_gas")), (10, "r", P("options.effective_strength_vapor"))],
        [(10, "r", P("options.t_ini")), (10, "r", P("options.t_max")), (10, "r", P("options.#delten")), (10, "r", P("options.t_step_max")),
         (10, "t", []), (10, "r", P("options.gravity")), (10, "r", P("options.t_reduce_factor")),
         (10, "r", P("options.mesh_scale_factor"))],
        [(10, "r", P("options.t_steps", "options.t_steps.*"))] * 8,
        [(10, "r", P("options.eps1")), (10, "r", P("options.eps2")), (10, "t", []), (10, "r", P("options.w_upstream")),
         (10, "r", P("options.w_newton")), (10, "r", P("options.derivative_factor"))],
        [(20, "r", p) for p in idx("default.initial_condition", 4)],
        [(20, "r", p) for p in idx("default.initial_condition", 4, 4)],
    ],
    "SELEC": [
        [(5, "i", P("selections.integers.%d" % (i + 1))) for i in range(16)],
        [(10, "r", P("selections.floats.%d" % i, "selections.floats.*.%d" % i)) for i in range(8)],
    ],
    "INDOM": [
        [(5, "t", P("rocks.#key", "rocks_order.*"))],
        [(20, "r", p) for p in idx("rocks.*.initial_condition", 4)],
        [(20, "r", p) for p in idx("rocks.*.initial_condition", 4, 4)],
    ],
    "MOMOP": [[(40, "t", P("more_options.*"))]],
    "TIMES": [
        [(5, "i", P("#n_times")), (5, "i", []), (10, "r", []), (10, "r", [])],
        [(10, "r", P("times", "times.*"))] * 8,
    ],
    "FOFT": [[("L", "t", P("element_history.*"))]],
    "COFT": [[("2L", "t", P("connection_history.*"))]],
    "GOFT": [[("L", "t", P("generator_history.*"))]],
    "GENER": [
        [("L", "t", P("generators.#key")), (5, "t", P("generators.*.name")), (5, "i", P("generators.*.nseq")),
         (5, "i", P("generators.*.nadd")), (5, "i", P("generators.*.nads")), (5, "i", P("generators.*.#ltab")), (5, "t", []),
         (4, "t", P("generators.*.type")), (1, "i", P("generators.*.#itab")), (10, "r", P("generators.*.rates")),
         (10, "r", P("generators.*.specific_enthalpy")), (10, "r", P("generators.*.layer_thickness"))],
        [(14, "r", P("generators.*.times.*", "generators.*.times.*.*"))] * 4,
        [(14, "r", P("generators.*.rates.*", "generators.*.rates.*.*"))] * 4,
        [(14, "r", P("generators.*.specific_enthalpy.*", "generators.*.specific_enthalpy.*.*"))] * 4,
    ],
    "DIFFU": [[(10, "r", P("diffusion.*", "diffusion.*.*"))] * 8],
    "OUTPU": [
        [(20, "t", P("output.format"))],
        [(15, "t", P("#n_variables"))],
        [(20, "t", P("output.variables.#key")), (5, "i", P("output.variables.*", "output.variables.*.0", "output.variables.*.*.0")),
         (5, "i", P("output.variables.*.1", "output.variables.*.*.1"))],
    ],
    "ELEME": [
        [("L", "t", P("elements.#key", "elements_order.*")), (5, "i", P("elements.*.nseq")), (5, "i", P("elements.*.nadd")),
         (5, "t", P("elements.*.material")), (10, "r", P("elements.*.volume")), (10, "r", P("elements.*.heat_exchange_area")),
         (10, "r", P("elements.*.permeability_modifier")), (10, "r", P("elements.*.center.0")), (10, "r", P("elements.*.center.1")),
         (10, "r", P("elements.*.center.2"))],
    ],
    "COORD": [[(20, "r", p) for p in idx("elements.*.center", 3)]],
    "CONNE": [
        [("2L", "t", P("connections.#key", "connections_order.*")), (5, "i", P("connections.*.nseq")),
         (5, "i", P("connections.*.nadd.0")), (5, "i", P("connections.*.nadd.1")), (5, "i", P("connections.*.permeability_direction")),
         (10, "r", P("connections.*.nodal_distances.0")), (10, "r", P("connections.*.nodal_distances.1")),
         (10, "r", P("connections.*.interface_area")), (10, "r", P("connections.*.gravity_cosine_angle")),
         (10, "r", P("connections.*.radiant_emittance_factor"))],
    ],
    "INCON": [
        [("L", "t", P("initial_conditions.#key", "initial_conditions_order.*")), (5, "i", []), (5, "i", []),
         (15, "r", P("initial_conditions.*.porosity"))] + [(10, "r", p) for p in idx("initial_conditions.*.userx", 5)],
        [(20, "r", p) for p in idx("initial_conditions.*.values", 4)],
        [(20, "r", p) for p in idx("initial_conditions.*.values", 4, 4)],
    ],
}


def starts(rec):
    """[(start, end, kind, paths)] for labels of 5 characters."""
    out, pos = [], 0
    for w, k, p in rec:
        w = {"L": 5, "2L": 10}.get(w, w)
        out.append((pos, pos + w, k, p))
        pos += w
    return out


def label(rec):
    return {"L": 1, "2L": 2}.get(rec[0][0], 0)

# declared parameters of the input format and their kinds (documentation of the input file format)
DTYPES = {'PARAMETERS': {'title': 'str_array_like',
                'eos': 'str',
                'n_component': 'int',
                'n_phase': 'int',
                'n_component_mass': 'int',
                'flac': 'dict',
                'isothermal': 'bool',
                'start': 'bool',
                'nover': 'bool',
                'rocks': 'dict',
                'rocks_order': 'array_like',
                'options': 'dict',
                'extra_options': 'dict',
                'more_options': 'dict',
                'selections': 'dict',
                'solver': 'dict',
                'generators': 'dict',
                'times': 'scalar_array_like',
                'element_history': 'array_like',
                'connection_history': 'array_like',
                'generator_history': 'array_like',
                'diffusion': 'array_like',
                'output': 'dict',
                'elements': 'dict',
                'elements_order': 'array_like',
                'coordinates': 'bool',
                'connections': 'dict',
                'connections_order': 'array_like',
                'initial_conditions': 'dict',
                'initial_conditions_order': 'array_like',
                'default': 'dict'},
 'ROCKS': {'density': 'scalar',
           'porosity': 'scalar',
           'permeability': 'scalar_array_like',
           'conductivity': 'scalar',
           'specific_heat': 'scalar',
           'compressibility': 'scalar',
           'expansivity': 'scalar',
           'conductivity_dry': 'scalar',
           'tortuosity': 'scalar',
           'klinkenberg_parameter': 'scalar',
           'distribution_coefficient_3': 'scalar',
           'distribution_coefficient_4': 'scalar',
           'initial_condition': 'array_like',
           'relative_permeability': 'dict',
           'capillarity': 'dict',
           'permeability_model': 'dict',
           'equivalent_pore_pressure': 'dict'},
 'FLAC': {'creep': 'bool', 'porosity_model': 'int', 'version': 'int'},
 'MODEL': {'id': 'int', 'parameters': 'array_like'},
 'PARAM': {'n_iteration': 'int',
           'n_cycle': 'int',
           'n_second': 'int',
           'n_cycle_print': 'int',
           'verbosity': 'int',
           'temperature_dependence_gas': 'scalar',
           'effective_strength_vapor': 'scalar',
           't_ini': 'scalar',
           't_max': 'scalar',
           't_steps': 'scalar_array_like',
           't_step_max': 'scalar',
           't_reduce_factor': 'scalar',
           'gravity': 'scalar',
           'mesh_scale_factor': 'scalar',
           'eps1': 'scalar',
           'eps2': 'scalar',
           'w_upstream': 'scalar',
           'w_newton': 'scalar',
           'derivative_factor': 'scalar'},
 'SELEC': {'integers': 'dict', 'floats': 'array_like'},
 'SOLVR': {'method': 'int', 'z_precond': 'str', 'o_precond': 'str', 'rel_iter_max': 'scalar', 'eps': 'scalar'},
 'GENER': {'name': 'str_array_like',
           'nseq': 'scalar_array_like',
           'nadd': 'scalar_array_like',
           'nads': 'scalar_array_like',
           'type': 'str_array_like',
           'times': 'scalar_array_like',
           'rates': 'scalar_array_like',
           'specific_enthalpy': 'scalar_array_like',
           'layer_thickness': 'scalar_array_like'},
 'OUTPU': {'format': 'str', 'variables': 'dict'},
 'ELEME': {'nseq': 'int',
           'nadd': 'int',
           'material': 'str_int',
           'volume': 'scalar',
           'heat_exchange_area': 'scalar',
           'permeability_modifier': 'scalar',
           'center': 'array_like'},
 'CONNE': {'nseq': 'int',
           'nadd': 'array_like',
           'permeability_direction': 'int',
           'nodal_distances': 'array_like',
           'interface_area': 'scalar',
           'gravity_cosine_angle': 'scalar',
           'radiant_emittance_factor': 'scalar'},
 'INCON': {'porosity': 'scalar', 'userx': 'array_like', 'values': 'array_like'}}
DTYPES["MOP"] = {i + 1: "int" for i in range(24)}
DTYPES["MOMOP"] = {i + 1: "int" for i in range(40)}

# where the declarations of a group apply
GROUPS = {
    "ROCKS": [("rocks", "*"), ("default",)],
    "FLAC": [("flac",)],
    "MODEL": [(g,) + ((n,) if n else ()) + (k,) for g, n in (("rocks", "*"), ("default", None))
              for k in ("relative_permeability", "capillarity", "permeability_model", "equivalent_pore_pressure")],
    "PARAM": [("options",)],
    "MOP": [("extra_options",)],
    "MOMOP": [("more_options",)],
    "SELEC": [("selections",)],
    "SOLVR": [("solver",)],
    "GENER": [("generators", "*")],
    "OUTPU": [("output",)],
    "ELEME": [("elements", "*")],
    "CONNE": [("connections", "*")],
    "INCON": [("initial_conditions", "*")],
}
