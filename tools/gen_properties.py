"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


IN = "toughio/_io/input/tough/"

prop("C01", "Input fields are read back under the parameter they were written from",
     "In every block of a TOUGH input file, the value the reader stores under a parameter name (and position in a list) is taken from the very record and column into which the writer puts that parameter, and every field the writer fills from a parameter is one the reader hands back. The records of one block are consumed in the order in which they are produced.",
     ["inputs"], "every parameter dictionary, every block, every record and every column",
     "Round-trip tests draw one random dictionary per block, compare the keys the test itself lists, and never check that two fields of one record are not exchanged on both sides or that optional records appear.",
     [IN + "_write.py", IN + "_read.py", "toughio/_common.py"],
     [("block writers", IN + "_write.py"), ("block readers", IN + "_read.py"), ("record layouts", "toughio/_common.py")],
     observe=["toughio.write_input", "toughio.read_input"])

prop("C02", "Record layouts are TOUGH's fixed columns, whatever the label length",
     "Every record the library reads or writes follows TOUGH's published fixed columns: same fields, same kinds, same widths, at most 80 columns. Layouts for 6 to 9 character labels only take the extra label characters out of the neighbouring integer fields, so every later field starts in the same column as for 5-character labels; real fields keep all the significant digits their width can hold.",
     ["inputs", "configurations"], "every block, every record and every label length 5 to 9",
     "Tests read with the same table they wrote with, so a table wrong on both sides passes; most label lengths are only exercised for ELEME, CONNE and INCON.",
     ["toughio/_common.py"], [("layout table", "toughio/_common.py"), ("layout to format specification", "toughio/_common.py")],
     observe=["MESH, INCON, GENER and input files"])

prop("C03", "A written field never leaves its columns",
     "When a value is written into a fixed-width record it occupies exactly the columns of its field: text longer than the field is cut, an absent value becomes blanks, and a number never spills into the next field. Reading cuts a record at exactly the same columns and turns a blank field into an absent value.",
     ["inputs"], "every layout, every field kind, every value including negative numbers and absent values",
     "Tests use positive random numbers of moderate size and short strings, so neither overflow nor truncation occurs.",
     [IN + "_helpers.py", "toughio/_common.py", "toughio/_mesh/tough/_helpers.py"],
     [("record encoder", IN + "_helpers.py"), ("record decoder", IN + "_helpers.py"), ("format specification", "toughio/_common.py")])

prop("C04", "Every written block is recognised, delimited and placed where it is needed",
     "Each block keyword the writer can emit is recognised by the reader, under the same keyword, and blocks whose end is marked by a blank line on one side are ended by a blank line on the other. A block that completes data of an earlier one is written after it, the end marker is last, and a partial write (generators, mesh or initial conditions only) contains exactly the blocks of that part.",
     ["inputs", "configurations"], "every combination of present and absent blocks and every partial-write choice",
     "Tests write one block at a time; combinations of blocks, their order and the partial-write choices are not exercised.",
     [IN + "_write.py", IN + "_read.py", IN + "_helpers.py"],
     [("block emission order", IN + "_write.py"), ("block dispatch", IN + "_read.py"), ("header/terminator decorator", IN + "_helpers.py")])

prop("C05", "Reading, writing and converting never modify what the caller passed in",
     "Writing an input file, an output file or a mesh, converting a mesh from or to another library's mesh, and importing results leave the objects passed as arguments, including everything nested inside them, exactly as they were. Mesh methods asked not to work in place do not touch the original mesh.",
     ["inputs", "histories"], "every call of a public function with caller-owned arguments",
     "Tests compare results, not the arguments after the call; aliasing shows only when the caller uses the object again.",
     [IN + "_write.py", "toughio/_io/input/json/_json.py", "toughio/_io/output/_helpers.py", "toughio/_mesh/_helpers.py", "toughio/_mesh/_mesh.py", "toughio/_io/output/_common.py"],
     [("deep copy before work", IN + "_write.py"), ("deep copy before writing", "toughio/_mesh/_helpers.py")])

prop("C06", "Reading any finite file ends",
     "Reading any finite file, whatever its content and wherever it is cut, ends with a result or with an exception; no reader keeps waiting for a line that will never come.",
     ["inputs", "crash_points"], "every file content, every truncation point, every reader",
     "Tests only read complete well-formed files; a reader that spins at end of file would hang the suite, so such inputs are never tried.",
     [IN + "_read.py", "toughio/_io/output/tecplot/_tecplot.py", "toughio/_mesh/tecplot/_tecplot.py", "toughio/_mesh/flac3d/_flac3d.py", "toughio/_mesh/avsucd/_avsucd.py", "toughio/_io/output/tough/_tough.py", "toughio/_io/output/csv/_csv.py"],
     [("line loops", "all readers")])

prop("C07", "Files are released on every path and never destroyed by a refused request",
     "Every file the library opens is closed on every path, including when reading or writing fails. A request that is refused or fails because its arguments or the data given are invalid leaves an existing destination file untouched: arguments are checked and the content of text input files is produced before the destination is truncated.",
     ["inputs", "fault_sequences"], "every public reader, writer and command, every failing argument or content",
     "Tests never look at file descriptors or at the destination after a failing call.",
     [IN + "_write.py", "toughio/_io/input/json/_json.py", "toughio/_cli/_save2incon.py", "toughio/_cli/_merge.py", "toughio/_cli/_co2tab.py"],
     [("with statements", "whole package")])

prop("C08", "Parameters documented as optional can be omitted or given as None",
     "Every parameter, group member and per-entry value that has a default can be left out, and every one whose default is None can be given as None explicitly, without the writer failing: defaults complete each group before it is used, and every declared parameter of a group has a default under the same name.",
     ["inputs"], "every subset of present parameters in every group and entry",
     "Tests always give all members of a group; there are exponentially many subsets.",
     [IN + "_write.py", IN + "_common.py", IN + "_helpers.py"],
     [("default tables", IN + "_common.py"), ("declared parameters", IN + "_helpers.py"), ("completion with defaults", IN + "_write.py")])

prop("C09", "Array-like arguments may be lists, tuples or arrays",
     "Wherever the library accepts an array-like it accepts a list, a tuple or a numpy array alike: no decision depends on the truth value of the array itself or on comparing it as a whole, and no list-only operation is applied to it.",
     ["inputs"], "every argument or parameter declared array-like, every container type",
     "Tests pass one container type per argument.",
     [IN + "_write.py", "toughio/_io/output/save/_save.py", "toughio/_mesh/_helpers.py", "toughio/_mesh/tough/_tough.py", "toughio/relative_permeability/_base.py", "toughio/capillarity/_base.py"],
     [("declared types", IN + "_helpers.py")])

prop("C10", "Every registered format, class and command is reachable and callable",
     "Every file format announced for reading or writing resolves to a function that accepts what the dispatcher passes to it, every format the detector can return has a reader, every extension leads to its own format, and every format offered by a command line option is one that can be written. Everything a package announces as public exists, and every announced command accepts an argument list.",
     ["configurations", "programs"], "every format, extension, exported name and command",
     "Tests exercise a subset of formats and never go through the extension or option tables exhaustively.",
     ["toughio/_common.py", "toughio/_io/input/_helpers.py", "toughio/_io/output/_helpers.py", "toughio/_mesh/_helpers.py", "toughio/_cli/_export.py", "toughio/_cli/_extract.py"],
     [("registries", "register calls in format packages")])

prop("C11", "The face and volume tables describe the cells they are named after",
     "For every supported cell type, the listed faces form the closed boundary of the cell: each edge is shared by exactly two faces which run through it in opposite directions, and all normals built from them point the same way (outward). The tetrahedra used for volumes fill the cell exactly, without gap or overlap, with one orientation.",
     ["inputs"], "every supported cell type and every face and tetrahedron of its tables",
     "Tests compare totals on a handful of regular cells, where exchanged nodes and orientation errors cancel or go unseen.",
     ["toughio/_mesh/_properties.py"], [("face tables", "toughio/_mesh/_properties.py"), ("volume decomposition", "toughio/_mesh/_properties.py")])

prop("C12", "Node numberings of mesh formats are exact inverses of each other",
     "For every cell type a mesh format supports, converting node order to the file's convention is a permutation of all its nodes, and reading the file applies the inverse permutation; cell types that the format cannot hold directly are written by repeating nodes in a way that reading or the format's own rules collapse back. Type names and codes map one to one in both directions, with the right number of nodes.",
     ["inputs"], "every cell type of every mesh format, every node",
     "Meshio round-trip tests check a few meshes and cannot see a wrong convention used consistently on both sides for rare cell types.",
     ["toughio/_mesh/flac3d/_flac3d.py", "toughio/_mesh/avsucd/_avsucd.py", "toughio/_mesh/tecplot/_tecplot.py", "toughio/_mesh/_common.py", "toughio/_mesh/_mesh.py"],
     [("node order tables", "mesh format modules")])

prop("C14", "Each result column is stored under the name that heads it",
     "In every simulator output format, the number of leading label, time or index columns dropped from the names equals the number dropped from the values, so that each column of values is returned under its own heading; what a format's writer puts under a heading is what its reader finds there. Labels, times and values of one time step stay together.",
     ["inputs"], "every output format, every number of columns, element and connection data",
     "Tests read fixed sample files and compare a few columns or sums.",
     ["toughio/_io/output/csv/_csv.py", "toughio/_io/output/petrasim/_petrasim.py", "toughio/_io/output/tecplot/_tecplot.py", "toughio/_io/output/tough/_tough.py", "toughio/_io/output/save/_save.py", "toughio/_io/output/_common.py", "toughio/_io/output/_helpers.py"],
     [("column offsets", "output readers"), ("heading lists", "output writers")])

prop("C15", "Flow-property models name, number and order their parameters consistently",
     "For every relative permeability and capillary pressure model, the i-th constructor argument, the i-th documented parameter, the i-th entry of the parameter list handed to the simulator and the i-th value used by the formula are the same quantity, setting the parameters stores each one under its own name, and the model's number is the one documented and is unique in its family. Saturations outside [0, 1] are refused before any evaluation, for single values and arrays alike.",
     ["inputs", "programs"], "every model, every parameter position, scalar and array saturations",
     "The tests for these models are not runnable here or compare a few values produced by the same ordering.",
     ["toughio/relative_permeability/_base.py", "toughio/capillarity/_base.py", "toughio/relative_permeability/", "toughio/capillarity/"],
     [("model classes", "toughio/relative_permeability, toughio/capillarity"), ("base classes", "_base.py")])

prop("C16", "Command line options do what they say",
     "Every option a command declares influences what the command does, and a chosen output format or file name is used by every branch that writes. Whatever a command assigns on a mesh is something a mesh has.",
     ["inputs", "configurations"], "every command, every option, every branch",
     "Command tests run two of the commands with default options.",
     ["toughio/_cli/_export.py", "toughio/_cli/_extract.py", "toughio/_cli/_merge.py", "toughio/_cli/_save2incon.py", "toughio/_cli/_co2tab.py"],
     [("argument parsers", "toughio/_cli"), ("branches on options", "toughio/_cli")])

prop("C17", "Data attached to cells, points and time steps moves with them",
     "Whenever points, cells, labels or time steps are reordered, selected, removed or replicated, every array attached to them is reordered, selected, removed or replicated with the same index: duplicate removal, extrusion, label reordering, time sorting and end-of-block ordering treat all attached arrays alike.",
     ["inputs"], "every mesh and output operation that changes order or number of entities, every attached array",
     "Tests check sizes or one array on a single-block mesh where an identity permutation hides the error.",
     ["toughio/_mesh/_mesh.py", "toughio/_io/output/_common.py", "toughio/_mesh/_helpers.py", "toughio/_mesh/tough/_tough.py"],
     [("index application", "toughio/_mesh/_mesh.py, toughio/_io/output/_common.py")])

prop("C18", "Mesh export writes each quantity in its column and skips only absent values",
     "The element, coordinate, connection and initial-condition records exported from a mesh put every quantity into the column from which the input reader takes the quantity of that name, and the value that marks an undefined initial condition is the same wherever it is produced, tested or written. Material renaming and end-of-block placement apply to the material names the user gave, and coordinates are written in the same element order as the elements.",
     ["inputs"], "every exported record and field, every combination of present initial condition, porosity and permeability, every material name length",
     "Round-trip tests use positive initial conditions and five-character materials.",
     ["toughio/_mesh/tough/_tough.py", "toughio/_mesh/tough/_helpers.py", IN + "_read.py", "toughio/_common.py"],
     [("record producers", "toughio/_mesh/tough/_helpers.py"), ("sentinel", "toughio/_mesh/tough/_tough.py")])

prop("C19", "Calls do not influence later calls",
     "Apart from registering formats, no public operation changes library-wide state: default tables, layouts, type maps, function default arguments and registries are the same after any call as before, and no object handed to a caller shares mutable storage with them.",
     ["histories"], "every sequence of public calls",
     "State leaks need two calls in one process in a specific order; tests use fresh data and never compare the tables.",
     [IN + "_common.py", IN + "_write.py", "toughio/_common.py", "toughio/_mesh/_common.py", "toughio/_mesh/_helpers.py"],
     [("module-level tables", "whole package")])

prop("C20", "A blank field is never mistaken for a value",
     "A field or line that may be blank is tested for absence before the reader computes with it, so that a file in which any optional field is blank is read rather than aborting with an unrelated error, and everything the writer can leave blank can be read back.",
     ["inputs"], "every record field that the writer may leave blank, in every block",
     "Tests fill all fields.",
     [IN + "_read.py", IN + "_helpers.py", "toughio/_io/output/save/_save.py"],
     [("blank to absent", IN + "_helpers.py"), ("removal of absent values", IN + "_helpers.py")])

prop("C21", "JSON input files hold the same parameters as the native format",
     "Writing parameters to JSON and reading them back restores every group with the keys it had: groups keyed by integers get integer keys again, every number, boolean, array and nested type accepted for a parameter can be stored, and nothing is dropped or renamed.",
     ["inputs"], "every parameter group, every accepted value type at any nesting depth",
     "The test uses one dictionary with native Python values.",
     ["toughio/_io/input/json/_json.py", IN + "_helpers.py"],
     [("conversion to JSON types", "toughio/_io/input/json/_json.py"), ("key restoration", "toughio/_io/input/json/_json.py")])

prop("C23", "Every accepted parameter reaches the file and every group is checked",
     "Every parameter name the library declares as valid has a place in the file it writes: giving it a value changes what is written. Names and types are checked against the declaration of that same group for every group and every entry that is written, so a wrong type is refused and an unknown name is reported.",
     ["inputs"], "every declared parameter of every group",
     "Tests check keys they list themselves; a declared but ignored parameter fails no test.",
     [IN + "_helpers.py", IN + "_write.py", IN + "_common.py"],
     [("declaration tables", IN + "_helpers.py"), ("checking decorator", IN + "_helpers.py")])

prop("C24", "Cell labels are unique, of one length, and valid for TOUGH",
     "For any number of cells up to the capacity of the chosen label length, the generated labels are pairwise different, all of that length, and start with a letter followed by alphanumeric characters and a numeric part; when the length is not given, the shortest sufficient length is chosen.",
     ["inputs"], "every number of cells and every label length",
     "Tests generate labels for small meshes; wrap-around needs millions of cells.",
     ["toughio/_mesh/_common.py", "toughio/_common.py"],
     [("mixed-radix decomposition", "toughio/_mesh/_common.py")])

prop("C25", "Binary and text variants of a mesh file carry the same content",
     "For mesh formats with a text and a binary variant, both variants of reader and writer treat the same sections in the same order with the same keywords, record sizes and node orders; a section is ended by every keyword that can start another, and cell groups refer to the numbering used for the cells written.",
     ["inputs", "configurations"], "every section, cell type and variant",
     "Tests round-trip small meshes of one kind per file, without several groups or mixed faces and zones.",
     ["toughio/_mesh/flac3d/_flac3d.py"],
     [("section readers and writers", "toughio/_mesh/flac3d/_flac3d.py")])

prop("C26", "Public functions refuse arguments of the wrong kind before doing anything",
     "Each public reader, writer, mesh method and mesh maker that documents the kind or range of an argument checks it and raises an error before opening a file or changing an object, on every path.",
     ["inputs"], "every checked argument of every public function",
     "Few tests pass invalid arguments.",
     ["toughio/_io/input/_helpers.py", "toughio/_io/output/_helpers.py", "toughio/_mesh/_helpers.py", "toughio/_mesh/_mesh.py", "toughio/meshmaker/_structured_grid.py", "toughio/meshmaker/_cylindric_grid.py"],
     [("argument guards", "public functions")])

prop("C13", "Quantities of a face come from the same face",
     "For every cell, the k-th normal, area, neighbour and node list describe the same face, in every routine that computes or combines them and for every cell type including those with mixed triangular and quadrangular faces and the specialised cylindrical mesh.",
     ["inputs"], "every cell type, every face slot, every pair of face-wise arrays",
     "Tests use single-type meshes and compare sums.",
     ["toughio/_mesh/_properties.py", "toughio/_mesh/_mesh.py", "toughio/meshmaker/_cylindric_grid.py", "toughio/_mesh/tough/_tough.py"],
     [("face slots", "toughio/_mesh/_properties.py")])

prop("C27", "Relative permeability and capillary pressure stay within physical bounds",
     "For every admissible saturation and parameter set, relative permeabilities lie in [0, 1] and capillary pressures do not exceed zero.",
     ["inputs"], "every saturation and parameter set", "Continuous inputs; tests sample.",
     ["toughio/relative_permeability/", "toughio/capillarity/"], [("formulae", "model classes")])

prop("C28", "Volumes, areas and distances are those of the actual geometry",
     "Cell volumes, face areas, nodal distances and direction cosines equal those of the geometry for every valid conforming mesh.",
     ["inputs"], "every mesh", "Continuous inputs; tests sample regular grids.",
     ["toughio/_mesh/_properties.py", "toughio/_mesh/tough/_tough.py"], [("geometry", "toughio/_mesh")])

prop("C29", "A parameter set survives writing and reading numerically",
     "Reading back a written file gives numerically the same values to the precision of each field, for every value.",
     ["inputs"], "every value", "Infinite value domain.", [IN + "_write.py", IN + "_read.py"], [("codec", IN + "_helpers.py")])

prop("C30", "Interpolated and averaged mesh data are bounded by the data they come from",
     "Point data obtained from cell data and cell data obtained from point data lie between the smallest and the largest contributing value.",
     ["inputs"], "every mesh and data array", "Continuous inputs.", ["toughio/_mesh/_common.py", "toughio/_mesh/_mesh.py"], [("averaging", "toughio/_mesh/_common.py")])

P.sort(key=lambda p: p["id"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
