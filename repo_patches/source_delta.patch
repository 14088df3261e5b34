From 57336d170848c994654817c058ea2326dbe85df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 01/53] fix: read back the number of mass components of block
 MULTI

---
 toughio/_io/input/tough/_read.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index b813cfe..085101d 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -239,6 +239,8 @@ def _read_multi(f):
     multi["n_component"] = data[0]
     multi["isothermal"] = data[1] == data[0]
     multi["n_phase"] = data[2]
+    if data[4] is not None:
+        multi["n_component_mass"] = data[4]
 
     return multi
 
-- 
2.43.0


From 73d33ab84fe6a7d0950d06932bd8b3ea732dd6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 02/53] fix: stop reading the title at the end of an input file
 without block ROCKS

---
 toughio/_io/input/tough/_read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 085101d..14a5e32 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -45,9 +45,9 @@ def read_buffer(f, label_length):
     if line[:5] not in {"ROCKS", "ELEME", "INCON", "GENER"}:
         title = [line]
         while True:
-            line = f.readline().strip()
-            if not line.startswith("ROCKS"):
-                title.append(line)
+            line = f.readline()
+            if line and not line.strip().startswith("ROCKS"):
+                title.append(line.strip())
             else:
                 break
 
-- 
2.43.0


From 0a988274f6b36e299ed9b0aa0811d31224ba6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 03/53] fix: default linear solver is option 'method'

---
 toughio/_io/input/tough/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_common.py b/toughio/_io/input/tough/_common.py
index 32e4ab1..14cb8d1 100644
--- a/toughio/_io/input/tough/_common.py
+++ b/toughio/_io/input/tough/_common.py
@@ -72,7 +72,7 @@ extra_options = {k + 1: None for k in range(24)}
 more_options = {k + 1: None for k in range(40)}
 
 solver = {
-    "id": 3,
+    "method": 3,
     "z_precond": "Z0",
     "o_precond": "O0",
     "rel_iter_max": 0.1,
-- 
2.43.0


From 7e28c370f1f6de93b196ecd22f0ffb50d60614a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 04/53] fix: block SELEC with only integers or only floats

---
 toughio/_io/input/tough/_read.py  | 2 +-
 toughio/_io/input/tough/_write.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 14a5e32..a9dc6cf 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -365,7 +365,7 @@ def _read_selec(f):
             selec["selections"]["floats"].append(prune_nones_list(data))
 
     selec["selections"]["integers"] = prune_nones_dict(selec["selections"]["integers"])
-    if selec["selections"]["integers"][1] == 1:
+    if selec["selections"]["integers"].get(1) == 1:
         selec["selections"]["floats"] = selec["selections"]["floats"][0]
 
     return selec
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 1caba5a..2b126b6 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -486,10 +486,11 @@ def _write_selec(parameters):
     from ._common import selections
 
     data = deepcopy(selections)
-    if parameters["selections"]["integers"]:
+    if parameters["selections"].get("integers"):
         data["integers"].update(parameters["selections"]["integers"])
-    if len(parameters["selections"]["floats"]):
-        data["floats"] = parameters["selections"]["floats"]
+    floats = parameters["selections"].get("floats")
+    if floats is not None and len(floats):
+        data["floats"] = floats
 
     # Check floats and overwrite IE(1)
     if data["floats"] is not None and len(data["floats"]):
-- 
2.43.0


From 6105b084cfffbbfef79dec5a5bb695c7ae3af6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:10 +0000
Subject: [PATCH 05/53] fix: Tecplot output reader must stop at end of file
 without header

---
 toughio/_io/output/tecplot/_tecplot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index ff2fefa..11d7a4d 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -16,7 +16,11 @@ def read(filename, file_type, file_format, labels_order):
     with open(filename, "r") as f:
         # Look for header (VARIABLES)
         while True:
-            line = f.readline().strip()
+            line = f.readline()
+            if not line:
+                raise ValueError("Header 'VARIABLES' not found.")
+
+            line = line.strip()
             if line.upper().startswith("VARIABLES"):
                 break
 
-- 
2.43.0


From 6414d688ab84e820cd4e24811309b3c7295e2eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:10 +0000
Subject: [PATCH 06/53] fix: Tecplot mesh reader must stop at end of truncated
 file

---
 toughio/_mesh/tecplot/_tecplot.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 17d020e..642984c 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -304,14 +304,22 @@ def _parse_fezone(zone, variables):
 def _read_zone_data(f, num_data, num_cells, zone_format):
     data, count = [], 0
     while count < num_data:
-        line = f.readline().strip().split()
+        line = f.readline()
+        if not line:
+            raise ValueError("Unexpected end of file")
+
+        line = line.strip().split()
         if line:
             data += [[float(x) for x in line]]
             count += len(line) if zone_format == "FEBLOCK" else 1
 
     cells, count = [], 0
     while count < num_cells:
-        line = f.readline().strip().split()
+        line = f.readline()
+        if not line:
+            raise ValueError("Unexpected end of file")
+
+        line = line.strip().split()
         if line:
             cells += [[[int(x) for x in line]]]
             count += 1
-- 
2.43.0


From bc612ad956d9d62ca26592d6aa9aaab8ea1cf687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:10 +0000
Subject: [PATCH 07/53] fix: Tecplot mesh reader must not take negative data
 for zone header

---
 toughio/_mesh/tecplot/_tecplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 642984c..6b13c75 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -110,7 +110,7 @@ def read_buffer(f):
             i = f.tell()
             line = f.readline().strip().upper()
             while True:
-                if line and not line[0].isdigit():
+                if line and not (line[0].isdigit() or line[0] in "+-."):
                     lines += [line]
                     i = f.tell()
                     line = f.readline().strip().upper()
-- 
2.43.0


From dc4f7bbe54d684d4644254658be4967c2d91b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:10 +0000
Subject: [PATCH 08/53] fix: Tecplot zone type of meshes with 2D and 3D cells

---
 toughio/_mesh/tecplot/_tecplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 6b13c75..c8b618d 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -366,7 +366,7 @@ def write(filename, mesh):
             cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == 3]
 
         # Convert 2D cells to quads / 3D cells to hexahedra
-        zone_type = "FEQUADRILATERAL" if num_dims[0] == 2 else "FEBRICK"
+        zone_type = "FEQUADRILATERAL" if max(num_dims) == 2 else "FEBRICK"
         cells = numpy.concatenate(
             [
                 mesh.cells[ic].data[:, meshio_to_tecplot_order_2[mesh.cells[ic].type]]
-- 
2.43.0


From 75dadf5121b20cd7372daf81ecb0d48fe12850c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:10 +0000
Subject: [PATCH 09/53] fix: do not skip initial conditions lower than -1.0e-9
 in INCON

---
 toughio/_mesh/tough/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tough/_helpers.py b/toughio/_mesh/tough/_helpers.py
index 8092ce1..9af9a41 100644
--- a/toughio/_mesh/tough/_helpers.py
+++ b/toughio/_mesh/tough/_helpers.py
@@ -90,7 +90,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
 
     iterables = zip(labels, values, porosity, userx)
     for label, value, phi, usrx in iterables:
-        cond1 = any(v > -1.0e-9 for v in value)
+        cond1 = any(v > -1.0e9 for v in value)
         cond2 = phi is not None
         cond3 = usrx is not None
         if cond1 or cond2 or cond3:
-- 
2.43.0


From c65f983106b16cef125e0f60cf3fae330f0811bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:10 +0000
Subject: [PATCH 10/53] fix: Fatt-Klikoff relative permeability index

---
 toughio/relative_permeability/_fatt_klikoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/relative_permeability/_fatt_klikoff.py b/toughio/relative_permeability/_fatt_klikoff.py
index 0737d40..b3f9498 100644
--- a/toughio/relative_permeability/_fatt_klikoff.py
+++ b/toughio/relative_permeability/_fatt_klikoff.py
@@ -7,7 +7,7 @@ __all__ = [
 
 class FattKlikoff(BaseRelativePermeability):
 
-    _id = 7
+    _id = 6
     _name = "Fatt-Klikoff"
 
     def __init__(self, slr):
-- 
2.43.0


From da627c86030aa290b2cc14ae2e881e1fbdec6123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:10 +0000
Subject: [PATCH 11/53] fix: toughio-extract --split must honor --file-format

---
 toughio/_cli/_extract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_cli/_extract.py b/toughio/_cli/_extract.py
index a1fc63a..8acfc0f 100644
--- a/toughio/_cli/_extract.py
+++ b/toughio/_cli/_extract.py
@@ -85,7 +85,9 @@ def extract(argv=None):
     else:
         head, ext = os.path.splitext(filename)
         for i, out in enumerate(output):
-            write_output("{}_{}{}".format(head, i + 1, ext), out, file_format="csv")
+            write_output(
+                "{}_{}{}".format(head, i + 1, ext), out, file_format=args.file_format
+            )
 
 
 def _get_parser():
-- 
2.43.0


From 711b6527dfcf32e33bd52353be5d9ee274e0c261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:10 +0000
Subject: [PATCH 12/53] fix: discard cell data of the mesh before exporting
 results

---
 toughio/_cli/_export.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_cli/_export.py b/toughio/_cli/_export.py
index ae07897..960cf75 100644
--- a/toughio/_cli/_export.py
+++ b/toughio/_cli/_export.py
@@ -102,7 +102,7 @@ def export(argv=None):
             sys.stdout.flush()
 
             mesh = voxelize(points, args.origin, layer=args.layer)
-            mesh.cell_dada = {}
+            mesh.cell_data = {}
 
             idx = numpy.arange(len(points))
             idx = numpy.array(
@@ -128,7 +128,7 @@ def export(argv=None):
             sys.stdout.flush()
 
             mesh = triangulate(points[:, axis])
-            mesh.cell_dada = {}
+            mesh.cell_data = {}
 
             if args.file_format != "xdmf":
                 for label, data in output.data.items():
@@ -146,7 +146,7 @@ def export(argv=None):
 
         if args.file_format != "xdmf":
             mesh.point_data = {}
-            mesh.cell_dada = {}
+            mesh.cell_data = {}
             mesh.field_data = {}
             mesh.point_sets = {}
             mesh.cell_sets = {}
-- 
2.43.0


From d6f13ca5d98593d0c33eaf810c4eca844b49a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:01 +0000
Subject: [PATCH 13/53] fix: save2incon must not truncate the output file when
 the SAVE file is invalid

---
 toughio/_cli/_save2incon.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/toughio/_cli/_save2incon.py b/toughio/_cli/_save2incon.py
index bfc54c8..982932f 100644
--- a/toughio/_cli/_save2incon.py
+++ b/toughio/_cli/_save2incon.py
@@ -13,19 +13,18 @@ def save2incon(argv=None):
     if not os.path.isfile(args.infile):
         raise ValueError("SAVE file '{}' not found.".format(args.infile))
 
+    # Buffer SAVE file
+    with open(args.infile, "r") as f:
+        save_file = list(f)
+    if not (save_file and save_file[0].startswith("INCON")):
+        raise ValueError("Invalid SAVE file.")
+
     # Write INCON file
     with open(args.outfile, "w") as f:
-        first = True
-        with open(args.infile, "r") as fsave:
-            for line in fsave:
-                if first:
-                    if not line.startswith("INCON"):
-                        raise ValueError("Invalid SAVE file.")
-                    else:
-                        first = False
-                if args.reset and line.startswith("+++"):
-                    break
-                f.write(line)
+        for line in save_file:
+            if args.reset and line.startswith("+++"):
+                break
+            f.write(line)
 
         if args.reset:
             f.write("\n")
-- 
2.43.0


From db17ed33260587e2bdc061337c17a37cf88fffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:01 +0000
Subject: [PATCH 14/53] fix: read SAVE with labels order given as an array

---
 toughio/_io/output/save/_save.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/save/_save.py b/toughio/_io/output/save/_save.py
index a99b2f2..27c7e95 100644
--- a/toughio/_io/output/save/_save.py
+++ b/toughio/_io/output/save/_save.py
@@ -32,7 +32,9 @@ def read(filename, file_type, file_format, labels_order):
         data["userx"] = numpy.array(userx)
 
     labels_order = (
-        labels_order if labels_order else parameters["initial_conditions_order"]
+        labels_order
+        if labels_order is not None
+        else parameters["initial_conditions_order"]
     )
     output = Output(file_type, file_format, None, numpy.array(labels), data)
     return reorder_labels(output, labels_order)
-- 
2.43.0


From ab31ce71928f90057cd11cf4005de813255591bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:01 +0000
Subject: [PATCH 15/53] fix: write diffusion coefficients given as an array

---
 toughio/_io/input/tough/_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 2b126b6..906879d 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -347,7 +347,7 @@ def _write_multi(parameters):
     values[2] = parameters["n_phase"] if parameters["n_phase"] else values[2]
 
     # Handle diffusion
-    if parameters["diffusion"]:
+    if parameters["diffusion"] is not None and len(parameters["diffusion"]):
         values[3] = 8
         parameters["n_phase"] = values[2]  # Save for later check
 
-- 
2.43.0


From 8328b58f55f6ef3c0b0c10b31ae615ae8fbac51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:01 +0000
Subject: [PATCH 16/53] fix: order of rocks given as a tuple or an array

---
 toughio/_io/input/tough/_write.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 906879d..04a8f67 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -162,7 +162,7 @@ def _write_rocks(parameters):
     """Write ROCKS block data."""
     # Reorder rocks
     if parameters["rocks_order"] is not None:
-        order = parameters["rocks_order"]
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
@@ -290,8 +290,8 @@ def _write_flac(parameters):
     data.update(parameters["flac"])
 
     # Reorder rocks
-    if parameters["rocks_order"]:
-        order = parameters["rocks_order"]
+    if parameters["rocks_order"] is not None:
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
@@ -533,8 +533,8 @@ def _write_selec(parameters):
 @block("INDOM", multi=True)
 def _write_indom(parameters):
     """Write INDOM block data."""
-    if parameters["rocks_order"]:
-        order = parameters["rocks_order"]
+    if parameters["rocks_order"] is not None:
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
-- 
2.43.0


From 95e86ec92b20d1003c0e993a22c2f32811e95a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:01 +0000
Subject: [PATCH 17/53] fix: serialize all numpy types to JSON before opening
 the output file

---
 toughio/_io/input/json/_json.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index 46d7cc1..c611725 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -63,18 +63,18 @@ def write(filename, parameters):
 
     def jsonify(x):
         """JSON serialize data."""
-        if isinstance(x, (numpy.int32, numpy.int64)):
-            return int(x)
+        if isinstance(x, numpy.generic):
+            return x.item()
         elif isinstance(x, (list, tuple)):
             return [jsonify(xx) for xx in x]
         elif isinstance(x, numpy.ndarray):
-            return x.tolist()
+            return jsonify(x.tolist())
         elif isinstance(x, dict):
             return {k: jsonify(v) for k, v in x.items()}
         else:
             return x
 
+    parameters = deepcopy(parameters)
+    parameters = json.dumps(jsonify(parameters), indent=4)
     with open(filename, "w") as f:
-        parameters = deepcopy(parameters)
-        parameters = jsonify(parameters)
-        json.dump(parameters, f, indent=4)
+        f.write(parameters)
-- 
2.43.0


From 0a779b55359cb19e48cf1cc95448ed155d048e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:01 +0000
Subject: [PATCH 18/53] fix: import JSON parameters with undefined options

---
 toughio/_io/input/json/_json.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index c611725..3593730 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -28,7 +28,7 @@ def read(filename):
 
     def to_int(data):
         """Return dict with integer keys instead of strings."""
-        return {int(k): data[k] for k in sorted(data.keys())}
+        return {int(k): data[k] for k in sorted(data.keys())} if data else data
 
     with open(filename, "r") as f:
         parameters = json.load(f)
@@ -39,10 +39,9 @@ def read(filename):
     if "more_options" in parameters.keys():
         parameters["more_options"] = to_int(parameters["more_options"])
 
-    if "selections" in parameters.keys():
-        parameters["selections"]["integers"] = to_int(
-            parameters["selections"]["integers"]
-        )
+    selections = parameters.get("selections")
+    if selections and "integers" in selections.keys():
+        selections["integers"] = to_int(selections["integers"])
 
     return parameters
 
-- 
2.43.0


From f692175b275c84869e2310b52791147df011398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 19/53] fix: drop cell data of cell blocks that are not
 extruded

---
 toughio/_mesh/_mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index c009903..dfe9a88 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -162,6 +162,9 @@ class Mesh(object):
                         if numpy.ndim(v[ic]) == 1
                         else numpy.tile(v[ic], (nh, 1))
                     )
+            else:
+                for k, v in cell_data.items():
+                    v[ic] = v[ic][:0]
 
         mesh.cells = cells
         mesh.cell_data = {k: numpy.concatenate(v) for k, v in cell_data.items()}
-- 
2.43.0


From a9c6e1ecc55752114223ad94596829e11493f8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:24 +0000
Subject: [PATCH 20/53] fix: from_meshio must not modify the input mesh

---
 toughio/_mesh/_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index dfe9a88..e9be85a 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -867,7 +867,7 @@ def from_meshio(mesh, material="dfalt"):
     if mesh.cell_data:
         if version[0] >= 4:
             cells = mesh.cells
-            cell_data = mesh.cell_data
+            cell_data = dict(mesh.cell_data)
         else:
             cells, cell_data = get_new_meshio_cells(mesh.cells, mesh.cell_data)
 
@@ -882,9 +882,9 @@ def from_meshio(mesh, material="dfalt"):
     out = Mesh(
         points=mesh.points,
         cells=cells,
-        point_data=mesh.point_data,
+        point_data=dict(mesh.point_data),
         cell_data=cell_data,
-        field_data=mesh.field_data,
+        field_data=dict(mesh.field_data),
         point_sets=(
             mesh.point_sets
             if hasattr(mesh, "point_sets")
-- 
2.43.0


From 15520c1e360a7f8cb9d5a33f74aed7e3364d4523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:24 +0000
Subject: [PATCH 21/53] fix: reorder_labels must not modify the input output
 data

---
 toughio/_io/output/_common.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/output/_common.py b/toughio/_io/output/_common.py
index eaa3b18..4c5fb06 100644
--- a/toughio/_io/output/_common.py
+++ b/toughio/_io/output/_common.py
@@ -36,9 +36,8 @@ def reorder_labels(data, labels):
 
     mapper = {k: v for v, k in enumerate(data.labels)}
     idx = [mapper[label] for label in labels]
-    data.labels[:] = data.labels[idx]
 
-    for k, v in data.data.items():
-        data.data[k] = v[idx]
-
-    return data
+    return data._replace(
+        labels=data.labels[idx],
+        data={k: v[idx] for k, v in data.data.items()},
+    )
-- 
2.43.0


From e464adbd1bbf966ce2c7570067d476fdc522f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:24 +0000
Subject: [PATCH 22/53] fix: FLAC3D group is also ended by the next face group

---
 toughio/_mesh/flac3d/_flac3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 439ae99..fbd0e1b 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -266,7 +266,7 @@ def _read_group(buf_or_line, binary, line=None):
         line = buf_or_line.readline()
         while True:
             line = line.rstrip().split()
-            if line and (line[0] not in {"*", "ZGROUP"}):
+            if line and (line[0] not in {"*", "ZGROUP", "FGROUP"}):
                 data += [int(l) for l in line]
             else:
                 buf_or_line.seek(i)
-- 
2.43.0


From 404d3fbfc9f62c5056af85590ff0963b0bdee872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:24 +0000
Subject: [PATCH 23/53] fix: FLAC3D groups must refer to the IDs of the zones
 and faces written

---
 toughio/_mesh/flac3d/_flac3d.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index fbd0e1b..cfe1fbc 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -489,11 +489,12 @@ def _translate_groups(cells, cell_data, field_data, flag):
     num_dims = numpy.concatenate(
         [numpy.full(len(c[1]), 2 if c[0] in meshio_only["face"] else 3) for c in cells]
     )
+    # Zones are numbered first, and then faces
+    ids = numpy.empty(len(num_dims), dtype=int)
+    ids[num_dims == 3] = numpy.arange((num_dims == 3).sum()) + 1
+    ids[num_dims == 2] = numpy.arange((num_dims == 2).sum()) + (num_dims == 3).sum() + 1
     groups = {
-        k: numpy.nonzero(
-            numpy.logical_and(cell_data == k, num_dims == flag_to_numdim[flag])
-        )[0]
-        + 1
+        k: ids[numpy.logical_and(cell_data == k, num_dims == flag_to_numdim[flag])]
         for k in numpy.unique(cell_data)
     }
     groups = {k: v for k, v in groups.items() if v.size}
-- 
2.43.0


From e22125780cb5ad8b7e810652c62173b7a087a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:24 +0000
Subject: [PATCH 24/53] fix: look up materials shorter than 5 characters in
 material_name and material_end

---
 toughio/_mesh/tough/_tough.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index 4fc41ad..9900219 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -177,7 +177,7 @@ def write_mesh(
     """Write MESH file."""
     # Check materials
     materials = [
-        "{:5}".format(material.strip()) if isinstance(material, str) else material
+        material.strip() if isinstance(material, str) else material
         for material in materials
     ]
     material_name = material_name if material_name else {}
-- 
2.43.0


From e89ca3b27cd6c47dfe7f43295e4ee18e31dbadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:24 +0000
Subject: [PATCH 25/53] fix: read standard TOUGH output with given label length

---
 toughio/_io/output/tough/_tough.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 3e2d216..4c65e40 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -75,8 +75,9 @@ def _read_table(f, file_type, label_length):
                 if line[:10].strip() and not line.strip().startswith("ELEM"):
                     line = line.lstrip()
 
-                    if first and not label_length:
-                        label_length = get_label_length(line[:9])
+                    if first:
+                        if not label_length:
+                            label_length = get_label_length(line[:9])
                         iend = (
                             label_length
                             if file_type == "element"
-- 
2.43.0


From 130216c7e0729a2029914c44999f6aba65b7aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:53 +0000
Subject: [PATCH 26/53] fix: cells that are neither zones nor faces do not
 belong to FLAC3D groups

---
 toughio/_mesh/flac3d/_flac3d.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index cfe1fbc..20fe2b1 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -487,7 +487,17 @@ def _translate_faces(cells):
 def _translate_groups(cells, cell_data, field_data, flag):
     """Convert toughio cell_data to FLAC3D groups."""
     num_dims = numpy.concatenate(
-        [numpy.full(len(c[1]), 2 if c[0] in meshio_only["face"] else 3) for c in cells]
+        [
+            numpy.full(
+                len(c[1]),
+                3
+                if c[0] in meshio_only["zone"]
+                else 2
+                if c[0] in meshio_only["face"]
+                else 0,
+            )
+            for c in cells
+        ]
     )
     # Zones are numbered first, and then faces
     ids = numpy.empty(len(num_dims), dtype=int)
-- 
2.43.0


From 55d310eb375fcf84b7aa1fd2b87a0556d2104a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:53 +0000
Subject: [PATCH 27/53] fix: length of FLAC3D group names in binary format

---
 toughio/_mesh/flac3d/_flac3d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 20fe2b1..0273e8f 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -408,11 +408,12 @@ def _write_groups(f, cells, cell_data, field_data, flag, binary):
 
             f.write(struct.pack("<I", len(groups)))
             for k in sorted(groups.keys()):
-                num_chars, num_zones = len(labels[k]), len(groups[k])
+                label = labels[k].encode("utf-8")
+                num_chars, num_zones = len(label), len(groups[k])
                 fmt = "<H{}sH7sI{}I".format(num_chars, num_zones)
                 tmp = [
                     num_chars,
-                    labels[k].encode("utf-8"),
+                    label,
                     7,
                     slot,
                     num_zones,
-- 
2.43.0


From 5dd284ae03612f28300d1c36852dfae800a6123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:53 +0000
Subject: [PATCH 28/53] fix: write elements without center

---
 toughio/_io/input/tough/_write.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 04a8f67..2069ccc 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -858,10 +858,8 @@ def _write_eleme(parameters):
             data["volume"],
             data["heat_exchange_area"],
             data["permeability_modifier"],
-            data["center"][0],
-            data["center"][1],
-            data["center"][2],
         ]
+        values += list(data["center"]) if data["center"] is not None else 3 * [None]
         out += write_record(values, fmt)
 
     return out
@@ -882,7 +880,8 @@ def _write_coord(parameters):
 
     out = []
     for k in order:
-        values = parameters["elements"][k]["center"]
+        values = parameters["elements"][k].get("center")
+        values = values if values is not None else 3 * [None]
         out += write_record(values, fmt)
 
     return out
-- 
2.43.0


From 82d498f8079e3cabd1fb3cd747c8392898c439a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:53 +0000
Subject: [PATCH 29/53] fix: write connections without nodal distances

---
 toughio/_io/input/tough/_write.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 2069ccc..e74f1c7 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -915,8 +915,8 @@ def _write_conne(parameters):
             data["nadd"][0] if data["nadd"] is not None else None,
             data["nadd"][1] if data["nadd"] is not None else None,
             data["permeability_direction"],
-            data["nodal_distances"][0],
-            data["nodal_distances"][1],
+            data["nodal_distances"][0] if data["nodal_distances"] is not None else None,
+            data["nodal_distances"][1] if data["nodal_distances"] is not None else None,
             data["interface_area"],
             data["gravity_cosine_angle"],
             data["radiant_emittance_factor"],
-- 
2.43.0


From 1ca21a3ac691bd53ffb723c74acdedbdad2b7c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:53 +0000
Subject: [PATCH 30/53] fix: write initial conditions with undefined userx or
 values

---
 toughio/_io/input/tough/_write.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index e74f1c7..96ec51e 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -956,16 +956,17 @@ def _write_incon(parameters):
             None,
             data["porosity"],
         ]
-        values += list(data["userx"])
+        values += list(data["userx"]) if data["userx"] is not None else []
         out += write_record(values, fmt1)
 
         # Record 2
-        n = min(4, len(data["values"]))
-        out += write_record(data["values"][:n], fmt2)
+        values = data["values"] if data["values"] is not None else []
+        n = min(4, len(values))
+        out += write_record(values[:n], fmt2)
 
         # Record 3 (EOS7R)
-        if len(data["values"]) > 4:
-            out += write_record(data["values"][4:], fmt2)
+        if len(values) > 4:
+            out += write_record(values[4:], fmt2)
 
     return out
 
-- 
2.43.0


From 8f2cf577504e4f71383f27bb2fd2449a37ee33d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:53 +0000
Subject: [PATCH 31/53] fix: write integer materials of any integer type

---
 toughio/_io/input/tough/_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 96ec51e..5549423 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -847,7 +847,7 @@ def _write_eleme(parameters):
 
         material = (
             "{:>5}".format(data["material"])
-            if isinstance(data["material"], int)
+            if isinstance(data["material"], (int, numpy.integer))
             else data["material"]
         )
         values = [
-- 
2.43.0


From b56593d45003b8f8e1d626be3278a408e13ccc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:05 +0000
Subject: [PATCH 32/53] fix: write generators without type

---
 toughio/_io/input/tough/_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 5549423..5bc5670 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -661,7 +661,7 @@ def _write_gener(parameters):
         data.update(v)
 
         # Check that data are consistent
-        if not isinstance(data["type"], str):
+        if not (data["type"] is None or isinstance(data["type"], str)):
             # Number of components
             num_comps = len(data["type"])
 
-- 
2.43.0


From a5fa1112260a17b13384d2cabd39c5da926f2379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:05 +0000
Subject: [PATCH 33/53] fix: read elements without material

---
 toughio/_io/input/tough/_read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index a9dc6cf..770c38a 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -610,11 +610,11 @@ def _read_eleme(f, label_length):
         if line.strip():
             data = read_record(line, fmt[label_length])
             label = data[0]
-            rock = data[3].strip()
+            rock = data[3]
             eleme["elements"][label] = {
                 "nseq": data[1],
                 "nadd": data[2],
-                "material": int(rock) if all(r.isdigit() for r in rock) else rock,
+                "material": int(rock) if rock and rock.isdigit() else rock,
                 "volume": data[4],
                 "heat_exchange_area": data[5],
                 "permeability_modifier": data[6],
-- 
2.43.0


From e54b414fe0b9dbb9ff358fc37a601a955dfc8404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:05 +0000
Subject: [PATCH 34/53] fix: read block PARAM with blank time steps or options

---
 toughio/_io/input/tough/_read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 770c38a..5af07b5 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -281,7 +281,7 @@ def _read_param(f, fh):
         "effective_strength_vapor": data[8],
     }
     param["extra_options"] = {
-        i + 1: int(x) for i, x in enumerate(data[5]) if x.isdigit()
+        i + 1: int(x) for i, x in enumerate(data[5] or "") if x.isdigit()
     }
 
     # Record 2
@@ -299,8 +299,8 @@ def _read_param(f, fh):
         }
     )
 
-    t_steps = int(data[2])
-    if t_steps >= 0.0:
+    t_steps = int(data[2]) if data[2] is not None else None
+    if t_steps is None or t_steps >= 0.0:
         param["options"]["t_steps"] = t_steps
     else:
         param["options"]["t_steps"] = []
-- 
2.43.0


From 9bcefd00c6061850e09684a55fa8386f0c6d7b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:05 +0000
Subject: [PATCH 35/53] fix: read several generators in the same element, with
 and without enthalpy table

---
 toughio/_io/input/tough/_read.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 5af07b5..28040a7 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -488,6 +488,7 @@ def _read_gener(f, label_length):
                 itab = data[8]
                 keys = ["times", "rates"]
                 keys += ["specific_enthalpy"] if itab else []
+                tmp["specific_enthalpy"] = [None]
                 for key in keys:
                     table = []
 
-- 
2.43.0


From 8009729befa9ee6b6905bdea59407746e8a927ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:05 +0000
Subject: [PATCH 36/53] fix: read SAVE with porosity or userx undefined for
 some elements

---
 toughio/_io/output/save/_save.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/output/save/_save.py b/toughio/_io/output/save/_save.py
index 27c7e95..1c440bf 100644
--- a/toughio/_io/output/save/_save.py
+++ b/toughio/_io/output/save/_save.py
@@ -20,16 +20,19 @@ def read(filename, file_type, file_format, labels_order):
     data = {"X{}".format(i + 1): x for i, x in enumerate(numpy.transpose(variables))}
 
     data["porosity"] = numpy.array(
-        [v["porosity"] for v in parameters["initial_conditions"].values()]
+        [
+            v["porosity"] if "porosity" in v.keys() else numpy.nan
+            for v in parameters["initial_conditions"].values()
+        ]
     )
 
     userx = [
-        v["userx"]
+        v["userx"] if "userx" in v.keys() else []
         for v in parameters["initial_conditions"].values()
-        if "userx" in v.keys()
     ]
-    if userx:
-        data["userx"] = numpy.array(userx)
+    n = max([len(x) for x in userx] + [0])
+    if n:
+        data["userx"] = numpy.array([x + (n - len(x)) * [numpy.nan] for x in userx])
 
     labels_order = (
         labels_order
-- 
2.43.0


From e02447be9747e337266d0298776884f61b315f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:05 +0000
Subject: [PATCH 37/53] fix: numbers must not overflow to the next field of a
 record

---
 toughio/_io/input/tough/_helpers.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_helpers.py b/toughio/_io/input/tough/_helpers.py
index fca829e..5cfb8a0 100644
--- a/toughio/_io/input/tough/_helpers.py
+++ b/toughio/_io/input/tough/_helpers.py
@@ -1,6 +1,7 @@
 from __future__ import division
 
 import logging
+import re
 from copy import deepcopy
 from functools import wraps
 
@@ -259,11 +260,24 @@ def write_record(data, fmt, multi=False):
 
     def to_str(x, fmt):
         x = "" if x is None else x
-        return (
-            fmt.format(x)
-            if not isinstance(x, str)
-            else fmt.replace("g", "").replace("e", "").format(x)
-        )
+        if isinstance(x, str):
+            return fmt.replace("g", "").replace("e", "").format(x)
+
+        # Reduce precision of floating point numbers that do not fit in the field
+        out = fmt.format(x)
+        width = int(re.search("[0-9]+", fmt).group())
+        if fmt.endswith("e}"):
+            n = width - 6
+            while len(out) > width and n > 0:
+                n -= 1
+                out = "{:{}.{}e}".format(x, width, n)
+
+        if len(out) > width:
+            raise ValueError(
+                "Value {} does not fit in {} characters.".format(x, width)
+            )
+
+        return out
 
     if not multi:
         data = [to_str(d, f) for d, f in zip(data, fmt)]
-- 
2.43.0


From 4fb927724f077f8438d97954c84daedf8732099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:05 +0000
Subject: [PATCH 38/53] fix: write history blocks with labels longer than 5
 characters

---
 toughio/_common.py                |  6 +++---
 toughio/_io/input/tough/_write.py | 15 +++++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/toughio/_common.py b/toughio/_common.py
index a58d8e6..bcbacac 100644
--- a/toughio/_common.py
+++ b/toughio/_common.py
@@ -24,9 +24,9 @@ block_to_format = {
     "INDOM": {0: ",".join(4 * ["20.13e"]), 5: "5s"},
     "MOMOP": "40S",
     "TIMES": {1: "5d,5d,10.4e,10.4e", 2: ",".join(8 * ["10.4e"])},
-    "FOFT": {5: "5s"},
-    "COFT": {5: "10s"},
-    "GOFT": {5: "5s"},
+    "FOFT": {5: "5s", 6: "6s", 7: "7s", 8: "8s", 9: "9s"},
+    "COFT": {5: "10s", 6: "12s", 7: "14s", 8: "16s", 9: "18s"},
+    "GOFT": {5: "5s", 6: "6s", 7: "7s", 8: "8s", 9: "9s"},
     "GENER": {
         0: ",".join(4 * ["14.7e"]),
         5: "5s,5s,5d,5d,5d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 5bc5670..f0dfd8a 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -611,10 +611,11 @@ def _write_times(parameters):
 def _write_foft(parameters):
     """Write FOFT block data."""
     # Formats
+    values = [x for x in parameters["element_history"]]
+    label_length = max([5] + [len(x) for x in values])
     fmt = block_to_format["FOFT"]
-    fmt = str2format(fmt[5])
+    fmt = str2format(fmt[label_length])
 
-    values = [x for x in parameters["element_history"]]
     out = write_record(values, fmt, multi=True)
 
     return out
@@ -624,10 +625,11 @@ def _write_foft(parameters):
 def _write_coft(parameters):
     """Write COFT block data."""
     # Format
+    values = [x for x in parameters["connection_history"]]
+    label_length = max([5] + [(len(x) + 1) // 2 for x in values])
     fmt = block_to_format["COFT"]
-    fmt = str2format(fmt[5])
+    fmt = str2format(fmt[label_length])
 
-    values = [x for x in parameters["connection_history"]]
     out = write_record(values, fmt, multi=True)
 
     return out
@@ -637,10 +639,11 @@ def _write_coft(parameters):
 def _write_goft(parameters):
     """Write GOFT block data."""
     # Format
+    values = [x for x in parameters["generator_history"]]
+    label_length = max([5] + [len(x) for x in values])
     fmt = block_to_format["GOFT"]
-    fmt = str2format(fmt[5])
+    fmt = str2format(fmt[label_length])
 
-    values = [x for x in parameters["generator_history"]]
     out = write_record(values, fmt, multi=True)
 
     return out
-- 
2.43.0


From f76cf475b28df277807a1c2257084d5ca08ac879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:39 +0000
Subject: [PATCH 39/53] fix: keep the block that follows OUTPU when no variable
 is listed

---
 toughio/_io/input/tough/_read.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 28040a7..41ebb53 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -107,7 +107,7 @@ def read_buffer(f, label_length):
         elif line.startswith("DIFFU"):
             parameters.update(_read_diffu(fiter, f))
         elif line.startswith("OUTPU"):
-            parameters.update(_read_outpu(fiter))
+            parameters.update(_read_outpu(fiter, f))
         elif line.startswith("ELEME"):
             parameters.update(_read_eleme(fiter, label_length))
             parameters["coordinates"] = False
@@ -553,16 +553,22 @@ def _read_diffu(f, fh):
     return diffu
 
 
-def _read_outpu(f):
+def _read_outpu(f, fh):
     """Read OUTPU block data."""
     fmt = block_to_format["OUTPU"]
     outpu = {"output": {}}
 
     # Format
-    line = next(f).strip()
+    i = fh.tell()
+    line = fh.readline().strip()
     if line and not line.isdigit():
         outpu["output"]["format"] = line if line else None
-        line = next(f).strip()
+        i = fh.tell()
+        line = fh.readline().strip()
+
+    # The list of variables is optional
+    if line and not line.isdigit():
+        fh.seek(i)
 
     # Variables
     names = {}
-- 
2.43.0


From f32a2da3fb62ea8d140da7c0fc93cf33fc4760e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:49 +0000
Subject: [PATCH 40/53] fix: do not write an OUTPU block without a format or a
 variable

---
 toughio/_io/input/tough/_write.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index f0dfd8a..d63350c 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -134,7 +134,12 @@ def write_buffer(parameters, block):
 
     if block == "all":
         out += _write_diffu(parameters) if parameters["diffusion"] is not None else []
-        out += _write_outpu(parameters) if parameters["output"] else []
+        out += (
+            _write_outpu(parameters)
+            if parameters["output"]
+            and any(x not in (None, "", {}) for x in parameters["output"].values())
+            else []
+        )
 
     if block in {"all", "mesh"}:
         out += _write_eleme(parameters) if parameters["elements"] else []
-- 
2.43.0


From 9d0d2393e5c897beda77d26a8659d0f68c17970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:14 +0000
Subject: [PATCH 41/53] fix: numbers of an exported mesh must not overflow to
 the next field of a record

---
 toughio/_common.py                  | 22 +++++++++++++++++
 toughio/_io/input/tough/_helpers.py | 24 ++-----------------
 toughio/_mesh/tough/_helpers.py     | 37 +++++++++++++++--------------
 3 files changed, 43 insertions(+), 40 deletions(-)

diff --git a/toughio/_common.py b/toughio/_common.py
index bcbacac..6b2f39a 100644
--- a/toughio/_common.py
+++ b/toughio/_common.py
@@ -1,4 +1,5 @@
 import os
+import re
 
 block_to_format = {
     "ROCKS": {
@@ -89,6 +90,27 @@ def str2format(fmt, ignore_types=None):
     return out
 
 
+def to_str(x, fmt):
+    """Format a value so that it does not exceed the width of its field."""
+    x = "" if x is None else x
+    if isinstance(x, str):
+        return fmt.replace("g", "").replace("e", "").format(x)
+
+    # Reduce precision of floating point numbers that do not fit in the field
+    out = fmt.format(x)
+    width = int(re.search("[0-9]+", fmt).group())
+    if fmt.endswith("e}"):
+        n = width - 6
+        while len(out) > width and n > 0:
+            n -= 1
+            out = "{:{}.{}e}".format(x, width, n)
+
+    if len(out) > width:
+        raise ValueError("Value {} does not fit in {} characters.".format(x, width))
+
+    return out
+
+
 def get_label_length(label):
     """Get length of cell label."""
     label_length = 5
diff --git a/toughio/_io/input/tough/_helpers.py b/toughio/_io/input/tough/_helpers.py
index 5cfb8a0..5acdc81 100644
--- a/toughio/_io/input/tough/_helpers.py
+++ b/toughio/_io/input/tough/_helpers.py
@@ -1,12 +1,13 @@
 from __future__ import division
 
 import logging
-import re
 from copy import deepcopy
 from functools import wraps
 
 import numpy
 
+from ...._common import to_str
+
 dtypes = {
     "PARAMETERS": {
         "title": "str_array_like",
@@ -258,27 +259,6 @@ def read_record(data, fmt):
 def write_record(data, fmt, multi=False):
     """Return a list of record strings given format."""
 
-    def to_str(x, fmt):
-        x = "" if x is None else x
-        if isinstance(x, str):
-            return fmt.replace("g", "").replace("e", "").format(x)
-
-        # Reduce precision of floating point numbers that do not fit in the field
-        out = fmt.format(x)
-        width = int(re.search("[0-9]+", fmt).group())
-        if fmt.endswith("e}"):
-            n = width - 6
-            while len(out) > width and n > 0:
-                n -= 1
-                out = "{:{}.{}e}".format(x, width, n)
-
-        if len(out) > width:
-            raise ValueError(
-                "Value {} does not fit in {} characters.".format(x, width)
-            )
-
-        return out
-
     if not multi:
         data = [to_str(d, f) for d, f in zip(data, fmt)]
         out = ["{:80}\n".format("".join(data))]
diff --git a/toughio/_mesh/tough/_helpers.py b/toughio/_mesh/tough/_helpers.py
index 9af9a41..eb44fba 100644
--- a/toughio/_mesh/tough/_helpers.py
+++ b/toughio/_mesh/tough/_helpers.py
@@ -1,4 +1,4 @@
-from ..._common import block_to_format, str2format
+from ..._common import block_to_format, str2format, to_str
 
 
 def block(keyword):
@@ -20,11 +20,16 @@ def block(keyword):
     return decorator
 
 
+def _record(values, fmt):
+    """Return a record string given format."""
+    return "{}\n".format("".join(to_str(x, f) for x, f in zip(values, fmt)))
+
+
 def _write_eleme(labels, materials, volumes, nodes, material_name=None):
     """Return a generator that iterates over the records of block ELEME."""
     label_length = len(labels[0])
     fmt = block_to_format["ELEME"][label_length]
-    fmt = "{}\n".format("".join(str2format(fmt, ignore_types=[1, 2, 5, 6])))
+    fmt = str2format(fmt, ignore_types=[1, 2, 5, 6])
 
     iterables = zip(labels, materials, volumes, nodes)
     for label, material, volume, node in iterables:
@@ -34,7 +39,7 @@ def _write_eleme(labels, materials, volumes, nodes, material_name=None):
             else material
         )
         mat = mat if isinstance(mat, str) else "{:>5}".format(str(mat))
-        record = fmt.format(
+        values = [
             label,  # ID
             "",  # NSEQ
             "",  # NADD
@@ -45,28 +50,27 @@ def _write_eleme(labels, materials, volumes, nodes, material_name=None):
             node[0],  # X
             node[1],  # Y
             node[2],  # Z
-        )
-        yield record
+        ]
+        yield _record(values, fmt)
 
 
 def _write_coord(nodes):
     """Return a generator that iterates over the records of block COORD."""
-    fmt = "{:20.13e}{:20.13e}{:20.13e}\n"
+    fmt = ["{:20.13e}", "{:20.13e}", "{:20.13e}"]
 
     for node in nodes:
-        record = fmt.format(*node)
-        yield record
+        yield _record(node, fmt)
 
 
 def _write_conne(clabels, isot, d1, d2, areas, angles):
     """Return a generator that iterates over the records of block CONNE."""
     label_length = len(clabels[0][0])
     fmt = block_to_format["CONNE"][label_length]
-    fmt = "{}\n".format("".join(str2format(fmt, ignore_types=[1, 2, 3, 9])))
+    fmt = str2format(fmt, ignore_types=[1, 2, 3, 9])
 
     iterables = zip(clabels, isot, d1, d2, areas, angles)
     for label, isot, d1, d2, area, angle in iterables:
-        record = fmt.format(
+        values = [
             "".join(label),  # ID1-ID2
             "",  # NSEQ
             "",  # NAD1
@@ -77,8 +81,8 @@ def _write_conne(clabels, isot, d1, d2, areas, angles):
             area,  # AREAX
             angle,  # BETAX
             "",  # SIGX
-        )
-        yield record
+        ]
+        yield _record(values, fmt)
 
 
 def _write_incon(labels, values, porosity=None, userx=None):
@@ -111,8 +115,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
                 ignore_types += [4, 5, 6]
 
             fmt1 = str2format(fmt[label_length], ignore_types=ignore_types)
-            fmt1 = "{}\n".format("".join(fmt1[: len(values)]))
-            record = fmt1.format(*values)
+            record = _record(values, fmt1)
 
             # Record 2
             n = min(4, len(value))
@@ -126,8 +129,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
                     ignore_types.append(i)
 
             fmt2 = str2format(fmt[0], ignore_types=ignore_types)
-            fmt2 = "{}\n".format("".join(fmt2[: len(values)]))
-            record += fmt2.format(*values)
+            record += _record(values, fmt2)
 
             # Record 3 (EOS7R)
             if len(value) > 4:
@@ -141,8 +143,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
                         ignore_types.append(i)
 
                 fmt2 = str2format(fmt[0], ignore_types=ignore_types)
-                fmt2 = "{}\n".format("".join(fmt2[: len(values)]))
-                record += fmt2.format(*values)
+                record += _record(values, fmt2)
 
             yield record
         else:
-- 
2.43.0


From fd1f204d2e08d6864d11c697b9248dc15119f12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:29 +0000
Subject: [PATCH 42/53] fix: read touching columns of a standard TOUGH output

---
 toughio/_io/output/tough/_tough.py | 57 +++++++++++-------------------
 1 file changed, 20 insertions(+), 37 deletions(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 4c65e40..93f23af 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -1,11 +1,11 @@
 from __future__ import with_statement
 
-from functools import partial
+import re
 
 import numpy
 
 from ...._common import get_label_length
-from ...input.tough._helpers import read_record, str2float
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
 __all__ = [
@@ -84,46 +84,14 @@ def _read_table(f, file_type, label_length):
                             else 2 * label_length + 2
                         )
 
+                        first = False
+
                     tmp = (
                         [line[:label_length]]
                         if file_type == "element"
                         else [line[:label_length], line[label_length + 2 : iend]]
                     )
-
-                    line = line[iend:]
-                    if first:
-                        try:
-                            # Set line parser and try parsing first line
-                            reader = lambda line: [_str2float(x) for x in line.split()]
-                            _ = reader(line)
-
-                        except ValueError:
-                            # Determine number of characters for index
-                            idx = line.replace("-", " ").split()[0]
-                            nidx = line.index(idx) + len(idx)
-                            ifmt = "{}s".format(nidx)
-
-                            # Determine number of characters between two Es
-                            i1 = line.find("E")
-                            i2 = line.find("E", i1 + 1)
-
-                            # Initialize data format
-                            fmt = [ifmt]
-                            if i2 >= 0:
-                                di = i2 - i1
-                                dfmt = "{}.{}e".format(di, di - 7)
-                                fmt += 20 * [dfmt]  # Read 20 data columns at most
-                            else:
-                                fmt += ["12.5e"]
-                            fmt = ",".join(fmt)
-
-                            # Set line parser
-                            reader = partial(read_record, fmt=fmt)
-
-                        finally:
-                            first = False
-
-                    tmp += reader(line)
+                    tmp += _read_row(line[iend:])
                     variables[-1].append([x for x in tmp if x is not None])
 
                 line = next(f)
@@ -133,6 +101,21 @@ def _read_table(f, file_type, label_length):
     return headers, times, variables
 
 
+def _read_row(line):
+    """Read index and values of a row."""
+    out = []
+    for x in line.split():
+        try:
+            out.append(str2float(x))
+
+        except ValueError:
+            # A negative number can fill its column and touch the previous one
+            x = re.sub(r"(?<=[0-9.])(?=[-+][0-9]*\.)", " ", x)
+            out += [_str2float(xx) for xx in x.split()]
+
+    return out
+
+
 def _str2float(x):
     """Return numpy.nan if x cannot be converted."""
     try:
-- 
2.43.0


From 00b7e8acce6e203bcc0d13b29d544fbeae838e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:06 +0000
Subject: [PATCH 43/53] fix: read the last entry of a Tecplot zone record

---
 toughio/_mesh/tecplot/_tecplot.py | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index c8b618d..c9ba40c 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -218,23 +218,10 @@ def _read_zone(line):
         line = line[:ivar] + line[i2 + 1 :]
 
     # Split remaining key/value pairs separated by '='
-    line = [x for x in line.replace(",", " ").split() if x != "="]
-    i = 0
-    while i < len(line) - 1:
-        if "=" in line[i]:
-            if not (line[i].startswith("=") or line[i].endswith("=")):
-                key, value = line[i].split("=")
-            else:
-                key = line[i].replace("=", "")
-                value = line[i + 1]
-                i += 1
-        else:
-            key = line[i]
-            value = line[i + 1].replace("=", "")
-            i += 1
-
-        zone[key] = zone_key_to_type[key](value)
-        i += 1
+    line = line.replace(",", " ").replace("=", " ").split()
+    for key, value in zip(line[::2], line[1::2]):
+        if key in zone_key_to_type.keys():
+            zone[key] = zone_key_to_type[key](value)
 
     # Add zone title to zone dict
     if zone_title:
-- 
2.43.0


From 173f57eff71616fa06546b539deb426953fa0a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 44/53] fix: write numpy integer keys in JSON input files

---
 toughio/_io/input/json/_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index 3593730..84fda24 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -69,7 +69,7 @@ def write(filename, parameters):
         elif isinstance(x, numpy.ndarray):
             return jsonify(x.tolist())
         elif isinstance(x, dict):
-            return {k: jsonify(v) for k, v in x.items()}
+            return {jsonify(k): jsonify(v) for k, v in x.items()}
         else:
             return x
 
-- 
2.43.0


From 6102098d05ab62bceaeb2e21c76ca538c3473a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:09 +0000
Subject: [PATCH 45/53] fix: set material to cells given as a tuple

---
 toughio/_mesh/_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index e9be85a..9417eb0 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -563,6 +563,7 @@ class Mesh(object):
             Indices of cells or array of booleans.
 
         """
+        cells = numpy.asarray(cells)
         ints = (int, numpy.int8, numpy.int16, numpy.int32, numpy.int64)
         cond_int = all(isinstance(c, ints) for c in cells)
         cond_bool = all(isinstance(c, (bool, numpy.bool_)) for c in cells)
-- 
2.43.0


From 49964ff8d203c9d14780cd9d9842f36fb24296a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:09 +0000
Subject: [PATCH 46/53] fix: accept an array of materials to write at the end
 of block ELEME

---
 toughio/_mesh/tough/_tough.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index 9900219..9b806cb 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -48,7 +48,10 @@ def write(
         raise ValueError()
     if not (material_name is None or isinstance(material_name, dict)):
         raise TypeError()
-    if not (material_end is None or isinstance(material_end, (str, list, tuple))):
+    if not (
+        material_end is None
+        or isinstance(material_end, (str, list, tuple, numpy.ndarray))
+    ):
         raise TypeError()
     if not isinstance(incon, bool):
         raise TypeError()
@@ -181,8 +184,8 @@ def write_mesh(
         for material in materials
     ]
     material_name = material_name if material_name else {}
-    material_end = material_end if material_end else []
     material_end = [material_end] if isinstance(material_end, str) else material_end
+    material_end = list(material_end) if material_end is not None else []
 
     with open(filename, "w") as f:
         _write_eleme(
-- 
2.43.0


From 4f9e2eb40baeb3acae3b1a9ce1405d17d396e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:09 +0000
Subject: [PATCH 47/53] fix: plot with a figure size given as an array or
 undefined

---
 toughio/capillarity/_base.py           | 4 ++--
 toughio/relative_permeability/_base.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/toughio/capillarity/_base.py b/toughio/capillarity/_base.py
index e1f029d..6b4f1bf 100644
--- a/toughio/capillarity/_base.py
+++ b/toughio/capillarity/_base.py
@@ -79,7 +79,7 @@ class BaseCapillarity(ABC):
             raise TypeError()
         if not (figsize is None or isinstance(figsize, (tuple, list, numpy.ndarray))):
             raise TypeError()
-        if len(figsize) != 2:
+        if figsize is not None and len(figsize) != 2:
             raise ValueError()
         if not (plt_kws is None or isinstance(plt_kws, dict)):
             raise TypeError()
@@ -93,7 +93,7 @@ class BaseCapillarity(ABC):
         if ax:
             ax1 = ax
         else:
-            figsize = figsize if figsize else (8, 5)
+            figsize = figsize if figsize is not None else (8, 5)
             fig = plt.figure(figsize=figsize, facecolor="white")
             ax1 = fig.add_subplot(1, 1, 1)
 
diff --git a/toughio/relative_permeability/_base.py b/toughio/relative_permeability/_base.py
index a9db28a..80bd3c7 100644
--- a/toughio/relative_permeability/_base.py
+++ b/toughio/relative_permeability/_base.py
@@ -81,7 +81,7 @@ class BaseRelativePermeability(ABC):
             raise TypeError()
         if not (figsize is None or isinstance(figsize, (tuple, list, numpy.ndarray))):
             raise TypeError()
-        if len(figsize) != 2:
+        if figsize is not None and len(figsize) != 2:
             raise ValueError()
         if not (plt_kws is None or isinstance(plt_kws, dict)):
             raise TypeError()
@@ -95,7 +95,7 @@ class BaseRelativePermeability(ABC):
         if ax:
             ax1 = ax
         else:
-            figsize = figsize if figsize else (8, 5)
+            figsize = figsize if figsize is not None else (8, 5)
             fig = plt.figure(figsize=figsize, facecolor="white")
             ax1 = fig.add_subplot(1, 1, 1)
 
-- 
2.43.0


From 695ca25bf99072c6aa60e46e18d37cc4d06246ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:09 +0000
Subject: [PATCH 48/53] fix: accept points of a mesh given as a list

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 9417eb0..27f1615 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -661,7 +661,7 @@ class Mesh(object):
 
     @points.setter
     def points(self, value):
-        self._points = value
+        self._points = numpy.asarray(value)
 
     @property
     def cells(self):
-- 
2.43.0


From ce69ecbdc69e96a64e47c8e85c22a02a40392ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:54 +0000
Subject: [PATCH 49/53] fix: export voxelized results on the cells they belong
 to

---
 toughio/_cli/_export.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/toughio/_cli/_export.py b/toughio/_cli/_export.py
index 960cf75..cbb6292 100644
--- a/toughio/_cli/_export.py
+++ b/toughio/_cli/_export.py
@@ -104,15 +104,9 @@ def export(argv=None):
             mesh = voxelize(points, args.origin, layer=args.layer)
             mesh.cell_data = {}
 
-            idx = numpy.arange(len(points))
-            idx = numpy.array(
-                [
-                    x
-                    for x, _ in sorted(
-                        zip(idx, points), key=lambda x: (x[1][2], x[1][1], x[1][0])
-                    )
-                ]
-            )
+            # Match cells of voxelized mesh with output points
+            idx = numpy.empty(len(points), dtype=int)
+            idx[numpy.lexsort(mesh.centers.T)] = numpy.lexsort(points.T)
 
             if args.file_format != "xdmf":
                 for label, data in output.data.items():
-- 
2.43.0


From 27b2d5dd021693e83727cc9d249d66c1ca351cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:47 +0000
Subject: [PATCH 50/53] fix: convert meshes of pyvista with VTK 9

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 27f1615..98c9766 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -957,7 +957,7 @@ def from_pyvista(mesh, material="dfalt"):
     cells = []
     c = 0
     for offset, cell_type in zip(vtk_offset, vtk_cell_type):
-        numnodes = vtk_cells[offset]
+        numnodes = vtk_cells[offset + c]
         if VTK9:
             cell = vtk_cells[offset + 1 + c : offset + 1 + c + numnodes]
             c += 1
-- 
2.43.0


From 466764148f2e23b51bfe773ad93a0460e562a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:47 +0000
Subject: [PATCH 51/53] fix: interpolate the components of vector data
 separately

---
 toughio/_mesh/_common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_common.py b/toughio/_mesh/_common.py
index 349ca89..ab39272 100644
--- a/toughio/_mesh/_common.py
+++ b/toughio/_mesh/_common.py
@@ -226,10 +226,13 @@ def interpolate_data(data, entities, weights=None):
     """Interpolate input data."""
     return {
         k: (
-            numpy.array([numpy.mean(v[e]) for e in entities])
+            numpy.array([numpy.mean(v[e], axis=0) for e in entities])
             if not weights
             else numpy.array(
-                [numpy.average(v[e], weights=w) for e, w in zip(entities, weights)]
+                [
+                    numpy.average(v[e], axis=0, weights=w)
+                    for e, w in zip(entities, weights)
+                ]
             )
         )
         for k, v in data.items()
-- 
2.43.0


From 85068ce269b9bf047aa1d5be70b2b132d9174115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:47 +0000
Subject: [PATCH 52/53] fix: renumber point sets when pruning duplicate points

---
 toughio/_mesh/_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 98c9766..9744a94 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -209,6 +209,10 @@ class Mesh(object):
             mesh.points = unique_points
             for k, v in mesh.point_data.items():
                 mesh.point_data[k] = v[pind]
+            mesh.point_sets = {
+                k: numpy.unique(pinv[numpy.asarray(v, dtype=int)])
+                for k, v in mesh.point_sets.items()
+            }
             for ic, (k, v) in enumerate(cells):
                 cells[ic][1] = pinv[v]
 
-- 
2.43.0


From 9cf631f6e6669d90f343e2acef05e30776418891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:09 +0000
Subject: [PATCH 53/53] fix: FLAC3D group is also ended by the next grid point,
 zone or face

---
 toughio/_mesh/flac3d/_flac3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 0273e8f..e977dd5 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -266,7 +266,7 @@ def _read_group(buf_or_line, binary, line=None):
         line = buf_or_line.readline()
         while True:
             line = line.rstrip().split()
-            if line and (line[0] not in {"*", "ZGROUP", "FGROUP"}):
+            if line and (line[0] not in {"*", "G", "Z", "F", "ZGROUP", "FGROUP"}):
                 data += [int(l) for l in line]
             else:
                 buf_or_line.seek(i)
-- 
2.43.0

