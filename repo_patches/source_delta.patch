From 53762d054fd17c987191762e3b52f647db61c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:18 +0000
Subject: [PATCH 001/101] fix: make all VTK/mdpa cell types that the readers
 and writers know constructible

Mesh.__init__ looks the type up in topological_dimension, and the VTK reader in
num_nodes_per_cell; wedge15, pyramid13, hexahedron24, quad6, penta_prism, ... were missing.
---
 src/meshio/_common.py |  8 ++++++++
 src/meshio/_mesh.py   | 11 +++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index a92ef0e..a439061 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -8,6 +8,14 @@ from rich.console import Console
 # See <https://github.com/nschloe/meshio/wiki/Node-ordering-in-cells> for the node
 # ordering.
 num_nodes_per_cell = {
+    # less common VTK cells
+    "pixel": 4,
+    "quad6": 6,
+    "triangle7": 7,
+    "penta_prism": 10,
+    "hexa_prism": 12,
+    "wedge12": 12,
+    #
     "vertex": 1,
     "line": 2,
     "triangle": 3,
diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 741831d..c21856d 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -79,6 +79,17 @@ topological_dimension = {
     "VTK_LAGRANGE_HEXAHEDRON": 3,
     "VTK_LAGRANGE_WEDGE": 3,
     "VTK_LAGRANGE_PYRAMID": 3,
+    "pyramid13": 3,
+    "wedge15": 3,
+    "hexahedron24": 3,
+    "hexahedron1331": 3,
+    "pixel": 2,
+    "penta_prism": 3,
+    "hexa_prism": 3,
+    "quad6": 2,
+    "triangle7": 2,
+    "wedge12": 3,
+    "tetra14": 3,
 }
 
 
-- 
2.43.0


From 320661463ff6d951b83ae8157b9d38a5771f0f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:31 +0000
Subject: [PATCH 002/101] fix: vtu: raw appended arrays were mixed up when a
 rewritten offset equals another array's offset

---
 src/meshio/vtu/_vtu.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index be80904..f341070 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -214,16 +214,20 @@ def _parse_raw_binary(filename):
     assert appended_data_tag is not None
     appended_data_tag.set("encoding", "base64")
 
+    # Collect the tags up front: the offsets are rewritten below, and a rewritten offset
+    # may coincide with the original offset of another array.
+    da_tags = {t.get("offset"): t for t in root.iterfind(".//DataArray[@offset]")}
+
     compressor = root.get("compressor")
     if compressor is None:
         arrays = ""
         i = 0
         while i < len(data):
-            # The following find() runs into issues if offset is padded with spaces, see
+            # The following lookup runs into issues if offset is padded with spaces, see
             # <https://github.com/nschloe/meshio/issues/1135>. It works in ParaView.
             # Unfortunately, Python's built-in XML tree can't handle regexes, see
             # <https://stackoverflow.com/a/38810731/353337>.
-            da_tag = root.find(f".//DataArray[@offset='{i}']")
+            da_tag = da_tags.get(str(i))
             if da_tag is None:
                 raise RuntimeError(f"Could not find .//DataArray[@offset='{i}']")
             da_tag.set("offset", str(len(arrays)))
@@ -242,7 +246,7 @@ def _parse_raw_binary(filename):
         arrays = ""
         i = 0
         while i < len(data):
-            da_tag = root.find(f".//DataArray[@offset='{i}']")
+            da_tag = da_tags.get(str(i))
             assert da_tag is not None
             da_tag.set("offset", str(len(arrays)))
 
-- 
2.43.0


From 675975f89c62af64d0efe25e8c6f1a69aadbc340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:31 +0000
Subject: [PATCH 003/101] fix: vtu: keep the cells and cell data of all pieces,
 not only of the last one

---
 src/meshio/vtu/_vtu.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index f341070..e58485f 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -144,16 +144,18 @@ def _organize_cells(point_offsets, cells, cell_data_raw):
             out_cells.append(CellBlock(tp, c))
 
     else:
+        cell_data = {}
         for offset, cls, cdr in zip(point_offsets, cells, cell_data_raw):
-            cls, cell_data = vtk_cells_from_data(
+            cls, piece_cell_data = vtk_cells_from_data(
                 cls["connectivity"].ravel(),
                 cls["offsets"].ravel(),
                 cls["types"].ravel(),
                 cdr,
             )
-
-        for c in cls:
-            out_cells.append(CellBlock(c.type, c.data + offset))
+            for c in cls:
+                out_cells.append(CellBlock(c.type, c.data + offset))
+            for name, d in piece_cell_data.items():
+                cell_data.setdefault(name, []).extend(d)
 
     return out_cells, cell_data
 
-- 
2.43.0


From 4046de71f3890a7fd78d4ba7dd1144cd219b72e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:31 +0000
Subject: [PATCH 004/101] fix: vtu: cell data of polyhedra follows the order of
 the cell blocks

---
 src/meshio/vtu/_vtu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index e58485f..010cd5e 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -88,9 +88,9 @@ def _polyhedron_cells_from_data(offsets, faces, faceoffsets, cell_data_raw):
     start_cn = np.hstack((0, offsets))
     size = np.diff(start_cn)
 
-    # Loop over all cell sizes, find all cells with this size, and store
-    # cell data.
-    for sz in np.unique(size):
+    # Loop over all cell sizes (in the order of the blocks), find all cells with this
+    # size, and store cell data.
+    for sz in dict.fromkeys(size.tolist()):
         # Cells with this number of nodes.
         items = np.where(size == sz)[0]
 
-- 
2.43.0


From a2729349a811710a8c1a747a4ce637b16bfb4ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:35 +0000
Subject: [PATCH 005/101] fix: vtu: escape XML special characters in data names

---
 src/meshio/_cxml/etree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_cxml/etree.py b/src/meshio/_cxml/etree.py
index f06c999..caf00e3 100644
--- a/src/meshio/_cxml/etree.py
+++ b/src/meshio/_cxml/etree.py
@@ -6,6 +6,8 @@
 # This etree here allows the writing method to write to the file directly, without
 # having to create a string representation first.
 
+from xml.sax.saxutils import quoteattr
+
 
 class Element:
     def __init__(self, name, **kwargs):
@@ -22,7 +24,7 @@ class Element:
         self.attrib[key] = value
 
     def write(self, f):
-        kw_list = [f'{key}="{value}"' for key, value in self.attrib.items()]
+        kw_list = [f"{key}={quoteattr(str(value))}" for key, value in self.attrib.items()]
         f.write("<{}>\n".format(" ".join([self.name] + kw_list)))
         if self.text:
             f.write(self.text)
-- 
2.43.0


From d1998cf4267d906dc390a024118e81cad4428ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:00 +0000
Subject: [PATCH 006/101] fix: gmsh 2.2: split the element data by the number
 of cells in each block

---
 src/meshio/gmsh/_gmsh22.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 56fbdb6..1a9d4b4 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -72,7 +72,7 @@ def read_buffer(f, is_ascii, data_size):
     if has_additional_tag_data:
         warn("The file contains tag data that couldn't be processed.")
 
-    cell_data = cell_data_from_raw(cells, cell_data_raw)
+    cell_data = cell_data_from_raw([c for _, c in cells], cell_data_raw)
 
     # merge cell_tags into cell_data
     for tag_name, tag_dict in cell_tags.items():
-- 
2.43.0


From 6a8a6a2d3a423a359b68bdda41dda08c367bb415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:00 +0000
Subject: [PATCH 007/101] fix: gmsh 4.0: write periodic links in the layout
 that the reader expects

---
 src/meshio/gmsh/_gmsh40.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 3d4270e..9304cf3 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -388,12 +388,15 @@ def _write_periodic(fh, periodic, float_fmt, binary):
     for dim, (stag, mtag), affine, slave_master in periodic:
         tofile(fh, [dim, stag, mtag], c_int)
         if affine is not None and len(affine) > 0:
-            tofile(fh, -1, c_long)
+            if binary:
+                tofile(fh, -1, c_long)
+            else:
+                fh.write(b"Affine ")
             tofile(fh, affine, c_double, fmt=float_fmt)
         slave_master = np.array(slave_master, dtype=c_int)
         slave_master = slave_master.reshape(-1, 2)
         slave_master = slave_master + 1  # Add one, Gmsh is 1-based
-        tofile(fh, len(slave_master), c_int)
+        tofile(fh, len(slave_master), c_long)
         tofile(fh, slave_master, c_int)
     if binary:
         fh.write(b"\n")
-- 
2.43.0


From 38fe78b4286eb9611a66c0edf10b4b8ae6c660f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:52 +0000
Subject: [PATCH 008/101] fix: gmsh 4.1: assign node data by node tag when the
 nodes are not written in tag order

---
 src/meshio/gmsh/_gmsh41.py | 7 ++++++-
 src/meshio/gmsh/common.py  | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 3e305a1..2a17b71 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -79,7 +79,12 @@ def read_buffer(f, is_ascii: bool, data_size):
         elif environ == "Periodic":
             periodic = _read_periodic(f, is_ascii, data_size)
         elif environ == "NodeData":
-            _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            name, tags = _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            # The data refers to the nodes by tag; the points are stored in the order
+            # in which they appear in the file.
+            perm, rank = np.argsort(tags), np.argsort(np.argsort(point_tags))
+            if np.array_equal(tags[perm], np.sort(point_tags) + 1):
+                point_data[name] = point_data[name][perm][rank]
         elif environ == "ElementData":
             _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
         else:
diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index 717e82e..d608a8b 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -70,6 +70,7 @@ def _read_data(f, tag, data_dict, data_size, is_ascii):
             (num_items, 1 + num_components)
         )
         # The first entry is the node number
+        index = data[:, 0].astype(int)
         data = data[:, 1:]
     else:
         # binary
@@ -77,6 +78,7 @@ def _read_data(f, tag, data_dict, data_size, is_ascii):
         data = np.fromfile(f, count=num_items, dtype=dtype)
         if not (data["index"] == range(1, num_items + 1)).all():
             raise ReadError()
+        index = data["index"]
         data = np.ascontiguousarray(data["values"])
 
     _fast_forward_to_end_block(f, tag)
@@ -87,6 +89,7 @@ def _read_data(f, tag, data_dict, data_size, is_ascii):
         data = data[:, 0]
 
     data_dict[string_tags[0]] = data
+    return string_tags[0], index
 
 
 # Translate meshio types to gmsh codes
-- 
2.43.0


From 88051bce8919acf2c0029e0409f09ba42f5bca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:01 +0000
Subject: [PATCH 009/101] fix: xdmf: read vertices and higher-order cells in
 mixed topologies

---
 src/meshio/xdmf/common.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index fb7fcf3..dbff68c 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from .._common import num_nodes_per_cell
 from .._exceptions import ReadError
 from .._mesh import CellBlock
 
@@ -115,17 +116,7 @@ def translate_mixed_cells(data):
 
     # https://xdmf.org/index.php/XDMF_Model_and_Format#Arbitrary
     # https://gitlab.kitware.com/xdmf/xdmf/blob/master/XdmfTopologyType.hpp#L394
-    xdmf_idx_to_num_nodes = {
-        1: 1,  # vertex
-        2: 2,  # line
-        4: 3,  # triangle
-        5: 4,  # quad
-        6: 4,  # tet
-        7: 5,  # pyramid
-        8: 6,  # wedge
-        9: 8,  # hex
-        11: 6,  # triangle6
-    }
+    # Polyvertex (1) and Polyline (2) cells are preceded by their number of nodes.
 
     # collect types and offsets
     types = []
@@ -135,12 +126,16 @@ def translate_mixed_cells(data):
         xdmf_type = data[r]
         types.append(xdmf_type)
         offsets.append(r)
-        if xdmf_type == 2:  # line
+        if xdmf_type == 1:  # vertex
+            if data[r + 1] != 1:  # polyvertex
+                raise ReadError("XDMF reader: Only supports 1-point vertices for now")
+            r += 1
+        elif xdmf_type == 2:  # line
             if data[r + 1] != 2:  # polyline
                 raise ReadError("XDMF reader: Only supports 2-point lines for now")
             r += 1
         r += 1
-        r += xdmf_idx_to_num_nodes[xdmf_type]
+        r += num_nodes_per_cell[xdmf_idx_to_meshio_type[xdmf_type]]
 
     types = np.array(types)
     offsets = np.array(offsets)
@@ -149,8 +144,8 @@ def translate_mixed_cells(data):
     cells = []
     for start, end in zip(b[:-1], b[1:]):
         meshio_type = xdmf_idx_to_meshio_type[types[start]]
-        n = xdmf_idx_to_num_nodes[types[start]]
-        point_offsets = offsets[start:end] + (2 if types[start] == 2 else 1)
+        n = num_nodes_per_cell[meshio_type]
+        point_offsets = offsets[start:end] + (2 if types[start] in (1, 2) else 1)
         indices = np.array([np.arange(n) + o for o in point_offsets])
         cells.append(CellBlock(meshio_type, data[indices]))
 
-- 
2.43.0


From 60dcbf60f4ff7c898606230e9471dc6faed5a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:05 +0000
Subject: [PATCH 010/101] fix: xdmf: write 8/16 bit integers and 3D arrays as
 XML, float32 without loss; Hex_1000 alias

---
 src/meshio/xdmf/common.py | 8 ++++++--
 src/meshio/xdmf/main.py   | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index dbff68c..1a970df 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -19,11 +19,15 @@ numpy_to_xdmf_dtype = {
 xdmf_to_numpy_type = {v: k for k, v in numpy_to_xdmf_dtype.items()}
 
 dtype_to_format_string = {
+    "int8": "%d",
+    "int16": "%d",
     "int32": "%d",
     "int64": "%d",
+    "uint8": "%d",
+    "uint16": "%d",
     "uint32": "%d",
     "uint64": "%d",
-    "float32": "%.7e",
+    "float32": "%.8e",
     "float64": "%.16e",
 }
 
@@ -60,7 +64,7 @@ meshio_to_xdmf_type = {
     "hexahedron343": ["Hexahedron_343", "Hex_343"],
     "hexahedron512": ["Hexahedron_512", "Hex_512"],
     "hexahedron729": ["Hexahedron_729", "Hex_729"],
-    "hexahedron1000": ["Hexahedron_1000", "Hex_100"],
+    "hexahedron1000": ["Hexahedron_1000", "Hex_1000"],
     "hexahedron1331": ["Hexahedron_1331", "Hex_1331"],
 }
 xdmf_to_meshio_type = {v: k for k, vals in meshio_to_xdmf_type.items() for v in vals}
diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 4d8c39d..750e429 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -376,7 +376,8 @@ class XdmfWriter:
         if self.data_format == "XML":
             s = BytesIO()
             fmt = dtype_to_format_string[data.dtype.name]
-            np.savetxt(s, data, fmt)
+            # savetxt only takes 1D and 2D data
+            np.savetxt(s, data if data.ndim < 3 else data.reshape(len(data), -1), fmt)
             return "\n" + s.getvalue().decode()
         elif self.data_format == "Binary":
             base = os.path.splitext(self.filename)[0]
-- 
2.43.0


From e6b595224a7f014a51bd5c04919a09aab128c416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:10 +0000
Subject: [PATCH 011/101] fix: xdmf time series: write vertex and line blocks
 of mixed meshes

---
 src/meshio/xdmf/time_series.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index a3f8503..8183c25 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -404,24 +404,26 @@ class TimeSeriesWriter:
                 TopologyType="Mixed",
                 NumberOfElements=str(total_num_cells),
             )
-            total_num_cell_items = sum(np.prod(c.data.shape) for c in cell_blocks)
-            dim = total_num_cell_items + total_num_cells
-            # Lines translate to Polylines, and one needs to specify the exact
-            # number of nodes. Hence, prepend 2.
-            for c in cell_blocks:
-                if c.type == "line":
-                    c.data[:] = np.insert(c.data, 0, 2, axis=1)
-                    dim += len(c.data)
-            dim = str(dim)
+            # Vertices and lines translate to Polyvertices and Polylines, and one needs to
+            # specify the exact number of nodes.
+            rows = [
+                (
+                    np.insert(c.data, 0, c.data.shape[1], axis=1)
+                    if c.type in {"vertex", "line"}
+                    else c.data
+                )
+                for c in cell_blocks
+            ]
             cd = np.concatenate(
                 [
                     # prepend column with xdmf type index
                     np.insert(
-                        c.data, 0, meshio_type_to_xdmf_index[c.type], axis=1
+                        row, 0, meshio_type_to_xdmf_index[c.type], axis=1
                     ).flatten()
-                    for c in cell_blocks
+                    for c, row in zip(cell_blocks, rows)
                 ]
             )
+            dim = str(len(cd))
             dt, prec = numpy_to_xdmf_dtype[cd.dtype.name]
             data_item = ET.SubElement(
                 topo,
-- 
2.43.0


From dbca42479c86818885d249bfdf2a9ce21855b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:15 +0000
Subject: [PATCH 012/101] fix: xdmf time series: write the data files next to
 the XDMF file, where the reader looks for them

---
 src/meshio/xdmf/time_series.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 8183c25..0b37dc4 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -262,7 +262,7 @@ class TimeSeriesWriter:
         if self.data_format == "HDF":
             import h5py
 
-            self.h5_filename = self.filename.stem + ".h5"
+            self.h5_filename = self.filename.with_suffix(".h5")
             self.h5_file = h5py.File(self.h5_filename, "w")
         return self
 
@@ -324,7 +324,8 @@ class TimeSeriesWriter:
             np.savetxt(s, data.flatten(), fmt)
             return s.getvalue().decode()
         elif self.data_format == "Binary":
-            bin_filename = f"{self.filename.stem}{self.data_counter}.bin"
+            base = os.path.splitext(self.filename)[0]
+            bin_filename = f"{base}{self.data_counter}.bin"
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-- 
2.43.0


From 9749cc1b288a18a6538504932eedaf25e31659ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 013/101] fix: xdmf: write Binary data items in native byte
 order

---
 src/meshio/xdmf/main.py        | 3 ++-
 src/meshio/xdmf/time_series.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 750e429..dad1a5f 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -385,7 +385,8 @@ class XdmfWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.tofile(f)
+                # XDMF readers assume native byte order
+                data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
             return bin_filename
 
         if self.data_format != "HDF":
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 0b37dc4..424d1b5 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -329,7 +329,8 @@ class TimeSeriesWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.tofile(f)
+                # XDMF readers assume native byte order
+                data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
             return bin_filename
 
         if self.data_format != "HDF":
-- 
2.43.0


From bee9892db1dcb2f870e0275d69602a8366dc1fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:06 +0000
Subject: [PATCH 014/101] fix: xdmf: mixed topologies with uint64 connectivity
 became floats

---
 src/meshio/xdmf/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index dad1a5f..b840766 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -470,6 +470,7 @@ class XdmfWriter:
                                     2 if cell_block.type in {"vertex", "line"} else 1,
                                 ),
                                 meshio_type_to_xdmf_index[cell_block.type],
+                                dtype=cell_block.data.dtype,
                             ),
                             cell_block.data,
                         ]
-- 
2.43.0


From 4c2c1cc48791b30c9503bc0145103070e988bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:59 +0000
Subject: [PATCH 015/101] fix: hmf: keep all cell blocks, in order, and split
 the cell data by block

---
 src/meshio/hmf/_hmf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/meshio/hmf/_hmf.py b/src/meshio/hmf/_hmf.py
index b4af72f..c46595a 100644
--- a/src/meshio/hmf/_hmf.py
+++ b/src/meshio/hmf/_hmf.py
@@ -19,14 +19,17 @@ def read(filename):
         grid = domain["grid"]
 
         points = None
-        cells = {}
+        cells = []
         point_data = {}
         cell_data_raw = {}
 
-        for key, value in grid.items():
+        # HDF5 sorts the keys alphabetically, Topology10 comes before Topology2
+        for key, value in sorted(grid.items(), key=lambda item: (len(item[0]), item[0])):
             if key[:8] == "Topology":
                 cell_type = value.attrs["TopologyType"]
-                cells[xdmf_to_meshio_type[cell_type]] = value[()]
+                cells.append(
+                    meshio.CellBlock(xdmf_to_meshio_type[cell_type], value[()])
+                )
 
             elif key == "Geometry":
                 # TODO is GeometryType really needed?
-- 
2.43.0


From 886e78c30845eaa35afb3850729d4709fc30791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:16 +0000
Subject: [PATCH 016/101] fix: h5m: writing a mesh with cell data crashed

---
 src/meshio/h5m/_h5m.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 62a790a..1ae4737 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -229,7 +229,7 @@ def write(filename, mesh, add_global_ids=True, compression="gzip", compression_o
         "triangle": {"name": "Tri3", "type": 2},
         "tetra": {"name": "Tet4", "type": 5},
     }
-    for cell_block in mesh.cells:
+    for k, cell_block in enumerate(mesh.cells):
         key = cell_block.type
         data = cell_block.data
         if key not in meshio_to_h5m_type:
@@ -248,14 +248,13 @@ def write(filename, mesh, add_global_ids=True, compression="gzip", compression_o
         conn.attrs.create("start_id", global_id)
         global_id += len(data)
 
-    # add cell data
-    for cell_type, cd in mesh.cell_data.items():
-        if cd:
+        # add cell data
+        if mesh.cell_data:
             tags = elem_group.create_group("tags")
-            for key, value in cd.items():
+            for name, value in mesh.cell_data.items():
                 tags.create_dataset(
-                    key,
-                    data=value,
+                    name,
+                    data=value[k],
                     compression=compression,
                     compression_opts=compression_opts,
                 )
-- 
2.43.0


From 1583064e7713cb0026139494e21381b92493e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:12 +0000
Subject: [PATCH 017/101] fix: exodus: TETRA4 and TET4 are plain tetrahedra

---
 src/meshio/exodus/_exodus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 60fce58..004a222 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -53,9 +53,9 @@ exodus_to_meshio_type = {
     "HEX20": "hexahedron20",
     "HEX27": "hexahedron27",
     #
+    "TETRA4": "tetra",
+    "TET4": "tetra",
     "TETRA": "tetra",
-    "TETRA4": "tetra4",
-    "TET4": "tetra4",
     "TETRA8": "tetra8",
     "TETRA10": "tetra10",
     "TETRA14": "tetra14",
-- 
2.43.0


From 60c5015131329d75ac10c9862d481b94c21f722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:17 +0000
Subject: [PATCH 018/101] fix: exodus: assign element variables by variable and
 block number

---
 src/meshio/exodus/_exodus.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 004a222..0529a70 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -131,7 +131,7 @@ def read(filename):  # noqa: C901
                 # eb: element block
                 m = re.match("vals_elem_var(\\d+)?(?:eb(\\d+))?", key)
                 idx = 0 if m.group(1) is None else int(m.group(1)) - 1
-                block = 0 if m.group(2) is None else int(m.group(2)) - 1
+                block = None if m.group(2) is None else int(m.group(2)) - 1
 
                 value.set_auto_mask(False)
                 # For now only take the first value
@@ -150,10 +150,6 @@ def read(filename):  # noqa: C901
             elif key.startswith("node_ns"):  # Expected keys: node_ns1, node_ns2
                 ns.append(value[:] - 1)  # Exodus is 1-based
 
-        # merge element block data; can't handle blocks yet
-        for k, value in cd.items():
-            cd[k] = np.concatenate(list(value.values()))
-
         # Check if there are any <name>R, <name>Z tuples or <name>X, <name>Y, <name>Z
         # triplets in the point data. If yes, they belong together.
         single, double, triple = categorize(point_data_names)
@@ -168,12 +164,17 @@ def read(filename):  # noqa: C901
 
         cell_data = {}
         k = 0
-        for _, cell in cells:
+        for block, (_, cell) in enumerate(cells):
             n = len(cell)
-            for name, data in zip(cell_data_names, cd.values()):
+            for idx, name in enumerate(cell_data_names):
+                if idx not in cd:
+                    continue
                 if name not in cell_data:
                     cell_data[name] = []
-                cell_data[name].append(data[k : k + n])
+                if None in cd[idx]:  # one array for all blocks
+                    cell_data[name].append(cd[idx][None][k : k + n])
+                else:  # the variable isn't necessarily defined on all blocks
+                    cell_data[name].append(cd[idx].get(block, np.full(n, np.nan)))
             k += n
 
         point_sets = {name: dat for name, dat in zip(ns_names, ns)}
-- 
2.43.0


From 592529a4b03095e99a22faed6f31b4be47fcc989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:33 +0000
Subject: [PATCH 019/101] fix: abaqus: C3D4H is a plain tetrahedron

---
 src/meshio/abaqus/_abaqus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 0dd8877..84575e4 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -79,8 +79,8 @@ abaqus_to_meshio_type = {
     "C3D20RH": "hexahedron20",
     # "HEX27": "hexahedron27",
     #
+    "C3D4H": "tetra",
     "C3D4": "tetra",
-    "C3D4H": "tetra4",
     # "TETRA8": "tetra8",
     "C3D10": "tetra10",
     "C3D10H": "tetra10",
-- 
2.43.0


From a444c5a40ced7908f6f75e6858f7e265318a037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:53 +0000
Subject: [PATCH 020/101] fix: abaqus: cell sets that span several element
 blocks lost members or hit the wrong block

---
 src/meshio/abaqus/_abaqus.py | 66 +++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 84575e4..ff78ce7 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -115,8 +115,8 @@ def read_buffer(f):
     cell_ids = []
     point_sets = {}
     cell_sets = {}
-    cell_sets_element = {}  # Handle cell sets defined in ELEMENT
-    cell_sets_element_order = []  # Order of keys is not preserved in Python 3.5
+    # Handle cell sets defined in ELEMENT: name -> members by cell block
+    cell_sets_element = {}
     field_data = {}
     cell_data = {}
     point_data = {}
@@ -144,9 +144,11 @@ def read_buffer(f):
             )
             cells.append(CellBlock(cell_type, cells_data))
             cell_ids.append(ids)
-            if sets:
-                cell_sets_element.update(sets)
-                cell_sets_element_order += list(sets.keys())
+            for name, members in sets.items():
+                cell_sets_element[name] = _join_sets(
+                    cell_sets_element.get(name, []),
+                    [[]] * (len(cells) - 1) + [members],
+                )
         elif keyword == "NSET":
             params_map = get_param_map(line, required_keys=["NSET"])
             set_ids, _, line = _read_set(f, params_map)
@@ -158,26 +160,23 @@ def read_buffer(f):
             params_map = get_param_map(line, required_keys=["ELSET"])
             set_ids, set_names, line = _read_set(f, params_map)
             name = params_map["ELSET"]
-            cell_sets[name] = []
+            # Repeated definitions of a set add to it.
+            members = cell_sets.get(name, [])
             if set_ids.size:
-                for cell_ids_ in cell_ids:
-                    cell_sets_ = np.array(
-                        [
-                            cell_ids_[set_id]
-                            for set_id in set_ids
-                            if set_id in cell_ids_
-                        ],
-                        dtype="int32",
-                    )
-                    cell_sets[name].append(cell_sets_)
+                new_members = [
+                    [cell_ids_[set_id] for set_id in set_ids if set_id in cell_ids_]
+                    for cell_ids_ in cell_ids
+                ]
+                members = _join_sets(members, new_members)
             elif set_names:
                 for set_name in set_names:
                     if set_name in cell_sets.keys():
-                        cell_sets[name].append(cell_sets[set_name])
+                        members = _join_sets(members, cell_sets[set_name])
                     elif set_name in cell_sets_element.keys():
-                        cell_sets[name].append(cell_sets_element[set_name])
+                        members = _join_sets(members, cell_sets_element[set_name])
                     else:
                         raise ReadError(f"Unknown cell set '{set_name}'")
+            cell_sets[name] = members
         elif keyword == "INCLUDE":
             # Splitting line to get external input file path (example: *INCLUDE,INPUT=wInclude_bulk.inp)
             ext_input_file = pathlib.Path(line.split("=")[-1].strip())
@@ -200,23 +199,20 @@ def read_buffer(f):
                     point_sets,
                     cell_sets,
                 )
+                cell_ids += [{} for _ in out.cells]
 
             line = f.readline()
         else:
             # There are just too many Abaqus keywords to explicitly skip them.
             line = f.readline()
 
-    # Parse cell sets defined in ELEMENT
-    for i, name in enumerate(cell_sets_element_order):
-        # Not sure whether this case would ever happen
-        if name in cell_sets.keys():
-            cell_sets[name][i] = cell_sets_element[name]
-        else:
-            cell_sets[name] = []
-            for ic in range(len(cells)):
-                cell_sets[name].append(
-                    cell_sets_element[name] if i == ic else np.array([], dtype="int32")
-                )
+    # Add the cell sets defined in ELEMENT
+    for name, members in cell_sets_element.items():
+        cell_sets[name] = _join_sets(cell_sets.get(name, []), members)
+
+    # One entry per cell block, also for the blocks that were read after the set
+    for name, members in cell_sets.items():
+        cell_sets[name] = _join_sets(members, [[]] * len(cells))
 
     return Mesh(
         points,
@@ -229,6 +225,14 @@ def read_buffer(f):
     )
 
 
+def _join_sets(a, b):
+    """Merge two cell sets, given as lists of members by cell block."""
+    n = max(len(a), len(b))
+    a = list(a) + [[]] * (n - len(a))
+    b = list(b) + [[]] * (n - len(b))
+    return [np.array([*x, *y], dtype="int32") for x, y in zip(a, b)]
+
+
 def _read_nodes(f):
     points = []
     point_ids = {}
@@ -389,7 +393,7 @@ def _read_set(f, params_map):
         if line[0].isnumeric():
             set_ids += [int(k) for k in line]
         else:
-            set_names.append(line[0])
+            set_names += [name.strip() for name in line]
 
     set_ids = np.array(set_ids, dtype="int32")
     if "GENERATE" in params_map:
@@ -427,7 +431,7 @@ def write(
         offset = 0
         for ic in range(len(mesh.cells)):
             for k, v in mesh.cell_sets.items():
-                if len(v[ic]) > 0:
+                if v[ic] is not None and len(v[ic]) > 0:
                     els = [str(i + 1 + offset) for i in v[ic]]
                     f.write(f"*ELSET, ELSET={k}\n")
                     f.write(
-- 
2.43.0


From 6148d49d72ad756e74f4f74aa6a570ea0bb088ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:58 +0000
Subject: [PATCH 021/101] fix: abaqus: node sets defined in several steps or by
 other sets lost members

---
 src/meshio/abaqus/_abaqus.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index ff78ce7..5a2f9d7 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -151,11 +151,14 @@ def read_buffer(f):
                 )
         elif keyword == "NSET":
             params_map = get_param_map(line, required_keys=["NSET"])
-            set_ids, _, line = _read_set(f, params_map)
+            set_ids, set_names, line = _read_set(f, params_map)
             name = params_map["NSET"]
-            point_sets[name] = np.array(
-                [point_ids[point_id] for point_id in set_ids], dtype="int32"
-            )
+            # Repeated definitions of a set add to it; sets can refer to other sets.
+            members = [*point_sets.get(name, [])]
+            members += [point_ids[point_id] for point_id in set_ids]
+            for set_name in set_names:
+                members += [*point_sets.get(set_name, [])]
+            point_sets[name] = np.array(members, dtype="int32")
         elif keyword == "ELSET":
             params_map = get_param_map(line, required_keys=["ELSET"])
             set_ids, set_names, line = _read_set(f, params_map)
-- 
2.43.0


From b2390f72a05b4d445158b8afb9d3429377bc9b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:04 +0000
Subject: [PATCH 022/101] fix: abaqus: keep the nodes of all NODE sections

---
 src/meshio/abaqus/_abaqus.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 5a2f9d7..4a6fb35 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -134,7 +134,12 @@ def read_buffer(f):
 
         keyword = line.partition(",")[0].strip().replace("*", "").upper()
         if keyword == "NODE":
-            points, point_ids, line = _read_nodes(f)
+            new_points, new_ids, line = _read_nodes(f)
+            if point_ids is None:
+                point_ids = {}
+            # There can be several NODE sections.
+            point_ids.update({key: k + len(points) for key, k in new_ids.items()})
+            points = np.concatenate([points, new_points]) if len(points) else new_points
         elif keyword == "ELEMENT":
             if point_ids is None:
                 raise ReadError("Expected NODE before ELEMENT")
-- 
2.43.0


From f893bb80211f1752edfe06e614b391d7d2f7ce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:13 +0000
Subject: [PATCH 023/101] fix: nastran: negative numbers and long exponents
 crashed the writer

---
 src/meshio/nastran/_nastran.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 0e1313c..a6ff06e 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -410,11 +410,14 @@ def _float_to_nastran_string(value, length=16):
         -0.1234 --> "-1.234E-1"
         3.1415926535897932 --> "3.14159265359E+0"
     """
-    out = np.format_float_scientific(value, exp_digits=1, precision=11).replace(
-        "e", "E"
-    )
-    assert len(out) <= 16
-    return out
+    precision = 11
+    out = np.format_float_scientific(value, exp_digits=1, precision=precision)
+    while len(out) > length:
+        # Drop as many digits as needed for the sign and a longer exponent
+        precision -= 1
+        out = np.format_float_scientific(value, exp_digits=1, precision=precision)
+    assert len(out) <= length
+    return out.replace("e", "E")
     # The following is the manual float conversion. Keep it around for a while in case
     # we still need it.
 
-- 
2.43.0


From 1b02fc95174ee0ad3e6e7f684f031af74637f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:06 +0000
Subject: [PATCH 024/101] fix: nastran: cells in free and large-field format
 crashed or could not be read back

---
 src/meshio/nastran/_nastran.py | 42 +++++++++++++++-------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index a6ff06e..d18f446 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -125,7 +125,7 @@ def read_buffer(f):
         # read line and merge with all continuation lines (starting with `+` or
         # `*` or automatic continuation lines in fixed format)
         chunks = []
-        c, _ = _chunk_line(next_line)
+        c, is_free = _chunk_line(next_line)
         chunks.append(c)
         while True:
             next_line = f.readline()
@@ -171,7 +171,7 @@ def read_buffer(f):
 
         # merge chunks according to large field format
         # large field format: 8 + 16 + 16 + 16 + 16 + 8
-        if chunks[0][0].startswith("GRID*"):
+        if chunks[0][0].rstrip().endswith("*") and not is_free:
             new_chunks = []
             for c in chunks:
                 d = [c[0]]
@@ -212,10 +212,10 @@ def read_buffer(f):
         # strip chunks
         chunks = [chunk.strip() for chunk in chunks]
 
-        keyword = chunks[0]
+        keyword = chunks[0].rstrip("*")
 
         # Points
-        if keyword in ["GRID", "GRID*"]:
+        if keyword == "GRID":
             point_id = int(chunks[1])
             pref = chunks[2].strip()
             if len(pref) > 0:
@@ -309,14 +309,15 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
     if cell_format == "free":
         int_fmt, cell_info_fmt = "{:d}", "{:s},{:d},{:s},"
         sjoin = ","
+        nipl1, nipl2 = 6, 8
     elif cell_format == "fixed-small":
         int_fmt, cell_info_fmt = "{:<8d}", "{:<8s}{:<8d}{:<8s}"
         sjoin, cchar = "", "+"
-        nipl1, nipl2 = 6, 14
+        nipl1, nipl2 = 6, 8
     elif cell_format == "fixed-large":
         int_fmt, cell_info_fmt = "{:<16d}", "{:<8s}{:<16d}{:<16s}"
         sjoin, cchar = "", "*"
-        nipl1, nipl2 = 2, 6
+        nipl1, nipl2 = 2, 4
     else:
         raise RuntimeError(f'unknown "{format}" format')
 
@@ -348,8 +349,9 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
             cell_type = cell_block.type
             cells = cell_block.data
             nastran_type = meshio_to_nastran_type[cell_type]
+            keyword = nastran_type
             if cell_format.endswith("-large"):
-                nastran_type += "*"
+                keyword += "*"
             if cell_refs is not None:
                 cell_refs_t = cell_refs[ict]
             else:
@@ -358,28 +360,22 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
                 if cell_refs is not None:
                     cell_ref = str(int(cell_refs_t[ic]))
                 cell_id += 1
-                cell_info = cell_info_fmt.format(nastran_type, cell_id, cell_ref)
+                cell_info = cell_info_fmt.format(keyword, cell_id, cell_ref)
                 cell1 = cell + 1
                 cell1 = _convert_to_nastran_ordering(cell1, nastran_type)
                 conn = sjoin.join(int_fmt.format(nid) for nid in cell1[:nipl1])
+                f.write(cell_info + conn)
 
-                if len(cell1) > nipl1:
+                # nipl1 nodes in the first line, nipl2 nodes in each continuation line
+                for k, i in enumerate(range(nipl1, len(cell1), nipl2)):
+                    nodes = cell1[i : i + nipl2]
+                    conn = sjoin.join(int_fmt.format(nid) for nid in nodes)
                     if cell_format == "free":
-                        cflag1 = cflag3 = ""
-                        cflag2 = cflag4 = "+,"
+                        f.write("\n+," + conn)
                     else:
-                        cflag1 = cflag2 = f"{cchar}1{cell_id:<6x}"
-                        cflag3 = cflag4 = f"{cchar}2{cell_id:<6x}"
-                    f.write(cell_info + conn + cflag1 + "\n")
-                    conn = sjoin.join(int_fmt.format(nid) for nid in cell1[nipl1:nipl2])
-                    if len(cell1) > nipl2:
-                        f.write(cflag2 + conn + cflag3 + "\n")
-                        conn = sjoin.join(int_fmt.format(nid) for nid in cell1[nipl2:])
-                        f.write(cflag4 + conn + "\n")
-                    else:
-                        f.write(cflag2 + conn + "\n")
-                else:
-                    f.write(cell_info + conn + "\n")
+                        cflag = f"{cchar}{k + 1}{cell_id:<6x}"
+                        f.write(f"{cflag}\n{cflag}{conn}")
+                f.write("\n")
 
         f.write("ENDDATA\n")
 
-- 
2.43.0


From f8ba8dc9217dcde745f76a61c85c63f61fc339d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:32 +0000
Subject: [PATCH 025/101] fix: nastran: write the standard names of
 second-order elements

---
 src/meshio/nastran/_nastran.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index d18f446..34c4ded 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -349,7 +349,8 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
             cell_type = cell_block.type
             cells = cell_block.data
             nastran_type = meshio_to_nastran_type[cell_type]
-            keyword = nastran_type
+            # second-order elements carry the same names as first-order elements
+            keyword = nastran_type.rstrip("_")
             if cell_format.endswith("-large"):
                 keyword += "*"
             if cell_refs is not None:
-- 
2.43.0


From 8de86e662cd5b39dfea04dc97301ce799c035f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:48 +0000
Subject: [PATCH 026/101] fix: medit: labels of points in single precision
 files were rounded to float

---
 src/meshio/medit/_medit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 272bd16..c9707a1 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -218,10 +218,11 @@ def read_ascii_buffer(f):
             if dtype is None:
                 raise ReadError("Expected `MeshVersionFormatted` before `Vertices`")
             num_verts = int(f.readline())
+            # Read everything as double; the labels may not fit into single precision
             out = np.fromfile(
-                f, count=num_verts * (dim + 1), dtype=dtype, sep=" "
+                f, count=num_verts * (dim + 1), dtype=c_double, sep=" "
             ).reshape(num_verts, dim + 1)
-            points = out[:, :dim]
+            points = out[:, :dim].astype(dtype)
             point_data["medit:ref"] = out[:, dim].astype(int)
         elif items[0] in meshio_from_medit:
             meshio_type, points_per_cell = meshio_from_medit[items[0]]
-- 
2.43.0


From 0f01a6035594749f01a075ac13781cd0102e1229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:11 +0000
Subject: [PATCH 027/101] fix: ugrid: writing boundary faces with integer cell
 data crashed

---
 src/meshio/ugrid/_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 6fa57c0..8a6c560 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -253,7 +253,7 @@ def _write_buffer(f, file_type, mesh):
                 f'Picking {labels_key}, skipping {", ".join(other)}.'
             )
         labels = (
-            mesh.cell_data[labels_key]
+            mesh.cell_data[labels_key][ugrid_meshio_id[key]]
             if labels_key
             else np.ones(ugrid_counts[key], dtype=int)
         )
-- 
2.43.0


From 2efd9a6cb108fc31a1021c14df7746730374281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:11 +0000
Subject: [PATCH 028/101] fix: ugrid: Fortran record lengths follow the data
 types in the file

---
 src/meshio/ugrid/_ugrid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 8a6c560..e2db97e 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -204,7 +204,7 @@ def _write_buffer(f, file_type, mesh):
     # it has to be before and after each record
     fortran_header = None
     if file_type["type"] == "F":
-        fortran_header = np.array([nitems.nbytes])
+        fortran_header = np.array([nitems.size * np.dtype(itype).itemsize])
         _write_section(f, file_type, fortran_header, itype)
 
     _write_section(f, file_type, nitems, itype)
@@ -214,9 +214,10 @@ def _write_buffer(f, file_type, mesh):
         _write_section(f, file_type, fortran_header, itype)
 
         # start next record
-        fortran_header = mesh.points.nbytes
-        for cell_block in mesh.cells:
-            fortran_header += cell_block.data.nbytes
+        fortran_header = mesh.points.size * np.dtype(ftype).itemsize
+        for key, i in ugrid_meshio_id.items():
+            if i >= 0:
+                fortran_header += mesh.cells[i].data.size * np.dtype(itype).itemsize
         # boundary tags
         if ugrid_counts["triangle"] > 0:
             fortran_header += ugrid_counts["triangle"] * np.dtype(itype).itemsize
-- 
2.43.0


From c8e05951b9eb385ac88da131bec74bc6b82e0adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:11 +0000
Subject: [PATCH 029/101] fix: ugrid: read ASCII coordinates in double
 precision

---
 src/meshio/ugrid/_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index e2db97e..72eabad 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -23,7 +23,7 @@ from .._mesh import CellBlock, Mesh
 # 64-bit versions described here
 # https://www.simcenter.msstate.edu/software/documentation/ug_io/ugc_l_file_formats.html
 file_types = {
-    "ascii": {"type": "ascii", "float_type": "f", "int_type": "i"},
+    "ascii": {"type": "ascii", "float_type": "f8", "int_type": "i"},
     "b8l": {"type": "C", "float_type": ">f8", "int_type": ">i8"},
     "b8": {"type": "C", "float_type": ">f8", "int_type": ">i4"},
     "b4": {"type": "C", "float_type": ">f4", "int_type": ">i4"},
-- 
2.43.0


From 3237fee3455ef7b7d7d3c003a27098c43cfbe9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:56 +0000
Subject: [PATCH 030/101] fix: ply: read all scalar types, uchar is unsigned

---
 src/meshio/ply/_ply.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 4393cbc..5e05ba6 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -29,6 +29,7 @@ ply_to_numpy_dtype = {
     "ushort": np.uint16,
     "int": np.int32,
     "int8": np.int8,
+    "int16": np.int16,
     "int32": np.int32,
     "int64": np.int64,
     "uint": np.uint32,
@@ -264,7 +265,10 @@ def _read_binary(
     cell_data_dtypes,
 ):
     ply_to_numpy_dtype_string = {
-        "uchar": "i1",
+        "char": "i1",
+        "uchar": "u1",
+        "short": "i2",
+        "ushort": "u2",
         "uint": "u4",
         "uint8": "u1",
         "uint16": "u2",
@@ -272,10 +276,12 @@ def _read_binary(
         "uint64": "u8",
         "int": "i4",
         "int8": "i1",
+        "int16": "i2",
         "int32": "i4",
         "int64": "i8",
         "float": "f4",
         "float32": "f4",
+        "float64": "f8",
         "double": "f8",
     }
 
-- 
2.43.0


From 302f6b4279565e542a94a3329b9e25276ff4775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:56 +0000
Subject: [PATCH 031/101] fix: ply: read 2D points, single points, and
 coordinates in any position

---
 src/meshio/ply/_ply.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 5e05ba6..88329bf 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -186,25 +186,13 @@ def _read_ascii(
             for name, fmt in zip(point_data_names, point_data_formats)
         ]
     )
-    pd = np.genfromtxt(f, max_rows=num_verts, dtype=dtype)
+    pd = np.atleast_1d(np.genfromtxt(f, max_rows=num_verts, dtype=dtype))
 
     # split off coordinate data and additional point data
-    verts = []
-    k = 0
-    if point_data_names[0] == "x":
-        verts.append(pd["x"])
-        k += 1
-    if point_data_names[1] == "y":
-        verts.append(pd["y"])
-        k += 1
-    if point_data_names[2] == "z":
-        verts.append(pd["z"])
-        k += 1
-    verts = np.column_stack(verts)
+    verts = np.column_stack([pd[c] for c in "xyz" if c in point_data_names])
 
     point_data = {
-        point_data_names[i]: pd[point_data_names[i]]
-        for i in range(k, len(point_data_names))
+        name: pd[name] for name in point_data_names if name not in ["x", "y", "z"]
     }
     cell_data = {}
 
@@ -293,7 +281,7 @@ def _read_binary(
     point_data = np.frombuffer(
         f.read(num_verts * np.dtype(dtype).itemsize), dtype=dtype
     )
-    verts = np.column_stack([point_data["x"], point_data["y"], point_data["z"]])
+    verts = np.column_stack([point_data[c] for c in "xyz" if c in point_data_names])
     point_data = {
         name: point_data[name]
         for name in point_data_names
-- 
2.43.0


From 90fdd5d63b0c2717f651b758160bfba36424b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:56 +0000
Subject: [PATCH 032/101] fix: ply: don't alter the cells of the mesh when
 writing

---
 src/meshio/ply/_ply.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 88329bf..ed1df88 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -436,9 +436,10 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(f"property {type_name} {key}\n".encode())
             pd.append(value)
 
+        cells = list(mesh.cells)
         num_cells = 0
         legal_cell_types = ["vertex", "line", "triangle", "quad", "polygon"]
-        for cell_block in mesh.cells:
+        for cell_block in cells:
             if cell_block.type in legal_cell_types:
                 num_cells += cell_block.data.shape[0]
 
@@ -446,12 +447,11 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(f"element face {num_cells:d}\n".encode())
 
             # possibly cast down to int32
-            # TODO don't alter the mesh data
             has_cast = False
-            for k, cell_block in enumerate(mesh.cells):
+            for k, cell_block in enumerate(cells):
                 if cell_block.data.dtype == np.int64:
                     has_cast = True
-                    mesh.cells[k] = CellBlock(
+                    cells[k] = CellBlock(
                         cell_block.type, cell_block.data.astype(np.int32)
                     )
 
@@ -460,7 +460,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
             # assert that all cell dtypes are equal
             cell_dtype = None
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_dtype is None:
                     cell_dtype = cell_block.data.dtype
                 if cell_block.data.dtype != cell_dtype:
@@ -479,7 +479,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(out.tobytes())
 
             # cells
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_block.type not in legal_cell_types:
                     warn(
                         f'cell_type "{cell_block.type}" is not supported by PLY format '
@@ -502,7 +502,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(out.encode())
 
             # cells
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_block.type not in legal_cell_types:
                     warn(
                         f'cell_type "{cell_block.type}" is not supported by PLY format '
-- 
2.43.0


From c3e19bc09e3ad44792127b3d6c0032c98a3a7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:07 +0000
Subject: [PATCH 033/101] fix: ply: cell data was attached to the wrong cells
 or read from the wrong bytes

---
 src/meshio/ply/_ply.py | 99 +++++++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 44 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index ed1df88..b6befc1 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -4,7 +4,6 @@ I/O for the PLY format, cf.
 <https://web.archive.org/web/20161221115231/http://www.cs.virginia.edu/~gfx/Courses/2001/Advanced.spring.01/plylib/Ply.txt>.
 """
 
-import collections
 import datetime
 import re
 import sys
@@ -194,54 +193,48 @@ def _read_ascii(
     point_data = {
         name: pd[name] for name in point_data_names if name not in ["x", "y", "z"]
     }
-    cell_data = {}
-
     cell_blocks = []
+    cell_data = {name: [] for name in cell_data_names if name != "vertex_indices"}
 
-    for k in range(num_cells):
+    for _ in range(num_cells):
         line = f.readline().decode().strip()
         data = line.split()
 
-        if k == 0:
-            # initialize the cell data arrays
-            i = 0
-            cell_data = {}
-            for name, dtype in zip(cell_data_names, cell_dtypes):
-                if name == "vertex_indices":
-                    n = int(data[i])
-                    i += n + 1
-                else:
-                    cell_data[name] = collections.defaultdict(list)
-                    i += 1
-
         # go over the line
         i = 0
-        n = None
+        row = {}
         for name, dtype in zip(cell_data_names, cell_dtypes):
-            if name == "vertex_indices":
+            if isinstance(dtype, tuple):
                 idx_dtype, value_dtype = dtype
                 n = ply_to_numpy_dtype[idx_dtype](data[i])
                 dtype = ply_to_numpy_dtype[value_dtype]
-                idx = dtype(data[i + 1 : i + n + 1])
-                if len(cell_blocks) == 0 or len(cell_blocks[-1][1][-1]) != n:
-                    cell_blocks.append((cell_type_from_count(n), [idx]))
-                else:
-                    cell_blocks[-1][1].append(idx)
+                row[name] = dtype(data[i + 1 : i + n + 1])
                 i += n + 1
             else:
-                dtype = ply_to_numpy_dtype[dtype]
-                # use n from vertex_indices
-                assert n is not None
-                cell_data[name][n] += [dtype(data[j]) for j in range(i, i + 1)]
+                row[name] = ply_to_numpy_dtype[dtype](data[i])
                 i += 1
 
-    cell_data = {
-        key: [np.array(v) for v in value.values()] for key, value in cell_data.items()
-    }
+        _add_face(cell_blocks, cell_data, row)
+
+    cell_data = {key: [np.array(v) for v in value] for key, value in cell_data.items()}
 
     return Mesh(verts, cell_blocks, point_data=point_data, cell_data=cell_data)
 
 
+def _add_face(cell_blocks, cell_data, row):
+    """Append a face, given by its properties, to the last cell block, or to a new one
+    if the number of vertices differs."""
+    idx = row.pop("vertex_indices")
+    n = len(idx)
+    if len(cell_blocks) == 0 or len(cell_blocks[-1][1][-1]) != n:
+        cell_blocks.append((cell_type_from_count(n), []))
+        for blocks in cell_data.values():
+            blocks.append([])
+    cell_blocks[-1][1].append(idx)
+    for name, value in row.items():
+        cell_data[name][-1].append(value)
+
+
 def _read_binary(
     f,
     endianness,
@@ -305,26 +298,44 @@ def _read_binary(
     # `bytearray()` call here redundantly copies so that the final output arrays
     # are writeable.
     buffer = memoryview(bytearray(f.read()))
-    buffer_position = 0
 
     cell_data = {}
-    for name, dt in zip(cell_data_names, dts):
-        if isinstance(dt, tuple):
-            buffer_increment, cell_data[name] = _read_binary_list(
-                buffer[buffer_position:], dt[0], dt[1], num_cells, endianness
-            )
-        else:
-            buffer_increment = np.dtype(dt).itemsize
-            cell_data[name] = np.frombuffer(
-                buffer[buffer_position : buffer_position + buffer_increment], dtype=dt
-            )[0]
-        buffer_position += buffer_increment
-
-    cells = cell_data.pop("vertex_indices", [])
+    if cell_data_names == ["vertex_indices"]:
+        _, cells = _read_binary_list(buffer, *dts[0], num_cells, endianness)
+    else:
+        cells, cell_data = _read_binary_faces(buffer, cell_data_names, dts, num_cells)
 
     return Mesh(verts, cells, point_data=point_data, cell_data=cell_data)
 
 
+def _read_binary_faces(buffer, names, dtypes, num_cells):
+    """Parse faces that have properties besides the vertex list. Those are interleaved
+    with the lists, so the faces have to be read one by one.
+    """
+    cell_blocks = []
+    cell_data = {name: [] for name in names if name != "vertex_indices"}
+    position = 0
+
+    def read_values(dtype, count):
+        nonlocal position
+        out = np.frombuffer(buffer, dtype=dtype, count=count, offset=position)
+        position += out.nbytes
+        return out
+
+    for _ in range(num_cells):
+        row = {}
+        for name, dtype in zip(names, dtypes):
+            if isinstance(dtype, tuple):
+                count = read_values(dtype[0], 1)[0]
+                row[name] = read_values(dtype[1], count)
+            else:
+                row[name] = read_values(dtype, 1)[0]
+        _add_face(cell_blocks, cell_data, row)
+
+    cells = [CellBlock(cell_type, np.array(data)) for cell_type, data in cell_blocks]
+    return cells, {key: [np.array(v) for v in value] for key, value in cell_data.items()}
+
+
 def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
     """Parse a ply ragged list into a :class:`CellBlock` for each change in row
     length. The only way to know how many bytes the list takes up is to parse
-- 
2.43.0


From 575c716947c9631de2c3bdd88d29edb59a97bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:07 +0000
Subject: [PATCH 034/101] fix: stl: blank lines in ASCII files

---
 src/meshio/stl/_stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index 8be0eed..9c16732 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -65,7 +65,7 @@ def iter_loadtxt(
 
         for line in infile:
             line = line.decode().strip()
-            if line.startswith(comments):
+            if not line or line.startswith(comments):
                 continue
             # remove all text
             items = line.split()[-3:]
-- 
2.43.0


From b368416ff8fc56bf5fbb0d85d80a7c2cb436c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:07 +0000
Subject: [PATCH 035/101] fix: obj: resolve negative (relative) vertex indices

---
 src/meshio/obj/_obj.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index d520818..d288cd0 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -52,6 +52,8 @@ def read_buffer(f):
             pass
         elif split[0] == "f":
             dat = [int(item.split("/")[0]) for item in split[1:]]
+            # negative indices count backwards from the last vertex read so far
+            dat = [i if i > 0 else len(points) + 1 + i for i in dat]
             if len(face_groups) == 0 or (
                 len(face_groups[-1]) > 0 and len(face_groups[-1][-1]) != len(dat)
             ):
-- 
2.43.0


From 57526302d17f2d9968986e20cc9c2ca5785d161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:07 +0000
Subject: [PATCH 036/101] fix: obj: writing 2D points crashed

---
 src/meshio/obj/_obj.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index d288cd0..9b73a9c 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -8,6 +8,7 @@ import datetime
 import numpy as np
 
 from ..__about__ import __version__
+from .._common import warn
 from .._exceptions import WriteError
 from .._files import open_file
 from .._helpers import register_format
@@ -108,13 +109,21 @@ def write(filename, mesh):
                 "Wavefront .obj files can only contain triangle or quad cells."
             )
 
+    if mesh.points.shape[1] == 2:
+        warn(
+            "OBJ requires 3D points, but 2D points given. Appending 0 third component."
+        )
+        points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])
+    else:
+        points = mesh.points
+
     with open_file(filename, "w") as f:
         f.write(
             "# Created by meshio v{}, {}\n".format(
                 __version__, datetime.datetime.now().isoformat()
             )
         )
-        for p in mesh.points:
+        for p in points:
             f.write(f"v {p[0]} {p[1]} {p[2]}\n")
 
         if "obj:vn" in mesh.point_data:
-- 
2.43.0


From b075d783ad5f46035cead79374870dc99e932426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:07 +0000
Subject: [PATCH 037/101] fix: wkt: read numbers with exponents

---
 src/meshio/wkt/_wkt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 588f504..5c10fbd 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -10,7 +10,7 @@ from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
-float_pattern = r"[+-]?(?:\d+\.?\d*|\d*\.?\d+)"
+float_pattern = r"[+-]?(?:\d+\.?\d*|\d*\.?\d+)(?:[eE][+-]?\d+)?"
 float_re = re.compile(float_pattern)
 
 point_pattern = r"{0}\s+{0}\s+{0}(?:\s+{0})?".format(float_pattern)
-- 
2.43.0


From 77df52d345bae6d680c9dfd859d353915531a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:07 +0000
Subject: [PATCH 038/101] fix: neuroglancer: reject triangles that reference
 the vertex behind the last one

---
 src/meshio/neuroglancer/_neuroglancer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/neuroglancer/_neuroglancer.py b/src/meshio/neuroglancer/_neuroglancer.py
index ad48cc2..fd0e3e5 100644
--- a/src/meshio/neuroglancer/_neuroglancer.py
+++ b/src/meshio/neuroglancer/_neuroglancer.py
@@ -71,7 +71,7 @@ def read_buffer(file):
         raise ReadError("The size of the precomputed mesh data is not adequate")
     flat_triangles = np.frombuffer(buf, "<I")
     triangles = np.reshape(flat_triangles, (-1, 3)).copy(order="C")  # TODO remove copy
-    if np.any(triangles > num_vertices):
+    if np.any(triangles >= num_vertices):
         raise ReadError("The mesh references nonexistent vertices")
 
     return Mesh(vertices, [CellBlock("triangle", triangles)])
-- 
2.43.0


From 4fac63f8a61c7a23897894214cf8ce1d58e78fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:07 +0000
Subject: [PATCH 039/101] fix: neuroglancer: 2D points made the file unreadable

---
 src/meshio/neuroglancer/_neuroglancer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/meshio/neuroglancer/_neuroglancer.py b/src/meshio/neuroglancer/_neuroglancer.py
index fd0e3e5..dd6ef81 100644
--- a/src/meshio/neuroglancer/_neuroglancer.py
+++ b/src/meshio/neuroglancer/_neuroglancer.py
@@ -27,6 +27,12 @@ def write_buffer(f, mesh):
     :param meshio.Mesh mesh: Mesh object to write
     """
     vertices = np.asarray(mesh.points, "<f")
+    if vertices.shape[1] == 2:
+        warn(
+            "Neuroglancer requires 3D points, but 2D points given. "
+            "Appending 0 third component."
+        )
+        vertices = np.column_stack([vertices, np.zeros_like(vertices[:, 0])])
     skip = [c for c in mesh.cells if c.type != "triangle"]
     if skip:
         warn('Neuroglancer only supports triangle cells. Skipping {", ".join(skip)}.')
-- 
2.43.0


From d4d1ae4a8e54231a5261c24eda44ae81eaa79747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:20 +0000
Subject: [PATCH 040/101] fix: ply: binary files with one-vertex cells could
 not be read

---
 src/meshio/ply/_ply.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index b6befc1..0ea40bb 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -388,6 +388,7 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
             [("count", count_dtype), ("data", data_dtype * cells_per_row)]
         )
         cells = np.frombuffer(block_buffer, dtype=block_dtype)["data"]
+        cells = cells.reshape(-1, cells_per_row)
 
         cell_type = cell_type_from_count(cells.shape[1])
 
-- 
2.43.0


From 4c109c6bf9804d1aeb47ce3263ffc8f9c57f1815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:15 +0000
Subject: [PATCH 041/101] fix: permas: undo the reordering of second-order
 cells when reading

---
 src/meshio/permas/_permas.py | 56 ++++++++++++------------------------
 1 file changed, 18 insertions(+), 38 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index dda02a3..162d84c 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -56,6 +56,14 @@ permas_to_meshio_type = {
 }
 meshio_to_permas_type = {v: k for k, v in permas_to_meshio_type.items()}
 
+# the nodes of the higher-order cells as they appear in PERMAS files
+meshio_to_permas_order = {
+    "triangle6": [0, 3, 1, 4, 2, 5],
+    "tetra10": [0, 4, 1, 5, 2, 6, 7, 8, 9, 3],
+    "quad9": [0, 4, 1, 7, 8, 5, 3, 6, 2],
+    "wedge15": [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14],
+}
+
 
 def read(filename):
     """Reads a PERMAS dat file."""
@@ -155,7 +163,10 @@ def _read_cells(f, line0, point_gids):
             cells.append(idx)
             idx = []
     f.seek(last_pos)
-    return cell_type, np.array(cells)
+    cells = np.array(cells)
+    if cell_type in meshio_to_permas_order:
+        cells = cells[:, np.argsort(meshio_to_permas_order[cell_type])]
+    return cell_type, cells
 
 
 def get_param_map(word, required_keys=None):
@@ -239,47 +250,16 @@ def write(filename, mesh):
         for k, x in enumerate(points):
             f.write(f"{k + 1} {x[0]} {x[1]} {x[2]}\n")
         eid = 0
-        tria6_order = [0, 3, 1, 4, 2, 5]
-        tet10_order = [0, 4, 1, 5, 2, 6, 7, 8, 9, 3]
-        quad9_order = [0, 4, 1, 7, 8, 5, 3, 6, 2]
-        wedge15_order = [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14]
         for cell_block in mesh.cells:
             node_idcs = cell_block.data
             f.write("!\n")
             f.write("$ELEMENT TYPE=" + meshio_to_permas_type[cell_block.type] + "\n")
-            if cell_block.type == "tetra10":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in tet10_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "triangle6":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in tria6_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "quad9":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in quad9_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "wedge15":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in wedge15_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            else:
-                for row in node_idcs:
-                    eid += 1
-                    nids_strs = (str(nid + 1) for nid in row.tolist())
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
+            if cell_block.type in meshio_to_permas_order:
+                node_idcs = node_idcs[:, meshio_to_permas_order[cell_block.type]]
+            for row in node_idcs:
+                eid += 1
+                nids_strs = (str(nid + 1) for nid in row.tolist())
+                f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
         f.write("$END STRUCTURE\n")
         f.write("$EXIT COMPONENT\n")
         f.write("$FIN\n")
-- 
2.43.0


From 98c3b419efcd3483f9526a1ad486980dbb5e20d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:21 +0000
Subject: [PATCH 042/101] fix: mdpa: cells refer to nodes by id, not by
 position

---
 src/meshio/mdpa/_mdpa.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index afa39ec..6b28be2 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -116,15 +116,16 @@ def _read_nodes(f, is_ascii, data_size):
 
     points = np.fromfile(f, count=num_nodes * 4, sep=" ").reshape((num_nodes, 4))
     # The first number is the index
+    point_ids = {int(pid): k for k, pid in enumerate(points[:, 0])}
     points = points[:, 1:]
 
     line = f.readline().decode()
     if line.strip() != "End Nodes":
         raise ReadError()
-    return points
+    return points, point_ids
 
 
-def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
+def _read_cells(f, cells, is_ascii, cell_tags, point_ids, environ=None):
     if not is_ascii:
         raise ReadError("Can only read ASCII cells")
 
@@ -159,8 +160,8 @@ def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
 
         if len(cells) == 0 or t != cells[-1][0]:
             cells.append((t, []))
-        # Subtract one to account for the fact that python indices are 0-based.
-        cells[-1][1].append(np.array(data[-num_nodes_per_elem:]) - 1)
+        # Translate the node ids into indices
+        cells[-1][1].append(np.array([point_ids[k] for k in data[2:]]))
 
         # Using the property id as tag
         if t not in cell_tags:
@@ -282,6 +283,7 @@ def read_buffer(f):
 
     # Initialize the optional data fields
     points = []
+    point_ids = {}
     cells = []
     field_data = {}
     cell_data = {}
@@ -306,11 +308,11 @@ def read_buffer(f):
         environ = line.strip()
 
         if environ.startswith("Begin Nodes"):
-            points = _read_nodes(f, is_ascii, data_size)
+            points, point_ids = _read_nodes(f, is_ascii, data_size)
         elif environ.startswith("Begin Elements") or environ.startswith(
             "Begin Conditions"
         ):
-            _read_cells(f, cells, is_ascii, cell_tags, environ)
+            _read_cells(f, cells, is_ascii, cell_tags, point_ids, environ)
 
     # We finally prepare the cells
     has_additional_tag_data = _prepare_cells(cells, cell_tags)
-- 
2.43.0


From e0b472fbe39704330da245df27b995399387dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:47 +0000
Subject: [PATCH 043/101] fix: tecplot: meshes with cells of different
 dimensions got the wrong zone type or crashed

---
 src/meshio/tecplot/_tecplot.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 4acf2c3..1b0f82a 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -406,16 +406,22 @@ def write(filename, mesh):
             ]
         )
     else:
-        # Check if the mesh contains 2D and 3D cells
+        # Check if the mesh contains cells of different dimensions
         num_dims = [meshio_type_to_ndim[mesh.cells[ic].type] for ic in cell_blocks]
+        max_dim = max(num_dims)
 
-        # Skip 2D cells if it does
-        if len(np.unique(num_dims)) == 2:
-            warn("Mesh contains 2D and 3D cells. Skipping 2D cells.")
-            cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == 3]
+        # Skip lower-dimensional cells if it does
+        if min(num_dims) < max_dim:
+            warn(
+                f"Mesh contains cells of different dimensions. "
+                f"Skipping all but {max_dim}D cells."
+            )
+            cell_blocks = [
+                ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == max_dim
+            ]
 
         # Convert 2D cells to quads / 3D cells to hexahedra
-        zone_type = "FEQUADRILATERAL" if num_dims[0] == 2 else "FEBRICK"
+        zone_type = "FEQUADRILATERAL" if max_dim == 2 else "FEBRICK"
         cells = np.concatenate(
             [
                 mesh.cells[ic].data[:, meshio_to_tecplot_order_2[mesh.cells[ic].type]]
-- 
2.43.0


From 280ac6ef2dce08fea586c5f9703afcfe32b0cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:47 +0000
Subject: [PATCH 044/101] fix: tecplot: keep the case of variable names on
 continued lines

---
 src/meshio/tecplot/_tecplot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 1b0f82a..8f9ea44 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -130,12 +130,12 @@ def read_buffer(f):
             # variable name is double quoted
             lines = [line]
             i = f.tell()
-            line = readline(f).upper()
+            line = readline(f)
             while True:
                 if line.startswith('"'):
                     lines += [line]
                     i = f.tell()
-                    line = readline(f).upper()
+                    line = readline(f)
                 else:
                     f.seek(i)
                     break
-- 
2.43.0


From 9a10acc5e1edc3337a3eedcd8933c3ce9f2fc861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:47 +0000
Subject: [PATCH 045/101] fix: avsucd: files with a single node could not be
 read

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 5fdbfe6..9ee454c 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -78,7 +78,7 @@ def read_buffer(f):
 
 def _read_nodes(f, num_nodes):
     if num_nodes > 0:
-        data = np.genfromtxt(f, max_rows=num_nodes)
+        data = np.genfromtxt(f, max_rows=num_nodes).reshape(num_nodes, -1)
     else:
         data = np.empty((0, 3))
     points_ids = {int(pid): i for i, pid in enumerate(data[:, 0])}
-- 
2.43.0


From 80ba918c4d0f93282775e5a6483d4097bcc2f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:47 +0000
Subject: [PATCH 046/101] fix: avsucd: don't alter the points of the mesh when
 writing

---
 src/meshio/avsucd/_avsucd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 9ee454c..743929c 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -150,14 +150,16 @@ def write(filename, mesh):
             "AVS-UCD requires 3D points, but 2D points given. "
             "Appending 0 third component."
         )
-        mesh.points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])
+        points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])
+    else:
+        points = mesh.points
 
     with open_file(filename, "w") as f:
         # Write meshio version
         f.write(f"# Written by meshio v{version}\n")
 
         # Write first line
-        num_nodes = len(mesh.points)
+        num_nodes = len(points)
         num_cells = sum(len(c.data) for c in mesh.cells)
 
         # Try to find an appropriate materials array
@@ -187,7 +189,7 @@ def write(filename, mesh):
         f.write(f"{num_nodes} {num_cells} {num_node_data_sum} {num_cell_data_sum} 0\n")
 
         # Write nodes
-        _write_nodes(f, mesh.points)
+        _write_nodes(f, points)
 
         # Write cells
         _write_cells(f, mesh.cells, material)
-- 
2.43.0


From d3648295c44e6258564a73f26fc277caee02aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:47 +0000
Subject: [PATCH 047/101] fix: su2: writing boundary cells crashed

---
 src/meshio/su2/_su2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index b925171..b59c504 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -338,7 +338,9 @@ def write(filename, mesh):
             f.write(f"MARKER_TAG= {tag}\n".encode())
             f.write(f"MARKER_ELEMS= {count}\n".encode())
 
-            for index, (cell_type, data) in enumerate(mesh.cells):
+            for index, cell_block in enumerate(mesh.cells):
+                cell_type = cell_block.type
+                data = cell_block.data
 
                 if cell_type not in types:
                     continue
-- 
2.43.0


From 817644a810f9f69334f0e09cf1c093669e4978e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:47 +0000
Subject: [PATCH 048/101] fix: su2: files without cells in a section could not
 be read

---
 src/meshio/su2/_su2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index b59c504..9221534 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -116,6 +116,8 @@ def read_buffer(f):
             # translate_cells function from vtk reader
 
             num_elems = int(rest_of_line)
+            if num_elems == 0:
+                continue
             gen = islice(f, num_elems)
 
             # some files has an extra int column while other not
-- 
2.43.0


From edd54e7308ad82c05cc51fa43cb2bfcc6dc5cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:41 +0000
Subject: [PATCH 049/101] fix: tecplot: point data was replaced by cell data of
 the same name

---
 src/meshio/tecplot/_tecplot.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 8f9ea44..e979f8e 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -203,14 +203,13 @@ def read_buffer(f):
         if zone_format == "FEBLOCK"
         else np.transpose(data)
     )
-    data = {k: v for k, v in zip(variables, data)}
 
     point_data, cell_data = {}, {}
-    for i, variable in zip(is_cell_centered, variables):
+    for i, variable, values in zip(is_cell_centered, variables, data):
         if i:
-            cell_data[variable] = [data[variable]]
+            cell_data[variable] = [values]
         else:
-            point_data[variable] = data[variable]
+            point_data[variable] = values
 
     x = "X" if "X" in point_data.keys() else "x"
     y = "Y" if "Y" in point_data.keys() else "y"
-- 
2.43.0


From 538dcc7520337de3d82aefe1d962dbd5c898c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:41 +0000
Subject: [PATCH 050/101] fix: tecplot: accept lower case keywords on the first
 line of a zone

---
 src/meshio/tecplot/_tecplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index e979f8e..2323d50 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -150,7 +150,7 @@ def read_buffer(f):
             # , VARLOCATION = ([1-2] = NODAL, [3-7] = CELLCENTERED)
             # ```
             # is valid (and understood by ParaView and VisIt).
-            info_lines = [line]
+            info_lines = [line.upper()]
             i = f.tell()
             line = readline(f).upper()
             while True:
-- 
2.43.0


From b33b5c5128b2268bf3b414d119085cbd67df4575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:41 +0000
Subject: [PATCH 051/101] fix: avsucd: cell data of meshes with several cell
 blocks could not be read

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 743929c..cdc3813 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -69,7 +69,7 @@ def read_buffer(f):
     # Read cell data
     if num_cell_data:
         cdata = _read_data(f, num_cells, cell_ids)
-        sections = np.cumsum([len(c[1]) for c in cells[:-1]])
+        sections = np.cumsum([len(c) for c in cells[:-1]])
         for k, v in cdata.items():
             cell_data[k] = np.split(v, sections)
 
-- 
2.43.0


From 65cc1ad60a590cef114a4d650946d7ba54816850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:00 +0000
Subject: [PATCH 052/101] fix: flac3d: cell sets of meshes with several blocks
 or with faces were wrong or altered

---
 src/meshio/flac3d/_flac3d.py | 47 +++++++++++++++---------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 45ea0d9..f84e00b 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -389,33 +389,26 @@ def split_f_z(mesh):
         if not all(item is None for item in value)
     }
 
-    # Right now, the zsets contain indices into the corresponding cell block.
-    # FLAC3D expects _global_ indices. Update.
-    cell_block_sizes = [len(cb) for cb in zcells]
-    for key, data in zsets.items():
-        gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
-            gid += n
-
-    # TODO not sure if fcells and zcells share a common global index
-    cell_block_sizes = [len(cb) for cb in fcells]
-    for key, data in fsets.items():
-        gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
-            gid += n
-
-    for label, values in zsets.items():
-        zsets[label] = np.concatenate(values)
-    for label, values in fsets.items():
-        fsets[label] = np.concatenate(values)
-
-    # flac3d indices start at 1
-    for label, values in zsets.items():
-        zsets[label] += 1
-    for label, values in fsets.items():
-        fsets[label] += 1
+    # Right now, the sets contain indices into the corresponding cell block. FLAC3D
+    # expects the _global_ cell IDs as they are written: starting at 1, first the zones,
+    # then the faces.
+    first_id = {}
+    gid = 1
+    for flag in ["zone", "face"]:
+        for k, cell_block in enumerate(mesh.cells):
+            if cell_block.type in meshio_only[flag]:
+                first_id[k] = gid
+                gid += len(cell_block)
+
+    for sets in [zsets, fsets]:
+        for label, values in sets.items():
+            sets[label] = np.concatenate(
+                [
+                    np.asarray(block, dtype=int) + first_id[k]
+                    for k, block in enumerate(values)
+                    if block is not None
+                ]
+            )
 
     return zcells, fcells, zsets, fsets
 
-- 
2.43.0


From 5ed3fe0571ec70fc52ed9dd748f5a57b6a8a3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:00 +0000
Subject: [PATCH 053/101] fix: flac3d: meshes with faces or unsupported cells
 could not be written

---
 src/meshio/flac3d/_flac3d.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index f84e00b..505a2f0 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -415,9 +415,13 @@ def split_f_z(mesh):
 
 def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
     """Write FLAC3D f3grid grid file."""
-    skip = [c.type for c in mesh.cells if c.type not in meshio_only["zone"]]
+    skip = [
+        c.type
+        for c in mesh.cells
+        if c.type not in meshio_only["zone"] and c.type not in meshio_only["face"]
+    ]
     if skip:
-        warn(f'FLAC3D format only supports 3D cells. Skipping {", ".join(skip)}.')
+        warn(f'FLAC3D format only supports 2D/3D cells. Skipping {", ".join(skip)}.')
 
     # split into face/zone data
     zcells, fcells, zsets, fsets = split_f_z(mesh)
@@ -436,7 +440,7 @@ def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
         # inside the functions.
         gid = np.array(0)
         #
-        cells = _translate_zcells(mesh.points, mesh.cells)
+        cells = _translate_zcells(mesh.points, zcells)
         _write_cells(f, cells, "zone", binary, gid)
         _write_groups(f, mesh.cells, zsets, "zone", binary)
         #
@@ -560,10 +564,9 @@ def _translate_fcells(cells):
     """Reorder meshio cells to FLAC3D faces."""
     faces = []
     for cell_block in cells:
-        ctype, data = cell_block
-        assert ctype in meshio_only["face"]
+        assert cell_block.type in meshio_only["face"]
 
-        key = meshio_only["face"][ctype]
+        key = meshio_only["face"][cell_block.type]
         data = cell_block.data[:, meshio_to_flac3d_order[key]]
         faces.append((key, data))
 
-- 
2.43.0


From 93aaa0684eaa80043c2f7cfb6ac13e034806c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:00 +0000
Subject: [PATCH 054/101] fix: flac3d: cell sets read contain indices into the
 respective block

---
 src/meshio/flac3d/_flac3d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 505a2f0..448b069 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -238,7 +238,11 @@ def read_buffer(f, binary):
     bins = np.cumsum([len(cb[1]) for cb in cell_blocks])
     for key, data in cell_sets.items():
         d = np.digitize(data, bins)
-        cell_sets[key] = [data[d == k] for k in range(len(cell_blocks))]
+        # indices into the respective block
+        cell_sets[key] = [
+            data[d == k] - (bins[k] - len(cell_blocks[k][1]))
+            for k in range(len(cell_blocks))
+        ]
 
     # assert len(cell_ids) == sum(len(block) for _, block in cell_blocks)
 
-- 
2.43.0


From 7c251c85700385515f76d25e6678352e5c1f6546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:00 +0000
Subject: [PATCH 055/101] fix: flac3d: files with empty groups could not be
 read

---
 src/meshio/flac3d/_flac3d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 448b069..658de25 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -156,7 +156,7 @@ def read_buffer(f, binary):
             (num_groups,) = struct.unpack("<I", f.read(4))
             for _ in range(num_groups):
                 name, slot, data = _read_cell_group_binary(f)
-                cell_sets[f"{flag}:{name}:{slot}"] = np.array(data)
+                cell_sets[f"{flag}:{name}:{slot}"] = np.array(data, dtype=int)
     else:
         while True:
             line = f.readline()
@@ -190,13 +190,13 @@ def read_buffer(f, binary):
                 name, slot, data = _read_cell_group_ascii(f, line)
                 # Watch out! data refers to the global cell_ids, so we need to
                 # adapt this later.
-                z_cell_sets[f"zone:{name}:{slot}"] = np.asarray(data)
+                z_cell_sets[f"zone:{name}:{slot}"] = np.asarray(data, dtype=int)
 
             elif split[0] == "FGROUP":
                 name, slot, data = _read_cell_group_ascii(f, line)
                 # Watch out! data refers to the global cell_ids, so we need to
                 # adapt this later.
-                f_cell_sets[f"face:{name}:{slot}"] = np.asarray(data)
+                f_cell_sets[f"face:{name}:{slot}"] = np.asarray(data, dtype=int)
 
     cells = f_cells + z_cells
 
-- 
2.43.0


From 47ca6564c135483c329ff67d1bca3b35d8cdd9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:00 +0000
Subject: [PATCH 056/101] fix: flac3d: binary group names with non-ASCII
 characters were cut off

---
 src/meshio/flac3d/_flac3d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 658de25..9a8d48f 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -509,11 +509,12 @@ def _write_groups(f, cells, materials, flag, binary) -> None:
     if binary:
         f.write(struct.pack("<I", len(materials)))
         for label, group in materials.items():
-            num_chars, num_zones = len(label), len(group)
+            name = label.encode()
+            num_chars, num_zones = len(name), len(group)
             fmt = f"<H{num_chars}sH7sI{num_zones}I"
             tmp = [
                 num_chars,
-                label.encode(),
+                name,
                 7,
                 b"Default",  # slot
                 num_zones,
-- 
2.43.0


From 31b2d319f4a96d2e6aa3bb27b99fb6f2139dd62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:48 +0000
Subject: [PATCH 057/101] fix: tetgen: meshes with several cell blocks lost
 cells or got wrong cell data

---
 src/meshio/tetgen/_tetgen.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index c869496..9aaaf9b 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -156,13 +156,17 @@ def write(filename, mesh, float_fmt=".16e"):
         fh.write(f"# This file was created by meshio v{__version__}\n")
         if nattr > 0:
             fh.write("# attribute names: {}\n".format(", ".join(attr_keys)))
-        for id, c in enumerate(filter(lambda c: c.type == "tetra", mesh.cells)):
-            data = c.data
-            fh.write(f"{data.shape[0]} {4} {nattr}\n")
-            fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
-            for k, tet in enumerate(data):
+        num_tets = sum(len(c) for c in mesh.cells if c.type == "tetra")
+        fh.write(f"{num_tets} {4} {nattr}\n")
+        fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
+        idx = 0
+        for id, c in enumerate(mesh.cells):
+            if c.type != "tetra":
+                continue
+            for k, tet in enumerate(c.data):
                 data = list(tet[:4]) + [mesh.cell_data[key][id][k] for key in attr_keys]
-                fh.write(fmt.format(k, *data))
+                fh.write(fmt.format(idx, *data))
+                idx += 1
 
 
 register_format("tetgen", [".ele", ".node"], read, {"tetgen": write})
-- 
2.43.0


From a48d0203f54f57aefdfe2d34842dcc819c019491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:48 +0000
Subject: [PATCH 058/101] fix: dolfin: cell data of meshes with several cell
 blocks was lost

---
 src/meshio/dolfin/_dolfin.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index e43dbd5..2d57aaa 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -229,11 +229,14 @@ def write(filename, mesh):
     _write_mesh(filename, mesh.points, cell_type, mesh.cells)
 
     for name, lst in mesh.cell_data.items():
-        for data in lst:
-            fname = os.path.splitext(filename)[0]
-            cell_data_filename = f"{fname}_{name}.xml"
-            dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
-            _write_cell_data(cell_data_filename, dim, np.array(data))
+        # only the data of the cells which are written
+        data = np.concatenate(
+            [d for c, d in zip(mesh.cells, lst) if c.type == cell_type]
+        )
+        fname = os.path.splitext(filename)[0]
+        cell_data_filename = f"{fname}_{name}.xml"
+        dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
+        _write_cell_data(cell_data_filename, dim, data)
 
 
 register_format("dolfin-xml", [".xml"], read, {"dolfin-xml": write})
-- 
2.43.0


From 23cac04e2ee7d6d296de342130e2a06acc8db7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:48 +0000
Subject: [PATCH 059/101] fix: dolfin: special characters in file names were
 taken as patterns for cell data files

---
 src/meshio/dolfin/_dolfin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index 2d57aaa..9f07a89 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -94,7 +94,7 @@ def _read_cell_data(filename):
     for f in os.listdir(dir_name):
         # Check if there are files by the name "<filename>_*.xml"; if yes,
         # extract the * pattern and make it the name of the data set.
-        out = re.match(f"{basename}_([^\\.]+)\\.xml", f)
+        out = re.fullmatch(f"{re.escape(basename)}_([^\\.]+)\\.xml", f)
         if not out:
             continue
         name = out.group(1)
-- 
2.43.0


From a226bca3ece9d4afb5f631e381835ee9620bf8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:49 +0000
Subject: [PATCH 060/101] fix: netgen: files with a single point could not be
 read

---
 src/meshio/netgen/_netgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index cae1bd7..a9b933a 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -264,7 +264,7 @@ def read_buffer(f):
         elif line == "points":
             num_points = int(f.readline())
             if num_points > 0:
-                points = np.loadtxt(f, max_rows=num_points)
+                points = np.loadtxt(f, max_rows=num_points, ndmin=2)
                 if dimension != 3:
                     points = points[:, :dimension]
 
-- 
2.43.0


From ce19cbd4e1fa50f950e7ec74733d3f1713c646bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:49 +0000
Subject: [PATCH 061/101] fix: netgen: region names with blanks were dropped

---
 src/meshio/netgen/_netgen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index a9b933a..658bf4a 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -290,11 +290,11 @@ def read_buffer(f):
             edim = dimension - netgen_codims[line]
             num_entries = int(f.readline())
             for _ in range(num_entries):
-                line = f.readline().split()
+                line = f.readline().split(maxsplit=1)
                 if len(line) != 2:
                     continue
                 idx, name = line
-                field_data[name] = [int(idx), edim]
+                field_data[name.strip()] = [int(idx), edim]
 
         elif line == "identifications":
             num_entries = int(f.readline())
-- 
2.43.0


From 004b264495962a7e9ce3d39eb59016c74cd79946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:49 +0000
Subject: [PATCH 062/101] fix: ansys: points other than float64 were written as
 garbage in binary files

---
 src/meshio/ansys/_ansys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 364616a..4b83513 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -413,7 +413,7 @@ def write(filename, mesh, binary=True):
             f"({key} (1 {first_node_index:x} {num_points:x} 1 {dim:x})(\n".encode()
         )
         if binary:
-            mesh.points.tofile(fh)
+            mesh.points.astype(np.float64).tofile(fh)
             fh.write(b"\n)")
             fh.write(b"End of Binary Section 3010)\n")
         else:
-- 
2.43.0


From e5b41c99efe9dba077451ec2d19a91b6373de353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:49 +0000
Subject: [PATCH 063/101] fix: ansys: cells other than int32 and int64 could
 not be written to binary files

---
 src/meshio/ansys/_ansys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 4b83513..2a06b52 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -440,6 +440,8 @@ def write(filename, mesh, binary=True):
         for cell_block in mesh.cells:
             cell_type = cell_block.type
             values = cell_block.data
+            if binary and values.dtype not in binary_dtypes:
+                values = values.astype(np.int64)
             key = binary_dtypes[values.dtype] if binary else "12"
             last_index = first_index + len(values) - 1
             try:
-- 
2.43.0


From 5f838ba88b3a5acbd221de4cf81392e567a55a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:49 +0000
Subject: [PATCH 064/101] fix: ansys: a declaration of the number of points
 reset the first point index

---
 src/meshio/ansys/_ansys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 2a06b52..475843d 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -35,7 +35,7 @@ def _read_points(f, line, first_point_index_overall, last_point_index):
     # If the line is self-contained, it is merely a declaration
     # of the total number of points.
     if line.count("(") == line.count(")"):
-        return None, None, None
+        return None, first_point_index_overall, last_point_index
 
     # (3010 (zone-id first-index last-index type ND)
     out = re.match("\\s*\\(\\s*(|20|30)10\\s*\\(([^\\)]*)\\).*", line)
-- 
2.43.0


From ed1d9ec41d317ef2a22ca0b33892623504c072c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:49 +0000
Subject: [PATCH 065/101] fix: ansys: reading truncated files never ended

---
 src/meshio/ansys/_ansys.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 475843d..250e5fc 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -16,15 +16,22 @@ from .._helpers import register_format
 from .._mesh import Mesh
 
 
+def _read_char(f):
+    c = f.read(1).decode()
+    if not c:
+        raise ReadError("Unexpected end of file.")
+    return c
+
+
 def _skip_to(f, char):
     c = None
     while c != char:
-        c = f.read(1).decode()
+        c = _read_char(f)
 
 
 def _skip_close(f, num_open_brackets):
     while num_open_brackets > 0:
-        char = f.read(1).decode()
+        char = _read_char(f)
         if char == "(":
             num_open_brackets += 1
         elif char == ")":
@@ -61,7 +68,7 @@ def _read_points(f, line, first_point_index_overall, last_point_index):
     # be the current line already).
     last_char = line.strip()[-1]
     while last_char != "(":
-        last_char = f.read(1).decode()
+        last_char = _read_char(f)
 
     if out.group(1) == "":
         # ASCII data
@@ -130,7 +137,7 @@ def _read_cells(f, line):
     if line.strip()[-1] != "(":
         c = None
         while True:
-            c = f.read(1).decode()
+            c = _read_char(f)
             if c == "(":
                 break
             if not re.match("\\s", c):
-- 
2.43.0


From 8a078ba831a0630b8719ec457ac2d200405d902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:49 +0000
Subject: [PATCH 066/101] fix: ansys: ASCII cells could not be read if their
 section opens on a new line

---
 src/meshio/ansys/_ansys.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 250e5fc..d2fa302 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -23,6 +23,16 @@ def _read_char(f):
     return c
 
 
+def _read_data_line(f):
+    # skip ahead to the first line with data
+    line = ""
+    while line.strip() == "":
+        line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file.")
+    return line.split()
+
+
 def _skip_to(f, char):
     c = None
     while c != char:
@@ -74,11 +84,7 @@ def _read_points(f, line, first_point_index_overall, last_point_index):
         # ASCII data
         pts = np.empty((num_points, dim))
         for k in range(num_points):
-            # skip ahead to the first line with data
-            line = ""
-            while line.strip() == "":
-                line = f.readline().decode()
-            dat = line.split()
+            dat = _read_data_line(f)
             if len(dat) != dim:
                 raise ReadError()
             for d in range(dim):
@@ -163,8 +169,7 @@ def _read_cells(f, line):
             # ASCII cells
             data = np.empty((num_cells, num_nodes_per_cell), dtype=int)
             for k in range(num_cells):
-                line = f.readline().decode()
-                dat = line.split()
+                dat = _read_data_line(f)
                 if len(dat) != num_nodes_per_cell:
                     raise ReadError()
                 data[k] = [int(d, 16) for d in dat]
@@ -234,10 +239,7 @@ def _read_faces(f, line):
             # > type v0 v1 v2 c0 c1
             # >
             for k in range(num_cells):
-                line = ""
-                while line.strip() == "":
-                    line = f.readline().decode()
-                dat = line.split()
+                dat = _read_data_line(f)
                 type_index = int(dat[0], 16)
                 if type_index == 0:
                     raise ReadError()
@@ -260,8 +262,7 @@ def _read_faces(f, line):
             # read cell data
             data = np.empty((num_cells, num_nodes_per_cell), dtype=int)
             for k in range(num_cells):
-                line = f.readline().decode()
-                dat = line.split()
+                dat = _read_data_line(f)
                 # The body of a regular face section contains the grid connectivity, and
                 # each line appears as follows:
                 #   n0 n1 n2 cr cl
-- 
2.43.0


From 6819c063534c60284d8e159b4d6c0b0dbbccac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:38 +0000
Subject: [PATCH 067/101] fix: cell_sets_dict: count the cells of blocks
 without members

---
 src/meshio/_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index c21856d..96cc1ea 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -294,14 +294,14 @@ class Mesh:
             sets_dict[key] = {}
             offsets = {}
             for members, cells in zip(member_list, self.cells):
-                if members is None:
-                    continue
                 if cells.type in offsets:
                     offset = offsets[cells.type]
                     offsets[cells.type] += cells.data.shape[0]
                 else:
                     offset = 0
                     offsets[cells.type] = cells.data.shape[0]
+                if members is None:
+                    continue
                 if cells.type in sets_dict[key]:
                     sets_dict[key][cells.type].append(members + offset)
                 else:
-- 
2.43.0


From e9c280782fd7a2919590c04d25603e7913937445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:38 +0000
Subject: [PATCH 068/101] fix: point_data_to_sets: sets of different data got
 the same name

---
 src/meshio/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 96cc1ea..19954de 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -421,7 +421,7 @@ class Mesh:
         names = list(dict.fromkeys(names))
         if len(names) != len(tags):
             # alternative names
-            names = [f"set-key-{tag}" for tag in tags]
+            names = [f"set-{key}-{tag}" for tag in tags]
 
         # TODO there's probably a better way besides np.where, something from
         # np.unique or np.sort
-- 
2.43.0


From b3e2c1db0ebf5156e94f76d42ce50ec96e01b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:38 +0000
Subject: [PATCH 069/101] fix: {cell,point}_data_to_sets: entities that are in
 no set got the name of a set

---
 src/meshio/_mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 19954de..cfb4e93 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -391,7 +391,8 @@ class Mesh:
         # remove duplicates and preserve order
         # <https://stackoverflow.com/a/7961390/353337>:
         names = list(dict.fromkeys(names))
-        if len(names) != len(tags):
+        # (-1 is the default value, not a set)
+        if len(names) != len(tags) or -1 in tags:
             # alternative names
             names = [f"set-{key}-{tag}" for tag in tags]
 
@@ -419,7 +420,8 @@ class Mesh:
         # remove duplicates and preserve order
         # <https://stackoverflow.com/a/7961390/353337>:
         names = list(dict.fromkeys(names))
-        if len(names) != len(tags):
+        # (-1 is the default value, not a set)
+        if len(names) != len(tags) or -1 in tags:
             # alternative names
             names = [f"set-{key}-{tag}" for tag in tags]
 
-- 
2.43.0


From ecf1776702500256e72fb0d8e26d11aed74168f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:38 +0000
Subject: [PATCH 070/101] fix: meshio convert --int-data-to-sets crashed

---
 src/meshio/_cli/_convert.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/meshio/_cli/_convert.py b/src/meshio/_cli/_convert.py
index 1a2edd3..13b348f 100644
--- a/src/meshio/_cli/_convert.py
+++ b/src/meshio/_cli/_convert.py
@@ -60,10 +60,12 @@ def convert(args):
         mesh.cell_sets_to_data()
 
     if args.int_data_to_sets:
-        for key in mesh.point_data:
-            mesh.point_data_to_sets(key)
-        for key in mesh.cell_data:
-            mesh.cell_data_to_sets(key)
+        for key, data in list(mesh.point_data.items()):
+            if data.ndim == 1 and data.dtype.kind in ["i", "u"]:
+                mesh.point_data_to_sets(key)
+        for key, data in list(mesh.cell_data.items()):
+            if all(d.ndim == 1 and d.dtype.kind in ["i", "u"] for d in data):
+                mesh.cell_data_to_sets(key)
 
     # write it out
     kwargs = {"file_format": args.output_format}
-- 
2.43.0


From 8ad31fec7296d22d10494c3c08fd49a5b488f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:38 +0000
Subject: [PATCH 071/101] fix: meshio info: crash on cells that refer to the
 point after the last one

---
 src/meshio/_cli/_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_cli/_info.py b/src/meshio/_cli/_info.py
index dc269e7..546cbac 100644
--- a/src/meshio/_cli/_info.py
+++ b/src/meshio/_cli/_info.py
@@ -24,7 +24,7 @@ def info(args):
     # check if the cell arrays are consistent with the points
     is_consistent = True
     for cells in mesh.cells:
-        if np.any(cells.data > mesh.points.shape[0]):
+        if np.any(cells.data >= mesh.points.shape[0]):
             warn("Inconsistent mesh. Cells refer to nonexistent points.")
             is_consistent = False
             break
-- 
2.43.0


From 1f4df6cae7c4d7fdbdb20ac693971af91bf24ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:55 +0000
Subject: [PATCH 072/101] fix: vtk, vtu: garbled name of the point data that
 stands for point sets

---
 src/meshio/vtk/_vtk_51.py | 6 ++++--
 src/meshio/vtu/_vtu.py    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 2eb1db6..208f963 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -516,9 +516,11 @@ def write(filename, mesh, binary=True):
             "VTK format cannot write point_sets. Converting them to point_data...",
             highlight=False,
         )
-        key, _ = join_strings(list(mesh.point_sets.keys()))
+        key, join_char = join_strings(list(mesh.point_sets.keys()))
+        mesh.point_sets_to_data(join_char)
+        values = mesh.point_data.pop(key)
         key, _ = replace_space(key)
-        mesh.point_sets_to_data(key)
+        mesh.point_data[key] = values
 
     if mesh.cell_sets:
         info(
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 010cd5e..118ffc2 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -637,9 +637,11 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
             "VTU format cannot write point_sets. Converting them to point_data...",
             highlight=False,
         )
-        key, _ = join_strings(list(mesh.point_sets.keys()))
+        key, join_char = join_strings(list(mesh.point_sets.keys()))
+        mesh.point_sets_to_data(join_char)
+        values = mesh.point_data.pop(key)
         key, _ = replace_space(key)
-        mesh.point_sets_to_data(key)
+        mesh.point_data[key] = values
 
     if mesh.cell_sets:
         info(
-- 
2.43.0


From 0bc29f59b20565eb6fa563ac5fdb5a5fa2f2d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:09 +0000
Subject: [PATCH 073/101] fix: vtk, vtu: writing removed the sets of the input
 mesh

---
 src/meshio/_vtk_common.py | 13 +++++++++++++
 src/meshio/vtk/_vtk_51.py |  5 +++++
 src/meshio/vtu/_vtu.py    | 11 ++++++++++-
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_vtk_common.py b/src/meshio/_vtk_common.py
index 9799187..73fd7fe 100644
--- a/src/meshio/_vtk_common.py
+++ b/src/meshio/_vtk_common.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 
 from ._common import num_nodes_per_cell, warn
@@ -181,6 +183,17 @@ def vtk_cells_from_data(connectivity, offsets, types, cell_data_raw):
     return cells, cell_data
 
 
+def shallow_copy(mesh):
+    """Copy of a mesh whose blocks, data, and sets can be replaced without altering the
+    original."""
+    out = copy.copy(mesh)
+    out.cells = list(mesh.cells)
+    out.point_data = dict(mesh.point_data)
+    out.cell_data = {name: list(data) for name, data in mesh.cell_data.items()}
+    out.field_data = dict(mesh.field_data)
+    return out
+
+
 class Info:
     """Info Container for the VTK reader."""
 
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 208f963..757d819 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -11,6 +11,7 @@ from .._vtk_common import (
     Info,
     meshio_to_vtk_order,
     meshio_to_vtk_type,
+    shallow_copy,
     vtk_cells_from_data,
 )
 
@@ -511,6 +512,10 @@ def write(filename, mesh, binary=True):
     if not binary:
         warn("VTK ASCII files are only meant for debugging.")
 
+    if mesh.point_sets or mesh.cell_sets:
+        # the sets of the input mesh must remain
+        mesh = shallow_copy(mesh)
+
     if mesh.point_sets:
         info(
             "VTK format cannot write point_sets. Converting them to point_data...",
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 118ffc2..c78bcfb 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -16,7 +16,12 @@ from .._common import info, join_strings, raw_from_cell_data, replace_space, war
 from .._exceptions import CorruptionError, ReadError
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
-from .._vtk_common import meshio_to_vtk_order, meshio_to_vtk_type, vtk_cells_from_data
+from .._vtk_common import (
+    meshio_to_vtk_order,
+    meshio_to_vtk_type,
+    shallow_copy,
+    vtk_cells_from_data,
+)
 
 # Paraview 5.8.1's built-in Python doesn't have lzma.
 try:
@@ -632,6 +637,10 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
     else:
         points = mesh.points
 
+    if mesh.point_sets or mesh.cell_sets:
+        # the sets of the input mesh must remain
+        mesh = shallow_copy(mesh)
+
     if mesh.point_sets:
         info(
             "VTU format cannot write point_sets. Converting them to point_data...",
-- 
2.43.0


From 99ec63804e446bd8da6a0aa4b6f1e3b7b3be3a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:14 +0000
Subject: [PATCH 074/101] fix: vtk: the file format vtk51 wrote VTK 4.2 files

---
 src/meshio/vtk/_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_main.py b/src/meshio/vtk/_main.py
index 1e8e717..0dad2d2 100644
--- a/src/meshio/vtk/_main.py
+++ b/src/meshio/vtk/_main.py
@@ -40,7 +40,7 @@ register_format(
     read,
     {
         "vtk42": _vtk_42.write,
-        "vtk51": _vtk_42.write,
+        "vtk51": _vtk_51.write,
         "vtk": _vtk_51.write,
     },
 )
-- 
2.43.0


From 7bd561a75c6f49cb34af43567a80eb5f1440931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:14 +0000
Subject: [PATCH 075/101] fix: meshio ascii, binary, compress, decompress: Gmsh
 files became ANSYS files

---
 src/meshio/_cli/_ascii.py      | 12 +++---------
 src/meshio/_cli/_binary.py     | 12 +++---------
 src/meshio/_cli/_compress.py   | 12 +++---------
 src/meshio/_cli/_decompress.py | 12 +++---------
 src/meshio/_helpers.py         |  8 +++++++-
 5 files changed, 19 insertions(+), 37 deletions(-)

diff --git a/src/meshio/_cli/_ascii.py b/src/meshio/_cli/_ascii.py
index 45aff5a..8723250 100644
--- a/src/meshio/_cli/_ascii.py
+++ b/src/meshio/_cli/_ascii.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -20,16 +20,10 @@ def add_args(parser):
 
 
 def ascii(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # write the file in the format it was read as
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_binary.py b/src/meshio/_cli/_binary.py
index ccf0635..fd1d15a 100644
--- a/src/meshio/_cli/_binary.py
+++ b/src/meshio/_cli/_binary.py
@@ -2,7 +2,7 @@ import os
 import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -19,16 +19,10 @@ def add_args(parser):
 
 
 def binary(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # write the file in the format it was read as
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_compress.py b/src/meshio/_cli/_compress.py
index 9103a0b..b91afef 100644
--- a/src/meshio/_cli/_compress.py
+++ b/src/meshio/_cli/_compress.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import ansys, cgns, gmsh, h5m, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -26,16 +26,10 @@ def add_args(parser):
 
 
 def compress(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # write the file in the format it was read as
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_decompress.py b/src/meshio/_cli/_decompress.py
index 3c67dda..6c6ca62 100644
--- a/src/meshio/_cli/_decompress.py
+++ b/src/meshio/_cli/_decompress.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import cgns, h5m, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -19,16 +19,10 @@ def add_args(parser):
 
 
 def decompress(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # write the file in the format it was read as
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index 6cc7dac..f1e6138 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -86,6 +86,12 @@ def _read_buffer(filename, file_format: str | None):
 
 
 def _read_file(path: Path, file_format: str | None):
+    mesh, _ = _read_file_and_format(path, file_format)
+    return mesh
+
+
+def _read_file_and_format(path: Path, file_format: str | None):
+    """Reads a mesh file, and returns the mesh and the file format it was read as."""
     if not path.exists():
         raise ReadError(f"File {path} not found.")
 
@@ -100,7 +106,7 @@ def _read_file(path: Path, file_format: str | None):
             raise ReadError(f"Unknown file format '{file_format}' of '{path}'.")
 
         try:
-            return reader_map[file_format](str(path))
+            return reader_map[file_format](str(path)), file_format
         except ReadError as e:
             print(e)
 
-- 
2.43.0


From 4ecc4c35f5e84a2c8578be069121d1e11ac5c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:30 +0000
Subject: [PATCH 076/101] fix: cgns, h5m, hmf: writing without compression (and
 meshio decompress) crashed

---
 src/meshio/cgns/_cgns.py | 3 +++
 src/meshio/h5m/_h5m.py   | 3 +++
 src/meshio/hmf/_hmf.py   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index fde2ae7..7f23894 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -41,6 +41,9 @@ def read(filename):
 
 
 def write(filename, mesh, compression="gzip", compression_opts=4):
+    if compression is None:
+        compression_opts = None
+
     import h5py
 
     f = h5py.File(filename, "w")
diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 1ae4737..d9a407e 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -114,6 +114,9 @@ def read(filename):
 
 
 def write(filename, mesh, add_global_ids=True, compression="gzip", compression_opts=4):
+    if compression is None:
+        compression_opts = None
+
     import h5py
 
     f = h5py.File(filename, "w")
diff --git a/src/meshio/hmf/_hmf.py b/src/meshio/hmf/_hmf.py
index c46595a..75b549c 100644
--- a/src/meshio/hmf/_hmf.py
+++ b/src/meshio/hmf/_hmf.py
@@ -60,6 +60,9 @@ def write_points_cells(filename, points, cells, **kwargs):
 
 
 def write(filename, mesh, compression="gzip", compression_opts=4):
+    if compression is None:
+        compression_opts = None
+
     import h5py
 
     warn("Experimental file format. Format can change at any time.")
-- 
2.43.0


From 46eaab03e4503800bf8b3d705cefe5c51e5107b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:50 +0000
Subject: [PATCH 077/101] fix: ply, medit: meshes in another byte order (from
 binary VTK files) could not be written

---
 src/meshio/medit/_medit.py |  3 ++-
 src/meshio/ply/_ply.py     | 18 +++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index c9707a1..0829dd4 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -307,7 +307,8 @@ def write(filename, mesh, float_fmt=".16e"):
 
 def write_ascii_file(filename, mesh, float_fmt=".16e"):
     with open_file(filename, "wb") as fh:
-        version = {np.dtype(c_float): 1, np.dtype(c_double): 2}[mesh.points.dtype]
+        dtype = mesh.points.dtype.newbyteorder("=")
+        version = {np.dtype(c_float): 1, np.dtype(c_double): 2}[dtype]
         # N. B.: PEP 461 Adding % formatting to bytes and bytearray
         fh.write(f"MeshVersionFormatted {version}\n".encode())
 
diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 0ea40bb..90953d2 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -397,8 +397,15 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
     return byte_starts_ends[-1], blocks
 
 
+def _to_native(a):
+    return a.astype(a.dtype.newbyteorder("="), copy=False)
+
+
 def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
+    # use the byte order of the machine
+    points = _to_native(mesh.points)
+
     with open_file(filename, "wb") as fh:
         fh.write(b"ply\n")
 
@@ -432,8 +439,8 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             np.dtype(np.float32): "float",
             np.dtype(np.float64): "double",
         }
-        for k in range(mesh.points.shape[1]):
-            type_name = type_name_table[mesh.points.dtype]
+        for k in range(points.shape[1]):
+            type_name = type_name_table[points.dtype]
             fh.write(f"property {type_name} {dim_names[k]}\n".encode())
 
         pd = []
@@ -444,11 +451,12 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
                     f"Skipping {key}."
                 )
                 continue
+            value = _to_native(value)
             type_name = type_name_table[value.dtype]
             fh.write(f"property {type_name} {key}\n".encode())
             pd.append(value)
 
-        cells = list(mesh.cells)
+        cells = [CellBlock(c.type, _to_native(c.data)) for c in mesh.cells]
         num_cells = 0
         legal_cell_types = ["vertex", "line", "triangle", "quad", "polygon"]
         for cell_block in cells:
@@ -487,7 +495,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
         if binary:
             # points and point_data
-            out = np.rec.fromarrays([coord for coord in mesh.points.T] + pd)
+            out = np.rec.fromarrays([coord for coord in points.T] + pd)
             fh.write(out.tobytes())
 
             # cells
@@ -508,7 +516,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             # vertices
             # np.savetxt(fh, mesh.points, "%r")  # slower
             # out = np.column_stack([mesh.points] + list(mesh.point_data.values()))
-            out = np.rec.fromarrays([coord for coord in mesh.points.T] + pd)
+            out = np.rec.fromarrays([coord for coord in points.T] + pd)
             fmt = " ".join(["{}"] * len(out[0]))
             out = "\n".join([fmt.format(*row) for row in out]) + "\n"
             fh.write(out.encode())
-- 
2.43.0


From c5e118e6aa4f1b247e1afb031bd9a3ee82101687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:08 +0000
Subject: [PATCH 078/101] fix: gmsh: files where only some of the cells belong
 to a physical group could not be read

---
 src/meshio/gmsh/_gmsh40.py | 6 ++++--
 src/meshio/gmsh/_gmsh41.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 9304cf3..00f025a 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -191,13 +191,15 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
 
     cells = []
     cell_data = {}
+    # entities without physical tag have tag 0 if others have one
+    has_physical = any(d[0] for d in data)
     for physical_tag, geom_tag, key, values in data:
         cells.append(CellBlock(key, _gmsh_to_meshio_order(key, values)))
-        if physical_tag:
+        if has_physical:
             if "gmsh:physical" not in cell_data:
                 cell_data["gmsh:physical"] = []
             cell_data["gmsh:physical"].append(
-                np.full(len(values), physical_tag[0], int)
+                np.full(len(values), physical_tag[0] if physical_tag else 0, int)
             )
         if "gmsh:geometrical" not in cell_data:
             cell_data["gmsh:geometrical"] = []
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 2a17b71..92d1efa 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -254,13 +254,15 @@ def _read_elements(
     ]
 
     cells = []
+    # entities without physical tag have tag 0 if others have one
+    has_physical = any(d[0] for d in data)
     for physical_tag, bound_entity, geom_tag, key, values in data:
         cells.append(CellBlock(key, _gmsh_to_meshio_order(key, values)))
-        if physical_tag:
+        if has_physical:
             if "gmsh:physical" not in cell_data:
                 cell_data["gmsh:physical"] = []
             cell_data["gmsh:physical"].append(
-                np.full(len(values), physical_tag[0], int)
+                np.full(len(values), physical_tag[0] if physical_tag else 0, int)
             )
         if "gmsh:geometrical" not in cell_data:
             cell_data["gmsh:geometrical"] = []
-- 
2.43.0


From 9bb578c3e7b535bdfad9965894e8b226e38582f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 079/101] fix: gmsh 4.1: meshes with entities, but no physical
 groups, could not be written

---
 src/meshio/gmsh/_gmsh41.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 92d1efa..ce3f672 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -474,7 +474,7 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
 
         # If there is a corresponding cell block, write physical tags (if any)
         # and bounding entities (if any)
-        if matching_cell_block.size > 0:
+        if matching_cell_block.size > 0 and "gmsh:physical" in tag_data:
             # entity has a physical tag, write this
             # ASSUMPTION: There is a single physical tag for this
             physical_tag = tag_data["gmsh:physical"][matching_cell_block[0]][0]
-- 
2.43.0


From dde2e49f8e12f54c761e4e24bc94058e0adf043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:32 +0000
Subject: [PATCH 080/101] fix: gmsh: periodic nodes were not looked up by their
 tags

---
 src/meshio/gmsh/_gmsh22.py | 7 ++++---
 src/meshio/gmsh/_gmsh40.py | 7 ++++---
 src/meshio/gmsh/_gmsh41.py | 7 ++++---
 src/meshio/gmsh/common.py  | 8 ++++++++
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 1a9d4b4..eea271e 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -17,6 +17,7 @@ from .common import (
     _gmsh_to_meshio_type,
     _meshio_to_gmsh_order,
     _meshio_to_gmsh_type,
+    _node_index,
     _read_data,
     _read_physical_names,
     _write_data,
@@ -61,7 +62,7 @@ def read_buffer(f, is_ascii, data_size):
                 f, cells, point_tags, is_ascii
             )
         elif environ == "Periodic":
-            periodic = _read_periodic(f)
+            periodic = _read_periodic(f, point_tags)
         elif environ == "NodeData":
             _read_data(f, "NodeData", point_data, data_size, is_ascii)
         elif environ == "ElementData":
@@ -236,7 +237,7 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
         cell_tags[key] = np.vstack(cell_tags[key])
 
 
-def _read_periodic(f):
+def _read_periodic(f, point_tags):
     periodic = []
     num_periodic = int(f.readline().decode())
     for _ in range(num_periodic):
@@ -256,7 +257,7 @@ def _read_periodic(f):
             snode, mnode = (int(s) for s in line.split())
             slave_master.append([snode, mnode])
         slave_master = np.array(slave_master, dtype=c_int).reshape(-1, 2)
-        slave_master -= 1  # Subtract one, Python is 0-based
+        slave_master = _node_index(slave_master, point_tags)
         periodic.append([edim, (stag, mtag), affine, slave_master])
     _fast_forward_to_end_block(f, "Periodic")
     return periodic
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 00f025a..a453061 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -18,6 +18,7 @@ from .common import (
     _gmsh_to_meshio_type,
     _meshio_to_gmsh_order,
     _meshio_to_gmsh_type,
+    _node_index,
     _read_data,
     _read_physical_names,
     _write_data,
@@ -57,7 +58,7 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
         elif environ == "Elements":
             cells, cell_tags = _read_elements(f, point_tags, physical_tags, is_ascii)
         elif environ == "Periodic":
-            periodic = _read_periodic(f, is_ascii)
+            periodic = _read_periodic(f, point_tags, is_ascii)
         elif environ == "NodeData":
             _read_data(f, "NodeData", point_data, data_size, is_ascii)
         elif environ == "ElementData":
@@ -208,7 +209,7 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
     return cells, cell_data
 
 
-def _read_periodic(f, is_ascii):
+def _read_periodic(f, point_tags, is_ascii):
     fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
     periodic = []
     num_periodic = int(fromfile(f, c_int, 1)[0])
@@ -231,7 +232,7 @@ def _read_periodic(f, is_ascii):
             else:
                 affine = None
         slave_master = fromfile(f, c_int, num_nodes * 2).reshape(-1, 2)
-        slave_master = slave_master - 1  # Subtract one, Python is 0-based
+        slave_master = _node_index(slave_master, point_tags)
         periodic.append([edim, (stag, mtag), affine, slave_master])
 
     _fast_forward_to_end_block(f, "Periodic")
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index ce3f672..23b0bce 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -17,6 +17,7 @@ from .common import (
     _gmsh_to_meshio_type,
     _meshio_to_gmsh_order,
     _meshio_to_gmsh_type,
+    _node_index,
     _read_data,
     _read_physical_names,
     _write_data,
@@ -77,7 +78,7 @@ def read_buffer(f, is_ascii: bool, data_size):
                 field_data,
             )
         elif environ == "Periodic":
-            periodic = _read_periodic(f, is_ascii, data_size)
+            periodic = _read_periodic(f, point_tags, is_ascii, data_size)
         elif environ == "NodeData":
             name, tags = _read_data(f, "NodeData", point_data, data_size, is_ascii)
             # The data refers to the nodes by tag; the points are stored in the order
@@ -277,7 +278,7 @@ def _read_elements(
     return cells, cell_data, cell_sets
 
 
-def _read_periodic(f, is_ascii, data_size):
+def _read_periodic(f, point_tags, is_ascii, data_size):
     fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
     c_size_t = _size_type(data_size)
     periodic = []
@@ -293,7 +294,7 @@ def _read_periodic(f, is_ascii, data_size):
         num_nodes = int(fromfile(f, c_size_t, 1)[0])
         # nodeTag(size_t) nodeTagMaster(size_t) ...
         slave_master = fromfile(f, c_size_t, num_nodes * 2).reshape(-1, 2)
-        slave_master = slave_master - 1  # Subtract one, Python is 0-based
+        slave_master = _node_index(slave_master, point_tags + 1)
         periodic.append([edim, (stag, mtag), affine, slave_master])
 
     _fast_forward_to_end_block(f, "Periodic")
diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index d608a8b..983a79b 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -50,6 +50,14 @@ def _read_physical_names(f, field_data):
     _fast_forward_to_end_block(f, "PhysicalNames")
 
 
+def _node_index(tags, point_tags):
+    """The indices of the points with the given tags."""
+    point_tags = np.asarray(point_tags, dtype=int)
+    index = np.full(np.max(point_tags) + 1, -1, dtype=int)
+    index[point_tags] = np.arange(len(point_tags))
+    return index[tags]
+
+
 def _read_data(f, tag, data_dict, data_size, is_ascii):
     # Read string tags
     num_string_tags = int(f.readline().decode())
-- 
2.43.0


From 3e8e5d31450554ffd15fa441a796a69d2b029499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:38 +0000
Subject: [PATCH 081/101] fix: gmsh 2.2, 4.0: node data was not assigned by the
 tags of the nodes

---
 src/meshio/gmsh/_gmsh22.py | 7 ++++++-
 src/meshio/gmsh/_gmsh40.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index eea271e..e6c7427 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -64,7 +64,12 @@ def read_buffer(f, is_ascii, data_size):
         elif environ == "Periodic":
             periodic = _read_periodic(f, point_tags)
         elif environ == "NodeData":
-            _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            name, tags = _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            # The data refers to the nodes by tag; the points are stored in the order
+            # in which they appear in the file.
+            perm, rank = np.argsort(tags), np.argsort(np.argsort(point_tags))
+            if np.array_equal(tags[perm], np.sort(point_tags)):
+                point_data[name] = point_data[name][perm][rank]
         elif environ == "ElementData":
             _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
         else:
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index a453061..d14a4aa 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -60,7 +60,12 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
         elif environ == "Periodic":
             periodic = _read_periodic(f, point_tags, is_ascii)
         elif environ == "NodeData":
-            _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            name, tags = _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            # The data refers to the nodes by tag; the points are stored in the order
+            # in which they appear in the file.
+            perm, rank = np.argsort(tags), np.argsort(np.argsort(point_tags))
+            if np.array_equal(tags[perm], np.sort(point_tags)):
+                point_data[name] = point_data[name][perm][rank]
         elif environ == "ElementData":
             _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
         else:
-- 
2.43.0


From fa34d0da49bfd17e3d4a85c66542cf623f4313c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:04 +0000
Subject: [PATCH 082/101] fix: medit, su2, ugrid, avsucd: vector-valued integer
 data (of Gmsh files) was taken for labels

---
 src/meshio/_common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index a439061..3f48a01 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -115,7 +115,10 @@ def _pick_first_int_data(data):
     candidate_keys = []
     for key in keys:
         # works for point_data and cell_data
-        if data[key][0].dtype.kind in ["i", "u"]:  # int or uint
+        is_int = data[key][0].dtype.kind in ["i", "u"]  # int or uint
+        values = data[key] if isinstance(data[key], np.ndarray) else data[key][0]
+        # one number per point or cell
+        if is_int and values.ndim == 1:
             candidate_keys.append(key)
 
     if len(candidate_keys) > 0:
-- 
2.43.0


From e03afda223b4801ddca31c4b33057e2d5ca590f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:04 +0000
Subject: [PATCH 083/101] fix: dolfin: vector-valued cell data gave unreadable
 files

---
 src/meshio/dolfin/_dolfin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index 9f07a89..2bfce66 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -233,6 +233,9 @@ def write(filename, mesh):
         data = np.concatenate(
             [d for c, d in zip(mesh.cells, lst) if c.type == cell_type]
         )
+        if data.ndim != 1:
+            warn(f"DOLFIN XML can only write scalar cell data. Skipping {name}.")
+            continue
         fname = os.path.splitext(filename)[0]
         cell_data_filename = f"{fname}_{name}.xml"
         dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
-- 
2.43.0


From b289953b69a90d7a6620a930a998df58e39bcdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:04 +0000
Subject: [PATCH 084/101] fix: tetgen: vector-valued data could not be written,
 float cell data not be read

---
 src/meshio/tetgen/_tetgen.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index 9aaaf9b..26c4d28 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -72,16 +72,21 @@ def read(filename):
         )
         if num_points_per_tet != 4:
             raise ReadError()
-        cells = np.fromfile(
-            f, dtype=int, count=(5 + num_attrs) * num_tets, sep=" "
-        ).reshape(num_tets, 5 + num_attrs)
+        cells = np.array(f.read().split()[: (5 + num_attrs) * num_tets]).reshape(
+            num_tets, 5 + num_attrs
+        )
         # read cell (region) attributes, the first is "ref", the others are "ref2",
         # "ref3", ...
         for k in range(num_attrs):
             flag = "" if k == 0 else str(k + 1)
-            cell_data["tetgen:ref" + flag] = [cells[:, 5 + k]]
+            # the attributes may be floating-point numbers
+            try:
+                attr = cells[:, 5 + k].astype(int)
+            except ValueError:
+                attr = cells[:, 5 + k].astype(float)
+            cell_data["tetgen:ref" + flag] = [attr]
         # remove the leading index column and the attributes
-        cells = cells[:, 1:5]
+        cells = cells[:, 1:5].astype(int)
         cells -= node_index_base
 
     return Mesh(
@@ -103,10 +108,19 @@ def write(filename, mesh, float_fmt=".16e"):
     if mesh.points.shape[1] != 3:
         raise WriteError("Can only write 3D points")
 
+    point_keys = [k for k, v in mesh.point_data.items() if v.ndim == 1]
+    cell_keys = [k for k, v in mesh.cell_data.items() if all(d.ndim == 1 for d in v)]
+    skipped = (set(mesh.point_data) - set(point_keys)) | (
+        set(mesh.cell_data) - set(cell_keys)
+    )
+    if skipped:
+        string = ", ".join(sorted(skipped))
+        warn(f"TetGen can only write scalar point/cell data. Skipping {string}.")
+
     # write nodes
     with open(node_filename, "w") as fh:
         # identify ":ref" key
-        attr_keys = list(mesh.point_data.keys())
+        attr_keys = point_keys
         ref_keys = [k for k in attr_keys if ":ref" in k]
         if len(attr_keys) > 0:
             if len(ref_keys) > 0:
@@ -145,7 +159,7 @@ def write(filename, mesh, float_fmt=".16e"):
 
     # write cells
     with open(ele_filename, "w") as fh:
-        attr_keys = list(mesh.cell_data.keys())
+        attr_keys = cell_keys
         ref_keys = [k for k in attr_keys if ":ref" in k]
         if len(attr_keys) > 0:
             if len(ref_keys) > 0:
-- 
2.43.0


From 9026c3e540de2ac9d21ea6c71e30aef15eab937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 085/101] fix: vtk 4.2: data of files with polygons was
 dropped, Lagrange cells and pixels not read

---
 src/meshio/vtk/_vtk_42.py | 59 +++++++++++++--------------------------
 1 file changed, 19 insertions(+), 40 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index f3cb469..e8a1e1c 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -15,6 +15,7 @@ from .._vtk_common import (
     Info,
     meshio_to_vtk_order,
     meshio_to_vtk_type,
+    vtk_cells_from_data,
     vtk_to_meshio_order,
     vtk_to_meshio_type,
 )
@@ -29,7 +30,7 @@ vtk_type_to_numnodes = np.array(
         3,  # triangle
         -1,  # triangle_strip
         -1,  # polygon
-        -1,  # pixel
+        4,  # pixel
         4,  # quad
         4,  # tetra
         -1,  # voxel
@@ -510,13 +511,22 @@ def translate_cells(connectivity, types, cell_data_raw):
     # `data` is a one-dimensional vector with
     # (num_points0, p0, p1, ... ,pk, numpoints1, p10, p11, ..., p1k, ...
     # or a tuple with (offsets, connectivity)
-    has_polygon = np.any(types == meshio_to_vtk_type["polygon"])
+    illegal_types = {int(t) for t in types} - (set(vtk_to_meshio_type) - {0})
+    if illegal_types:
+        illegal_types = ", ".join(str(item) for item in sorted(illegal_types))
+        raise ReadError(
+            f"File contains cells that meshio cannot handle (types {illegal_types})"
+        )
+
+    is_fixed = types < len(vtk_type_to_numnodes)
+    is_fixed[is_fixed] = vtk_type_to_numnodes[types[is_fixed]] > 0
 
     cells = []
     cell_data = {}
-    if has_polygon:
+    if not np.all(is_fixed):
         numnodes = np.empty(len(types), dtype=int)
-        # If some polygons are in the VTK file, loop over the cells
+        # If there are cells with a custom number of points (polygons, Lagrange cells),
+        # loop over the cells
         numcells = len(types)
         offsets = np.empty(len(types), dtype=int)
         offsets[0] = 0
@@ -529,47 +539,16 @@ def translate_cells(connectivity, types, cell_data_raw):
         if not np.all(numnodes == connectivity[offsets]):
             raise ReadError()
 
-        # TODO: cell_data
-        for idx, vtk_cell_type in enumerate(types):
-            start = offsets[idx] + 1
-
-            new_order = vtk_to_meshio_order(vtk_cell_type, offsets.dtype)
-            if new_order is None:
-                new_order = np.arange(numnodes[idx], dtype=offsets.dtype)
-
-            cell_idx = start + new_order
-
-            cell = connectivity[cell_idx]
-
-            cell_type = vtk_to_meshio_type[vtk_cell_type]
-
-            if (
-                len(cells) > 0
-                and cells[-1][0] == cell_type
-                # the following check if needed for polygons; key can be equal, but
-                # still needs to go into a new block
-                and len(cell) == len(cells[-1][1][-1])
-            ):
-                cells[-1][1].append(cell)
-            else:
-                # open up a new cell block
-                cells.append((cell_type, [cell]))
+        # remove the numbers of points
+        connectivity = np.delete(connectivity, offsets)
+        return vtk_cells_from_data(
+            connectivity, np.cumsum(numnodes), types, cell_data_raw
+        )
     else:
         # Infer offsets from the cell types. This is much faster than manually going
         # through the data array. Slight disadvantage: This doesn't work for cells with
         # a custom number of points.
-        if np.any(types >= len(vtk_type_to_numnodes)):
-            illegal_types = ", ".join(
-                str(item) for item in set(types[types >= len(vtk_type_to_numnodes)])
-            )
-            raise ReadError(
-                f"File contains cells that meshio cannot handle (types {illegal_types})"
-            )
-
         numnodes = vtk_type_to_numnodes[types]
-        if not np.all(numnodes > 0):
-            raise ReadError("File contains cells that meshio cannot handle.")
-
         offsets = np.cumsum(numnodes + 1) - (numnodes + 1)
 
         if not np.all(numnodes == connectivity[offsets]):
-- 
2.43.0


From 062fdf40be18bf3212da86cd5bafc29d821a268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 086/101] fix: vtk, vtu: Bezier cells could not be read

---
 src/meshio/_mesh.py       | 14 ++++++++++++++
 src/meshio/_vtk_common.py |  7 +++++++
 2 files changed, 21 insertions(+)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index cfb4e93..9c0ebe9 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -79,6 +79,13 @@ topological_dimension = {
     "VTK_LAGRANGE_HEXAHEDRON": 3,
     "VTK_LAGRANGE_WEDGE": 3,
     "VTK_LAGRANGE_PYRAMID": 3,
+    "VTK_BEZIER_CURVE": 1,
+    "VTK_BEZIER_TRIANGLE": 2,
+    "VTK_BEZIER_QUADRILATERAL": 2,
+    "VTK_BEZIER_TETRAHEDRON": 3,
+    "VTK_BEZIER_HEXAHEDRON": 3,
+    "VTK_BEZIER_WEDGE": 3,
+    "VTK_BEZIER_PYRAMID": 3,
     "pyramid13": 3,
     "wedge15": 3,
     "hexahedron24": 3,
@@ -209,6 +216,13 @@ class Mesh:
             "VTK_LAGRANGE_HEXAHEDRON",
             "VTK_LAGRANGE_WEDGE",
             "VTK_LAGRANGE_PYRAMID",
+            "VTK_BEZIER_CURVE",
+            "VTK_BEZIER_TRIANGLE",
+            "VTK_BEZIER_QUADRILATERAL",
+            "VTK_BEZIER_TETRAHEDRON",
+            "VTK_BEZIER_HEXAHEDRON",
+            "VTK_BEZIER_WEDGE",
+            "VTK_BEZIER_PYRAMID",
         ]
         if len(self.cells) > 0:
             lines.append("  Number of cells:")
diff --git a/src/meshio/_vtk_common.py b/src/meshio/_vtk_common.py
index 73fd7fe..97faac3 100644
--- a/src/meshio/_vtk_common.py
+++ b/src/meshio/_vtk_common.py
@@ -128,6 +128,13 @@ def vtk_cells_from_data(connectivity, offsets, types, cell_data_raw):
             "VTK_LAGRANGE_HEXAHEDRON",
             "VTK_LAGRANGE_WEDGE",
             "VTK_LAGRANGE_PYRAMID",
+            "VTK_BEZIER_CURVE",
+            "VTK_BEZIER_TRIANGLE",
+            "VTK_BEZIER_QUADRILATERAL",
+            "VTK_BEZIER_TETRAHEDRON",
+            "VTK_BEZIER_HEXAHEDRON",
+            "VTK_BEZIER_WEDGE",
+            "VTK_BEZIER_PYRAMID",
         ]
         if meshio_type in special_cells:
             # Polygons have unknown and varying number of nodes per cell.
-- 
2.43.0


From e948d196f1d1edc6224a304adaf28f146d200fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 087/101] fix: vtk 5.1: structured grids could not be read

---
 src/meshio/vtk/_vtk_51.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 757d819..6d3908b 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -250,7 +250,9 @@ def _check_mesh(info):
             for i in range(3)
         ]
         info.points = _generate_points(axis)
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
     elif info.dataset["type"] == "RECTILINEAR_GRID":
         axis = [
             info.dataset["X_COORDINATES"],
@@ -258,9 +260,13 @@ def _check_mesh(info):
             info.dataset["Z_COORDINATES"],
         ]
         info.points = _generate_points(axis)
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
     elif info.dataset["type"] == "STRUCTURED_GRID":
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
 
 
 def _generate_cells(dim):
@@ -305,7 +311,10 @@ def _generate_cells(dim):
         cells[:, 8] = cells[:, 7] - 1
         cell_types = np.full(ele_no, 12, dtype=int)
 
-    return cells.reshape(-1), cell_types
+    # remove the column with the number of points; that's in the offsets
+    cells = cells[:, 1:]
+    offsets = cells.shape[1] * np.arange(1, ele_no + 1)
+    return cells.reshape(-1), offsets, cell_types
 
 
 def _generate_points(axis):
-- 
2.43.0


From bf54d5cc9a45f78880ed460bd0bce1b0f66d8f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 088/101] fix: vtk: coordinates of rectilinear grids were cast
 to the type of the x-axis

---
 src/meshio/vtk/_vtk_42.py | 2 +-
 src/meshio/vtk/_vtk_51.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index e8a1e1c..ceb7a4e 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -342,7 +342,7 @@ def _generate_points(axis):
     z_dim = len(axis[2])
     pnt_no = x_dim * y_dim * z_dim
     x_id, y_id, z_id = np.mgrid[0:x_dim, 0:y_dim, 0:z_dim]
-    points = np.empty((pnt_no, 3), dtype=axis[0].dtype)
+    points = np.empty((pnt_no, 3), dtype=np.result_type(*axis))
     # VTK sorts points and cells in Fortran order
     points[:, 0] = axis[0][x_id.reshape(-1, order="F")]
     points[:, 1] = axis[1][y_id.reshape(-1, order="F")]
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 6d3908b..d636f66 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -323,7 +323,7 @@ def _generate_points(axis):
     z_dim = len(axis[2])
     pnt_no = x_dim * y_dim * z_dim
     x_id, y_id, z_id = np.mgrid[0:x_dim, 0:y_dim, 0:z_dim]
-    points = np.empty((pnt_no, 3), dtype=axis[0].dtype)
+    points = np.empty((pnt_no, 3), dtype=np.result_type(*axis))
     # VTK sorts points and cells in Fortran order
     points[:, 0] = axis[0][x_id.reshape(-1, order="F")]
     points[:, 1] = axis[1][y_id.reshape(-1, order="F")]
-- 
2.43.0


From b61cb2e80a61cfc822c9e9e089b9c9cf6300b336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 089/101] fix: vtk: arrays of type int (5.1) or vtkIdType, and
 others of VTK's own types were not read

---
 src/meshio/vtk/_vtk_42.py | 1 +
 src/meshio/vtk/_vtk_51.py | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index ceb7a4e..73b09c2 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -70,6 +70,7 @@ vtk_to_numpy_dtype_name = {
     "unsigned_short": "uint16",
     "short": "int16",
     "unsigned_int": "uint32",
+    "vtkidtype": "int32",  # written as int
     "int": "int32",
     "unsigned_long": "uint64",
     "long": "int64",
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index d636f66..7bb5f40 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -19,7 +19,14 @@ from .._vtk_common import (
 vtk_to_numpy_dtype_name = {
     "float": "float32",
     "double": "float64",
-    "int": "int",
+    "unsigned_char": "uint8",
+    "char": "int8",
+    "unsigned_short": "uint16",
+    "short": "int16",
+    "unsigned_int": "uint32",
+    "int": "int32",
+    "vtkidtype": "int32",  # written as int
+    # meshio writes these types
     "vtktypeint8": "int8",
     "vtktypeint16": "int16",
     "vtktypeint32": "int32",
-- 
2.43.0


From a63c5eaef56688d833c38ce16b809d766f26ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 090/101] fix: vtk: data after lookup tables or color scalars
 was misread

---
 src/meshio/vtk/_vtk_42.py | 16 ++++++++++------
 src/meshio/vtk/_vtk_51.py | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index 73b09c2..124d78e 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -208,18 +208,22 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        np.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
-        # rgba = data.reshape((info.num_items, 4))
+        # keep num_items of the active POINT/CELL_DATA
+        num_colors = int(info.split[2])
+        if info.is_ascii:
+            np.fromfile(f, count=num_colors * 4, sep=" ", dtype=float)
+        else:
+            np.fromfile(f, count=num_colors * 4, dtype=np.ubyte)
+        # rgba = data.reshape((num_colors, 4))
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
         num_items = info.num_items
-        dtype = np.ubyte
         if info.is_ascii:
-            dtype = float
-        np.fromfile(f, count=num_items * nValues, dtype=dtype)
+            np.fromfile(f, count=num_items * nValues, sep=" ", dtype=float)
+        else:
+            np.fromfile(f, count=num_items * nValues, dtype=np.ubyte)
 
 
 def _read_subsection(f, info):
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 7bb5f40..0e4b4b7 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -187,18 +187,22 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        np.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
-        # rgba = data.reshape((info.num_items, 4))
+        # keep num_items of the active POINT/CELL_DATA
+        num_colors = int(info.split[2])
+        if info.is_ascii:
+            np.fromfile(f, count=num_colors * 4, sep=" ", dtype=float)
+        else:
+            np.fromfile(f, count=num_colors * 4, dtype=np.ubyte)
+        # rgba = data.reshape((num_colors, 4))
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
         num_items = info.num_items
-        dtype = np.ubyte
         if info.is_ascii:
-            dtype = float
-        np.fromfile(f, count=num_items * nValues, dtype=dtype)
+            np.fromfile(f, count=num_items * nValues, sep=" ", dtype=float)
+        else:
+            np.fromfile(f, count=num_items * nValues, dtype=np.ubyte)
 
 
 def _read_subsection(f, info):
-- 
2.43.0


From 759b5184c434e4287ec5151e7b9aa9b039538bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:22 +0000
Subject: [PATCH 091/101] fix: svg: meshes with integer coordinates could not
 be written

---
 src/meshio/svg/_svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/svg/_svg.py b/src/meshio/svg/_svg.py
index c361692..7430854 100644
--- a/src/meshio/svg/_svg.py
+++ b/src/meshio/svg/_svg.py
@@ -45,7 +45,7 @@ def write(
         min_y *= scaling_factor
         width *= scaling_factor
         height *= scaling_factor
-        pts *= scaling_factor
+        pts = pts * scaling_factor
 
     if stroke_width is None:
         stroke_width = str(width / 100)
-- 
2.43.0


From b5d54768db44b1e4d733f656937f456006aaf462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:08 +0000
Subject: [PATCH 092/101] fix: vtu: don't store the offsets in a type of the
 connectivity that is too small for them

---
 src/meshio/vtu/_vtu.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index c78bcfb..dc17859 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -868,8 +868,7 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
 
             # offset (points to the first element of the next cell)
             offsets = [
-                v.data.shape[1]
-                * np.arange(1, v.data.shape[0] + 1, dtype=connectivity.dtype)
+                v.data.shape[1] * np.arange(1, v.data.shape[0] + 1, dtype=np.int64)
                 for v in mesh.cells
             ]
             for k in range(1, len(offsets)):
-- 
2.43.0


From 020a81138bcaf599c66faa79bcd256c75f8fd304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:03 +0000
Subject: [PATCH 093/101] fix: gmsh 4.0: number the elements from 1 as the
 element data does

---
 src/meshio/gmsh/_gmsh40.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index d14a4aa..3e63d51 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -320,7 +320,8 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
         total_num_cells = sum(len(cell_block) for cell_block in cell_blocks)
         np.array([len(cell_blocks), total_num_cells], dtype=c_ulong).tofile(fh)
 
-        consecutive_index = 0
+        # element tags start at 1, like the tags in the ElementData sections
+        consecutive_index = 1
         for cell_block in cell_blocks:
             node_idcs = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
 
@@ -355,7 +356,8 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
         total_num_cells = sum(len(cell_block) for cell_block in cell_blocks)
         fh.write(f"{len(cell_blocks)} {total_num_cells}\n".encode())
 
-        consecutive_index = 0
+        # element tags start at 1, like the tags in the ElementData sections
+        consecutive_index = 1
         for cell_block in cell_blocks:
             cell_type = cell_block.type
             cell_data = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
-- 
2.43.0


From ff4311e1e2a3daff07514528198f2b36ac1925c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:22 +0000
Subject: [PATCH 094/101] fix: xdmf: data items that refer to another data item
 could not be read

---
 src/meshio/xdmf/main.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index b840766..bf2c08b 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -179,7 +179,7 @@ class XdmfReader:
                         )
                     )
                 else:
-                    data = self._read_data_item(data_items[0])
+                    data = self._read_data_item(data_items[0], root)
                     cells.append(CellBlock(xdmf_to_meshio_type[topology_type], data))
 
             elif c.tag == "Geometry":
@@ -190,7 +190,7 @@ class XdmfReader:
                 data_items = list(c)
                 if len(data_items) != 1:
                     raise ReadError()
-                points = self._read_data_item(data_items[0])
+                points = self._read_data_item(data_items[0], root)
 
             elif c.tag == "Information":
                 c_data = c.text
@@ -206,7 +206,7 @@ class XdmfReader:
                 if len(data_items) != 1:
                     raise ReadError()
 
-                data = self._read_data_item(data_items[0])
+                data = self._read_data_item(data_items[0], root)
 
                 name = c.attrib["Name"]
                 if c.attrib["Center"] == "Node":
@@ -258,7 +258,7 @@ class XdmfReader:
                     raise ReadError()
                 data_item = data_items[0]
 
-                data = self._read_data_item(data_item)
+                data = self._read_data_item(data_item, root)
 
                 # The XDMF2 key is `TopologyType`, just `Type` for XDMF3. Allow either
                 # one.
@@ -289,7 +289,7 @@ class XdmfReader:
                 if len(data_items) != 1:
                     raise ReadError()
                 data_item = data_items[0]
-                points = self._read_data_item(data_item)
+                points = self._read_data_item(data_item, root)
 
             elif c.tag == "Information":
                 c_data = c.text
@@ -307,7 +307,7 @@ class XdmfReader:
                     raise ReadError()
                 data_item = data_items[0]
 
-                data = self._read_data_item(data_item)
+                data = self._read_data_item(data_item, root)
 
                 if c.attrib["Center"] not in ["Node", "Cell"]:
                     raise ReadError(f"Unknown center '{c.attrib['Center']}'.")
-- 
2.43.0


From 070299e662bb8e406d6dcced4a80bf06ae704f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:36 +0000
Subject: [PATCH 095/101] fix: abaqus: data after a comment line within a
 section was ignored

---
 src/meshio/abaqus/_abaqus.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 4a6fb35..39f7347 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -247,6 +247,8 @@ def _read_nodes(f):
     counter = 0
     while True:
         line = f.readline()
+        if line.startswith("**"):
+            continue
         if not line or line.startswith("*"):
             break
         if line.strip() == "":
@@ -273,6 +275,8 @@ def _read_cells(f, params_map, point_ids):
     idx = []
     while True:
         line = f.readline()
+        if line.startswith("**"):
+            continue
         if not line or line.startswith("*"):
             break
         line = line.strip()
@@ -392,6 +396,8 @@ def _read_set(f, params_map):
     set_names = []
     while True:
         line = f.readline()
+        if line.startswith("**"):
+            continue
         if not line or line.startswith("*"):
             break
         if line.strip() == "":
-- 
2.43.0


From ecf0d3b3937e874b294a15180ad2da27c62ac079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:42 +0000
Subject: [PATCH 096/101] fix: abaqus: names in an element set that also lists
 element numbers were ignored

---
 src/meshio/abaqus/_abaqus.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 39f7347..61d204f 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -176,14 +176,13 @@ def read_buffer(f):
                     for cell_ids_ in cell_ids
                 ]
                 members = _join_sets(members, new_members)
-            elif set_names:
-                for set_name in set_names:
-                    if set_name in cell_sets.keys():
-                        members = _join_sets(members, cell_sets[set_name])
-                    elif set_name in cell_sets_element.keys():
-                        members = _join_sets(members, cell_sets_element[set_name])
-                    else:
-                        raise ReadError(f"Unknown cell set '{set_name}'")
+            for set_name in set_names:
+                if set_name in cell_sets.keys():
+                    members = _join_sets(members, cell_sets[set_name])
+                elif set_name in cell_sets_element.keys():
+                    members = _join_sets(members, cell_sets_element[set_name])
+                else:
+                    raise ReadError(f"Unknown cell set '{set_name}'")
             cell_sets[name] = members
         elif keyword == "INCLUDE":
             # Splitting line to get external input file path (example: *INCLUDE,INPUT=wInclude_bulk.inp)
-- 
2.43.0


From ab9fcb803e876e5e99999f2e9fe873ee54ffdcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:36 +0000
Subject: [PATCH 097/101] fix: ply: ASCII files with point data names such as
 medit:ref could not be read

---
 src/meshio/ply/_ply.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 90953d2..cbfe83f 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -178,14 +178,16 @@ def _read_ascii(
     assert len(cell_data_names) == len(cell_dtypes)
 
     # assert that all formats are the same
-    # Now read the data
+    # Now read the data; genfromtxt would alter some of the names
+    fields = [f"f{k}" for k in range(len(point_data_names))]
     dtype = np.dtype(
         [
-            (name, ply_to_numpy_dtype[fmt])
-            for name, fmt in zip(point_data_names, point_data_formats)
+            (field, ply_to_numpy_dtype[fmt])
+            for field, fmt in zip(fields, point_data_formats)
         ]
     )
     pd = np.atleast_1d(np.genfromtxt(f, max_rows=num_verts, dtype=dtype))
+    pd = {name: pd[field] for name, field in zip(point_data_names, fields)}
 
     # split off coordinate data and additional point data
     verts = np.column_stack([pd[c] for c in "xyz" if c in point_data_names])
-- 
2.43.0


From fc4b6fdf88686ad73f7c7d1b7fdf80c4fddb3aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:13 +0000
Subject: [PATCH 098/101] fix: tecplot: cell blocks of different integer types
 were written as floats

---
 src/meshio/tecplot/_tecplot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 2323d50..e619b7f 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -428,6 +428,9 @@ def write(filename, mesh):
             ]
         )
 
+    # Blocks of different integer types may have been promoted to float
+    cells = cells.astype(int)
+
     # Define variables
     variables = ["X", "Y"]
     data = [mesh.points[:, 0], mesh.points[:, 1]]
-- 
2.43.0


From d2271cee264a42a60f66a5666b9d454b155225e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:08 +0000
Subject: [PATCH 099/101] fix: netgen: sections after a two-line edge section
 lost every other record

---
 src/meshio/netgen/_netgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 658bf4a..a9728e9 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -160,7 +160,7 @@ def _read_cells(f, netgen_cell_type, cells, cells_index, skip_every_other_line=F
             cells_index.append([])
         cells[-1][1].append(pi)
         cells_index[-1].append(index)
-        if skip_every_other_line:
+        if skip_every_other_line and dim == 1:
             line, _ = _fast_forward_over_blank_lines(f)
 
 
-- 
2.43.0


From 2930ad762e8724655c424b32806421fcb53c97da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:49 +0000
Subject: [PATCH 100/101] fix: tetra14 was missing in the table of node counts

---
 src/meshio/_common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index 3f48a01..1d0e56d 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -32,6 +32,7 @@ num_nodes_per_cell = {
     "triangle6": 6,
     "quad9": 9,
     "tetra10": 10,
+    "tetra14": 14,
     "hexahedron27": 27,
     "wedge15": 15,
     "wedge18": 18,
-- 
2.43.0


From 8c9cfcef0fb6dab7365aa028a6ebac44b3ab3b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:28 +0000
Subject: [PATCH 101/101] fix: writing VTU must not drop the tags of the mesh's
 cell blocks nor change its byte order

---
 src/meshio/vtu/_vtu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index dc17859..5ea0a26 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -637,8 +637,8 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
     else:
         points = mesh.points
 
-    if mesh.point_sets or mesh.cell_sets:
-        # the sets of the input mesh must remain
+    if mesh.point_sets or mesh.cell_sets or not is_polyhedron_grid:
+        # the blocks, data, and sets of the input mesh must remain
         mesh = shallow_copy(mesh)
 
     if mesh.point_sets:
-- 
2.43.0

