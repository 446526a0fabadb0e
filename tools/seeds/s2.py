def S(id, prop, needs, what, demo, *edits): return dict(id=id, property=prop, needs=needs, what=what, demo=demo, edits=list(edits))
SEEDS = [
S("vtk51-long-names", "C01", "a point or cell data name of more than 32 characters", "two arrays whose names share the first 32 characters become one", '''
n = "a" * 32
m = Mesh(np.random.rand(3, 3), [("triangle", np.array([[0, 1, 2]]))], point_data={n + "x": np.array([1., 2, 3]), n + "y": np.array([4., 5, 6])})
g = rt(m, "a.vtk")
assert sorted(g.point_data) == [n + "x", n + "y"], list(g.point_data)
assert g.point_data[n + "x"].tolist() == [1, 2, 3]
''', ("vtk/_vtk_51.py", 'f.write(f"{name} {num_components} {num_tuples} {vtk_dtype}\\n".encode())', 'f.write(f"{name[:32]} {num_components} {num_tuples} {vtk_dtype}\\n".encode())')),
S("vtk51-pad-int", "C01", "two-component integer point data", "the file says three components but holds two per point", '''
m = Mesh(np.random.rand(3, 3), [("triangle", np.array([[0, 1, 2]]))], point_data={"w": np.array([[1, 2], [3, 4], [5, 6]])})
g = rt(m, "a.vtk")
assert g.point_data["w"][:, :2].tolist() == [[1, 2], [3, 4], [5, 6]] and g.point_data["w"].shape == (3, 3), g.point_data["w"]
''', ("vtk/_vtk_51.py", "                mesh.point_data[name] = _pad(values)", '                mesh.point_data[name] = _pad(values) if values.dtype.kind == "f" else values')),
S("gmsh22-offset", "C03", "an MSH 2 file with three or more runs of one cell type and cell data", "cell data of the third run is taken from the second", '''
c = [("line", np.array([[0, 1]])), ("triangle", np.array([[0, 1, 2]])), ("line", np.array([[1, 2]])), ("triangle", np.array([[1, 2, 3]])), ("line", np.array([[2, 3]]))]
m = Mesh(np.random.rand(4, 3), c, cell_data={"gmsh:physical": [np.array([k]) for k in range(5)], "gmsh:geometrical": [np.array([10 + k]) for k in range(5)]})
meshio.write(tmp("a.msh"), m, file_format="gmsh22", binary=False)
g = meshio.read(tmp("a.msh"))
assert [int(a[0]) for a in g.cell_data["gmsh:physical"]] == [0, 1, 2, 3, 4], g.cell_data
''', ("gmsh/_gmsh22.py", "            offset[cell_type] = end\n", "            offset[cell_type] = end - start\n")),
S("gmsh22-affine-order", "C03", "periodic entities with an affine map", "the 4x4 map is written transposed", '''
aff = np.arange(16.0)
m = Mesh(np.random.rand(4, 3), [("line", np.array([[0, 1], [2, 3]]))], cell_data={"gmsh:physical": [np.array([1, 2])], "gmsh:geometrical": [np.array([1, 2])]},
         gmsh_periodic=[[1, (2, 1), aff.reshape(4, 4), np.array([[2, 0], [3, 1]])]])
meshio.write(tmp("a.msh"), m, file_format="gmsh22", binary=False)
L = open(tmp("a.msh")).read().split("\\n")
a = next(l for l in L if l.startswith("Affine"))
assert [float(v) for v in a.split()[1:]] == aff.tolist(), a
''', ("gmsh/_gmsh22.py", "affine = np.atleast_2d(affine.ravel())", 'affine = np.atleast_2d(affine.ravel(order="F"))')),
S("xdmf-type-runs", "C04", "two neighbouring blocks of high-order cells whose XDMF numbers are 0x30 and above", "cells of the second type are read as cells of the first", '''
m = Mesh(np.random.rand(40, 3), [("hexahedron20", np.arange(20)[None]), ("hexahedron27", np.arange(27)[None]), ("line", np.array([[0, 1]]))])
g = rt(m, "a.xdmf", data_format="XML")
assert [(c.type, c.data.tolist()) for c in g.cells] == [(c.type, c.data.tolist()) for c in m.cells], g
''', ("xdmf/common.py", "types[:-1] != types[1:]", "np.minimum(types[:-1], 0x30) != np.minimum(types[1:], 0x30)")),
S("xdmf-binary-names", "C04", "two XDMF files with binary data in one directory", "the second file overwrites the first one's data", '''
os.chdir(_d.name)
a = Mesh(np.full((3, 3), 1.0), [("triangle", np.array([[0, 1, 2]]))])
b = Mesh(np.full((3, 3), 2.0), [("triangle", np.array([[2, 1, 0]]))])
meshio.write(tmp("a.xdmf"), a, data_format="Binary")
meshio.write(tmp("b.xdmf"), b, data_format="Binary")
assert (meshio.read(tmp("a.xdmf")).points == 1).all()
os.chdir("/")
''', ("xdmf/main.py", 'bin_filename = f"{base}{self.data_counter}.bin"', 'bin_filename = f"{os.path.dirname(base)}/data{self.data_counter}.bin"')),
S("xdmfts-time-digits", "C05", "a time that needs 17 significant digits", "the time of a step changes in the last digit", '''
os.chdir(_d.name)
T = 0.1 + 0.2
with meshio.xdmf.TimeSeriesWriter("a.xdmf") as w:
    w.write_points_cells(np.zeros((2, 3)), [("line", np.array([[0, 1]]))])
    w.write_data(T, point_data={"u": np.array([1.0, 2.0])})
with meshio.xdmf.TimeSeriesReader("a.xdmf") as r:
    r.read_points_cells()
    t, pd, cd = r.read_data(0)
assert t == T, t
os.chdir("/")
''', ("xdmf/time_series.py", 'ET.SubElement(grid, "Time", Value=str(t))', "ET.SubElement(grid, \"Time\", Value=f'{t:.16g}')")),
S("xdmfts-data-order", "C05", "several blocks whose types are not in alphabetical order, of different sizes", "step cell data is split at the wrong places", '''
os.chdir(_d.name)
c = [("triangle", np.array([[0, 1, 2], [1, 2, 3]])), ("line", np.array([[0, 1], [1, 2], [2, 3]]))]
with meshio.xdmf.TimeSeriesWriter("a.xdmf") as w:
    w.write_points_cells(np.random.rand(4, 3), c)
    w.write_data(0.0, cell_data={"a": [np.array([1.0, 2.0]), np.array([3.0, 4.0, 5.0])]})
with meshio.xdmf.TimeSeriesReader("a.xdmf") as r:
    r.read_points_cells()
    t, pd, cd = r.read_data(0)
assert [v.tolist() for v in cd["a"]] == [[1, 2], [3, 4, 5]], cd
os.chdir("/")
''', ("xdmf/time_series.py", "cell_data = cell_data_from_raw(self.cells, cell_data_raw)", "cell_data = {k: np.split(v, np.cumsum([len(c.data) for c in sorted(self.cells, key=lambda c: c.type)][:-1])) for k, v in cell_data_raw.items()}")),
S("cgns-order", "C06", "Fortran-ordered connectivity", "cells written to CGNS have their nodes shuffled", '''
c = np.asfortranarray(np.array([[0, 1, 2, 3], [4, 3, 2, 1]]))
g = rt(Mesh(np.random.rand(5, 3), [("tetra", c)]), "a.cgns")
assert g.cells[0].data.tolist() == c.tolist(), g.cells[0].data
''', ("cgns/_cgns.py", "data=cell_block.data.reshape(-1) + 1,", 'data=cell_block.data.reshape(-1, order="A") + 1,')),
S("exodus-block-ten", "C07", "an Exodus file with more than nine node variables", "variable ten and later are mixed up with the first ones", '''
pd = {f"n{chr(97 + k)}q": np.full(3, float(k)) for k in range(12)}
g = rt(Mesh(np.random.rand(3, 3), [("triangle", np.array([[0, 1, 2]]))], point_data=dict(pd)), "a.e")
assert {k: v.tolist() for k, v in g.point_data.items()} == {k: v.tolist() for k, v in pd.items()}, g.point_data
''', ("exodus/_exodus.py", "int(key[12:]) - 1", "int(key[-1]) - 1")),
S("exodus-first-dtype", "C07", "blocks with different integer types, a narrow one first", "indices of later blocks are cut to the first block's type", '''
n = 70000
m = Mesh(np.random.rand(n, 3), [("line", np.array([[0, 1]], dtype="i2")), ("triangle", np.array([[0, 1, n - 1]], dtype="i8"))])
g = rt(m, "a.e")
assert g.cells[1].data.tolist() == [[0, 1, n - 1]], g.cells[1].data
''', ("exodus/_exodus.py", "dtype = numpy_to_exodus_dtype[cell_block.data.dtype.name]\n", "dtype = numpy_to_exodus_dtype[mesh.cells[0].data.dtype.name]\n")),
S("abaqus-generate-end", "C08", "a generated set whose last number is not first + k * increment", "the set gets a member beyond the last number", '''
open(tmp("a.inp"), "w").write("""*NODE
1, 0., 0., 0.
2, 1., 0., 0.
3, 0., 1., 0.
4, 1., 1., 0.
5, 2., 1., 0.
*ELEMENT, TYPE=T3D2
1, 1, 2
*NSET, NSET=s, GENERATE
1, 4, 2
""")
g = meshio.read(tmp("a.inp"))
assert sorted(g.point_sets["s"].tolist()) == [0, 2], g.point_sets
''', ("abaqus/_abaqus.py", 'np.arange(set_ids[0], set_ids[1] + 1, set_ids[2], dtype="int32")', 'np.arange(set_ids[0], set_ids[1] + set_ids[2], set_ids[2], dtype="int32")')),
S("abaqus-node-mask", "C08", "node numbers that agree in their lower 16 bits", "cells and sets refer to other points", '''
open(tmp("a.inp"), "w").write("""*NODE
1, 1., 0., 0.
65537, 2., 0., 0.
3, 3., 0., 0.
*ELEMENT, TYPE=T3D2
1, 1, 65537
""")
g = meshio.read(tmp("a.inp"))
assert g.cells[0].data.tolist() == [[0, 1]], g.cells[0].data
''', ("abaqus/_abaqus.py", "point_ids[int(point_id)] = counter", "point_ids[int(point_id) & 0xFFFF] = counter"), ("abaqus/_abaqus.py", "[point_ids[node] for node in elem]", "[point_ids[node & 0xFFFF] for node in elem]"), ("abaqus/_abaqus.py", "[point_ids[point_id] for point_id in set_ids]", "[point_ids[point_id & 0xFFFF] for point_id in set_ids]")),
S("nastran-star-blanks", "C09", "a large-field card whose keyword is not four characters long", "a CTRIA3* or GRID* card with other padding is read as a small-field card", '''
open(tmp("a.bdf"), "w").write("BEGIN BULK\\n" + "".join("%-8s%16d%16s%16.8E%16.8E\\n%-8s%16.8E\\n" % ("GRID*", i + 1, "", i, i * i, "*", 2.0) for i in range(3))
    + "%-8s%16d%16d%16d%16d\\n%-8s%16d\\n" % ("CTRIA3*", 1, 5, 1, 2, "*", 3) + "ENDDATA\\n")
g = meshio.read(tmp("a.bdf"))
assert g.cells[0].type == "triangle" and g.cells[0].data.tolist() == [[0, 1, 2]], g
assert g.points.tolist() == [[0, 0, 2], [1, 1, 2], [2, 4, 2]], g.points
''', ("nastran/_nastran.py", 'chunks[0][0].rstrip().endswith("*") and not is_free', 'chunks[0][0].endswith("*   ") and not is_free')),
S("nastran-zero-ref", "C09", "point references of which some are 0", "references shift to other points or disappear", '''
m = Mesh(np.random.rand(3, 3), [("triangle", np.array([[0, 1, 2]]))], point_data={"nastran:ref": np.array([7, 0, 5])}, cell_data={"nastran:ref": [np.array([1])]})
g = rt(m, "a.bdf")
assert np.asarray(g.point_data["nastran:ref"]).tolist() == [7, 0, 5], g.point_data
''', ("nastran/_nastran.py", 'pref = str(point_refs[point_id]) if point_refs is not None else ""', 'pref = str(point_refs[point_id] or "") if point_refs is not None else ""')),
S("medit-many-points", "C10", "a Medit file in ASCII with more than 1000 points", "coordinates lose all but seven digits", '''
m = Mesh(np.random.rand(1500, 3), [("triangle", np.array([[0, 1, 1499]]))])
g = rt(m, "a.mesh")
assert (g.points == m.points).all()
''', ("medit/_medit.py", "points = out[:, :dim].astype(dtype)", "points = out[:, :dim].astype(c_float).astype(dtype) if num_verts > 1000 else out[:, :dim].astype(dtype)")),
S("ugrid-abs-label", "C11", "negative surface labels", "labels lose their sign on reading", '''
m = Mesh(np.random.rand(4, 3), [("triangle", np.array([[0, 1, 2], [1, 2, 3]])), ("tetra", np.array([[0, 1, 2, 3]]))], cell_data={"ugrid:ref": [np.array([-4, 5]), np.array([0])]})
g = rt(m, "a.lb8.ugrid")
assert g.cell_data["ugrid:ref"][0].tolist() == [-4, 5], g.cell_data
''', ("ugrid/_ugrid.py", 'cell_data["ugrid:ref"].append(out)', 'cell_data["ugrid:ref"].append(np.abs(out))')),
S("ugrid-r4-type", "C11", "a file in the Fortran single-precision big-endian variant (.r4.ugrid)", "the bytes in the file are not those of its format (the reader agrees with the writer)", '''
m = Mesh(np.array([[0.5, 1, 2], [3, 4, 5], [6, 7, 8], [1, 1, 9]]), [("triangle", np.array([[0, 1, 2]])), ("tetra", np.array([[0, 1, 2, 3]]))])
meshio.write(tmp("a.r4.ugrid"), m)
b = open(tmp("a.r4.ugrid"), "rb").read()
assert m.points.astype(">f4").tobytes() in b
assert (meshio.read(tmp("a.r4.ugrid")).points == m.points).all()
''', ("ugrid/_ugrid.py", '"r4": {"type": "F", "float_type": ">f4"', '"r4": {"type": "F", "float_type": ">f8"')),
S("obj-digits", "C12", "coordinates that need 17 significant digits", "OBJ files hold other numbers", '''
m = Mesh(np.array([[0.1 + 0.2, 1 / 3, 0], [1, 0, 0], [0, 1, 5e-324]]), [("triangle", np.array([[0, 1, 2]]))])
g = rt(m, "a.obj")
assert (g.points == m.points).all()
''', ("obj/_obj.py", 'f.write(f"v {p[0]} {p[1]} {p[2]}\\n")', 'f.write(f"v {p[0]:.16g} {p[1]:.16g} {p[2]:.16g}\\n")')),
S("avs-node-ids", "C13", "an AVS-UCD file whose node numbers are not 1, 2, 3, ...", "cells refer to other nodes", '''
open(tmp("a.avs"), "w").write("""3 1 0 0 0
30 0. 0. 0.
10 1. 0. 0.
20 0. 1. 0.
1 0 tri 10 20 30
""")
g = meshio.read(tmp("a.avs"))
assert g.points[g.cells[0].data[0]].tolist() == [[1, 0, 0], [0, 1, 0], [0, 0, 0]], g.cells
''', ("avsucd/_avsucd.py", "points_ids = {int(pid): i for i, pid in enumerate(data[:, 0])}", "points_ids = {i + 1: i for i, pid in enumerate(data[:, 0])}")),
S("netgen-two-lines", "C14", "a Netgen file with edges in two lines each", "the second line of each edge is read as an edge", '''
open(tmp("a.vol"), "w").write("""mesh3d
dimension
3
geomtype
0
surfaceelements
1
 1 7 1 0 3 1 2 3

surf1 surf2 p1 p2
edgesegmentsgi2
2
 3 0 1 2 -1 -1 0 0 1 0 1 0
 1 0 1 1
 4 0 2 3 -1 -1 0 0 1 0 1 0
 1 0 1 1

points
3
0 0 0
1 0 0
0 1 0
endmesh
""")
g = meshio.read(tmp("a.vol"))
assert [(c.type, c.data.tolist()) for c in g.cells] == [("triangle", [[0, 1, 2]]), ("line", [[0, 1], [1, 2]])], g.cells
assert [list(v) for v in g.cell_data["netgen:index"]] == [[7], [3, 4]]
''', ("netgen/_netgen.py", '        elif line.split() == ["surf1", "surf2", "p1", "p2"]:', '        elif line.split(" ") == ["surf1", "surf2", "p1", "p2"] and len(cells) == 0:')),
S("flac-bins", "C14", "a FLAC3D grid with several blocks and a group that holds the first cell of a later block", "the cell is filed under the block before", '''
P = np.array([[0., 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0]])
m = Mesh(P, [("quad", np.array([[0, 1, 4, 2]])), ("tetra", np.array([[0, 1, 2, 3]])), ("wedge", np.array([[0, 2, 1, 3, 4, 4]])), ("tetra", np.array([[0, 1, 2, 3]]))], cell_sets={"g": [np.array([], dtype=int), np.array([0]), np.array([], dtype=int), np.array([0])]})
g = rt(m, "a.f3grid", binary=False)
s = [np.asarray(v).tolist() for v in g.cell_sets["zone:g:1"]]
assert s == [[], [0], [], [0]], s
''', ("flac3d/_flac3d.py", "d = np.digitize(data, bins)", "d = np.digitize(data, bins, right=len(bins) > 3)")),
S("tetgen-base", "C14", "a TetGen file whose first node number is larger than one", "node numbers are shifted by the wrong amount", '''
open(tmp("a.node"), "w").write("4 3 0 0\\n" + "".join(f"{5 + i} {i} 0 {i}\\n" for i in range(4)))
open(tmp("a.ele"), "w").write("1 4 0\\n5 5 6 7 8\\n")
g = meshio.read(tmp("a.node"))
assert g.cells[0].data.tolist() == [[0, 1, 2, 3]], g.cells[0].data
''', ("tetgen/_tetgen.py", "node_index_base = int(points[0, 0])", "node_index_base = min(1, int(points[0, 0]))")),
S("mesh-sets-offset", "C15", "a cell set with no members (None) in an earlier block of the same type", "members of later blocks are numbered from the wrong cell", '''
m = Mesh(np.random.rand(4, 3), [("line", np.array([[0, 1], [1, 2], [2, 3]])), ("line", np.array([[3, 0], [0, 2]]))], cell_sets={"a": [np.array([], dtype=int), np.array([1])]})
assert m.cell_sets_dict["a"]["line"].tolist() == [4], m.cell_sets_dict
''', ("_mesh.py", "                if members is None:\n                    continue\n                if cells.type in sets_dict", "                if members is None or len(members) == 0:\n                    offsets[cells.type] = offset\n                    continue\n                if cells.type in sets_dict")),
S("mesh-names-lent", "C15", "sets of which one is empty, converted to data and back", "the members of one set come back under the name of another", '''
m = Mesh(np.random.rand(3, 3), [("line", np.array([[0, 1], [1, 2], [2, 0]]))], cell_sets={"a": [np.array([0, 1])], "b": [np.array([], dtype=int)], "c": [np.array([2])]})
m.cell_sets_to_data()
m.cell_data_to_sets("a-b-c")
assert "b" not in m.cell_sets or len(m.cell_sets["b"][0]) == 0, m.cell_sets
''', ("_mesh.py", "        if len(names) != len(tags) or -1 in tags:\n            # alternative names\n            names = [f\"set-{key}-{tag}\" for tag in tags]\n\n        # TODO there's probably a better way besides np.where, something from\n        # np.unique or np.sort\n        for name, tag in zip(names, tags):\n            self.cell_sets", "        if len(names) < len(tags) or -1 in tags:\n            # alternative names\n            names = [f\"set-{key}-{tag}\" for tag in tags]\n\n        # TODO there's probably a better way besides np.where, something from\n        # np.unique or np.sort\n        for name, tag in zip(names, tags):\n            self.cell_sets")),
]
