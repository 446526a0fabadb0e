SEEDS = [
 dict(id="vtk-offsets-dtype", property="C01",
  edits=[("vtk/_vtk_42.py", 'tag = "%" ' , 'tag = "%" ')] ,
  needs="", what="", demo=""),
]
SEEDS = [
 dict(id="vtk-common-breaks", property="C01",
  edits=[("_vtk_common.py", "            sizes = np.diff(start_cn)\n", "            sizes = np.diff(start_cn)\n            sizes[-1] = sizes[0] if end - start > 2 else sizes[-1]\n")],
  needs="a run of at least three polygons/Lagrange cells whose last one has a different number of nodes than the first",
  what="reading a VTK file with polygons of mixed sizes cuts the last polygon's nodes",
  demo='''
m = Mesh(np.random.rand(6, 3), [("polygon", np.array([[0,1,2],[1,2,3]])), ("polygon", np.array([[0,1,2,3,4]]))])
g = rt(m, "a.vtk")
out = [row.tolist() for b in g.cells for row in b.data]
assert out == [[0,1,2],[1,2,3],[0,1,2,3,4]], out
'''),
 dict(id="vtu-last-block", property="C02",
  edits=[("vtu/_vtu.py", "        while k * n < len(array):" if False else "            num_blocks = -int(-len(data_bytes) // max_block_size)\n", "            num_blocks = len(data_bytes) // max_block_size + 1\n")],
  needs="a data array of exactly a multiple of 32768 bytes, compressed",
  what="the block count in the header disagrees with the number of compressed blocks for arrays that are a multiple of the block size; the file cannot be read back",
  demo='''
m = Mesh(np.random.rand(4096, 3), [("line", np.array([[0, 1]]))], point_data={"u": np.random.rand(4096)})
g = rt(m, "a.vtu")
assert (g.points == m.points).all() and (g.point_data["u"] == m.point_data["u"]).all()
'''),
 dict(id="gmsh41-inv-tags", property="C03",
  edits=[("gmsh/_gmsh41.py", "    inv_tags[point_tags] = np.arange(len(point_tags))\n", "    inv_tags[np.sort(point_tags)] = np.arange(len(point_tags))\n")],
  needs="an MSH 4.1 file whose nodes are not listed in the order of their tags",
  what="cells refer to wrong points when node tags are unordered",
  demo='''
s = """$MeshFormat
4.1 0 8
$EndMeshFormat
$Nodes
2 3 1 9
0 1 0 1
9
9 9 9
2 1 0 2
4
2
4 4 4
2 2 2
$EndNodes
$Elements
1 1 1 1
2 1 2 1
1 9 4 2
$EndElements
"""
open(tmp("a.msh"), "w").write(s)
g = meshio.read(tmp("a.msh"))
assert g.points[g.cells[0].data[0]].tolist() == [[9,9,9],[4,4,4],[2,2,2]], g.points[g.cells[0].data[0]]
'''),
 dict(id="xdmf-mixed-runs", property="C04",
  edits=[("xdmf/common.py", "        indices = np.array([np.arange(n) + o for o in point_offsets])\n", "        indices = point_offsets[0] + (n + 1) * np.arange(end - start)[:, None] + np.arange(n)\n")],
  needs="a mixed topology with two or more consecutive lines or vertices",
  what="the second and later lines/vertices of a block are read with shifted connectivity",
  demo='''
m = Mesh(np.random.rand(5, 3), [("triangle", np.array([[0,1,2]])), ("line", np.array([[0,1],[2,3],[3,4]]))])
g = rt(m, "a.xdmf")
assert g.cells[1].data.tolist() == [[0,1],[2,3],[3,4]], g.cells[1].data
'''),
 dict(id="xdmfts-counter", property="C05",
  edits=[("xdmf/time_series.py", "        name = f\"data{self.data_counter}\"\n        self.data_counter += 1\n", "        name = f\"data{self.data_counter}\"\n        self.data_counter += 1\n        if data.ndim == 1 and data.dtype.kind == \"u\":\n            data = data.astype(\"i4\")\n")],
  needs="an HDF time series with 1D unsigned data whose values exceed 2^31",
  what="large unsigned step data wraps to negative values",
  demo='''
os.chdir(_d.name)
with meshio.xdmf.TimeSeriesWriter("a.xdmf") as w:
    w.write_points_cells(np.zeros((2, 3)), [("line", np.array([[0, 1]]))])
    w.write_data(0.0, point_data={"u": np.array([1, 2**32 - 1], dtype="u4")})
with meshio.xdmf.TimeSeriesReader("a.xdmf") as r:
    r.read_points_cells()
    t, pd, cd = r.read_data(0)
assert pd["u"].tolist() == [1, 2**32 - 1], pd
os.chdir("/")
'''),
]
