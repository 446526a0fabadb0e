def S(id, prop, needs, what, demo, *edits): return dict(id=id, property=prop, needs=needs, what=what, demo=demo, edits=list(edits))
SEEDS = [
S("history-series-shared", "C20", "two time series written in one process", "the document of the first series goes on into the second", '''
def go(name, n):
    with meshio.xdmf.TimeSeriesWriter(tmp(name)) as w:
        w.write_points_cells(np.random.rand(n, 3), [("triangle", np.array([[0, 1, 2]]))])
        w.write_data(0.0, point_data={"a": np.zeros(n)})
go("a.xdmf", 3)
go("b.xdmf", 4)
with meshio.xdmf.TimeSeriesReader(tmp("b.xdmf")) as r:
    p, c = r.read_points_cells()
    assert len(p) == 4, p
''', ("xdmf/time_series.py", "class TimeSeriesWriter:\n", "class TimeSeriesWriter:\n    xdmf_file = ET.Element(\"Xdmf\", Version=\"3.0\")\n\n"), ("xdmf/time_series.py", "        self.xdmf_file = ET.Element(\"Xdmf\", Version=\"3.0\")\n", "")),
S("history-med-append", "C20", "a MED file written over an existing one", "the file is opened for appending: groups of the old mesh remain or the write fails", '''
m = Mesh(np.random.rand(4, 3), [("triangle", np.array([[0, 1, 2]]))])
n = Mesh(np.random.rand(4, 3), [("tetra", np.array([[0, 1, 2, 3]]))])
meshio.write(tmp("a.med"), m)
meshio.write(tmp("a.med"), n)
assert [c.type for c in meshio.read(tmp("a.med")).cells] == ["tetra"]
''', ("med/_med.py", "h5py.File(filename, \"w\")", "h5py.File(filename, \"a\")")),
S("history-vtu-header", "C20", "a VTU file without header_type read after one with 64 bit headers", "the header type of the last file is used instead of UInt32", '''
m = Mesh(np.random.rand(3, 3), [("triangle", np.array([[0, 1, 2]]))])
meshio.write(tmp("a.vtu"), m, header_type="UInt32")
t = open(tmp("a.vtu")).read().replace(' header_type="UInt32"', "")
open(tmp("b.vtu"), "w").write(t)
meshio.write(tmp("c.vtu"), m, header_type="UInt64")
assert np.array_equal(meshio.read(tmp("b.vtu")).points, m.points)
meshio.read(tmp("c.vtu"))
try:
    x = meshio.read(tmp("b.vtu")).points
except SystemExit:
    raise AssertionError("not read")
assert np.array_equal(x, m.points)
''', ("vtu/_vtu.py", "            root.attrib[\"header_type\"] if \"header_type\" in root.attrib else \"UInt32\"\n        )\n", "            root.attrib[\"header_type\"]\n            if \"header_type\" in root.attrib\n            else VtuReader.header_type\n        )\n        VtuReader.header_type = self.header_type\n"), ("vtu/_vtu.py", "    def __init__(self, filename):  # noqa: C901\n", "    header_type = \"UInt32\"\n\n    def __init__(self, filename):  # noqa: C901\n")),
S("options-gmsh-ascii", "C21", "a Gmsh file written with binary=False", "the flag is not passed on: the file is binary", '''
m = Mesh(np.random.rand(3, 3), [("triangle", np.array([[0, 1, 2]]))])
meshio.write(tmp("a.msh"), m, file_format="gmsh22", binary=False)
assert open(tmp("a.msh"), "rb").read().split()[2] == b"0"
''', ("gmsh/main.py", "writer.write(filename, mesh, binary=binary, float_fmt=float_fmt)", "writer.write(filename, mesh, float_fmt=float_fmt)")),
S("options-medit-digits", "C21", "float_fmt given for a Medit text file", "the default format is used", '''
m = Mesh(np.full((3, 3), 1 / 3), [("triangle", np.array([[0, 1, 2]]))])
meshio.write(tmp("a.mesh"), m, float_fmt=".3e")
assert "3.333e-01" in open(tmp("a.mesh")).read()
''', ("medit/_medit.py", "write_ascii_file(filename, mesh, float_fmt)", "write_ascii_file(filename, mesh)")),
S("options-xdmf-level", "C21", "compression_opts given for XDMF with HDF5 data", "the level of compression is ignored", '''
import h5py
m = Mesh(np.random.rand(30, 3), [("triangle", np.array([[0, 1, 2]]))])
meshio.write(tmp("a.xdmf"), m, compression="gzip", compression_opts=9)
with h5py.File(tmp("a.h5"), "r") as f:
    assert {d.compression_opts for d in f.values()} == {9}
''', ("xdmf/main.py", "            compression_opts=self.compression_opts,\n", "")),
]
