def S(id, prop, needs, what, demo, *edits): return dict(id=id, property=prop, needs=needs, what=what, demo=demo, edits=list(edits))
SEEDS = [
S("ugrid-pyramid-inplace", "C16", "writing pyramids to UGRID, then using the mesh again", "the writer reorders the caller's connectivity", '''
c = np.array([[0, 1, 2, 3, 4]])
m = Mesh(np.random.rand(5, 3), [("pyramid", c.copy())])
meshio.write(tmp("a.b8.ugrid"), m)
assert (m.cells[0].data == c).all(), m.cells[0].data
''', ("ugrid/_ugrid.py", '''        out = c.data + 1
        if c.type == "pyramid":
            out = out[:, [1, 0, 4, 2, 3]]''', '''        if c.type == "pyramid":
            c.data = c.data[:, [1, 0, 4, 2, 3]]
        out = c.data + 1''')),
S("h5m-global-ids", "C16", "writing to H5M, then looking at the point data", "the writer adds GLOBAL_ID to the caller's point data", '''
m = Mesh(np.random.rand(3, 3), [("triangle", np.array([[0, 1, 2]]))], point_data={"a": np.zeros(3)})
meshio.write(tmp("a.h5m"), m)
assert list(m.point_data) == ["a"], m.point_data
''', ("h5m/_h5m.py", '''    pd = mesh.point_data.copy()
    if "GLOBAL_ID" not in pd and add_global_ids:
        pd["GLOBAL_ID"] = np.arange(1, len(mesh.points) + 1)
''', '''    pd = mesh.point_data
    if pd and "GLOBAL_ID" not in pd and add_global_ids:
        pd["GLOBAL_ID"] = np.arange(1, len(mesh.points) + 1)
''')),
S("svg-inplace", "C16", "writing a 2D mesh to SVG, then using the mesh again", "the writer flips the caller's points", '''
x = np.array([[0.0, 0.0], [2.0, 1.0], [0.0, 5.0]])
m = Mesh(x.copy(), [("triangle", np.array([[0, 1, 2]]))])
meshio.write(tmp("a.svg"), m)
assert (m.points == x).all(), m.points
''', ("svg/_svg.py", "pts = mesh.points[:, :2].copy()", "pts = mesh.points[:, :2]")),
S("exodus-nodeset-inplace", "C16", "a mesh with node sets written to Exodus twice", "the node sets of the caller are shifted by one", '''
m = Mesh(np.random.rand(4, 3), [("tetra", np.array([[0, 1, 2, 3]]))], point_sets={"A": np.array([0, 2])})
meshio.write(tmp("a.e"), m)
assert m.point_sets["A"].tolist() == [0, 2], m.point_sets
''', ("exodus/_exodus.py", '''                data[:] = values + 1
''', '''                values += 1
                data[:] = values
''')),
S("write-ten-blocks", "C17", "a mesh with an ill-shaped block after many good ones", "the shape check stops early and the file is written", '''
good = [("triangle", np.array([[0, 1, 2]]))] * 9
bad = [("triangle", np.array([[0, 1, 2, 3]]))]
m = Mesh(np.random.rand(4, 3), good + good[:1])
m.cells[-1].data = bad[0][1]
try:
    meshio.write(tmp("a.vtk"), m)
except meshio.WriteError:
    pass
else:
    raise AssertionError("written")
''', ("_helpers.py", '    for cell_block in mesh.cells:\n        key', '    for cell_block in mesh.cells[:8]:\n        key')),
S("resolve-links", "C17", "reading through a symbolic link whose target has another suffix", "the format is taken from the target's name", '''
m = Mesh(np.random.rand(3, 3), [("triangle", np.array([[0, 1, 2]]))])
meshio.write(tmp("a.vtu"), m)
import os
os.rename(tmp("a.vtu"), tmp("blob"))
os.symlink(tmp("blob"), tmp("b.vtu"))
g = meshio.read(tmp("b.vtu"))
assert np.allclose(g.points, m.points)
''', ("_helpers.py", '    return _read_file(Path(filename), file_format)', '    return _read_file(Path(filename).resolve(), file_format)')),
S("convert-uint-labels", "C18", "meshio convert --int-data-to-sets with vector valued integer point data", "vector data are turned into sets", '''
m = Mesh(np.random.rand(3, 3), [("triangle", np.array([[0, 1, 2]]))], point_data={"v": np.array([[1, 2, 3], [4, 5, 6], [7, 8, 9]])})
meshio.write(tmp("a.vtu"), m)
from meshio._cli import main
assert not main(["convert", tmp("a.vtu"), tmp("b.vtu"), "--int-data-to-sets"])
g = meshio.read(tmp("b.vtu"))
assert list(g.point_data) == ["v"] and (g.point_data["v"] == m.point_data["v"]).all(), g
''', ("_cli/_convert.py", '            if data.ndim == 1 and data.dtype.kind in ["i", "u"]:\n                mesh.point', '            if data.dtype.kind in ["i", "u"]:\n                mesh.point')),
S("convert-double", "C18", "meshio convert of a single precision mesh", "the coordinates change their type", '''
m = Mesh(np.random.rand(3, 3).astype("f4"), [("triangle", np.array([[0, 1, 2]]))])
meshio.write(tmp("a.vtu"), m)
from meshio._cli import main
assert not main(["convert", tmp("a.vtu"), tmp("b.vtu")])
g = meshio.read(tmp("b.vtu"))
assert g.points.dtype == np.float32, g.points.dtype
''', ("_cli/_convert.py", '    mesh.points = np.ascontiguousarray(mesh.points)', '    mesh.points = np.ascontiguousarray(mesh.points, dtype=float)')),
S("info-corners", "C18", "meshio info of a mesh with higher-order cells", "mid-side nodes count as unused points", '''
m = Mesh(np.random.rand(6, 3), [("triangle6", np.array([[0, 1, 2, 3, 4, 5]]))])
meshio.write(tmp("a.vtu"), m)
import contextlib, io
from meshio._cli import main
o = io.StringIO()
with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
    main(["info", tmp("a.vtu")])
assert "not part of any cell" not in " ".join(o.getvalue().split()), o.getvalue()
''', ("_cli/_info.py", '            point_is_used[cells.data] = True', '            point_is_used[cells.data[:, :4]] = True')),
S("svg-offset", "C19", "a drawing whose lower edge is not at y = 0", "the drawing is moved out of the view box", '''
import re
m = Mesh(np.array([[0.0, 10.0], [2.0, 10.0], [0.0, 11.0]]), [("triangle", np.array([[0, 1, 2]]))])
meshio.write(tmp("a.svg"), m, image_width=None)
s = open(tmp("a.svg")).read()
x, y, w, h = map(float, re.search('viewBox="([^"]*)"', s).group(1).split())
p = [float(v) for v in re.findall(r"[-+]?\\d+\\.?\\d*(?:e[-+]?\\d+)?", re.search(' d="([^"]*)"', s).group(1))]
assert all(y - 1e-6 <= v <= y + h + 1e-6 for v in p[1::2]), (y, h, p)
''', ("svg/_svg.py", 'pts[:, 1] = max_y + min_y - pts[:, 1]', 'pts[:, 1] = max_y - pts[:, 1]')),
S("svg-skip-rest", "C19", "a mesh with vertices before its triangles", "the blocks after an unsupported one are not drawn", '''
m = Mesh(np.array([[0.0, 0.0], [2.0, 0.0], [0.0, 1.0]]), [("vertex", np.array([[0]])), ("triangle", np.array([[0, 1, 2]]))])
meshio.write(tmp("a.svg"), m)
assert open(tmp("a.svg")).read().count("<path") == 1
''', ("svg/_svg.py", '        if cell_block.type not in ["line", "triangle", "quad"]:\n            continue', '        if cell_block.type not in ["line", "triangle", "quad"]:\n            break')),
]
