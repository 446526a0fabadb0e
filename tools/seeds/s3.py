def S(id, prop, needs, what, demo, *edits): return dict(id=id, property=prop, needs=needs, what=what, demo=demo, edits=list(edits))
SEEDS = [
S("vtu-ascii-fixed", "C02", "ASCII VTU with values of small magnitude", "small numbers become zero", '''
m = Mesh(np.array([[1e-15, 0, 0], [2e-13, 1, 0], [3e-20, 0, 1]]), [("triangle", np.array([[0, 1, 2]]))])
g = rt(m, "a.vtu", binary=False)
assert np.allclose(g.points, m.points, rtol=1e-10, atol=0), g.points
''', ("vtu/_vtu.py", 'fmt = "{:.11e}" if vtu_type.startswith("Float") else "{:d}"', 'fmt = "{:.11f}" if vtu_type.startswith("Float") else "{:d}"')),
S("ply-bare-comment", "C12", "a PLY header with an empty comment", "the file is refused", '''
open(tmp("a.ply"), "w").write("""ply
format ascii 1.0
comment
element vertex 3
property double x
property double y
property double z
element face 1
property list uint8 int32 vertex_indices
end_header
1 2 3
4 5 6
7 8 9
3 0 1 2
""")
g = meshio.read(tmp("a.ply"))
assert g.points.tolist() == [[1, 2, 3], [4, 5, 6], [7, 8, 9]]
''', ("ply/_ply.py", 'if line and line[:7] != "comment":', 'if line and line[:8] != "comment ":')),
S("mdpa-digits", "C13", "coordinates that need 17 significant digits", "MDPA files hold other numbers", '''
m = Mesh(np.array([[0.1 + 0.2, 1 / 3, 0], [1, 0, 0], [0, 1, 0]]), [("triangle", np.array([[0, 1, 2]]))])
g = rt(m, "a.mdpa")
assert (g.points == m.points).all()
''', ("mdpa/_mdpa.py", 'float_fmt=".16e", binary=False', 'float_fmt=".15e", binary=False')),
]
