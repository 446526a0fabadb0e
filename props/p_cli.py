"""The command line tools keep the mesh."""

import contextlib
import io
import os
import pathlib
import sys

from .common import NN, check_cells

BOUNDS = "5 points, 2..3 blocks of <= 2 cells, symbolic coordinates, connectivity and data; every in-place command with every format and file variant it knows, convert between every pair of VTK, VTU, XDMF, Gmsh, Medit, PLY, Abaqus, Nastran and of the named format versions, command aliases"
OUTSIDE = "the text printed by info (only warnings are compared); compression ratio; option parsing by argparse"

BL = [["triangle", 2], ["quad", 1], ["triangle", 1]]
VAR = {  # file variants: name, extension, writer format, options
    "vtk42b": (".vtk", "vtk42", {}), "vtk42a": (".vtk", "vtk42", {"binary": False}), "vtk51b": (".vtk", "vtk51", {}), "vtk51a": (".vtk", "vtk51", {"binary": False}),
    "vtub": (".vtu", "vtu", {}), "vtua": (".vtu", "vtu", {"binary": False}), "vtur": (".vtu", "vtu", {"compression": None}), "vtul": (".vtu", "vtu", {"compression": "lzma"}),
    "xdmfh": (".xdmf", "xdmf", {}), "xdmfx": (".xdmf", "xdmf", {"data_format": "XML"}), "xdmfb": (".xdmf", "xdmf", {"data_format": "Binary"}),
    "gmsh41b": (".msh", "gmsh", {}), "gmsh41a": (".msh", "gmsh", {"binary": False}), "gmsh22b": (".msh", "gmsh22", {}), "gmsh22a": (".msh", "gmsh22", {"binary": False}),
    "ansysb": (".msh", "ansys", {}), "ansysa": (".msh", "ansys", {"binary": False}),
    "plyb": (".ply", "ply", {}), "plya": (".ply", "ply", {"binary": False}), "stlb": (".stl", "stl", {"binary": True}), "stla": (".stl", "stl", {}),
    "mdpa": (".mdpa", "mdpa", {}), "flac3da": (".f3grid", "flac3d", {}), "flac3db": (".f3grid", "flac3d", {"binary": True}),
    "cgns": (".cgns", "cgns", {}), "h5m": (".h5m", "h5m", {}),
    "medit": (".mesh", "medit", {}), "abaqus": (".inp", "abaqus", {}), "nastran": (".bdf", "nastran", {}), "off": (".off", "off", {}),
}
FMT = {"gmsh22": "gmsh", "vtk42": "vtk", "vtk51": "vtk"}
KNOWS = {
    "ascii": ["vtk", "vtu", "xdmf", "gmsh", "ansys", "ply", "stl", "flac3d", "mdpa"],
    "binary": ["vtk", "vtu", "xdmf", "gmsh", "ansys", "ply", "stl", "flac3d"],
    "compress": ["vtk", "vtu", "xdmf", "gmsh", "ansys", "ply", "stl", "cgns", "h5m"],
    "decompress": ["vtu", "xdmf", "cgns", "h5m"],
}
HEAD = {  # what the file looks like afterwards
    ("ascii", "vtk"): lambda b: b"\nASCII\n" in b, ("binary", "vtk"): lambda b: b"\nBINARY\n" in b, ("compress", "vtk"): lambda b: b"\nBINARY\n" in b,
    ("ascii", "vtu"): lambda b: b'format="ascii"' in b and b'format="binary"' not in b, ("binary", "vtu"): lambda b: b'format="binary"' in b and b'format="ascii"' not in b,
    ("compress", "vtu"): lambda b: b'compressor="vtk' in b, ("decompress", "vtu"): lambda b: b"compressor=" not in b,
    ("ascii", "xdmf"): lambda b: b'Format="XML"' in b and b'Format="HDF"' not in b, ("binary", "xdmf"): lambda b: b'Format="HDF"' in b and b'Format="XML"' not in b,
    ("compress", "xdmf"): lambda b: b'Format="HDF"' in b, ("decompress", "xdmf"): lambda b: b'Format="HDF"' in b,
    ("ascii", "gmsh"): lambda b: b.split()[2] == b"0", ("binary", "gmsh"): lambda b: b.split()[2] == b"1", ("compress", "gmsh"): lambda b: b.split()[2] == b"1",
    ("ascii", "flac3d"): lambda b: b.startswith(b"*"), ("binary", "flac3d"): lambda b: not b.startswith(b"*"),
    ("ascii", "ansys"): lambda b: b"(3010" not in b and b"(2010" not in b, ("binary", "ansys"): lambda b: b"(3010" in b or b"(2010" in b,
    ("compress", "ansys"): lambda b: b"(3010" in b or b"(2010" in b,
    ("ascii", "ply"): lambda b: b"format ascii" in b, ("binary", "ply"): lambda b: b"format binary" in b, ("compress", "ply"): lambda b: b"format binary" in b,
    ("ascii", "stl"): lambda b: b.startswith(b"solid"), ("binary", "stl"): lambda b: not b.startswith(b"solid"), ("compress", "stl"): lambda b: not b.startswith(b"solid"),
}

# all formats, one block: extension, writer, cell types, digits, exact connectivity
T, H = "triangle", "tetra"
PAIR = {
    "vtk42": (".vtk", "vtk42", {T, H}, None), "vtk51": (".vtk", "vtk51", {T, H}, None), "vtu": (".vtu", "vtu", {T, H}, None), "xdmf": (".xdmf", "xdmf", {T, H}, None),
    "gmsh": (".msh", "gmsh", {T, H}, None), "gmsh22": (".msh", "gmsh22", {T, H}, None), "ansys": (".msh", "ansys", {T, H}, None),
    "ply": (".ply", "ply", {T}, None), "stl": (".stl", "stl", {T}, 6), "obj": (".obj", "obj", {T}, 15), "off": (".off", "off", {T}, 15), "wkt": (".wkt", "wkt", {T}, 15),
    "mdpa": (".mdpa", "mdpa", {T, H}, 15), "flac3d": (".f3grid", "flac3d", {H}, 6), "cgns": (".cgns", "cgns", {H}, None), "h5m": (".h5m", "h5m", {T, H}, None),
    "hmf": (".hmf", "hmf", {T, H}, None), "med": (".med", "med", {T, H}, None), "exodus": (".e", "exodus", {T, H}, None), "medit": (".mesh", "medit", {T, H}, 15),
    "meditb": (".meshb", "medit", {T, H}, None), "abaqus": (".inp", "abaqus", {T, H}, 15), "nastran": (".bdf", "nastran", {T, H}, 9), "netgen": (".vol", "netgen", {T, H}, 15),
    "permas": (".dato", "permas", {T, H}, 15), "su2": (".su2", "su2", {T, H}, 15), "tecplot": (".dat", "tecplot", {T, H}, 15), "tetgen": (".ele", "tetgen", {H}, 15),
    "ugrid": (".ugrid", "ugrid", {T, H}, 15), "ugridb": (".lb8.ugrid", "ugrid", {T, H}, None), "avsucd": (".avs", "avsucd", {T, H}, 13), "dolfin": (".xml", "dolfin-xml", {T, H}, 15),
    "svg": (".svg", "svg", {T}, 3),
}


def scenarios(tier):
    out = []

    def add(i, k, **sc):
        out.append(dict(id=i, k=k, **sc))

    for cmd, fs in KNOWS.items():
        for v, (e, w, o) in VAR.items():
            f = FMT.get(w, w)
            if f in fs:
                for fl in ("", "i", "one") + (("max",) if cmd == "compress" else ()):
                    add(f"{cmd}-{v}" + (f"-{fl}" if fl else ""), "inplace", cmd=cmd, v=v, fl=fl)
            else:
                add(f"{cmd}-{v}-refused", "refused", cmd=cmd, v=v)
    for a in ("vtk51b", "vtub", "xdmfx", "gmsh41b", "gmsh22a", "medit", "plyb", "abaqus", "nastran", "ansysb"):
        for b in ("vtk51b", "vtk42a", "vtub", "xdmfh", "gmsh41b", "gmsh22b", "medit", "plyb", "abaqus", "nastran", "ansysa"):
            add(f"convert-{a}-{b}", "convert", a=a, b=b, **({"max_paths": 30} if "nastran" in (a, b) else {}))
    for b in ("vtk51b", "vtub", "gmsh41b", "gmsh22b", "plyb", "stlb"):
        add(f"convert-ascii-{b}", "convert", a="vtub", b=b, ascii=True)
    for a in PAIR:
        for b in PAIR:
            if a != "svg" and (PAIR[a][2] & PAIR[b][2]):
                add(f"pair-{a}-{b}", "pair", a=a, b=b)
    for a in ("vtk51", "vtu", "xdmf", "gmsh22", "gmsh", "medit", "ply", "abaqus"):
        for b in dict.fromkeys(("vtk42", "vtu", "gmsh22", "xdmf", a)):
            add(f"names-{a}-{b}", "named", a=a, b=b)
    for dt in ("f4", "f8"):
        for b in ("vtk51b", "vtk42b", "vtub", "xdmfh", "gmsh22b"):
            add(f"ptype-{dt}-{b}", "ptype", dt=dt, b=b)
    for n in range(4):
        add(f"moredata-{n}", "moredata", n=n)
    for n in range(4):
        add(f"info-many{n}", "infomany", n=n)
    for k in ("sets2data", "data2sets", "floatfmt", "info"):
        for n in range(3):
            add(f"{k}-{n}", k, n=n)
    return out


def harness(h, sc):
    globals()[sc["k"]](h, sc)


def cli(h, *argv, ok=True):
    """run the command; what it printed"""
    main = sys.modules["meshio._cli"].main
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        old, sys.stdin = sys.stdin, io.StringIO()  # exit() closes it
        try:
            r = main([str(a) for a in argv])
        finally:
            sys.stdin = old
    h.check(not r if ok else r not in (None, 0), f"{argv[0]} returned {r}")
    return o.getvalue() + e.getvalue()


def mesh_of(h, f, n=0):
    """-> mesh, data that the format keeps"""
    x = h.floats("x", (5, 3))
    if f in ("flac3d", "stl", "nastran", "ansys", "abaqus", "medit"):
        x = h.const([[0, 0, 0], [1.5, 0, 0], [0, 1, 0], [0, 0, 1.25], [2, -3, 1]], dtype="f8")
    bl = {"flac3d": [["tetra", 1]], "stl": [["triangle", 2]], "cgns": [["tetra", 2]], "h5m": [["triangle", 2], ["tetra", 1]], "off": [["triangle", 2]],
          "ply": [["triangle", 2], ["quad", 1]], "ansys": [["triangle", 2], ["quad", 1]], "gmsh": [["triangle", 2]]}.get(f, BL)
    if f in ("flac3d", "stl"):
        cells = [(t, h.const([[(i + 2 * j) % 5 for i in range(NN[t])] for j in range(m)], dtype="i8")) for t, m in bl]
    else:
        cells = [(t, h.ints(f"c{b}", (m, NN[t]), 0, 4)) for b, (t, m) in enumerate(bl)]
    pd = cd = None
    if f in ("vtk", "vtu", "xdmf", "gmsh"):
        pd = {"p": h.floats("p", (5,)), "v": h.floats("v", (5, 3))}
        cd = {"a": [h.floats(f"a{b}", (m,)) for b, (t, m) in enumerate(bl)]}
    if f in ("vtk", "vtu", "xdmf"):
        cd["i"] = [h.ints(f"i{b}", (m,), -9, 9, "i4") for b, (t, m) in enumerate(bl)]
    if f == "ply":
        pd = {"p": h.floats("p", (5,))}
    return h.meshio.Mesh(x, cells, point_data=pd, cell_data=cd)


def eqmesh(h, a, b, label, digits=None, data=True):
    """a: got, b: expected; adjacent blocks may be merged"""
    h.same(a.points, b.points, label + ": points", digits=digits)
    check_cells(h, a, [(c.type, c.data) for c in b.cells], label)
    if not data:
        return
    ign = {"gmsh:dim_tags", "gmsh:physical", "gmsh:geometrical"}
    h.check(set(a.point_data) - ign == set(b.point_data) - ign, f"{label}: point data {sorted(a.point_data)} instead of {sorted(b.point_data)}")
    h.check(set(a.cell_data) - ign == set(b.cell_data) - ign, f"{label}: cell data {sorted(a.cell_data)} instead of {sorted(b.cell_data)}")
    for k in b.point_data:
        if k in a.point_data:
            h.same(a.point_data[k], b.point_data[k], f"{label}: {k}", digits=digits, dtype=b.point_data[k].dtype)
    for k in b.cell_data:
        if k in a.cell_data:
            h.same(h.np.concatenate(a.cell_data[k]), h.np.concatenate(b.cell_data[k]), f"{label}: {k}", digits=digits)


def prepare(h, v, one=False):
    e, w, o = VAR[v]
    f = FMT.get(w, w)
    p = h.path("a" + e)
    m = mesh_of(h, f)
    if one:  # a single block, no data
        m = h.meshio.Mesh(m.points, m.cells[:1])
    h.meshio.write(p, m, file_format=w, **o)
    return p, f, h.meshio.read(p, file_format=f)


def inplace(h, sc):
    cmd = sc["cmd"]
    p, f, before = prepare(h, sc["v"], sc["fl"] == "one")
    flags = ["-i", f] if sc["fl"] == "i" else ["--max"] if sc["fl"] == "max" else []
    cli(h, {"ascii": "a", "binary": "b"}.get(cmd, cmd) if sc["fl"] == "one" else cmd, *flags, p)
    after = h.meshio.read(p, file_format=f)
    text = cmd == "ascii"
    eqmesh(h, after, before, f"{cmd} {f}", digits=11 if text else None, data=f != "stl")
    look = HEAD.get((cmd, f))
    if look:
        h.check(look(h.read_bytes(p)), f"{f} file is not {cmd}")
    if (cmd, f) == ("compress", "vtu"):
        h.check((b"LZMA" in h.read_bytes(p)) == (sc["fl"] == "max"), "method of compression")
    # and by its name alone
    eqmesh(h, h.meshio.read(p), after, f"{cmd} {f}, read again", data=f != "stl")
    if cmd in ("compress", "decompress") and f in ("xdmf", "cgns", "h5m"):
        hdf(h, sc, p if f != "xdmf" else str(pathlib.Path(p).with_suffix(".h5")))


def hdf(h, sc, p):
    import h5py

    comp = []
    with h5py.File(p, "r") as f:
        f.visititems(lambda n, o: comp.append((n, o.compression, o.compression_opts, o.shape)) if isinstance(o, h5py.Dataset) else None)
    comp = [c for c in comp if c[3]]
    if sc["cmd"] == "decompress":
        h.check(not any(c[1] for c in comp), "still compressed")
    else:
        lv = 9 if sc["fl"] == "max" else 4
        h.check(any(c[1] == "gzip" and c[2] == lv for c in comp), "compressed")
        h.check(all(c[1] in (None, "gzip") and c[2] in (None, lv) for c in comp), "level of compression")


def refused(h, sc):
    """a command that cannot do it says so and leaves the file alone"""
    p, f, before = prepare(h, sc["v"])
    old = h.read_bytes(p)
    try:
        cli(h, sc["cmd"], p, ok=False)
    except (SystemExit, h.meshio.WriteError, TypeError) as e:
        h.check(not isinstance(e, SystemExit) or e.code not in (None, 0), "no complaint")
    h.check(h.read_bytes(p) == old, "the file was changed")


TEXT = {"vtk42a": 17, "vtua": 11, "xdmfx": 16, "gmsh22a": 16, "gmsh41a": 16, "medit": 17, "abaqus": 16, "nastran": 9, "ansysa": 16, "ansysb": None, "plya": 17, "off": 16, "stla": 6}


def convert(h, sc):
    a, b = sc["a"], sc["b"]
    ea, wa, oa = VAR[a]
    eb, wb, ob = VAR[b]
    fa, fb = FMT.get(wa, wa), FMT.get(wb, wb)
    # a mesh that both can hold
    both = next((f for f in ("stl", "ansys", "nastran", "ply", "abaqus", "medit") if f in (fa, fb)), "plain")
    if both == "plain" and "gmsh" in (wa, wb):
        both = "gmsh"
    m = mesh_of(h, both)
    if "gmsh" in (wa, wb):  # one block, as there is no entity information
        m.cells = m.cells[:1]
    if both == "gmsh":
        del m.point_data["v"]
        both = "plain"
    elif both == "plain":
        m.point_data = {"p": h.floats("p", (5,))}
        m.cell_data = {"a": [h.floats(f"a{k}", (len(c),)) for k, c in enumerate(m.cells)]}
    p, q = h.path("in" + ea), h.path("out" + eb)
    h.meshio.write(p, m, file_format=wa, **oa)
    flags = ["--ascii"] if sc.get("ascii") else []
    if ea == ".msh":
        flags += ["-i", fa]
    if eb == ".msh" or wb == "vtk42":
        flags += ["-o", wb]
    cli(h, "convert", *flags, p, q)
    g = h.meshio.read(q, file_format=fb)
    d = [TEXT[v] for v in (a, b) if TEXT.get(v)] + ([11] if sc.get("ascii") else [])
    if both == "stl":
        c0 = h.np.concatenate([c.data for c in m.cells])
        h.same(g.points[g.cells[0].data], m.points[c0], "corners", digits=5)
    else:
        h.same(g.points, m.points, "points", digits=min(d) if d else None)
        check_cells(h, g, [(c.type, c.data) for c in m.cells], "cells")
    if both == "plain":
        h.same(g.point_data["p"], m.point_data["p"], "point data", digits=min(d) if d else None)
        h.same(h.np.concatenate(g.cell_data["a"]), h.np.concatenate(m.cell_data["a"]), "cell data", digits=min(d) if d else None)
    if sc.get("ascii"):
        h.check(HEAD[("ascii", fb)](h.read_bytes(q)), "not ASCII")
    # the input is still what it was
    h.same(h.meshio.read(p, file_format=fa).points, m.points, "input", digits=min(d) if d else None)


def sets2data(h, sc):
    """sets become integer data: each entity's value stands for the sets it is in"""
    x = h.floats("x", (5, 3))
    cells = [("triangle", h.ints("t", (2, 3), 0, 4)), ("quad", h.ints("q", (2, 4), 0, 4))]
    c = lambda v: h.const(v, dtype="i8")
    cs = [{"A": [c([0]), c([1])], "B": [c([1]), c([0])]}, {"A": [c([1]), c([])], "B": [c([]), c([0, 1])]}, {"A": [c([]), c([1])]}][sc["n"]]
    ps = [{"P": c([0, 4])}, {"P": c([0]), "Q": c([1, 2])}, {"Q": c([3, 1])}][sc["n"]]
    h.meshio.Mesh(x, cells, cell_sets=cs, point_sets=ps).write(h.path("a.inp"))
    cli(h, "convert", "--sets-to-int-data", h.path("a.inp"), h.path("b.vtu"))
    g = h.meshio.read(h.path("b.vtu"))
    h.check(len(g.point_data) == 1 and len(g.cell_data) == 1, f"data {list(g.point_data)} {list(g.cell_data)}")
    (pn, pv), = g.point_data.items()
    (cn, cv), = g.cell_data.items()
    groups(h, pn, [int(v) for v in pv], {k: [int(i) for i in v] for k, v in ps.items()}, 5, "point")
    flat = {k: [int(i) + 2 * b for b, v in enumerate(vs) for i in v] for k, vs in cs.items()}
    groups(h, cn, [int(v) for a in cv for v in a], flat, 4, "cell")


def groups(h, name, vals, sets, n, label):
    """same value: in the same sets"""
    member = [frozenset(k for k in sets if i in sets[k]) for i in range(n)]
    for i in range(n):
        for j in range(n):
            h.check((vals[i] == vals[j]) == (member[i] == member[j]), f"{label} data of {i} and {j}")
    h.check(all(k in name for k in sets), f"{label} data name {name}")


def data2sets(h, sc):
    x = h.floats("x", (5, 3))
    cells = [("triangle", h.ints("t", (2, 3), 0, 4)), ("quad", h.ints("q", (1, 4), 0, 4))]
    v = h.ints("v", (2,), 3, 4, "i4"), h.ints("w", (1,), 3, 4, "i4")
    pv = h.ints("p", (5,), 1, 2, "i8") if sc["n"] == 0 else h.const([7, 7, 8, 9, 7], dtype="i8")
    if sc["n"] == 2:
        v = h.const([-1, 3], dtype="i4"), h.const([5], dtype="i4")
    h.meshio.write(h.path("a.vtu"), h.meshio.Mesh(x, cells, point_data={"pd": pv}, cell_data={"cd": list(v)}))
    cli(h, "convert", "-d", h.path("a.vtu"), h.path("b.inp"))
    g = h.meshio.read(h.path("b.inp"))
    pv = [int(k) for k in pv]
    want = {}
    for i, k in enumerate(pv):
        want.setdefault(k, []).append(i)
    got = sorted(sorted(int(i) for i in s) for s in g.point_sets.values())
    h.check(got == sorted(want.values()), f"point sets {got}")
    v = [int(k) for k in v[0]], [int(k) for k in v[1]]
    want = sorted([[i for i in range(2) if v[0][i] == k], [i for i in range(1) if v[1][i] == k]] for k in set(v[0] + v[1]))
    got = sorted([sorted(int(i) for i in (b if b is not None else [])) for b in s] for s in g.cell_sets.values())
    h.check(got == want, f"cell sets {got} instead of {want}")


def floatfmt(h, sc):
    """--float-format changes the digits of the text, nothing else"""
    x = h.const([[0, 0, 0], [1 / 3, 0, 0], [0, 2 / 3, 0], [0.123456789, 0.1, 0]], dtype="f8")
    c = h.ints("c", (2, 3), 0, 3)
    h.meshio.write(h.path("a.vtu"), h.meshio.Mesh(x, [("triangle", c)]))
    out = ["b.msh", "b.mesh", "b.inp"][sc["n"]]
    flags = ["-o", "gmsh22", "--ascii"] if sc["n"] == 0 else []
    for fmt, d in ((".3e", 4), (".8e", 9)):
        cli(h, "convert", *flags, "-f", fmt, h.path("a.vtu"), h.path(out))
        g = h.meshio.read(h.path(out), file_format="gmsh" if flags else None)
        h.same(g.points, x, "points", digits=d)
        h.same(g.cells[0].data, c, "cells")
        h.check((b"3.333e-01" in h.read_bytes(h.path(out))) == (fmt == ".3e"), "digits")


def info(h, sc):
    """info warns of cells that refer to points that do not exist, and of unused points"""
    hi = [3, 4, 5][sc["n"]]
    c = h.ints("c", (1, 3), 0, hi)
    d = h.const([[0, 2]], dtype="i8")
    x = h.floats("x", (4, 3))
    h.meshio.write(h.path("a.vtk"), h.meshio.Mesh(x, [("line", d), ("triangle", c)]))
    c, d = [int(v) for v in c[0]], [int(v) for v in d[0]]
    out = cli(h, "info", h.path("a.vtk"))
    h.check(("Warning" in out) == (max(c + d) > 3 or len(set(c + d)) < 4), "warning of missing or unused points")



def infomany(h, sc):
    """the same in long meshes, for cells of many nodes and for many blocks"""
    n = sc["n"]
    npts = 20
    t = ["hexahedron20", "tetra10", "line", "quad8"][n]
    used = list(range(npts))
    rows = [used[k : k + NN[t]] for k in range(0, npts, NN[t])]
    rows[-1] = used[-NN[t]:]
    v = h.ints("v", (1,), npts - 2, npts)
    k = int(v[0])
    # the last node of the last cell is the only use of the last point
    rows[-1][-1] = k
    blocks = [(t, h.const(rows, dtype="i8"))] if n == 0 else [(t if i == j else "vertex", h.const([r] if i == j else [[0]], dtype="i8")) for i, r in enumerate(rows) for j in range(i + 1)]
    h.meshio.write(h.path("a.vtk"), h.meshio.Mesh(h.floats("x", (npts, 3)), blocks))
    want = k > npts - 1 or k != npts - 1
    for cmd in ("info", "i"):
        h.check(("Warning" in cli(h, cmd, h.path("a.vtk"))) == want, f"warning with {k}")


def named(h, sc):
    """formats given by name, whatever the files are called"""
    a, b = sc["a"], sc["b"]
    (ea, wa, ta, da), (eb, wb, tb, db) = PAIR[a], PAIR[b]
    x = h.const([[0, 0, 0], [1.5, 0, 0], [0, 1, 0], [0, 0, 1.25]], dtype="f8")
    c = h.ints("c", (2, 3), 0, 3)
    h.meshio.write(h.path("in" + ea), h.meshio.Mesh(x, [("triangle", c)]), file_format=wa)
    for n, (p, q) in enumerate((("x.stl", "y.inp"), ("x", "y"), ("x.mesh", "y.off"))):
        os.replace(h.path("in" + ea), h.path(p))
        cli(h, ["convert", "c"][n % 2], "-i" if n else "--input-format", FMT.get(wa, wa), "-o" if n else "--output-format", wb, h.path(p), h.path(q))
        g = h.meshio.read(h.path(q), file_format=FMT.get(wb, wb))
        h.same(g.points, x, f"points of {q}")
        h.check([k.type for k in g.cells] == ["triangle"], "type")
        h.same(g.cells[0].data, c, f"cells of {q}")
        os.replace(h.path(p), h.path("in" + ea))


def ptype(h, sc):
    """points stay in their type"""
    e, w, o = VAR[sc["b"]]
    x = h.floats("x", (4, 3), sc["dt"])
    h.meshio.write(h.path("a.vtu"), h.meshio.Mesh(x, [("triangle", h.ints("c", (2, 3), 0, 3))]))
    cli(h, "convert", h.path("a.vtu"), h.path("b" + e), "-o", w)
    g = h.meshio.read(h.path("b" + e), file_format=FMT.get(w, w))
    h.same(g.points, x, "points", dtype=None if e == ".msh" else sc["dt"])


def moredata(h, sc):
    """--int-data-to-sets converts every array of one integer per entity and no other"""
    n = sc["n"]
    x = h.floats("x", (4, 3))
    cells = [("triangle", h.ints("t", (2, 3), 0, 3)), ("quad", h.ints("q", (1, 4), 0, 3))]
    dts = [("i4", "u4"), ("u1", "i8"), ("i2", "u8"), ("u2", "i1")][n]
    pd = {"p0": h.const([1, 2, 1, 2], dtype=dts[0]), "pv": h.const([[1, 2, 3]] * 4, dtype="i4"), "pf": h.floats("f", (4,)), "p1": h.const([5, 5, 5, 6], dtype=dts[1])}
    cd = {"c0": [h.const([3, 4], dtype=dts[0]), h.const([4], dtype=dts[0])], "cf": [h.floats("cf0", (2,)), h.floats("cf1", (1,))],
          "cv": [h.const([[1, 2, 3]] * 2, dtype="i4"), h.const([[4, 5, 6]], dtype="i4")], "c1": [h.const([7, 7], dtype=dts[1]), h.const([8], dtype=dts[1])]}
    h.meshio.write(h.path("a.vtu"), h.meshio.Mesh(x, cells, point_data=dict(pd), cell_data={k: list(v) for k, v in cd.items()}))
    cli(h, "convert", ["-d", "--int-data-to-sets"][n % 2], h.path("a.vtu"), h.path("b.inp"))
    g = h.meshio.read(h.path("b.inp"))
    got = sorted(sorted(int(i) for i in s) for s in g.point_sets.values())
    h.check(got == [[0, 1, 2], [0, 2], [1, 3], [3]], f"point sets {got}")
    got = sorted([[int(i) for i in (b if b is not None else [])] for b in s] for s in g.cell_sets.values())
    h.check(got == [[[], [0]], [[0], []], [[0, 1], []], [[1], [0]]], f"cell sets {got}")
    cli(h, "convert", "-d", h.path("a.vtu"), h.path("c.vtu"))
    g = h.meshio.read(h.path("c.vtu"))
    for k in ("pv", "pf"):
        h.same(g.point_data[k], pd[k], k)
    for k in ("cv", "cf"):
        for b in range(2):
            h.same(g.cell_data[k][b], cd[k][b], k)


def pair(h, sc):
    """any format to any other: the mesh arrives"""
    (ea, wa, ta, da), (eb, wb, tb, db) = PAIR[sc["a"]], PAIR[sc["b"]]
    t = T if T in ta & tb else H
    flat = sc["b"] == "svg"
    x = h.const([[0, 0, 0], [1.5, 0, 0], [0, 1, 0], [0, 0, 0 if flat else 1.25]], dtype="f8")
    corner = {"stl", "wkt"} & {sc["a"], sc["b"]}
    c = h.const([[0, 1, 2], [0, 2, 3]] if t == T else [[0, 1, 2, 3]], dtype="i8") if corner or "flac3d" in (sc["a"], sc["b"]) else h.ints("c", (2, NN[t]), 0, 3)
    pd, cd = {}, {}
    if wa in ("vtk42", "vtk51", "vtu", "xdmf", "gmsh", "gmsh22"):
        pd, cd = {"p": h.floats("p", (4,)), "v": h.floats("v", (4, 3))}, {"q": [h.floats("q", (len(c),))]}
    if wa in ("vtk42", "vtk51", "vtu", "xdmf"):
        cd["i"] = [h.ints("i", (len(c),), 1, 2, "i4") if wb not in ("netgen", "su2") else h.const([2] * len(c), dtype="i4")]
        cd["w"] = [h.ints("w", (len(c), 3), 1, 2, "i4")]
    p, q = h.path("in" + ea), h.path("out" + eb)
    h.meshio.write(p, h.meshio.Mesh(x, [(t, c)], point_data=pd, cell_data=cd), file_format=wa)
    m = h.meshio.read(p, file_format=FMT.get(wa, wa))
    flags = (["-i", FMT.get(wa, wa)] if ea == ".msh" else []) + (["-o", wb] if eb in (".msh", ".vtk") else [])
    cli(h, "convert", *flags, p, q)
    if flat:
        return h.check(h.read_bytes(q)[:4] == b"<svg", "an SVG file")
    g = h.meshio.read(q, file_format=FMT.get(wb, wb))
    d = [v for v in (da, db) if v]
    got = [b for b in g.cells if b.type == t]
    h.check(len(got) == 1 and all(b.type in (t, "vertex") for b in g.cells), f"blocks {[b.type for b in g.cells]}")
    if len(got) != 1:
        return
    pts = m.points if m.points.shape[1] == g.points.shape[1] else x
    if corner:
        src = [b for b in m.cells if b.type == t][0].data
        h.same(g.points[got[0].data], pts[src], "corners", digits=min(d) if d else None)
    else:
        h.same(g.points, pts, "points", digits=min(d) if d else None)
        h.same(got[0].data, [b for b in m.cells if b.type == t][0].data, "cells")
