"""The options of the writers decide the kind of the file, and nothing else."""

import os
import pathlib
import re

from .common import NN
from .p_cli import FMT, VAR, eqmesh, mesh_of

BOUNDS = "4..5 points, 1..3 blocks of <= 2 cells, symbolic coordinates, connectivity and data (coordinates fixed where the digits are looked at, and for FLAC3D, STL, Nastran, ANSYS, Abaqus, Medit); every value of binary, compression, compression_opts, data_format, header_type, fmt_version, float_fmt, point_format, cell_format, add_global_ids, translate_cell_names; written by meshio.write, Mesh.write and the module's write"
OUTSIDE = "the size of compressed files; float formats other than .3e, .5f, .9e and the default"

# writer -> (extension, options and what they mean); the first is what happens without options
KINDS = {
    "vtk": (".vtk", [({}, "b51"), ({"binary": True}, "b51"), ({"binary": False}, "a51")]),
    "vtk51": (".vtk", [({}, "b51"), ({"binary": False}, "a51")]),
    "vtk42": (".vtk", [({}, "b42"), ({"binary": True}, "b42"), ({"binary": False}, "a42")]),
    "vtu": (".vtu", [({}, "bz"), ({"binary": False}, "a"), ({"compression": "zlib"}, "bz"), ({"compression": "lzma"}, "bl"), ({"compression": None}, "b"),
                     ({"header_type": "UInt64"}, "bz8"), ({"header_type": "UInt32"}, "bz"), ({"compression": None, "header_type": "UInt64"}, "b8"), ({"compression": "lzma", "header_type": "UInt64"}, "bl8"),
                     ({"binary": False, "compression": None}, "a"), ({"binary": False, "compression": "lzma"}, "a")]),
    "gmsh": (".msh", [({}, "b4.1"), ({"binary": True}, "b4.1"), ({"binary": False}, "a4.1")]),
    "gmsh22": (".msh", [({}, "b2.2"), ({"binary": True}, "b2.2"), ({"binary": False}, "a2.2")]),
    "xdmf": (".xdmf", [({}, "hg4"), ({"data_format": "HDF"}, "hg4"), ({"compression": None}, "h-"), ({"compression_opts": 9}, "hg9"), ({"compression": "gzip", "compression_opts": 1}, "hg1"),
                       ({"compression": "lzf", "compression_opts": None}, "hl"), ({"data_format": "XML"}, "x"), ({"data_format": "Binary"}, "b")]),
    "ansys": (".msh", [({}, "b"), ({"binary": True}, "b"), ({"binary": False}, "a")]),
    "ply": (".ply", [({}, "b"), ({"binary": True}, "b"), ({"binary": False}, "a")]),
    "stl": (".stl", [({}, "a"), ({"binary": True}, "b"), ({"binary": False}, "a")]),
    "flac3d": (".f3grid", [({}, "a"), ({"binary": True}, "b"), ({"binary": False}, "a")]),
    "cgns": (".cgns", [({}, "g4"), ({"compression": None, "compression_opts": None}, "-"), ({"compression_opts": 9}, "g9"), ({"compression": "gzip", "compression_opts": 2}, "g2")]),
    "h5m": (".h5m", [({}, "g4"), ({"compression": None, "compression_opts": None}, "-"), ({"compression_opts": 9}, "g9"), ({"compression": "gzip", "compression_opts": 2}, "g2")]),
    "hmf": (".hmf", [({}, "g4"), ({"compression": None, "compression_opts": None}, "-"), ({"compression_opts": 9}, "g9"), ({"compression": "gzip", "compression_opts": 2}, "g2")]),
}
ROUTES = ["function", "method", "module"]
FLOAT = {"abaqus": (".inp", {}), "flac3d": (".f3grid", {}), "gmsh": (".msh", {"binary": False}), "gmsh22": (".msh", {"binary": False}), "mdpa": (".mdpa", {}), "medit": (".mesh", {}),
         "netgen": (".vol", {}), "tetgen": (".ele", {})}
NAS = {"free": ",", "fixed-small": " ", "fixed-large": "*"}


def scenarios(tier):
    out = []
    for w, (_, opts) in KINDS.items():
        for n in range(len(opts)):
            out.append(dict(id=f"kind-{w}-{n}", k="kind", w=w, n=n))
    for w in FLOAT:
        out.append(dict(id=f"float-{w}", k="float", w=w))
    for p in NAS:
        for c in NAS:
            out.append(dict(id=f"nastran-{p}-{c}", k="nastran", p=p, c=c, max_paths=40))
    for n in ("nastran", "vtk", "gmsh", "h5m", "abaqus", "refused"):
        out.append(dict(id="more-" + n, k=n if n in ("h5m", "abaqus", "refused") else "more", w=n, max_paths=40))
    return out


def text(h, p, note):
    b = h.read_bytes(p)
    try:
        t = b.decode()
    except UnicodeDecodeError:
        return h.fail(f"{note}: bytes in a text file")
    h.check(not any(ord(c) < 32 and c not in "\n\r\t" for c in t), f"{note}: control characters in a text file")


def hdf(h, p, want, note):
    import h5py

    comp = []
    with h5py.File(p, "r") as f:
        f.visititems(lambda n, o: comp.append((n, o.compression, o.compression_opts, o.shape)) if isinstance(o, h5py.Dataset) else None)
    comp = [c for c in comp if c[3]]
    want = (None, None) if want == "-" else ("lzf", None) if want == "l" else ("gzip", int(want[1]))
    got = {c[1:3] for c in comp}
    # a few small sets are never compressed
    h.check(want in got and got <= {want, (None, None)}, f"{note}: compression {sorted(map(str, got))}")


def look(h, f, p, kind, note):
    """the file is what the options ask for, throughout"""
    b = h.read_bytes(p)
    if kind[0] == "a":
        text(h, p, note)
    if f == "vtk":
        lines = b.split(b"\n", 4)
        h.check(lines[0] == b"# vtk DataFile Version " + {"51": b"5.1", "42": b"4.2"}[kind[1:]], f"{note}: version {lines[0]}")
        h.check(lines[2] == {"a": b"ASCII", "b": b"BINARY"}[kind[0]], f"{note}: {lines[2]}")
    elif f == "vtu":
        t = b.decode()
        h.check(set(re.findall(r'<DataArray[^>]* format="(\w+)"', t)) == {{"a": "ascii", "b": "binary"}[kind[0]]}, f"{note}: format of the arrays")
        if kind[0] == "b":
            h.check(re.findall(r'<VTKFile[^>]* compressor="(\w+)"', t) == ["vtkZLibDataCompressor"] * ("z" in kind) + ["vtkLZMADataCompressor"] * ("l" in kind), f"{note}: compressor")
            ht = re.findall(r'<VTKFile[^>]* header_type="(\w+)"', t)
            h.check((ht or ["UInt32"]) == ["UInt64" if "8" in kind else "UInt32"], f"{note}: header type {ht}")
    elif f == "gmsh":
        h.check(b.startswith(b"$MeshFormat\n" + kind[1:].encode() + {"a": b" 0 ", "b": b" 1 "}[kind[0]]), f"{note}: begins with {b[:24]}")
    elif f == "xdmf":
        t = b.decode()
        h.check(set(re.findall(r'<DataItem[^>]* Format="(\w+)"', t)) == {{"h": "HDF", "x": "XML", "b": "Binary"}[kind[0]]}, f"{note}: format of the items")
        d = pathlib.Path(p)
        h.check(d.with_suffix(".h5").exists() == (kind[0] == "h"), f"{note}: HDF5 file")
        h.check(any(n.endswith(".bin") and n.startswith(d.stem) for n in os.listdir(d.parent)) == (kind[0] == "b"), f"{note}: binary files")
        if kind[0] == "h":
            hdf(h, str(d.with_suffix(".h5")), kind[1:], note)
    elif f == "ansys":
        h.check((b"(3010" in b or b"(2010" in b) == (kind == "b"), f"{note}: kind of sections")
    elif f == "ply":
        h.check((b"format ascii 1.0" in b[:40], b"format binary_little_endian 1.0" in b[:40]) == (kind == "a", kind == "b"), f"{note}: begins with {b[:40]}")
    elif f == "stl":
        h.check(b.startswith(b"solid") == (kind == "a"), f"{note}: begins with {b[:6]}")
    elif f == "flac3d":
        h.check(b.startswith(b"*") == (kind == "a"), f"{note}: begins with {b[:6]}")
    else:
        hdf(h, p, kind, note)


def kind(h, sc):
    w = sc["w"]
    f = FMT.get(w, w)
    e, opts = KINDS[w]
    o, want = opts[sc["n"]]
    ref = None
    for r in ROUTES:
        m = mesh_of(h, f)
        p = h.path(r + e)
        if r == "function":
            h.meshio.write(p, m, file_format=w, **o)
        elif r == "method":
            m.write(pathlib.Path(p), file_format=w, **o)
        else:
            if w in ("vtk51", "vtk42"):
                o2 = dict(o, fmt_version={"vtk51": "5.1", "vtk42": "4.2"}[w])
            elif w == "gmsh22":
                o2 = dict(o, fmt_version="2.2")
            else:
                o2 = o
            getattr(h.meshio, f).write(p, m, **o2)
        look(h, f, p, want, f"{w} {o} by {r}")
        g = h.meshio.read(p, file_format=f)
        if ref is None:
            # the same mesh as in the usual encoding
            q = h.path("usual" + e)
            h.meshio.write(q, mesh_of(h, f), file_format=w)
            ref = h.meshio.read(q, file_format=f)
        eqmesh(h, g, ref, f"{w} {o}", digits={"stl": 6, "flac3d": 6}.get(f, 11) if "a" in (want[0], opts[0][1][0]) or want[0] == "x" else None, data=f != "stl")


X = [[0, 0, 0], [1 / 3, 0, 0], [0, 2 / 3, 0], [0, 0, 1.25]]


def floats(h, sc):
    w = sc["w"]
    e, o = FLOAT[w]
    x = h.const(X, dtype="f8")
    # FLAC3D looks at the orientation
    c = h.const([[0, 1, 2, 3]], dtype="i8") if w == "flac3d" else h.ints("c", (1, 4), 0, 3)
    for fmt, third, two, d in ((None, "3.3333333333333331e-01", "6.6666666666666663e-01", 15), (".3e", "3.333e-01", "6.667e-01", 3), (".5f", "0.33333", "0.66667", 4), (".9e", "3.333333333e-01", "6.666666667e-01", 9)):
        p = h.path("a" + e)
        h.meshio.write(p, h.meshio.Mesh(x, [("tetra", c)]), file_format=w, **o, **({"float_fmt": fmt} if fmt else {}))
        t = h.read_text(p if w != "tetgen" else p[:-4] + ".node")
        got = set(re.findall(r"[0-9.]*3333?[0-9]*(?:e-01)?|[0-9.]*66[67][0-9]*(?:e-01)?", t))
        h.check(third in got and two in got and got <= {third, two}, f"{w} {fmt}: numbers {sorted(got)}")
        g = h.meshio.read(p, file_format=FMT.get(w, w))
        h.same(g.points, x, f"{w} {fmt}: points", digits=d)
        h.same(g.cells[0].data, c, f"{w} {fmt}: cells", kind="iu")


def cards(h, p, ps, cs, note):
    names = {"GRID": set(), "CTRIA3": set(), "CHEXA": set()}
    for l in h.read_text(p).splitlines():
        m = re.match(r"([A-Z][A-Z0-9]*)(.)", l)
        if m and m.group(1) in names:
            names[m.group(1)].add(m.group(2))
    # CTRIA3 fills six of the eight columns of its field
    h.check(names["GRID"] == {ps}, f"{note}: GRID cards {names['GRID']}")
    for n in ("CTRIA3", "CHEXA"):
        h.check(names[n] <= {cs} and len(names[n]) == 1, f"{note}: {n} cards {names[n]}")


def nasmesh(h):
    x = h.const([[0, 0, 0], [1.5, 0, 0], [0, 1, 0], [0, 0, 1.25], [2, -3, 1], [4, 4, 4], [5, 5, 5], [6, 6, -6]], dtype="f8")
    return h.meshio.Mesh(x, [("triangle", h.ints("t", (2, 3), 0, 7)), ("hexahedron", h.ints("h", (1, 8), 0, 7))])


def nastran(h, sc):
    m = nasmesh(h)
    p = h.path("a.bdf")
    h.meshio.write(p, m, point_format=sc["p"], cell_format=sc["c"])
    cards(h, p, NAS[sc["p"]], NAS[sc["c"]], f"{sc['p']}, {sc['c']}")
    g = h.meshio.read(p)
    eqmesh(h, g, m, f"{sc['p']}, {sc['c']}", digits=5, data=False)


def more(h, sc):
    w = sc["w"]
    if w == "nastran":
        p = h.path("a.bdf")
        h.meshio.write(p, nasmesh(h))
        return cards(h, p, "*", " ", "default")
    m = mesh_of(h, w)
    for v in ("5.1", "4.2", "5.1") if w == "vtk" else ("4.1", "4.0", "2.2", "4.1"):
        for binary in (True, False):
            p = h.path(f"a{v}" + (".vtk" if w == "vtk" else ".msh"))
            getattr(h.meshio, w).write(p, m, fmt_version=v, binary=binary)
            look(h, w, p, "ab"[binary] + (v.replace(".", "") if w == "vtk" else v), f"{w} {v} binary={binary}")
            eqmesh(h, h.meshio.read(p, file_format=w), m, f"{w} {v}", digits=None if binary else 11, data=False)


def h5m(h, sc):
    import h5py

    m = mesh_of(h, "h5m")
    for o, has in (({}, True), ({"add_global_ids": True}, True), ({"add_global_ids": False}, False)):
        p = h.path("a.h5m")
        h.meshio.write(p, m, **o)
        names = []
        with h5py.File(p, "r") as f:
            f.visit(names.append)
            if has:
                h.check("tstt/nodes/tags/GLOBAL_ID" in names and "tstt/tags/GLOBAL_ID" in names, f"{o}: no numbers of the nodes")
                got = [int(i) for i in f["tstt/nodes/tags/GLOBAL_ID"][()]]
                h.check(got == list(range(1, 6)), f"numbers {got}")
        if not has:
            h.check(not any("GLOBAL_ID" in n for n in names), f"{o}: numbers")
        g = h.meshio.read(p)
        h.same(g.points, m.points, f"h5m {o}: points")
        for b in m.cells:
            h.same(g.get_cells_type(b.type), b.data, f"h5m {o}: {b.type}", kind="iu")


def abaqus(h, sc):
    m = h.meshio.Mesh(h.const(X, dtype="f8"), [("triangle", h.ints("t", (2, 3), 0, 3)), ("tetra", h.ints("h", (1, 4), 0, 3))])
    for o, names in (({}, False), ({"translate_cell_names": True}, False), ({"translate_cell_names": False}, True)):
        p = h.path("a.inp")
        h.meshio.write(p, m, **o)
        got = [l.split("TYPE=")[1].split(",")[0].strip() for l in h.read_text(p).splitlines() if "TYPE=" in l]
        if names:
            h.check(got == ["triangle", "tetra"], f"{o}: types {got}")
        else:
            h.check(not set(got) & set(NN), f"{o}: types {got}")
            eqmesh(h, h.meshio.read(p), m, f"abaqus {o}", digits=15, data=False)


def refused(h, sc):
    """what the writers do not know they refuse"""
    m = h.meshio.Mesh(h.floats("x", (3, 3)), [("triangle", h.ints("c", (1, 3), 0, 2))])
    for call in (lambda: h.meshio.vtk.write(h.path("a.vtk"), m, fmt_version="6.0"),
                 lambda: h.meshio.gmsh.write(h.path("a.msh"), m, fmt_version="3.0"),
                 lambda: h.meshio.write(h.path("a.vtu"), m, compression="bz2"),
                 lambda: h.meshio.write(h.path("a.xdmf"), m, data_format="hdf"),
                 lambda: h.meshio.xdmf.TimeSeriesWriter(h.path("b.xdmf"), data_format="Text"),
                 lambda: h.meshio.write(h.path("a.bdf"), m, point_format="wide"),
                 lambda: h.meshio.write(h.path("a.bdf"), m, cell_format="wide"),
                 lambda: h.meshio.write(h.path("a.off"), m, binary=True),
                 lambda: h.meshio.write(h.path("a.vtk"), m, no_such_option=1)):
        try:
            call()
        except Exception:
            continue
        h.fail("an unknown option was accepted")


def harness(h, sc):
    {"kind": kind, "float": floats, "nastran": nastran, "more": more, "h5m": h5m, "abaqus": abaqus, "refused": refused}[sc["k"]](h, sc)
