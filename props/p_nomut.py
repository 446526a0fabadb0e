"""Writing a mesh leaves the mesh object as it was, in every format."""

import struct

import numpy as _np

from .common import NN, data, spread

BOUNDS = "3..9 points, 1..12 blocks of <= 2 cells of the types of the format and of every type up to third order, one mesh of 300 points and 150 cells per block for each format; symbolic coordinates, connectivity, data (coordinates fixed for FLAC3D, STL, WKT, SVG, Nastran); concrete sets; every writer and its options, the data names with a meaning in some format"
OUTSIDE = "identity of the array objects; SVG scaling of symbolic coordinates (constant outline)"

ALL = ["triangle", "line", "quad", "triangle"]
VOL = ["tetra", "triangle", "hexahedron", "tetra"]
# format: extension, types, options
F = {
    "ansys": (".msh", ["triangle", "tetra", "quad"], [{}, {"binary": False}]),
    "flac3d": (".f3grid", None, [{}, {"binary": True}]),
    "gmsh22": (".msh", ALL, [{}, {"binary": False}]),
    "gmsh": (".msh", ALL, [{}, {"binary": False}]),
    "mdpa": (".mdpa", ALL, [{}]),
    "ply": (".ply", ["triangle", "quad"], [{}, {"binary": False}]),
    "stl": (".stl", ["triangle", "quad"], [{}, {"binary": True}]),
    "vtk42": (".vtk", ALL, [{}, {"binary": False}]),
    "vtk51": (".vtk", ALL, [{}, {"binary": False}]),
    "vtk": (".vtk", ALL, [{}]),
    "vtu": (".vtu", ALL, [{}, {"binary": False}, {"compression": None}]),
    "xdmf": (".xdmf", ALL, [{}, {"data_format": "XML"}, {"data_format": "Binary"}]),
    "cgns": (".cgns", ["tetra"], [{}]),
    "h5m": (".h5m", ["triangle", "tetra", "line"], [{}, {"add_global_ids": False}]),
    "abaqus": (".inp", ALL, [{}]),
    "avsucd": (".avs", ALL, [{}]),
    "dolfin-xml": (".xml", ["triangle", "line", "triangle"], [{}]),
    "exodus": (".e", ALL, [{}]),
    "hmf": (".hmf", ALL, [{}]),
    "med": (".med", ["triangle", "line", "quad"], [{}]),
    "medit": (".mesh", ALL, [{}]),
    "meditb": (".meshb", ALL, [{}]),
    "nastran": (".bdf", ALL, [{}, {"point_format": "free", "cell_format": "free"}]),
    "netgen": (".vol", ALL, [{}]),
    "neuroglancer": (".ng", ["triangle"], [{}]),
    "obj": (".obj", ["triangle", "quad"], [{}]),
    "off": (".off", ["triangle", "line"], [{}]),
    "permas": (".dato", ALL, [{}]),
    "su2": (".su2", ["triangle", "line", "quad"], [{}]),
    "tecplot": (".dat", ALL, [{}]),
    "tetgen": (".ele", ["tetra", "line", "tetra"], [{}]),
    "ugrid": (".ugrid", ["triangle", "quad"], [{}]),
    "ugridb": (".b8.ugrid", ["triangle", "quad"], [{}]),
    "wkt": (".wkt", ["triangle"], [{}]),
    "svg": (".svg", ["triangle", "line"], [{}]),
}
# what the meshes hold, in increasing order; the writer may reject one
KINDS = ["plain", "scalars", "vec3", "vec2", "sets", "ints", "2d", "be", "f4", "u8", "one-block", "second"]


def scenarios(tier):
    out = []
    for f, (ext, types, opts) in F.items():
        for k in KINDS:
            for n, kw in enumerate(opts):
                out.append(dict(id=f"{f}-{k}" + (f"-{n}" if n else ""), f=f, k=k, kw=kw, **({"max_paths": 60} if f in ("nastran",) else {})))
    for k in ("poly", "physical", "labels"):
        for f in ("vtu", "vtk", "xdmf", "gmsh", "gmsh22", "medit", "med", "nastran", "h5m", "exodus"):
            if k == "poly" and f not in ("vtu", "vtk"):
                continue
            out.append(dict(id=f"{f}-{k}", f=f, k=k, kw={}))
    out.append(dict(id="xdmfts", f="xdmfts", k="series", kw={}))
    for f, (ext, types, opts) in F.items():
        for n, kw in enumerate(opts):
            sfx = f"-{n}" if n else ""
            for g, ts in GROUPS.items():
                out.append(dict(id=f"{f}-types-{g}{sfx}", f=f, k="types", kw=kw, types=ts, max_paths=60))
            for k in ("many", "F", "strided", "tags", "nonesets", "large", "empty", "reversed"):
                out.append(dict(id=f"{f}-{k}{sfx}", f=f, k=k, kw=kw, max_paths=60))
    for n, (f, types, pd, cd, extra, kw) in enumerate(SPECIAL):
        out.append(dict(id=f"{f}-special-{n}", f=f, k="special", kw=kw, types=types, pd=pd, cd=cd, extra=extra, max_paths=100))
    return out


# one mesh per type
GROUPS = {
    "lin": ["vertex", "line", "triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"],
    "quadratic": ["line3", "triangle6", "quad8", "quad9", "tetra10", "pyramid13", "pyramid14", "wedge15", "wedge18", "hexahedron20"],
    "higher": ["hexahedron27", "hexahedron24", "triangle10", "tetra20", "quad16", "triangle7", "line4", "quad6", "wedge12", "pixel", "tetra14"],
}
# data of special meaning to a format: types of the blocks, point data, cell data (name, tail, dtype, range), other members, options
I1 = [1, 2]
SPECIAL = [
    ("gmsh", ["triangle", "line"], [["gmsh:dim_tags", "dimtags"]], [["gmsh:geometrical", [], "i4", "one"], ["gmsh:physical", [], "i4", "one"]], ["bounding", "names"], {}),
    ("gmsh", ["triangle", "line"], [["gmsh:dim_tags", "dimtags"]], [["gmsh:geometrical", [], "i4", "one"], ["gmsh:physical", [], "i4", "one"]], ["bounding", "names"], {"binary": False}),
    ("gmsh", ["triangle", "line"], [["gmsh:dim_tags", "dimtags"]], [["gmsh:geometrical", [], "i8", "one"]], ["periodic"], {}),
    ("gmsh", ["triangle"], [["gmsh:dim_tags", "dimtags"]], [["gmsh:geometrical", [], "i8", "one"]], ["periodic"], {"binary": False}),
    ("gmsh22", ["triangle", "line"], [["gmsh:dim_tags", "dimtags"]], [["gmsh:geometrical", [], "i8", I1], ["gmsh:physical", [], "i8", I1], ["cell_tags", [], "i8", I1]], ["periodic", "names"], {}),
    ("gmsh22", ["triangle", "line"], [], [["gmsh:geometrical", [], "i8", I1], ["gmsh:physical", [], "i8", I1], ["cell_tags", [], "i8", I1]], ["periodic", "names"], {"binary": False}),
    ("mdpa", ["tetra", "hexahedron", "triangle"], [["s", [], "f8", None]], [["gmsh:geometrical", [], "i8", I1], ["gmsh:physical", [], "i8", I1], ["q", [], "f8", None]], ["names"], {}),
    ("med", ["triangle", "line"], [["point_tags", [], "i8", [-2, 2]], ["s", [], "f8", None], ["v", [3], "f8", None]], [["cell_tags", [], "i8", [-2, 2]], ["q", [], "f8", None], ["r", [3, 2], "f8", None]], ["medtags", "mednom"], {}),
    ("stl", ["triangle", "triangle"], [], [["facet_normals", [3], "f8", None]], [], {}),
    ("stl", ["triangle", "line"], [], [["facet_normals", [3], "f8", None], ["a", [], "f8", None]], [], {"binary": True}),
    ("su2", ["tetra", "triangle", "quad", "triangle"], [], [["su2:tag", [], "i8", I1], ["other", [], "i4", I1]], [], {}),
    ("netgen", ["tetra", "triangle", "line", "vertex"], [], [["other", [], "i8", "one"], ["netgen:index", [], "i8", "one"]], ["codim", "ident"], {}),
    ("tetgen", ["tetra", "line", "tetra"], [["a", [], "f8", None], ["t:ref", [], "i8", [-9, 9]], ["v", [3], "f8", None]], [["b", [], "f8", None], ["t:ref", [], "i8", [-9, 9]], ["w", [2], "f8", None]], [], {}),
    ("avsucd", ["tetra", "hexahedron", "wedge", "pyramid"], [["s", [], "f8", None], ["v", [3], "f8", None]], [["avsucd:material", [], "i8", [-9, 9]], ["j", [], "i8", [-9, 9]], ["q", [2], "f8", None]], [], {}),
    ("medit", ["tetra", "triangle"], [["medit:ref", [], "i8", [-9, 9]], ["j", [], "i8", [-9, 9]]], [["medit:ref", [], "i8", [-9, 9]], ["j", [], "i8", [-9, 9]]], [], {}),
    ("meditb", ["tetra", "triangle"], [["medit:ref", [], "i8", [-9, 9]], ["j", [], "i8", [-9, 9]]], [["medit:ref", [], "i8", [-9, 9]], ["j", [], "i8", [-9, 9]]], [], {}),
    ("meditb", ["tetra", "triangle"], [["medit:ref", [], "i4", [-9, 9]]], [["medit:ref", [], "i4", [-9, 9]]], ["c4"], {}),
    ("ugrid", ["tetra", "pyramid", "triangle", "quad", "wedge"], [], [["ugrid:ref", [], "i8", [-9, 9]], ["j", [], "i8", [-9, 9]]], [], {}),
    ("ugridb", ["tetra", "pyramid", "triangle", "quad", "wedge"], [], [["ugrid:ref", [], "i8", [-9, 9]], ["j", [], "i8", [-9, 9]]], [], {}),
    ("nastran", ["tetra", "triangle", "hexahedron20"], [["nastran:ref", [], "i8", [-9, 9]]], [["nastran:ref", [], "i8", [-9, 9]]], [], {"point_format": "fixed-small", "cell_format": "fixed-large"}),
    ("obj", ["triangle", "quad"], [["obj:vn", [3], "f8", None], ["obj:vt", [2], "f8", None]], [["obj:group_ids", [], "i8", [0, 2]]], [], {}),
    ("ply", ["triangle", "quad", "line"], [["nx", [], "f8", None], ["red", [], "i4", None], ["v", [3], "f8", None]], [], ["c4"], {}),
    ("ply", ["triangle", "quad", "tetra"], [["nx", [], ">f8", None], ["red", [], ">i4", None]], [], [], {"binary": False}),
    ("h5m", ["triangle", "line"], [["GLOBAL_ID", [], "i8", [-9, 9]], ["v", [3], "f8", None]], [["q", [2], "f8", None], ["i", [], "i4", None]], ["sets"], {"compression": None}),
    ("hmf", ["triangle", "line"], [["v", [3], "f8", None]], [["q", [2], "f8", None]], ["sets"], {"compression": None}),
    ("cgns", ["tetra"], [], [], ["c4"], {"compression": None}),
    ("xdmf", ["triangle", "line", "triangle"], [["v", [2], "f8", None], ["t", [3, 3], "f8", None], ["i", [], "i4", None]], [["q", [2], "f8", None], ["t", [6], "f8", None]], ["sets", "names"], {"compression": None}),
    ("xdmf", ["hexahedron27", "triangle"], [["v", [2], ">f8", None]], [["q", [2], ">f4", None]], ["sets", "names"], {"data_format": "Binary"}),
    ("exodus", ["triangle", "line"], [["vX", [], "f8", None], ["vY", [], "f8", None], ["t", [3], "f4", None]], [["q", [], "f8", None]], ["sets", "info"], {}),
    ("abaqus", ["triangle", "line", "hexahedron20"], [], [], ["sets"], {"float_fmt": ".3e", "translate_cell_names": False}),
    ("flac3d", ["tetra", "triangle", "quad", "hexahedron", "wedge", "pyramid"], [], [["cell_ids", [], "i8", [1, 1]]], ["sets"], {}),
    ("flac3d", ["tetra", "triangle", "quad", "hexahedron", "wedge", "pyramid"], [], [["cell_ids", [], "i8", [1, 1]]], ["sets"], {"binary": True}),
    ("tecplot", ["tetra", "hexahedron", "wedge", "pyramid", "triangle"], [["X", [], "f8", None], ["v", [2], "f8", None]], [["z", [], "f8", None], ["q", [2], "f8", None]], [], {}),
    ("tecplot", ["quad", "triangle", "line"], [["v", [3], "f8", None]], [["q", [], "f8", None]], ["d2"], {}),
    ("dolfin-xml", ["tetra", "triangle", "tetra"], [["v", [], "f8", None]], [["q", [], "f8", None], ["i", [], "i8", [-9, 9]], ["w", [3], "f8", None]], [], {}),
    ("vtk51", ["hexahedron20", "wedge15", "hexahedron27"], [["a b", [], ">f8", None], ["v", [3], ">f4", None]], [["q r", [], ">i4", None]], ["sets"], {}),
    ("vtk42", ["hexahedron20", "wedge15", "hexahedron27"], [["a b", [], ">f8", None], ["v", [3], ">f4", None]], [["q r", [], ">i4", None]], ["names"], {}),
    ("vtu", ["hexahedron20", "wedge15", "hexahedron27"], [["a b", [], ">f8", None], ["v", [3], ">f4", None]], [["q r", [], ">i4", None]], ["names", "sets"], {"header_type": "UInt64"}),
    ("vtu", ["triangle", "line"], [["w", [2], ">f8", None]], [["q", [2, 2], "f8", None]], ["names", "nonesets"], {"compression": "lzma"}),
    ("svg", ["triangle", "line", "quad"], [], [], ["d2"], {"force_width": 30, "stroke": "red"}),
    ("wkt", ["triangle", "line", "triangle"], [], [], ["d2"], {"float_fmt": ".3e"}),
    ("permas", ["tetra10", "triangle6", "hexahedron20"], [["v", [], "f8", None]], [["q", [], "f8", None]], ["sets"], {}),
    ("neuroglancer", ["triangle", "triangle", "line"], [], [], ["c4"], {}),
    ("ansys", ["tetra", "pyramid", "wedge", "hexahedron"], [], [], ["c4", "sets"], {}),
]


def copy_of(h, v):
    if v is None or isinstance(v, (str, int, float)):
        return v
    if isinstance(v, dict):
        return {k: copy_of(h, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [copy_of(h, x) for x in v]
    if hasattr(v, "type") and hasattr(v, "data") and not hasattr(v, "dtype"):
        return ("block", v.type, copy_of(h, v.data), list(v.tags))
    return v.copy()


def same(h, a, b, label):
    """a: now, b: the copy made before"""
    if b is None or isinstance(b, (str, int, float)):
        return h.check(a is b or a == b, label)
    if isinstance(b, dict):
        h.check(isinstance(a, dict) and list(a) == list(b), f"{label}: names {list(a) if isinstance(a, dict) else a} instead of {list(b)}")
        if isinstance(a, dict) and list(a) == list(b):
            for k in b:
                same(h, a[k], b[k], f"{label} {k}")
        return
    if isinstance(b, tuple):
        h.check(a.type == b[1] and list(a.tags) == b[3], label + ": type")
        return same(h, a.data, b[2], f"{label} ({b[1]})")
    if isinstance(b, list):
        h.check(len(a) == len(b), f"{label}: length {len(a)} instead of {len(b)}")
        if len(a) == len(b):
            for k, (x, y) in enumerate(zip(a, b)):
                same(h, x, y, f"{label} {k}")
        return
    if isinstance(a, (list, tuple)):
        return h.check(len(a) == 0 and len(b) == 0, label + ": became a list")
    if a.dtype != b.dtype:  # the byte order counts as well
        return h.fail(f"{label}: dtype {a.dtype} instead of {b.dtype}")
    h.same(a, b, label, dtype=_np.dtype(b.dtype).newbyteorder("="))


PARTS = ("points", "cells", "point_data", "cell_data", "field_data", "point_sets", "cell_sets", "gmsh_periodic", "info", "point_tags", "cell_tags")


def harness(h, sc):
    np, k, f = h.np, sc["k"], sc["f"]
    if f == "xdmfts":
        return series(h, sc)
    if k in ("types", "many", "F", "strided", "tags", "nonesets", "large", "empty", "reversed", "special"):
        return general(h, sc)
    ext, types, _ = F[f]
    dim = 2 if k == "2d" else 3
    npts = 3
    cdt = "u8" if k == "u8" else ">i8" if k == "be" else "i8"
    pdt = "f4" if k == "f4" else ">f8" if k == "be" else "f8"
    if f == "flac3d":
        types = ["tetra", "triangle", "hexahedron", "tetra"]
        x = h.const([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [1, 1, 0], [0, 1, 1]], dtype=pdt)
        if dim == 2:
            x = x[:, :2]
        npts = 8
    elif f == "svg":
        x = h.const([[0, 0, 0], [2, 0, 0], [0, 1, 0]], dtype=pdt)[:, :dim]
    elif f == "nastran":
        # sign and size decide the shape of the fields
        x = h.const([[0.5, -2, 3], [1.25, 4, -7], [3, 1e10, 6]], dtype=pdt)[:, :dim]
    else:
        x = data(h, "x", (npts, dim), pdt)
    if k == "one-block":
        types = types[:1]
    if k == "second":
        types = [{"triangle": "triangle6", "quad": "quad8", "line": "line3", "tetra": "tetra10", "hexahedron": "hexahedron20"}[t] for t in types]
    cells, n = [], []
    for b, t in enumerate(types):
        m = 1 + b % 2
        n.append(m)
        if f in ("flac3d", "stl", "wkt", "svg"):
            cells.append((t, h.const([[(i + j + b) % npts for i in range(NN[t])] for j in range(m)], dtype=cdt)))
        else:
            cells.append((t, h.ints(f"c{b}", (m, NN[t]), 0, npts - 1, cdt)))
    D = {"scalars": [["s", [], "f8"], ["a b", [], "f8"]], "vec3": [["v", [3], "f8"]], "vec2": [["w", [2], "f8"]], "ints": [["i", [], "i4"], ["j", [], "i8"]],
         "be": [["s", [], ">f8"], ["i", [], ">i4"]], "f4": [["s", [], "f4"]], "u8": [["i", [], "u8"]], "2d": [["s", [], "f8"]], "second": [["s", [], "f8"]],
         "labels": [["medit:ref", [], "i4"], ["nastran:ref", [], "i4"], ["point_tags", [], "i4"]], "physical": [["q", [], "f8"]]}.get(k, [])
    rng = (2, 2) if f == "netgen" else (0, 9) if k == "u8" or f == "su2" else (-9, 9) if k in ("ints", "labels", "be") else ()
    pd = {nm: data(h, f"p{i}", (npts, *s), dt, *rng) for i, (nm, s, dt) in enumerate(D)}
    cd = {nm: [data(h, f"d{i}_{b}", (m, *s), dt, *rng) for b, m in enumerate(n)] for i, (nm, s, dt) in enumerate(D)}
    kw = {}
    if k == "labels":
        cd["cell_tags"] = cd.pop("point_tags")
    if k == "physical":
        cd["gmsh:physical"] = [h.ints(f"ph{b}", (m,), 1, 3) for b, m in enumerate(n)]
        cd["gmsh:geometrical"] = [h.ints(f"ge{b}", (m,), 1, 3) for b, m in enumerate(n)]
        kw["field_data"] = {"region": h.const([1, 2], dtype="i8")}
        if f in ("gmsh", "gmsh22"):
            kw["gmsh_periodic"] = [[1, (1, 2), None, h.const([[0, 1]], dtype="i8")]]
    if k == "sets":
        kw["point_sets"] = {"fixed": h.const([0, 2], dtype="i8"), "b c": h.const([1], dtype="i8")}
        kw["cell_sets"] = {"A": [h.const(list(range(m)), dtype="i8") for m in n], "B": [h.const([], dtype="i8") for m in n]}
    if k == "poly":
        kw = {}
        if f == "vtu":
            cells = [("polyhedron4", [[[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1]]])]
        else:
            cells = [("polygon", h.ints("pg", (2, 5), 0, 2)), ("triangle", cells[0][1])]
        pd, cd = {}, {"a": [h.floats(f"a{i}", (len(c[1]),)) for i, c in enumerate(cells)]}
    mesh = h.meshio.Mesh(x, cells, point_data=pd, cell_data=cd, **kw)
    written(h, mesh, f, sc["kw"])


def written(h, mesh, f, kw, note=""):
    ext = F[f][0]
    parts = [a for a in PARTS if hasattr(mesh, a)]
    before = {a: copy_of(h, getattr(mesh, a)) for a in parts}
    members = sorted(vars(mesh))
    fmt = f.rstrip("b") if f in ("meditb", "ugridb") else f
    try:
        h.meshio.write(h.path("a" + ext), mesh, file_format=fmt, **kw)
    except (h.meshio.WriteError, AssertionError, KeyError, ValueError, TypeError, IndexError, AttributeError, NotImplementedError, struct.error, OSError):
        pass  # not for this format; the mesh must be unharmed all the same
    h.check(sorted(vars(mesh)) == members, f"members of the mesh after writing {fmt}{note}: {sorted(vars(mesh))} instead of {members}")
    for a in parts:
        same(h, getattr(mesh, a), before[a], f"{a} after writing {fmt}{note}")


FIX = ("flac3d", "stl", "wkt", "svg", "nastran")  # formats whose writers compute with the coordinates or print by magnitude


def outline(h, f, n, dim, pdt="f8"):
    if f not in FIX:
        return spread(h, "x", (n, dim), pdt, 4) if n > 12 else data(h, "x", (n, dim), pdt)
    k = _np.arange(n)
    x = _np.column_stack([k % 3, (k // 3) % 3 * 1.0, k // 9 + (k % 2) * 0.25])
    return h.const(x[:, :dim], dtype=pdt)


def conn(h, f, name, m, n, npts, dt="i8"):
    if f in FIX or m * n > 60:
        return h.const([[(3 * j + i * (1 + j % 2)) % npts for i in range(n)] for j in range(m)], dtype=dt)
    return h.ints(name, (m, n), 0, npts - 1, dt)


def general(h, sc):
    np, k, f = h.np, sc["k"], sc["f"]
    ext, types, _ = F[f]
    if types is None:
        types = ["tetra", "triangle", "hexahedron", "tetra"]
    if k == "types":
        x = outline(h, f, 8, 3)
        for t in sc["types"]:
            c = conn(h, f, "c_" + t, 2, NN[t], 8)
            d = data(h, "q_" + t, (2,), "f8")
            written(h, h.meshio.Mesh(x, [(t, c)], cell_data={"q": [d]}), f, sc["kw"], " " + t)
        return
    special = k == "special"
    types = sc["types"] if special else types
    extra = sc["extra"] if special else []
    dim = 2 if "d2" in extra or (f == "su2" and not special) else 3
    cdt = "i4" if "c4" in extra else "i8"
    npts = {"many": 9, "large": 300}.get(k, 9 if f in FIX else 4)
    x = outline(h, f, npts, dim)
    if k == "reversed":
        types = ["tetra"] + types[::-1] + ["vertex"]
    if k == "many":
        types = types * 3
    m = {"large": 150, "empty": 0}.get(k, 2)
    cells = []
    for b, t in enumerate(types):
        mm = m if k != "empty" or b % 2 else 1
        cells.append((t, conn(h, f, f"c{b}", mm, NN[t], npts, cdt)))
    n = [len(c) for _, c in cells]
    pd, cd, kw = {}, {}, {}
    if special:
        for i, e in enumerate(sc["pd"]):
            if e[1] == "dimtags":
                pd[e[0]] = h.const([[2, 1], [2, 1], [1, 1], [1, 1]][:npts], dtype="i4")
            else:
                pd[e[0]] = data(h, f"p{i}", (npts, *e[1]), e[2], *(e[3] or ()))
        for i, e in enumerate(sc["cd"]):
            one = e[3] == "one"
            cd[e[0]] = [h.const([1] * mm, dtype=e[2]) if one else data(h, f"d{i}_{b}", (mm, *e[1]), e[2], *(e[3] or ())) for b, mm in enumerate(n)]
    elif k in ("F", "strided", "tags", "many", "reversed"):
        pd = {"s": data(h, "ps", (npts,), "f8"), "v": data(h, "pv", (npts, 3), "f8")}
        cd = {"s": [data(h, f"cs{b}", (mm,), "f8") for b, mm in enumerate(n)], "v": [data(h, f"cv{b}", (mm, 3), "f8") for b, mm in enumerate(n)]}
    elif k == "large":
        pd = {"s": spread(h, "ps", (npts,), "f8", 2)}
        cd = {"s": [spread(h, f"cs{b}", (mm,), "f8", 2) for b, mm in enumerate(n)], "i": [h.const([2 + 0 * j for j in range(mm)], dtype="i8") for mm in n]}
    elif k == "empty":
        cd = {"s": [data(h, f"cs{b}", (mm,), "f8") for b, mm in enumerate(n)]}
    if k == "F":
        x, cells = np.asfortranarray(x), [(t, np.asfortranarray(c)) for t, c in cells]
        pd, cd = {a: np.asfortranarray(v) for a, v in pd.items()}, {a: [np.asfortranarray(y) for y in v] for a, v in cd.items()}
    if k == "strided":
        x, cells = np.concatenate([x, x], axis=1)[:, :dim], [(t, np.repeat(c, 2, axis=0)[::2]) for t, c in cells]
        pd, cd = {a: np.repeat(v, 2, axis=0)[::2] for a, v in pd.items()}, {a: [np.repeat(y, 2, axis=0)[::2] for y in v] for a, v in cd.items()}
    if k in ("tags",):
        cells = [h.meshio.CellBlock(t, c, tags=[f"tag{b}", "both"]) for b, (t, c) in enumerate(cells)]
    if k == "nonesets" or "nonesets" in extra:
        kw["cell_sets"] = {"last": [None] * (len(n) - 1) + [h.const([0], dtype="i8")], "first": [h.const([1, 0], dtype="i8")] + [h.const([], dtype="i8")] * (len(n) - 1)}
        kw["point_sets"] = {"u": h.const([2, 0, 1], dtype="i8")}
    if "sets" in extra or k == "large":
        kw["cell_sets"] = {"A": [h.const(list(range(mm))[::-1], dtype="i8") for mm in n], "B c": [h.const([0], dtype="i8") for mm in n]}
        kw["point_sets"] = {"fixed": h.const([2, 0], dtype="i8"), "b c": h.const([1], dtype="i8")}
    if "bounding" in extra:
        kw["cell_sets"] = {"gmsh:bounding_entities": [h.const([1], dtype="i4"), h.const([], dtype="i4")]}
    if "names" in extra:
        kw["field_data"] = {"region": h.const([1, 2], dtype="i8"), "edge": h.const([2, 1], dtype="i8")}
    if "codim" in extra:
        kw["field_data"] = {"mat": h.const([1, 3], dtype="i8"), "bc": h.const([1, 2], dtype="i8"), "cd2": h.const([1, 1], dtype="i8")}
    if "ident" in extra:
        kw["info"] = {"netgen:identifications": h.const([[1, 2, 1]], dtype="i8"), "netgen:identificationtypes": h.const([[2]], dtype="i8")}
    if "info" in extra:
        kw["info"] = ["a", "b"]
    if "periodic" in extra:
        kw["gmsh_periodic"] = [[1, (1, 2), None, h.const([[0, 1], [2, 3]], dtype="i8")], [1, (3, 4), h.const([1.0] * 16, dtype="f8"), h.const([[0, 1]], dtype="i8")]]
    if "mednom" in extra:
        kw["field_data"] = {"med:nom": ["s", "vx", "q", "r"]}
    mesh = h.meshio.Mesh(x, cells, point_data=pd, cell_data=cd, **kw)
    if "medtags" in extra:
        mesh.point_tags = {1: ["A", "B"], 2: ["B"]}
        mesh.cell_tags = {-1: ["X"], -2: ["X", "Y"]}
    written(h, mesh, f, sc["kw"])


def series(h, sc):
    x = h.floats("x", (3, 2))
    cells = [("triangle", h.ints("c", (2, 3), 0, 2))]
    before = {a: copy_of(h, v) for a, v in (("x", x), ("c", cells[0][1]))}
    pd = {"s": h.floats("s", (3,)), "w": h.floats("w", (3, 2))}
    cd = {"a": [h.floats("a", (2,))]}
    b2 = copy_of(h, pd), copy_of(h, cd)
    p = h.path("a.xdmf")
    with h.meshio.xdmf.TimeSeriesWriter(p, data_format="XML") as w:
        w.write_points_cells(x, cells)
        w.write_data(0.5, point_data=pd, cell_data=cd)
        w.write_data(1.5, point_data=pd, cell_data=cd)
    same(h, x, before["x"], "points")
    same(h, cells[0][1], before["c"], "cells")
    same(h, pd, b2[0], "point data")
    same(h, cd, b2[1], "cell data")
