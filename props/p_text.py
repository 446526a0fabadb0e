"""Text formats Tecplot, AVS-UCD, SU2, MDPA, PERMAS: round trip, and files of other producers."""

import numpy as _np

from .common import NN, build, check_cells
from .rt import roundtrip_mesh

BOUNDS = ("<= 5 points (Tecplot tables: up to 41), <= 6 blocks of <= 3 cells, symbolic coordinates, connectivity, data (integers below 2^53 where the format stores "
          "reals), SU2 tags from a symbolic range of three values; hand-written files with symbolic distinct node numbers 1..60")
BOUNDS += "; also meshes of up to 5000 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = ("names with blanks, commas or quotes; several Tecplot zones; cell data and point data of MDPA and PERMAS (not read by meshio); "
           "PERMAS/MDPA sets; node order of 20/27-node hexahedra in MDPA and of quad8/hexahedron20 in PERMAS against other programs")

TP2 = {"triangle": [0, 1, 2, 2], "quad": [0, 1, 2, 3], "tetra": [0, 1, 2, 2, 3, 3, 3, 3], "pyramid": [0, 1, 2, 3, 4, 4, 4, 4],
       "wedge": [0, 1, 4, 3, 2, 2, 5, 5], "hexahedron": list(range(8))}
DIM = {"line": 1, "triangle": 2, "quad": 2, "tetra": 3, "pyramid": 3, "wedge": 3, "hexahedron": 3}
AVS = ["vertex", "line", "triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"]
SU2 = ["line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"]
MDPA = ["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "line3", "triangle6", "quad9", "tetra10", "hexahedron27", "quad8", "hexahedron20"]
PERMAS = ["vertex", "line", "line3", "quad", "quad8", "quad9", "triangle", "triangle6", "hexahedron", "hexahedron20", "hexahedron27", "tetra", "tetra10",
          "pyramid", "wedge", "wedge15"]
PTYPES = {"PLOT1": "vertex", "PLOTL2": "line", "FLA2": "line", "FLA3": "line3", "PLOTL3": "line3", "BECOS": "line", "BECOC": "line", "BETAC": "line",
          "BECOP": "line", "BETOP": "line", "BEAM2": "line", "FSCPIPE2": "line", "LOADA4": "quad", "PLOTA4": "quad", "QUAD4": "quad", "QUAD4S": "quad",
          "QUAMS4": "quad", "SHELL4": "quad", "PLOTA8": "quad8", "LOADA8": "quad8", "QUAMS8": "quad8", "PLOTA9": "quad9", "LOADA9": "quad9",
          "QUAMS9": "quad9", "PLOTA3": "triangle", "SHELL3": "triangle", "TRIA3": "triangle", "TRIA3K": "triangle", "TRIA3S": "triangle",
          "TRIMS3": "triangle", "LOADA6": "triangle6", "TRIMS6": "triangle6", "HEXE8": "hexahedron", "HEXFO8": "hexahedron", "HEXE20": "hexahedron20",
          "HEXE27": "hexahedron27", "TET4": "tetra", "TET10": "tetra10", "PYRA5": "pyramid", "PENTA6": "wedge", "PENTA15": "wedge15"}
# position in the PERMAS record of each VTK node
PORD = {"triangle6": [0, 2, 4, 1, 3, 5], "tetra10": [0, 2, 4, 9, 1, 3, 5, 6, 7, 8], "quad9": [0, 2, 8, 6, 1, 5, 7, 3, 4],
        "wedge15": [0, 2, 4, 9, 11, 13, 1, 3, 5, 6, 7, 8, 10, 12, 14]}
BIG = (-(2**53) + 1, 2**53 - 1)


def scenarios(tier):
    out = []

    def add(f, i, **sc):
        out.append(dict(id=f"{f}-{i}", fmt=f, **sc))

    D = [["s", [], "f8"], ["v", [3], "f8"]]
    I = [["i", [], "i4"], ["l", [2], "i8"]]
    for t in DIM:
        add("tec", t, blocks=[[t, 2]], npts=3, pdata=[["a", [], "f8"]], cdata=[["b", [], "f8"]])
        add("tec", t + "-twice", blocks=[[t, 2], [t, 1], [t, 3]], npts=3, cdata=D)
    for a in DIM:
        for b in DIM:
            if a != b:
                add("tec", f"{a}-{b}", blocks=[[a, 2], [b, 1], [a, 1]], npts=3, cdata=[["b", [], "f8"], ["w", [2], "f8"]])
    add("tec", "all", blocks=[["line", 1], ["triangle", 2], ["tetra", 1], ["quad", 1], ["wedge", 2], ["pyramid", 1]], npts=4, pdata=D, cdata=D)
    add("tec", "skip", blocks=[["triangle6", 1], ["triangle", 2], ["vertex", 1], ["quad", 2]], npts=4, cdata=D)
    add("tec", "ints", blocks=[["triangle", 2], ["triangle", 1]], npts=3, pdata=I, cdata=I, prange=BIG, crange=BIG, ints=True)
    add("tec", "2d", dim=2, blocks=[["triangle", 2], ["quad", 1]], npts=3, pdata=D, cdata=D)
    add("tec", "2d-none", dim=2, blocks=[["quad", 1]], npts=3)
    add("tec", "2d-cd", dim=2, blocks=[["quad", 3]], npts=3, cdata=[["b", [], "f8"]])
    for n in (19, 20, 21, 40, 41):
        add("tec", f"rows{n}", blocks=[["triangle", 2]], npts=n, pdata=[["a", [], "f8"]], cdata=[["b", [], "f8"]], few=True)
    add("tec", "cells21", blocks=[["line", 20], ["line", 21]], npts=3, pdata=[["a", [], "f8"]], cdata=[["b", [], "f8"]], few=True)
    add("tec", "pts-f4", blocks=[["triangle", 2]], npts=3, pdt="f4")
    for cdt in ("i4", "u4", "u8"):
        add("tec", "conn-" + cdt, blocks=[["triangle", 2], ["quad", 1]], npts=3, cdt=cdt)
    add("tec", "F-order", blocks=[["quad", 2]], npts=4, layout="F", pdata=D, cdata=D)
    for k in ("point", "block", "fepoint", "feblock", "nv", "varloc", "varloc2", "zonelines", "comments", "varlines", "order", "lower"):
        add("tec", "hand-" + k, special="techand", k=k)
    for t in AVS:
        add("avs", t, blocks=[[t, 2]], npts=3, pdata=[["a", [], "f8"]], cdata=[["b", [], "f8"]])
    add("avs", "all", blocks=[[t, 1 + k % 3] for k, t in enumerate(AVS)], npts=4, cdata=[["m", [], "i4"], ["b", [3], "f8"], ["c", [], "f8"]], pdata=D)
    add("avs", "rev", blocks=[[t, 2] for t in reversed(AVS)], npts=4, cdata=D)
    add("avs", "twice", blocks=[["quad", 2], ["triangle", 1], ["triangle", 2], ["quad", 1]], npts=4, cdata=[["b", [2], "f8"], ["m", [], "i8"]])
    add("avs", "mats", blocks=[["quad", 2], ["triangle", 1]], npts=4, cdata=[["a", [], "f8"], ["m", [], "i4"], ["n", [], "i4"]], crange=(-9999, 9999), pdata=I, prange=(-9999, 9999))
    add("avs", "none", blocks=[["quad", 2], ["triangle", 1]], npts=4)
    add("avs", "one", blocks=[["vertex", 1]], npts=1, pdata=[["a", [], "f8"]])
    add("avs", "2d", dim=2, blocks=[["quad", 2]], npts=3)
    add("avs", "pts-f4", blocks=[["triangle", 2]], npts=3, pdt="f4", pdata=[["f", [], "f4"]])
    for cdt in ("i4", "u4", "u8"):
        add("avs", "conn-" + cdt, blocks=[["triangle", 2], ["hexahedron", 1]], npts=3, cdt=cdt)
    add("avs", "F-order", blocks=[["quad", 2]], npts=4, layout="F", pdata=D, cdata=D)
    for k in ("plain", "nodata", "cellsonly"):
        add("avs", "hand-" + k, special="avshand", k=k)
    for t in AVS:
        add("avs", "type-" + t, special="avstype", t=t)
    for dim, inner, bd in ((2, ["triangle", "quad"], ["line"]), (3, ["tetra", "hexahedron", "wedge", "pyramid"], ["triangle", "quad"])):
        for t in inner:
            add("su2", f"{dim}-{t}", dim=dim, blocks=[[t, 2]], npts=4)
        for t in bd:
            add("su2", f"{dim}-{t}", dim=dim, blocks=[[t, 2]], npts=4, tags=True)
            add("su2", f"{dim}-{t}-only1", dim=dim, blocks=[[t, 1]], npts=4)
        for k in range(3):
            add("su2", f"{dim}-mix{k}", dim=dim, blocks=[[inner[k % len(inner)], 2], [bd[0], 2], [inner[(k + 1) % len(inner)], 1], [bd[-1], 1], [inner[k % len(inner)], 1]],
                npts=4, tags=True)
        add("su2", f"{dim}-twob", dim=dim, blocks=[[bd[0], 1], [inner[0], 1], [bd[0], 2]], npts=4, tags=True)
        add("su2", f"{dim}-nolab", dim=dim, blocks=[[bd[0], 2], [inner[0], 1], [bd[-1], 1]], npts=4)
        add("su2", f"{dim}-one", dim=dim, blocks=[[inner[0], 1]], npts=1)
        add("su2", f"{dim}-F", dim=dim, blocks=[[inner[0], 2]], npts=4, layout="F")
        for cdt in ("i4", "u8"):
            add("su2", f"{dim}-conn-{cdt}", dim=dim, blocks=[[inner[0], 2], [bd[0], 1]], npts=4, cdt=cdt)
        add("su2", f"{dim}-pts-f4", dim=dim, blocks=[[inner[0], 2]], npts=4, pdt="f4")
    for k in ("plain", "index", "comments", "names", "3d", "halo", "many"):
        add("su2", "hand-" + k, special="su2hand", k=k)
    for f, T in (("mdpa", MDPA), ("permas", PERMAS)):
        for t in T:
            add(f, t, blocks=[[t, 2]], npts=3)
            add(f, t + "-3d", blocks=[["tetra", 1], [t, 2], ["line", 1], [t, 1]], npts=3)
        add(f, "all", blocks=[[t, 1 + k % 3] for k, t in enumerate(T)], npts=5)
        add(f, "2d", dim=2, blocks=[["quad", 2]], npts=3)
        add(f, "pts-f4", blocks=[["triangle", 2]], npts=3, pdt="f4")
        for cdt in ("i4", "u4", "u8"):
            add(f, "conn-" + cdt, blocks=[["triangle", 2], ["quad9", 1]], npts=3, cdt=cdt)
        add(f, "F-order", blocks=[["quad", 2]], npts=4, layout="F")
    # larger meshes, storage types, many blocks
    BLK = {"tec": ["triangle"], "avs": ["tetra", "hexahedron", "quad", "pyramid"], "mdpa": ["tetra", "hexahedron", "quad", "triangle6"], "permas": ["tetra", "hexahedron", "wedge15", "tetra10"], "su2": ["tetra", "pyramid", "tetra"]}
    for f, T in BLK.items():
        t4 = (T * 4)[:4]
        dd = dict(pdata=D, cdata=D) if f in ("tec", "avs") else {}
        if f == "su2":
            dd = dict(dim=3)
        sizes = [150, 130, 20, 45]
        add(f, "medium", blocks=[[t, n] for t, n in zip(t4, sizes)], npts=310, medium=2, medc=0 if f in ("avs", "mdpa", "permas", "su2") else 2, **dd)
        add(f, "large", blocks=[[T[0], 4200], [T[-1], 1100]], npts=5000, medium=2, medc=0, weight=6, **dd)
        for cdt in ("u1", "i1", "i2", "u2"):
            add(f, "many-" + cdt, blocks=[[T[0], 100], [T[-1], 30]], npts=120, medium=2, medc=0, cdt=cdt, **dd)
        for k, (pp, c) in enumerate([(">f8", ">i8"), (">f4", ">i4"), ("<f8", ">u4")]):
            add(f, f"bigendian{k}", blocks=[[T[0], 2], [T[-1], 1]], npts=4, pdt=pp, cdt=c, **dd)
        for k, dts in enumerate([("i4", "i8", "u4"), ("i8", "i4", "i8"), ("u4", "i4", "u8")]):
            add(f, f"mixdt{k}", blocks=[[T[0], 2], [T[-1], 1], [T[0], 1]], npts=4, cdts=[[q, 3] for q in dts], **dd)
        add(f, "strided", blocks=[[T[0], 2], [T[-1], 2]], npts=4, layout="strided", **dd)
        for c in (1, 3, 4, 5, 7):
            add(f, f"cnt{c}", blocks=[[T[0], c], [T[-1], c + 1]], npts=c, **dd)
    for f, T in (("avs", AVS), ("mdpa", MDPA), ("permas", PERMAS)):
        add(f, "manyblocks", blocks=[[T[(k * k + k // 3) % len(T)], 1 + k % 2] for k in range(40)], npts=4)
        for k in range(len(T)):
            add(f, f"pair{k}", blocks=[[T[k], 2], [T[(k + 1) % len(T)], 1], [T[(k + 3) % len(T)], 3]], npts=4)
    add("tec", "conn-huge", blocks=[["triangle", 2], ["quad", 1]], npts=3, cmax=2**62)
    add("tec", "names", blocks=[["triangle", 2]], npts=3, pdata=[["a-b", [], "f8"], ["T", [], "f8"], ["x1", [], "f8"], ["zone", [], "f8"], ["#c", [], "f8"]], cdata=[["N", [], "f8"], ["Xx", [], "f8"], ["E", [], "f8"], ["F", [], "f8"], ["e", [], "f8"]])
    add("tec", "xyz", blocks=[["triangle", 2]], npts=3, pdata=[["X", [], "f8"], ["a", [], "f8"], ["z", [], "f8"]], cdata=[["Y", [], "f8"], ["b", [], "f8"]], xyz=True)
    add("tec", "zvec", blocks=[["triangle", 2]], npts=3, pdata=[["v", [1], "f8"], ["w", [9], "f8"]], cdata=[["v2", [9], "f8"], ["u", [1], "f8"]])
    add("tec", "out", special="tecout")
    add("tec", "out-2d", special="tecout", dim=2)
    add("avs", "names", blocks=[["triangle", 2]], npts=3, pdata=[["a-b", [], "f8"], ["T:1", [], "f8"], ["real", [], "f8"]], cdata=[["N", [], "f8"], ["a_b", [], "f8"]])
    add("avs", "vecs", blocks=[["triangle", 2], ["line", 1]], npts=3, pdata=[["a", [9], "f8"], ["b", [], "f8"], ["c", [2], "f8"]], cdata=[["d", [3], "f8"], ["e", [9], "f8"], ["f", [], "f8"], ["g", [6], "f8"]])
    add("avs", "pick", blocks=[["triangle", 2], ["line", 1]], npts=3, cdata=[["w", [2], "i4"], ["m", [], "i4"], ["n", [], "i4"]], crange=(-9999, 9999))
    for dt in ("i8", "u4", "u8", "u2", "i2", "u1", "i1"):
        add("avs", "mat-" + dt, blocks=[["triangle", 2], ["line", 1]], npts=3, cdata=[["m", [], dt]], **(dict(crange=(0, 2**31 - 1)) if dt[0] == "u" else {}))
    for f, T in (("mdpa", MDPA), ("permas", PERMAS)):
        for t in T:
            add(f, "out-" + t, special=f + "out", t=t)
    add("mdpa", "out-all", special="mdpaout", t=None)
    add("mdpa", "out-2dall", special="mdpaout", t=2)
    add("su2", "out", special="su2out")
    add("su2", "out-2d", special="su2out", dim=2)
    for dt in ("i8", "i4", "u4"):
        add("su2", "tag-" + dt, dim=3, blocks=[["triangle", 2], ["tetra", 1]], npts=4, tags=True, tdt=dt, trange=(40, 42))
    add("su2", "tag-neg", dim=3, blocks=[["triangle", 2], ["quad", 1], ["tetra", 1]], npts=4, tags=True, trange=(-3, -1))
    add("su2", "tag-big", dim=2, blocks=[["line", 2], ["triangle", 1]], npts=4, tags=True, trange=(2**31 - 3, 2**31 - 1))
    add("su2", "pick", dim=2, blocks=[["line", 2], ["triangle", 1], ["line", 1]], npts=4, tags=True, more=True)
    add("su2", "unknown", dim=3, blocks=[["vertex", 1], ["triangle", 2], ["line", 1], ["tetra", 2], ["tetra10", 1]], npts=4, tags=True)
    add("su2", "unknown2", dim=2, blocks=[["vertex", 1], ["triangle", 2], ["triangle6", 1], ["line", 2]], npts=4, tags=True)
    for k, e in enumerate(("TotalLagrangianElement{}", "Small{}N", "{}")):
        for key in MNAMES:
            for ent in ("Elements", "Conditions"):
                add("mdpa", f"name{k}-{key}-{ent[0]}", special="mdpaname", key=key, ent=ent, e=e)
    for k in ("noname", "tabs", "ids", "nocells", "props", "comments"):
        add("mdpa", "hand-" + k, special="mdpahand", k=k)
    for k in ("sets", "lower", "cont", "eof", "big", "bang"):
        add("permas", "hand-" + k, special="permashand", k=k)
    add("mdpa", "hand", special="mdpahand")
    add("permas", "hand", special="permashand")
    for k in PTYPES:
        add("permas", "type-" + k, special="permastype", k=k)
    return out


# element names of Kratos: geometry, dimension of the space, number of nodes
MNAMES = {"Line2D2": "line", "Line3D2": "line", "Triangle2D3": "triangle", "Triangle3D3": "triangle", "Quadrilateral2D4": "quad", "Quadrilateral3D4": "quad",
          "Tetrahedra3D4": "tetra", "Hexahedra3D8": "hexahedron", "Prism3D6": "wedge", "Line2D3": "line3", "Triangle2D6": "triangle6",
          "Triangle3D6": "triangle6", "Quadrilateral2D9": "quad9", "Quadrilateral3D9": "quad9", "Tetrahedra3D10": "tetra10", "Hexahedra3D27": "hexahedron27",
          "Point2D": "vertex", "Point3D": "vertex", "Quadrilateral2D8": "quad8", "Quadrilateral3D8": "quad8", "Hexahedra3D20": "hexahedron20"}


def harness(h, sc):
    if sc.get("special"):
        return globals()[sc["special"]](h, sc)
    f = sc["fmt"]
    np = h.np
    if sc.get("few"):
        return few(h, sc)
    mesh, e = build(h, sc)
    f4 = 7 if sc.get("pdt") in ("f4", ">f4") else None
    if f == "tec":
        if sc.get("xyz"):
            e.point_data = {k: v for k, v in e.point_data.items() if k not in ("X", "z")}
            e.cell_data.pop("Y")
        tecexp(h, e)
        return roundtrip_mesh(h, sc, dict(ext=".dat", pad2d=False, pdtype="f8", digits=f4, ddtype=False, post=floats), mesh, e)
    if f == "avs":
        key = [k for k, v in e.cell_data.items() if v[0].dtype.kind in "iu" and len(v[0].shape) == 1][:1]
        n = [len(c) for _, c in e.cells]
        mat = e.cell_data.pop(key[0]) if key else [np.zeros(k, dtype="i8") for k in n]
        for k, v in e.cell_data.items():
            e.cell_data[k] = [x.astype("f8") for x in v]
        for k, v in e.point_data.items():
            e.point_data[k] = v.astype("f8")
        e.cell_data["avsucd:material"] = mat
        return roundtrip_mesh(h, sc, dict(ext=".avs", pdtype="f8", digits=f4, ddtype=False, ddigits=15), mesh, e)
    if f == "su2":
        return su2(h, sc, mesh, e)
    e.point_data, e.cell_data = {}, {}
    spec = dict(ext=".mdpa", pdtype="f8", digits=16) if f == "mdpa" else dict(ext=".dato", pdtype="f8", digits=f4)
    if f == "mdpa" and f4:
        spec["digits"] = None
    roundtrip_mesh(h, sc, spec, mesh, e)


def floats(h, g, e, sc):
    for k, v in g.point_data.items():
        h.check(v.dtype.kind == "f", "dtype of " + k)


def tecexp(h, e):
    """what a single Tecplot zone can hold"""
    np = h.np
    keep = [k for k, (t, _) in enumerate(e.cells) if t in DIM]
    d = max(DIM[e.cells[k][0]] for k in keep)
    types = {e.cells[k][0] for k in keep}
    keep = [k for k in keep if DIM[e.cells[k][0]] == d]
    conn, name = [], None
    for k in keep:
        t, c = e.cells[k]
        if len(types) > 1 and d > 1:
            name = "quad" if d == 2 else "hexahedron"
            c = c[:, TP2[t]]
        elif t in ("pyramid", "wedge"):
            name = "hexahedron"
            c = c[:, TP2[t]]
        else:
            name = t
        conn.append(c)
    cd = {}
    for n, v in e.cell_data.items():
        a = np.concatenate([v[k] for k in keep]).astype("f8")
        for m, b in split(n, a):
            cd[m] = [b]
    pd = {}
    for n, v in e.point_data.items():
        for m, b in split(n, v.astype("f8")):
            pd[m] = b
    e.cells = [(name, np.concatenate(conn))]
    e.cell_data, e.point_data = cd, pd


def split(n, a):
    return [(n, a)] if len(a.shape) == 1 else [(f"{n}_{j}", a[:, j]) for j in range(a.shape[1])]


def few(h, sc):
    """long tables: only some entries are symbolic"""
    mesh, e = build(h, dict(sc, npts=3, blocks=[[t, 1] for t, _ in sc["blocks"]]))
    np = h.np
    n = sc["npts"]

    def long(a, n):
        k = a.shape[0]
        return np.concatenate([a, h.const((_np.arange((n - k) * int(_np.prod(a.shape[1:], dtype=int))) % 3 + (0.5 if a.dtype.kind == "f" else 0)).reshape(n - k, *a.shape[1:]),
                                          dtype=a.dtype)]) if n > k else a
    rev = lambda a: a[::-1]
    P = rev(long(e.points, n))
    cells = [(t, rev(long(c, m[1]))) for (t, c), m in zip(e.cells, sc["blocks"])]
    pd = {k: rev(long(v, n)) for k, v in e.point_data.items()}
    cd = {k: [long(x, m[1]) for x, m in zip(v, sc["blocks"])] for k, v in e.cell_data.items()}
    mesh = h.meshio.Mesh(P, cells, point_data=pd, cell_data=cd)
    e.points, e.cells, e.point_data, e.cell_data = P, cells, dict(pd), dict(cd)
    tecexp(h, e)
    roundtrip_mesh(h, sc, dict(ext=".tec", pad2d=False, pdtype="f8", ddtype=False), mesh, e)


def txt(h, v):
    return str(v) if h.symbolic else repr(v.item() if hasattr(v, "item") else v)


def row(h, a):
    return " ".join(txt(h, v) for v in a.reshape(-1).tolist())


def ids(h, name, n, hi=60):
    a = h.ints(name, (n,), 1, hi)
    h.distinct(a)
    return [a[i] for i in range(n)]


def techand(h, sc):
    np = h.np
    k = sc["k"]
    x = h.floats("x", (4, 3))
    p = h.floats("p", (4, 2))
    c = h.ints("c", (3, 3), 0, 3)
    q = h.floats("q", (3, 2))
    cellc = k in ("block", "nv", "varloc", "varloc2", "zonelines", "comments", "varlines")
    names = ["x", "y", "z", "p0", "p1"] if k == "lower" else ["X", "Y", "Z", "p0", "p1"]
    cols = [x[:, 0], x[:, 1], x[:, 2], p[:, 0], p[:, 1]]
    if k == "order":
        names = ["p0", "Z", "X", "p1", "Y"]
        cols = [p[:, 0], x[:, 2], x[:, 0], p[:, 1], x[:, 1]]
    if cellc:
        names += ["q0", "q1"]
        cols += [q[:, 0], q[:, 1]]
    s = 'TITLE = "a title"\n'
    if k == "comments":
        s = "# comment\n" + s + "# c\n"
    if k == "varlines":
        s += 'VARIABLES = "X"\n' + "\n".join(f'"{n}"' for n in names[1:]) + "\n"
    elif k == "lower":
        s += "variables = " + ", ".join(names) + "\n"
    else:
        s += "VARIABLES = " + ", ".join(f'"{n}"' for n in names) + "\n"
    fmt = {"point": "DATAPACKING=POINT, ZONETYPE=FETRIANGLE", "fepoint": "F=FEPOINT, ET=TRIANGLE", "feblock": "F=FEBLOCK, ET=TRIANGLE",
           "order": "F=FEPOINT, ET=TRIANGLE", "lower": "f = fepoint et = triangle"}.get(k, "DATAPACKING = BLOCK, ZONETYPE = FETRIANGLE")
    loc = ", VARLOCATION = ([1-5] = NODAL, [6-7] = CELLCENTERED)"
    if k == "nv":
        loc = ", NV = 5"
    elif k == "varloc":
        loc = ", VARLOCATION=([6]=CELLCENTERED,[7]=CELLCENTERED)"
    elif k == "varloc2":
        loc = ", VARLOCATION = ([7]=CELLCENTERED, [1-5]=NODAL, [6]=CELLCENTERED)"
    n, e = ("NODES = 4", "ELEMENTS = 3") if k in ("point", "block", "zonelines", "varloc") else ("N=4", "E=3")
    z = f'T="zone 1, (x = y)", {n}, {e}, {fmt}' + (loc if cellc else "")
    if k == "zonelines":
        z = f"{n}, {e}\n, {fmt}\n" + loc
    s += ("zone " if k == "lower" else "ZONE ") + z + "\n"
    if "POINT" in fmt.upper():
        s += "".join(" ".join(txt(h, a[i]) for a in cols) + "\n" for i in range(4))
    else:
        for j, a in enumerate(cols):
            vals = [txt(h, v) for v in a.tolist()]
            if k == "comments":
                s += "# column\n" + vals[0] + "\n\n" + "  ".join(vals[1:]) + "\n"
            else:
                s += " ".join(vals) + "\n"
        if k == "comments":
            s += "\n"
    s += "".join(" ".join(str(v) for v in r) + "\n" for r in (c + 1).tolist())
    g = h.meshio.read(h.write_text("a.dat", s))
    h.same(g.points, x, "points")
    check_cells(h, g, [("triangle", c)])
    h.check(set(g.point_data) == {"p0", "p1"}, f"point data {sorted(g.point_data)}")
    for j in range(2):
        h.same(g.point_data[f"p{j}"], p[:, j], f"p{j}")
    h.check(set(g.cell_data) == ({"q0", "q1"} if cellc else set()), f"cell data {sorted(g.cell_data)}")
    if cellc:
        for j in range(2):
            h.same(g.cell_data[f"q{j}"][0], q[:, j], f"q{j}")


AORD = {"tetra": [0, 1, 3, 2], "pyramid": [4, 0, 1, 2, 3], "wedge": [3, 4, 5, 0, 1, 2], "hexahedron": [4, 5, 6, 7, 0, 1, 2, 3]}
ANAME = dict(zip(AVS, ["pt", "line", "tri", "quad", "tet", "pyr", "prism", "hex"]))


def avstype(h, sc):
    t = sc["t"]
    x = h.floats("x", (4, 3))
    c = h.ints("c", (2, NN[t]), 0, 3)
    w = c[:, AORD[t]] if t in AORD else c
    s = "4 2 0 0 0\n" + "".join(f"{i + 1} {row(h, x[i])}\n" for i in range(4)) + "".join(f"{i + 1} 0 {ANAME[t]} " + " ".join(str(v) for v in (w[i] + 1).tolist()) + "\n" for i in range(2))
    g = h.meshio.read(h.write_text("a.avs", s))
    h.same(g.points, x, "points")
    check_cells(h, g, [(t, c)])
    # and the writer stores the same records
    p = h.path("b.avs")
    h.meshio.write(p, h.meshio.Mesh(x, [(t, c)]))
    lines = [l for l in h.read_text(p).split("\n") if l and not l.startswith("#")]
    h.check(len(lines) == 7, "number of lines")
    for i in range(2):
        f = lines[5 + i].split()
        h.check(f[2] == ANAME[t], "name")
        for j, v in enumerate(f[3:]):
            h.check(h.parse_int(v) == w[i, j] + 1, f"node {j}")


def avshand(h, sc):
    k = sc["k"]
    x = h.floats("x", (4, 3))
    n = ids(h, "nid", 4)
    I = ids(h, "eid", 4)
    m = h.ints("m", (4,), -99, 99)
    conn = [("triangle", [[0, 1, 2], [3, 2, 1]]), ("quad", [[0, 3, 2, 1]]), ("triangle", [[1, 3, 0]])]
    nd, cd = (0, 0) if k == "nodata" else (0, 4) if k == "cellsonly" else (3, 4)
    s = f"# comment\n# c\n4 4 {nd} {cd} 0\n" + "".join(f"{n[i]} {row(h, x[i])}\n" for i in range(4))
    j = 0
    for t, cs in conn:
        for c in cs:
            s += f"{I[j]} {m[j]} {ANAME[t]} " + " ".join(str(n[v]) for v in c) + "\n"
            j += 1
    P, Q = h.floats("p", (4, 3)), h.floats("q", (4, 4))
    if nd:
        s += "2 1 2\na, m/s\nb b,kg\n" + "".join(f"{n[i]} {row(h, P[i])}\n" for i in (2, 0, 3, 1))
    if cd:
        s += "2 3 1\nu, m\nw, x\n" + "".join(f"{I[i]} {row(h, Q[i])}\n" for i in (3, 1, 0, 2))
    g = h.meshio.read(h.write_text("a.avs", s))
    h.same(g.points, x, "points")
    check_cells(h, g, [(t, h.const(c, dtype="i8")) for t, c in conn])
    h.same(h.np.concatenate(g.cell_data["avsucd:material"]), m, "material", kind="iu")
    if nd:
        h.same(g.point_data["a"], P[:, 0], "a")
        h.same(g.point_data["b_b"], P[:, 1:], "b")
    if cd:
        h.check([len(v) for v in g.cell_data["u"]] == [2, 1, 1], "blocks of cell data")
        h.same(h.np.concatenate(g.cell_data["u"]), Q[:, :3], "u")
        h.same(h.np.concatenate(g.cell_data["w"]), Q[:, 3], "w")


def su2(h, sc, mesh, e):
    """interior cells come back grouped by type in VTK type order; each boundary cell comes
    back once, in the group of its type, with its tag"""
    np = h.np
    dim = sc["dim"]
    bd = ["line"] if dim == 2 else ["triangle", "quad"]
    tags = [h.ints(f"t{k}", (len(c),), *sc.get("trange", (1, 3)), sc.get("tdt", "i8")) for k, (_, c) in enumerate(e.cells)]
    if sc.get("tags"):
        if sc.get("more"):
            mesh.cell_data["flo"] = [h.floats(f"fl{k}", (len(c),)) for k, (_, c) in enumerate(e.cells)]
            mesh.cell_data["vec"] = [h.ints(f"vc{k}", (len(c), 2), 1, 3) for k, (_, c) in enumerate(e.cells)]
        mesh.cell_data["tag"] = list(tags)
        if sc.get("more"):
            mesh.cell_data["tag2"] = [t + 5 for t in tags]
    else:
        tags = [h.const([1] * len(c), dtype="i8") for _, c in e.cells]
    p = h.path("a.su2")
    pts = e.points
    h.meshio.write(p, mesh)
    g = h.meshio.read(p)
    h.same(g.points, pts, "points")
    order = ["line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"]
    want = {}
    for k, (t, c) in enumerate(e.cells):
        if t not in order or (dim == 3 and t == "line"):
            continue
        want.setdefault(t, []).append(k)
    got = {b.type: k for k, b in enumerate(g.cells)}
    h.check(len(got) == len(g.cells) and set(got) == set(want), f"types {[b.type for b in g.cells]}")
    inner = [b.type for b in g.cells if b.type not in bd]
    h.check(inner == sorted(inner, key=order.index), "order of the interior blocks")
    T = g.cell_data.get("su2:tag")
    if T is None or len(T) != len(g.cells):
        return h.fail("tags")
    for t, ks in want.items():
        if t not in got:
            continue
        c = np.concatenate([e.cells[k][1] for k in ks])
        r, gt = g.cells[got[t]].data, T[got[t]]
        if t not in bd:
            h.same(r, c, "cells " + t, kind="iu")
            h.same(gt, np.zeros(len(c), dtype="i4"), "tags " + t, kind="iu")
            continue
        tg = np.concatenate([tags[k] for k in ks])
        h.check(tuple(r.shape) == tuple(c.shape), "shape " + t)
        if tuple(r.shape) != tuple(c.shape):
            continue
        # each expected (tag, cell) occurs, and with the right multiplicity
        n = len(c)
        row_eq = lambda A, i, a, B, j, b: allof([A[i, l] == B[j, l] for l in range(c.shape[1])] + [a[i] == b[j]])
        for i in range(n):
            ne = cnt([row_eq(c, i, tg, c, j, tg) for j in range(n)])
            ng = cnt([row_eq(c, i, tg, r, j, gt) for j in range(n)])
            h.check(ne == ng, f"{t} {i} with its tag")


def allof(bs):
    r = bs[0]
    for b in bs[1:]:
        r = r & b
    return r


def cnt(bs):
    r = 0
    for b in bs:
        r = r + (b * 1 if not hasattr(b, "_i") else b._i())
    return r


def su2hand(h, sc):
    k = sc["k"]
    x = h.floats("x", (4, 2))
    c0, c1 = h.ints("c0", (2, 3), 0, 3), h.ints("c1", (1, 4), 0, 3)
    l0, l1 = h.ints("l0", (2, 2), 0, 3), h.ints("l1", (1, 2), 0, 3)
    R = lambda t, r: f"{t} " + "   ".join(str(v) for v in r.tolist())
    if k == "3d":
        x = h.floats("y", (4, 3))
        c0, c1 = h.ints("d0", (2, 4), 0, 3), h.ints("d1", (1, 8), 0, 3)
        l0, l1 = h.ints("m0", (2, 3), 0, 3), h.ints("m1", (1, 4), 0, 3)
    A, B, L0, L1 = (10, 12, 5, 9) if k == "3d" else (5, 9, 3, 3)
    ix = lambda i: f" {i}" if k == "index" else ""
    el = [R(A, c0[0]), R(B, c1[0]), R(A, c0[1])]
    s = f"% comment\nNDIME= {x.shape[1]}\n"
    if k == "comments":
        s += "%\n\n% Inner elements\n"
    s += f"NELEM= 3\n" + "".join(l + ix(i) + "\n" for i, l in enumerate(el))
    s += "NPOIN= 4" + (" 4" if k == "index" else " 2" if k == "halo" else "") + "\n" + "".join(row(h, x[i]) + ix(i) + "\n" for i in range(4))
    t0, t1 = ("lower", "upper") if k == "names" else ("7", "3")
    s += f"NMARK= {26 if k == 'many' else 2}\nMARKER_TAG= {t0}\nMARKER_ELEMS= 2\n" + "".join(R(L0, l0[i]) + "\n" for i in range(2))
    if k == "comments":
        s += "\n% second\n"
    s += f"MARKER_TAG= {t1}\nMARKER_ELEMS= 1\n" + R(L1, l1[0]) + "\n"
    if k == "many":
        lm = h.ints("lm", (24, 2), 0, 3)
        s += "".join(f"MARKER_TAG= {40 - i}\nMARKER_ELEMS= 1\n" + R(3, lm[i]) + "\n" for i in range(24))
        l1 = h.np.concatenate([l1, lm])
    if k == "comments":
        s += "\n%\n"
    g = h.meshio.read(h.write_text("a.su2", s))
    h.same(g.points, x, "points")
    if k == "3d":
        check_cells(h, g, [("tetra", c0), ("hexahedron", c1), ("triangle", l0), ("quad", l1)])
    else:
        check_cells(h, g, [("triangle", c0), ("quad", c1), ("line", h.np.concatenate([l0, l1]))])
    exp = [0, 0, 0, 1, 1, 2] if k == "names" else [0, 0, 0, 7, 7, 3] + [40 - i for i in range(24) if k == "many"]
    h.same(h.np.concatenate(g.cell_data["su2:tag"]), h.const(exp, dtype="i8"), "tags", kind="iu")


def mdpahand(h, sc):
    k = sc.get("k")
    x = h.floats("x", (4, 3))
    n = ids(h, "nid", 4, hi=2**31 if k == "ids" else 60)
    conn = [("tetra", [[0, 3, 2, 1], [1, 2, 0, 3]]), ("triangle", [[2, 1, 0]]), ("hexahedron", [[0, 1, 2, 3, 3, 2, 1, 0]])]
    el = ["Elements TotalLagrangianTetrahedra3D4", "Conditions SurfaceTriangle3D3", "Elements Hexahedra3D8"]
    s = "Begin ModelPartData\n//  VARIABLE_NAME value\nEnd ModelPartData\n\nBegin Properties 0\nEnd Properties\n"
    s += "Begin Nodes\n" + "".join(f"  {n[i]}   {row(h, x[i])}\n" for i in range(4)) + "End Nodes\n\n"
    j = 0
    if k == "noname":
        conn, el = [("line", [[0, 3], [2, 1]])], ["Elements Truss"]
    if k == "nocells":
        conn, el = [], []
    for (t, cs), name in zip(conn, el):
        s += f"Begin {name}" + ("// comment" if k == "comments" else "") + "\n"
        for c in cs:
            j += 1
            s += f" {j + (900 if k == 'props' else 0)}  {j % 2 + (77 if k == 'props' else 0)}  " + " ".join(str(n[v]) for v in c) + "\n"
        s += f"End {name.split()[0]}\n\n"
    s += "Begin NodalData TEMPERATURE\n1 0 5.0\nEnd NodalData\n"
    if k == "tabs":
        s = s.replace("  ", "\t")
    g = h.meshio.read(h.write_text("a.mdpa", s))
    h.same(g.points, x, "points")
    check_cells(h, g, [(t, h.const(c, dtype="i8")) for t, c in conn])


def permashand(h, sc):
    k = sc.get("k")
    x = h.floats("x", (4, 3))
    n = ids(h, "nid", 4, hi=2**31 if k == "big" else 60)
    conn = [("tetra", [[0, 3, 2, 1], [1, 2, 0, 3]]), ("triangle", [[2, 1, 0]]), ("quad", [[0, 1, 2, 3]])]
    el = ["TET4", "SHELL3", "QUAD4"]
    s = "! comment\n$ENTER COMPONENT NAME=A\n$STRUCTURE\n$COOR\n" + "".join(f"{n[i]} {row(h, x[i])}\n" for i in range(4)) + "!\n"
    j = 0
    for (t, cs), name in zip(conn, el):
        s += f"$ELEMENT TYPE={name}\n"
        for c in cs:
            j += 1
            s += f"{100 - j} " + " ".join(str(n[v]) for v in c) + "\n" + ("!\n" if k == "bang" else "")
        s += "!\n"
    if k == "sets":
        s += "$NSET NSET=A\n1 2\n3\n$ESET , ESET = B\n1 2\n$ELEMENT TYPE=BEAM2\n" + f"200 {n[3]} {n[0]}\n"
        s = s.replace("$NSET NSET=A", "$NSET , NSET = A")
        conn = conn + [("line", [[3, 0]])]
    if k != "eof":
        s += "$END STRUCTURE\n$EXIT COMPONENT\n$FIN\n"
    if k == "lower":
        s = s.replace("$COOR", "$coor").replace("$ELEMENT TYPE", "$Element Type")
    g = h.meshio.read(h.write_text("a.dato", s))
    h.same(g.points, x, "points")
    check_cells(h, g, [(t, h.const(c, dtype="i8")) for t, c in conn])


def permastype(h, sc):
    t = PTYPES[sc["k"]]
    x = h.floats("x", (3, 3))
    c = h.ints("c", (2, NN[t]), 0, 2)
    w = c
    if t in PORD:
        w = c[:, _np.argsort(PORD[t]).tolist()]
    s = "$STRUCTURE\n$COOR\n" + "".join(f"{i + 1} {row(h, x[i])}\n" for i in range(3)) + "!\n" + f"$ELEMENT TYPE={sc['k']}\n"
    s += "".join(f"{i + 1} " + " ".join(str(v) for v in (w[i] + 1).tolist()) + "\n" for i in range(2)) + "$END STRUCTURE\n$FIN\n"
    g = h.meshio.read(h.write_text("a.dato", s))
    h.same(g.points, x, "points")
    check_cells(h, g, [(t, c)])


def mdpaname(h, sc):
    t = MNAMES[sc["key"]]
    x = h.floats("x", (3, 3))
    c, d = h.ints("c", (2, NN[t]), 0, 2), h.ints("d", (1, NN[t]), 0, 2)
    nm = sc["e"].format(sc["key"])
    R = lambda i, r: f"  {i} 1 " + " ".join(str(v) for v in (r + 1).tolist()) + "\n"
    s = "Begin Nodes\n" + "".join(f"{i + 1} {row(h, x[i])}\n" for i in range(3)) + "End Nodes\n"
    s += f"Begin {sc['ent']} {nm}\n" + R(1, c[0]) + R(2, c[1]) + f"End {sc['ent']}\n"
    s += "Begin Conditions PointCondition2D1\n 1 0 2\nEnd Conditions\n".replace("PointCondition2D1", "Point2D")
    s += f"Begin {sc['ent']} {nm}\n" + R(3, d[0]) + f"End {sc['ent']}\n"
    g = h.meshio.read(h.write_text("a.mdpa", s))
    h.same(g.points, x, "points")
    check_cells(h, g, [(t, c), ("vertex", h.const([[1]], dtype="i8")), (t, d)])


def mdpaout(h, sc):
    """the sections of the written file: nodes, elements under the name of their geometry, data"""
    t = sc["t"]
    types = [t] if isinstance(t, str) else [q for q in MDPA if t is None or q in ("line", "triangle", "quad", "line3", "triangle6", "quad9", "quad8", "vertex")]
    x = h.floats("x", (3, 3))
    bl = [(q, h.ints("c" + q, (1 + k % 2, NN[q]), 0, 2)) for k, q in enumerate(types)]
    pd = {"a": h.floats("a", (3,)), "v": h.floats("v", (3, 3)), "i": h.ints("i", (3,), -99, 99)}
    n = sum(len(c) for _, c in bl)
    q8 = h.floats("q", (n,))
    off = _np.cumsum([0] + [len(c) for _, c in bl])
    cd = {"q": [q8[off[k] : off[k + 1]] for k in range(len(bl))], "gmsh:physical": [h.const([3] * len(c), dtype="i8") for _, c in bl]}
    p = h.path("a.mdpa")
    h.meshio.write(p, h.meshio.Mesh(x, bl, point_data=pd, cell_data=cd))
    L = [l.strip() for l in h.read_text(p).split("\n")]
    L = [l for l in L if l and not l.startswith("//")]
    secs, cur = [], None
    for l in L:
        if l.startswith("Begin "):
            if cur is not None:
                return h.fail("nested sections")
            cur = (l[6:], [])
        elif l.startswith("End "):
            if cur is None or not (l[4:] == cur[0] or l[4:] == cur[0].split()[0]):
                return h.fail("section " + l)
            secs.append(cur)
            cur = None
        else:
            if cur is None:
                return h.fail("line outside of a section: " + l)
            cur[1].append(l.split())
    sd = {}
    for a, b in secs:
        sd.setdefault(a.split()[0], []).append((a, b))
    dim3 = any(q in ("tetra", "hexahedron", "wedge", "tetra10", "hexahedron27", "hexahedron20") for q in types)
    ok = len(sd.get("Nodes", [])) == 1 and len(sd.get("Elements", [])) == len(bl) and len(sd["Nodes"][0][1]) == 3
    h.check(ok, "sections")
    if not ok:
        return
    for i, r in enumerate(sd["Nodes"][0][1]):
        h.check(h.parse_int(r[0]) == i + 1 and len(r) == 4, f"node id {i}")
        for j in range(3):
            h.same(h.array([h.parse_float(r[1 + j])]), x[i, j : j + 1], f"node {i}", digits=16)
    eid = 0
    inv = {}
    for m, q in MNAMES.items():
        if q not in inv or ("3D" in m) == dim3:
            inv[q] = m
    for (nm, rows), (q, c) in zip(sd["Elements"], bl):
        want = inv[q] if q != "line3" or not dim3 else "Line3D3"
        h.check(nm == "Elements " + want, f"name {nm} instead of {want}")
        h.check(len(rows) == len(c), f"number of {q}")
        for i, r in enumerate(rows):
            eid += 1
            h.check(len(r) == 2 + NN[q] and h.parse_int(r[0]) == eid and h.parse_int(r[1]) >= 0, f"{q} record {i}")
            h.same(h.array([h.parse_int(v) for v in r[2:]]), c[i] + 1, f"nodes of {q} {i}", kind="iu")
    N = {a.split()[1]: b for a, b in sd.get("NodalData", [])}
    E = {a.split()[1]: b for a, b in sd.get("ElementalData", [])}
    h.check(set(N) == {"a", "v", "i"} and set(E) == {"q"}, f"data sections {sorted(N)} {sorted(E)}")
    for d, want, m in [(N, pd, 3), (E, {"q": q8}, n)]:
        for k, a in want.items():
            if len(d.get(k, [])) != m:
                h.fail("rows of " + k)
                continue
            for i, r in enumerate(d[k]):
                h.check(h.parse_int(r[0]) == i + 1, "id in " + k)
                val = [h.parse_int(v) if k == "i" else h.parse_float(v) for v in r[1:]]
                h.same(h.array(val), a[i : i + 1].reshape(-1), f"{k} {i}", kind="iu" if k == "i" else None)


def permasout(h, sc):
    t = sc["t"]
    x = h.floats("x", (3, 3))
    c, d = h.ints("c", (2, NN[t]), 0, 2), h.ints("d", (1, NN[t]), 0, 2)
    z = "tetra" if t != "tetra" else "hexahedron"
    m = h.ints("m", (1, NN[z]), 0, 2)
    p = h.path("a.dato")
    h.meshio.write(p, h.meshio.Mesh(x, [(t, c), (z, m), (t, d)]))
    L = [l.strip() for l in h.read_text(p).split("\n")]
    L = [l for l in L if l and l[0] != "!"]
    i = L.index("$COOR")
    for k in range(3):
        r = L[i + 1 + k].split()
        h.check(len(r) == 4 and h.parse_int(r[0]) == k + 1, "node number")
        h.same(h.array([h.parse_float(v) for v in r[1:]]), x[k], "node")
    L = L[i + 4 :]
    eid = 0
    for q, a in ((t, c), (z, m), (t, d)):
        kw = L[0].split("=")
        h.check(kw[0] == "$ELEMENT TYPE" and PTYPES.get(kw[1], MORE.get(kw[1])) == q, f"{L[0]} for {q}")
        w = a[:, _np.argsort(PORD[q]).tolist()] if q in PORD else a
        for k in range(len(a)):
            eid += 1
            r = L[1 + k].split()
            h.check(len(r) == 1 + NN[q] and h.parse_int(r[0]) == eid, "element number")
            h.same(h.array([h.parse_int(v) for v in r[1:]]), w[k] + 1, "nodes", kind="iu")
        L = L[1 + len(a) :]
    h.check(L[0] == "$END STRUCTURE" and L[-1] == "$FIN", "end of the file")


MORE = {"QUAMS8": "quad8", "LOADA8": "quad8", "PLOTA9": "quad9", "LOADA9": "quad9", "HEXFO8": "hexahedron", "FSCPIPE2": "line", "QUAMS4": "quad", "PLOTA4": "quad", "QUAD4S": "quad", "TRIA3K": "triangle",
        "TRIA3S": "triangle", "BECOC": "line", "BETAC": "line", "BECOP": "line", "BETOP": "line"}


def su2out(h, sc):
    """the written file in the words of the format"""
    dim = sc.get("dim", 3)
    x = h.floats("x", (4, dim))
    if dim == 3:
        bl = [("tetra", h.ints("c0", (2, 4), 0, 3)), ("triangle", h.ints("b0", (2, 3), 0, 3)), ("pyramid", h.ints("c1", (1, 5), 0, 3)), ("quad", h.ints("b1", (1, 4), 0, 3)),
              ("wedge", h.ints("c2", (1, 6), 0, 3)), ("hexahedron", h.ints("c3", (1, 8), 0, 3))]
        tg = [[0, 0], [5, 2], [0], [2], [0], [0]]
    else:
        bl = [("triangle", h.ints("c0", (2, 3), 0, 3)), ("line", h.ints("b0", (2, 2), 0, 3)), ("quad", h.ints("c1", (1, 4), 0, 3)), ("line", h.ints("b1", (1, 2), 0, 3))]
        tg = [[0, 0], [5, 2], [0], [2]]
    code = {"line": 3, "triangle": 5, "quad": 9, "tetra": 10, "hexahedron": 12, "wedge": 13, "pyramid": 14}
    p = h.path("a.su2")
    h.meshio.write(p, h.meshio.Mesh(x, bl, cell_data={"t": [h.const(v, dtype="i8") for v in tg]}))
    L = [l.strip() for l in h.read_text(p).split("\n") if l.strip() and l[0] != "%"]
    pos = 0

    def key(k):
        nonlocal pos
        a = [q.strip() for q in L[pos].split("=")]
        h.check(a[0] == k, f"{L[pos]} instead of {k}")
        pos += 1
        return a[1]

    def recs(exp):
        nonlocal pos
        for t, r in exp:
            f = L[pos].split()
            pos += 1
            h.check(f[0] == str(code[t]) and len(f) in (1 + NN[t], 2 + NN[t]), "record " + t)
            h.same(h.array([h.parse_int(v) for v in f[1 : 1 + NN[t]]]), r, "nodes of " + t, kind="iu")

    bd = ("triangle", "quad") if dim == 3 else ("line",)
    h.check(key("NDIME") == str(dim), "dimension")
    h.check(key("NPOIN") == "4", "number of points")
    for i in range(4):
        h.same(h.array([h.parse_float(v) for v in L[pos].split()[:dim]]), x[i], "point")
        pos += 1
    inner = [(t, c[i]) for t, c in bl if t not in bd for i in range(len(c))]
    h.check(key("NELEM") == str(len(inner)), "number of elements")
    recs(inner)
    h.check(key("NMARK") == "2", "number of markers")
    seen = []
    for _ in range(2):
        tag = int(key("MARKER_TAG"))
        seen.append(tag)
        exp = [(t, c[i]) for (t, c), tt in zip(bl, tg) if t in bd for i in range(len(c)) if tt[i] == tag]
        h.check(key("MARKER_ELEMS") == str(len(exp)), "elements of the marker")
        recs(exp)
    h.check(sorted(seen) == [2, 5] and pos == len(L), "markers")


def tecout(h, sc):
    """header and tables of the written file"""
    dim = sc.get("dim", 3)
    x = h.floats("x", (4, dim))
    bl = [("triangle", h.ints("c0", (2, 3), 0, 3)), ("quad", h.ints("c1", (1, 4), 0, 3)), ("line", h.ints("c2", (1, 2), 0, 3))]
    pd = {"a": h.floats("a", (4,)), "v": h.floats("v", (4, 2))}
    q = [h.floats(f"q{k}", (len(c),)) for k, (_, c) in enumerate(bl)]
    r = [h.floats(f"r{k}", (len(c), 2)) for k, (_, c) in enumerate(bl)]
    p = h.path("a.dat")
    h.meshio.write(p, h.meshio.Mesh(x, bl, point_data=pd, cell_data={"q": q, "r": r}))
    L = [l.strip() for l in h.read_text(p).split("\n") if l.strip()]
    k = next(i for i, l in enumerate(L) if l.startswith("ZONE"))
    end = k
    while not (L[end][0] in "-+.0123456789" or L[end][0] not in "ZDVAEFN,"):
        end += 1
    var = [v.strip().strip('"') for v in next(l for l in L if l.startswith("VARIABLES")).split("=")[1].split(",")]
    h.check(var == ["X", "Y", "Z"][:dim] + ["a", "v_0", "v_1", "q", "r_0", "r_1"], f"variables {var}")
    z = " ".join(L[k:end]).replace(" ", "").replace(",", "")
    first = dim + 4
    for w in ("NODES=4", "ELEMENTS=3", "DATAPACKING=BLOCK", "ZONETYPE=FEQUADRILATERAL", f"VARLOCATION=([{first}-{first + 2}]=CELLCENTERED)"):
        h.check(w in z, f"{w} in {z}")
    tok = [t for l in L[end:] for t in l.split()]
    cols = [x[:, j] for j in range(dim)] + [pd["a"], pd["v"][:, 0], pd["v"][:, 1]]
    np = h.np
    cols += [np.concatenate(q[:2]), np.concatenate(r[:2])[:, 0], np.concatenate(r[:2])[:, 1]]
    conn = np.concatenate([bl[0][1][:, [0, 1, 2, 2]], bl[1][1]]) + 1
    h.check(len(tok) == sum(len(c) for c in cols) + 12, "number of values")
    if len(tok) != sum(len(c) for c in cols) + 12:
        return
    o = 0
    for j, c in enumerate(cols):
        h.same(h.array([h.parse_float(t) for t in tok[o : o + len(c)]]), c, f"variable {j}")
        o += len(c)
    h.same(h.array([h.parse_int(t) for t in tok[o:]]).reshape(3, 4), conn, "connectivity", kind="iu")
