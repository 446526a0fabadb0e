"""Surface formats PLY, STL, OBJ, OFF, WKT, Neuroglancer: round trip, and files of other producers."""

import numpy as _np

from .common import NN, build, check_cells, data, pad3, snapshot, spread, unchanged
from .rt import roundtrip, roundtrip_mesh

BOUNDS = ("<= 5 points, <= 5 blocks of <= 3 cells; PLY: all scalar dtypes for points, point data and connectivity, either byte order, face properties; "
          "STL/WKT: <= 2 triangles with symbolic connectivity over <= 3 points; symbolic coordinates, connectivity, data")
BOUNDS += "; also meshes of up to 66000 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = ("names with blanks (PLY); vertices that no triangle uses (STL, WKT store triangles only); computed STL normals; coordinates that are -0.0 or NaN in STL/WKT; "
           "OBJ texture/normal indices of faces")

PT = {"i1": "int8", "u1": "uint8", "i2": "int16", "u2": "uint16", "i4": "int32", "u4": "uint32", "f4": "float32", "f8": "float64"}
PO = {"i1": "char", "u1": "uchar", "i2": "short", "u2": "ushort", "i4": "int", "u4": "uint", "f4": "float", "f8": "double"}


def scenarios(tier):
    out = []

    def add(f, i, **sc):
        out.append(dict(id=f"{f}-{i}", fmt=f, **sc))

    ALL = [["s", [], "f8"], ["i", [], "i4"], ["u1", [], "u1"], ["i2", [], "i2"], ["f", [], "f4"], ["l", [], "i8"], ["ul", [], "u8"], ["u2", [], "u2"], ["u4", [], "u4"], ["i1", [], "i1"]]
    for b in (False, True):
        kw = dict(kw={"binary": b})
        f = "plyb" if b else "plya"
        for t, n in (("vertex", 1), ("line", 2), ("triangle", 3), ("quad", 4)):
            add(f, t, blocks=[[t, 2]], npts=4, **kw)
        for n in (5, 6, 11):
            add(f, f"poly{n}", blocks=[["polygon", 2, n], ["triangle", 1], ["polygon", 1, n], ["polygon", 2, n + 1]], npts=4, **kw)
        add(f, "mix", blocks=[["triangle", 2], ["quad", 1], ["triangle", 1], ["line", 2], ["quad", 2]], npts=4, pdata=[["a", [], "f8"]], **kw)
        add(f, "data", blocks=[["triangle", 2]], npts=3, pdata=ALL, **kw)
        for dt in ("f4", "f8", "i4", "i8", "u2", "i2"):
            add(f, "pts-" + dt, blocks=[["triangle", 2]], npts=3, pdt=dt, pdata=[["a", [], "f4"]], **kw)
        for cdt in ("i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"):
            one = cdt[1] == "1"
            add(f, "conn-" + cdt, blocks=[["triangle", 1]] if one else [["triangle", 2], ["quad", 1]], npts=2 if one else 3, cdt=cdt, **kw)
        add(f, "mixdt", special="mixdt", **kw)
        add(f, "2d", dim=2, blocks=[["triangle", 2]], npts=3, pdata=[["a", [], "i4"]], **kw)
        add(f, "one", blocks=[["vertex", 1]], npts=1, pdata=[["a", [], "i4"], ["b", [], "f8"]], **kw)
        add(f, "nocells", blocks=[], npts=3, pdata=[["a", [], "f8"]], **kw)
        add(f, "F-order", blocks=[["quad", 2]], npts=4, layout="F", **kw)
        add(f, "strided", blocks=[["quad", 2]], npts=4, layout="strided", pdata=[["a", [], "f8"]], **kw)
    for b in (False, True):
        kw = dict(kw={"binary": b})
        f = "plyb" if b else "plya"
        D = [["a", [], "f8"], ["b", [], "i4"], ["c", [], "f4"]]
        add(f, "medium", blocks=[["triangle", 150], ["quad", 130], ["line", 20], ["triangle", 45]], npts=310, medium=2, pdata=D, **kw)
        add(f, "large", blocks=[["triangle", 4200], ["quad", 1100]], npts=5000, medium=2, pdata=D, weight=4, **kw)
        add(f, "huge", blocks=[["triangle", 300]], npts=66000, medium=2, medc=0, weight=9, **kw)
        for cdt in ("u1", "i1", "i2", "u2"):
            add(f, "many-" + cdt, blocks=[["triangle", 100], ["quad", 30]], npts=120, medium=2, medc=0, cdt=cdt, **kw)
        for cdt, mx in (("u4", 2**32 - 1), ("i4", 2**31 - 1), ("i8", 2**31 - 1), ("u8", 2**63)):
            add(f, "connmax-" + cdt, blocks=[["triangle", 2], ["quad", 1]], npts=3, cdt=cdt, cmax=mx, **kw)
        for k, (pp, c, d) in enumerate([(">f8", ">i8", ">i4"), (">f4", ">i4", ">i8"), ("<f8", ">u4", ">f8"), (">f8", ">u2", ">u2")]):
            add(f, f"bigendian{k}", blocks=[["quad", 2], ["line", 2]] if k < 3 else [["quad", 20], ["line", 20]], npts=4, pdt=pp, cdt=c, pdata=[["a", [], d]], **({} if k < 3 else {"medium": 2, "medc": 0}), **kw)
        for k, dts in enumerate([("i4", "i8", "i4"), ("i8", "i4", "i8"), ("i8", "i8", "i8"), ("u4", "u4", "u4")]):
            add(f, f"mixdt{k}", blocks=[["triangle", 2], ["quad", 1], ["line", 2]], npts=4, cdts=[[q, 2**31 - 1] for q in dts], **kw)
        for k, bl in enumerate([[["triangle6", 2], ["triangle", 2], ["tetra", 1], ["quad", 1]], [["triangle", 1], ["hexahedron", 1], ["triangle", 2], ["quad8", 2]], [["tetra", 2]]]):
            add(f, f"unknown{k}", blocks=bl, npts=5, pdata=D[:1], unknown=True, **kw)
        add(f, "skipvec", blocks=[["triangle", 2]], npts=3, pdata=[["v", [3], "f8"], ["a", [], "f8"], ["w", [2], "i4"], ["b", [], "i4"]], vec=True, **kw)
        add(f, "names", blocks=[["triangle", 2]], npts=3, pdata=[[q, [], "f8"] for q in ("nx", "ny", "nz", "red", "X", "x1", "confidence_of_a_vertex", "s-t", "face", "vertex", "end_header_x", "medit:ref", "file", "a.b")], **kw)
        add(f, "manyblocks", blocks=[[("triangle", "quad", "line", "vertex")[(k * k + k // 3) % 4], 1 + k % 2] for k in range(40)], npts=4, **kw)
        for n in (12, 100, 255):
            add(f, f"polybig{n}", blocks=[["polygon", 2, n], ["triangle", 1]], npts=300, medium=2, medc=0, **kw)
        add(f, "manydata", blocks=[["triangle", 2]], npts=2, pdata=[[f"d{k}", [], ("f8", "f4", "i4", "i8", "u4", "u8", "i2", "u2", "i1", "u1")[k % 10]] for k in range(30)], **kw)
        for t, n in (("vertex", 1), ("quad", 4)):
            for c in (1, 3, 4, 5, 7):
                add(f, f"cnt-{t}{c}", blocks=[[t, c]], npts=c, pdata=D, **kw)
        add(f, "out", special="plyout", **kw)
    for k in ("ascii", "binary_little_endian", "binary_big_endian"):
        for dt in ("u1", "i1", "u2", "i2", "u4", "i4", "i8", "u8"):
            if dt not in ("i8", "u8"):
                add("ply", f"{k}-cnt-{dt}", special="plylist", k=k, cnt=dt, idt="i4")
            if dt not in ("i1", "u1"):
                add("ply", f"{k}-idx-{dt}", special="plylist", k=k, cnt="u1", idt=dt)
    for k in ("ascii", "binary_little_endian", "binary_big_endian"):
        for v in ("plain", "oldnames", "faceprops", "propsfirst", "extralist", "order", "xyzorder", "comments", "counts", "longlist"):
            add("ply", f"{k}-{v}", special="plyhand", k=k, v=v)
    for b in (False, True):
        f, kw = ("stlb" if b else "stla"), dict(kw={"binary": b}, xconst=b)
        for a, pm in enumerate(([0, 1, 2], [1, 2, 0], [2, 1, 0])):
            add(f, f"one-{a}", npts=3, ntri=[1], perm=pm, **(dict(kw, xconst=False, pdt="f4") if b else kw))
        T3 = [[0, 1, 2], [3, 1, 0], [2, 3, 0]]
        if b:
            for a, pm in enumerate(([0, 1, 2, 3], [3, 1, 2, 0], [2, 0, 3, 1])):
                add(f, f"f4-{a}", npts=4, ntri=[3], conn=[T3], perm=pm, pdt="f4", kw={"binary": b})
        for a, pm in enumerate(([0, 1, 2, 3], [3, 1, 2, 0], [2, 0, 3, 1], [3, 2, 1, 0])):
            add(f, f"four-{a}", npts=4, ntri=[3], conn=[T3], perm=pm, **kw)
            add(f, f"normals-{a}", npts=4, ntri=[2, 1], conn=[[[0, 1, 2], [3, 1, 0]], [[2, 3, 1]]], normals=True, perm=pm, **kw)
        add(f, "two", npts=3, ntri=[2], conn=[[[0, 2, 1], [2, 0, 1]]], perm=[1, 0, 2], **kw)
        add(f, "blocks", npts=4, ntri=[1, 2], conn=[[[3, 1, 2]], [[3, 1, 0], [2, 3, 0]]], extra=True, perm=[2, 0, 1, 3], **kw)
        add(f, "dup", npts=4, ntri=[2], conn=[[[0, 1, 2], [3, 1, 0]]], dup=True, **kw)
        add(f, "2d", dim=2, npts=4, ntri=[2], conn=[[[0, 1, 2], [3, 1, 0]]], perm=[1, 3, 2, 0], **kw)
        big = dict(special="soupbig", kw={"binary": b})
        for n in (1, 2, 3, 10, 37, 260, 700):
            add(f, f"grid{n}", n=n, **big)
        add(f, "grid-f4", n=37, pdt="f4", **big)
        add(f, "grid-2d", n=37, dim=2, **big)
        add(f, "grid-large", n=9000, weight=9, **big)
        for cdt in ("u1", "i1", "i2", "u2", "i4", "u4", "u8", ">i8"):
            add(f, "grid-" + cdt, n=37, cdt=cdt, **big)
        for k in ("normals", "skip", "F", "strided", "be"):
            add(f, "grid-" + k, n=37, k=k, **big)
    for n in (1, 2, 3, 10, 37, 260, 700):
        add("wkt", f"grid{n}", n=n, special="soupbig")
    for k in ("skip", "F", "strided", "be"):
        add("wkt", "grid-" + k, n=37, k=k, special="soupbig")
    for cdt in ("u1", "i1", "i2", "u2", "i4", "u4", "u8", ">i8"):
        add("wkt", "grid-" + cdt, n=37, cdt=cdt, special="soupbig")
    add("wkt", "str", special="wktstr")
    for k in ("plain", "names", "blank", "indent", "solids", "binary", "binsolid", "short"):
        add("stl", "hand-" + k, special="stlhand", k=k)
    add("obj", "tri", blocks=[["triangle", 2]], npts=4)
    add("obj", "mix", blocks=[["triangle", 2], ["quad", 1], ["triangle", 1], ["polygon", 2, 5], ["polygon", 1, 6], ["quad", 2]], npts=4)
    add("obj", "vnvt", blocks=[["quad", 2]], npts=4, pdata=[["obj:vn", [3], "f8"], ["obj:vt", [2], "f8"]])
    add("obj", "vt3", blocks=[["quad", 2]], npts=4, pdata=[["obj:vt", [3], "f8"], ["other", [], "f8"]])
    add("obj", "2d", dim=2, blocks=[["quad", 2]], npts=4)
    add("obj", "pts-f4", blocks=[["quad", 2]], npts=4, pdt="f4")
    for cdt in ("i4", "u4", "u8"):
        add("obj", "conn-" + cdt, blocks=[["triangle", 2], ["quad", 1]], npts=3, cdt=cdt)
    add("obj", "F-order", blocks=[["quad", 2]], npts=4, layout="F")
    for f in ("obj", "off", "ng"):
        T = [["triangle", 150], ["quad", 130], ["triangle", 45]]
        add(f, "medium", blocks=T, npts=310, medium=2)
        add(f, "large", blocks=[["triangle", 4200]], npts=5000, medium=2, weight=4)
        add(f, "huge", blocks=[["triangle", 300]], npts=66000, medium=2, medc=0, weight=9)
        for cdt in ("u1", "i1", "i2", "u2"):
            add(f, "many-" + cdt, blocks=[["triangle", 100]] if f == "ng" else [["triangle", 100], ["quad", 30]], npts=120, medium=2, medc=0, cdt=cdt)
        for k, (pp, c) in enumerate([(">f8", ">i8"), (">f4", ">i4"), ("<f8", ">u4")]):
            add(f, f"bigendian{k}", blocks=[["triangle", 2], ["quad", 1]], npts=4, pdt=pp, cdt=c)
        for k, dts in enumerate([("i4", "i8", "u4"), ("i8", "i4", "i8")]):
            add(f, f"mixdt{k}", blocks=[["triangle", 2], ["quad", 1], ["triangle", 2]], npts=4, cdts=[[q, 3] for q in dts])
        add(f, "manyblocks", blocks=[[("triangle", "quad")[(k * k + k // 3) % 2], 1 + k % 2] for k in range(40)], npts=4)
        for c in (1, 3, 4, 5, 7):
            add(f, f"cnt{c}", blocks=[["triangle", c]], npts=c)
        add(f, "pdata", blocks=[["triangle", 2]], npts=3, pdata=[["obj:vn", [3], "f8"]] if f == "obj" else [], cdata=[["q", [], "f8"]], nocd=True)
        add(f, "out", special="textout")
    for k, bl in enumerate([["line", 1], ["tetra", 1], ["triangle6", 1]]):
        add("obj", f"refuse{k}", special="objrefuse", blocks=[["triangle", 1], bl, ["quad", 1]], npts=4)
    for n in (5, 6, 12, 40):
        add("obj", f"poly{n}", blocks=[["polygon", 2, n], ["triangle", 1], ["polygon", 1, n], ["quad", 1], ["polygon", 1, n + 1]], npts=6)
    for c in (1, 2, 3):
        add("obj", f"vtvn{c}", blocks=[["triangle", 2]], npts=3, pdata=[["obj:vt", [c], "f8"], ["obj:vn", [3], "f8"]])
    for k in ("slashes", "groups", "negative", "comments", "late", "crlf", "neggroups", "many", "glued"):
        add("obj", "hand-" + k, special="objhand", k=k)
    for f in ("off", "ng"):
        add(f, "tri", blocks=[["triangle", 2]], npts=4)
        add(f, "blocks", blocks=[["triangle", 2], ["quad", 1], ["triangle", 3], ["line", 2]], npts=5)
        add(f, "2d", dim=2, blocks=[["triangle", 2]], npts=4)
        add(f, "pts-f4", blocks=[["triangle", 2]], npts=4, pdt="f4")
        for cdt in ("i4", "u4", "u8"):
            add(f, "conn-" + cdt, blocks=[["triangle", 2]], npts=3, cdt=cdt)
        add(f, "F-order", blocks=[["triangle", 2]], npts=4, layout="F")
        add(f, "strided", blocks=[["triangle", 2]], npts=4, layout="strided")
    add("off", "hand", special="offhand")
    for a, pm in enumerate(([0, 1, 2], [1, 2, 0], [2, 1, 0])):
        add("wkt", f"one-{a}", npts=3, ntri=[1], perm=pm, signs=a)
    for a, pm in enumerate(([0, 1, 2, 3], [3, 1, 2, 0], [2, 0, 3, 1])):
        add("wkt", f"four-{a}", npts=4, ntri=[3], conn=[[[0, 1, 2], [3, 1, 0], [2, 3, 0]]], perm=pm, signs=a)
    add("wkt", "two", npts=3, ntri=[2], conn=[[[0, 2, 1], [2, 0, 1]]], signs=0)
    add("wkt", "blocks", npts=4, ntri=[1, 2], conn=[[[3, 1, 2]], [[3, 1, 0], [2, 3, 0]]], signs=1)
    for k in ("plain", "spaces", "exp", "m"):
        for sg in (0, 1):
            add("wkt", f"hand-{k}-{sg}", special="wkthand", k=k, signs=sg)
    return out


def harness(h, sc):
    f, sp = sc["fmt"], sc.get("special")
    if sp:
        return globals()[sp](h, sc)
    if f.startswith("ply"):
        def ignore_cd(*a):
            pass
        mesh, e = build(h, sc)
        if sc.get("unknown"):
            e.cells = [(t, c) for t, c in e.cells if t in ("vertex", "line", "triangle", "quad", "polygon")]
        if sc.get("vec"):
            e.point_data = {k: v for k, v in e.point_data.items() if len(v.shape) == 1}
        return roundtrip_mesh(h, sc, dict(ext=".ply", pad2d=False), mesh, e)
    if f == "obj":
        spec = dict(ext=".obj", pdtype="f8", digits=7 if sc.get("pdt") in ("f4", ">f4") else None, ignore_cdata=("obj:group_ids",))
        mesh, e = build(h, sc)
        e.point_data.pop("other", None)
        if sc.get("nocd"):
            e.cell_data = {}
        return roundtrip_mesh(h, sc, spec, mesh, e)
    if f in ("off", "ng"):
        mesh, e = build(h, sc)
        tri = [c for t, c in e.cells if t == "triangle"]
        e.cells = [("triangle", h.np.concatenate(tri))]
        if sc.get("nocd"):
            e.cell_data = {}
        if f == "ng":
            e.points = e.points.astype("f4")
        ff = dict(ext=".off", pdtype="f8", digits=7 if sc.get("pdt") in ("f4", ">f4") else None) if f == "off" else dict(
            ext="", file_format="neuroglancer", read_format="neuroglancer", pdtype=False)
        return roundtrip_mesh(h, sc, ff, mesh, e)
    if f in ("stla", "stlb", "wkt"):
        return soup(h, sc)


def mixdt(h, sc):
    x = h.floats("x", (3, 3))
    c0, c1 = h.ints("c0", (2, 3), 0, 2, "i4"), h.ints("c1", (1, 4), 0, 2, "i8")
    mesh = h.meshio.Mesh(x, [("triangle", c0), ("quad", c1)])
    snap = snapshot(h, mesh)
    p = h.path("a.ply")
    h.meshio.write(p, mesh, **sc["kw"])
    unchanged(h, mesh, snap)
    g = h.meshio.read(p)
    h.same(g.points, x, "points")
    check_cells(h, g, [("triangle", c0), ("quad", c1)])


# --- triangle soups ----------------------------------------------------------
def distinct_points(h, x, perm=None, signs=None):
    """the points differ pairwise: their first coordinates increase along perm"""
    n = x.shape[0]
    perm = list(range(n)) if perm is None else perm
    for i, j in zip(perm, perm[1:]):
        h.assume(x[i, 0] < x[j, 0])
    if signs is not None:
        # one combination of signs, so that the texts are not split into 2**n cases
        for i in range(n):
            for j in range(x.shape[1]):
                neg = signs % 2 == 1 if j == 0 else (i + j + signs) % 2 == 0
                h.assume(x[i, j] < 0 if neg else x[i, j] > 0)
    for v in x.reshape(-1).tolist() if not h.symbolic else [x[i, j] for i in range(n) for j in range(x.shape[1])]:
        h.assume(v != 0)


def soup(h, sc):
    """each triangle comes back with the same corners in the same order; equal corners are
    the same point and different corners are different points"""
    np = h.np
    f = sc["fmt"]
    dim = sc.get("dim", 3)
    x = h.floats("x", (sc["npts"], dim), sc.get("pdt", "f8"))
    if sc.get("xconst"):
        # distinct points by construction
        pm = sc.get("perm", list(range(sc["npts"])))
        x = np.column_stack([h.const([0.5 + pm.index(i) for i in range(sc["npts"])], dtype="f8"), x[:, 1:]])
    binary = sc.get("kw", {}).get("binary", False)
    if not sc.get("xconst"):
        distinct_points(h, x, sc.get("perm"), sc.get("signs"))
    if sc.get("dup"):
        y = [[x[i, j] for j in range(3)] for i in range(4)]
        y[3] = y[0]
        x = h.array(y, dtype=sc.get("pdt", "f8"))
    cs = [h.const(c, dtype="i8") for c in sc["conn"]] if "conn" in sc else [h.ints(f"c{k}", (n, 3), 0, sc["npts"] - 1) for k, n in enumerate(sc["ntri"])]
    cells = [("triangle", c) for c in cs]
    if sc.get("extra"):
        cells.insert(1, ("quad", h.const([[0, 1, 2, 3]], dtype="i8")))
    cd = {}
    if sc.get("normals"):
        nr = [h.floats(f"n{k}", (n, 3)) for k, n in enumerate(sc["ntri"])]
        cd = {"facet_normals": nr}
    else:
        # the normals are not checked: keep the solver out of their computation
        cd = {"facet_normals": [np.ones((len(c), 3)) for _, c in cells]} if f != "wkt" else {}
    mesh = h.meshio.Mesh(x, cells, cell_data=cd)
    snap = snapshot(h, mesh)
    p = h.path("a.stl" if f != "wkt" else "a.wkt")
    h.meshio.write(p, mesh, **sc.get("kw", {}))
    unchanged(h, mesh, snap)
    g = h.meshio.read(p)
    tri = np.concatenate(cs)
    pts = pad3(h, x)
    if binary:
        pts = pts.astype("f4")
    h.check(len(g.cells) == 1 and g.cells[0].type == "triangle", "cell types")
    if len(g.cells) != 1:
        return
    got = g.cells[0].data
    h.check(tuple(got.shape) == (len(tri), 3), f"shape {tuple(got.shape)}")
    h.same(g.points[got], pts[tri], "corners", digits=7 if (sc.get("pdt") == "f4" and not binary) else None)
    # the same corner <=> the same point
    if not binary and not sc.get("dup"):
        a, b = got.reshape(-1), tri.reshape(-1)
        for i in range(len(b)):
            for j in range(i):
                h.check((a[i] == a[j]) == (b[i] == b[j]), f"corner identity {i} {j}")
    if sc.get("dup"):
        h.check(g.points.shape[0] == 3, f"{g.points.shape[0]} points")
    if sc.get("normals") and not binary:
        h.same(np.concatenate(g.cell_data["facet_normals"]), np.concatenate(nr), "normals")


def stlhand(h, sc):
    k = sc["k"]
    np = h.np
    F = h.floats("f", (2, 3, 3), "f4" if k.startswith("bin") else "f8")
    distinct_points(h, F.reshape(6, 3), [4, 1, 0, 5, 2, 3])
    for v in [F[i, j, l] for i in range(2) for j in range(3) for l in range(3)]:
        h.assume(v != 0)
    if k == "short":
        g = h.meshio.read(h.write_text("a.stl", "solid\nendsolid\n"))
        return h.check(len(g.points) == 0 and sum(len(c.data) for c in g.cells) == 0, "empty solid")
    N = h.floats("n", (2, 3), "f8")
    if k.startswith("bin"):
        b = (b"solid foo" if k == "binsolid" else b"xyz").ljust(80, b" ") + _np.array(2, dtype="<u4").tobytes()
        for i in range(2):
            b += _np.array([0, 0, 1], dtype="<f4").tobytes() + h.to_bytes(F[i].reshape(-1), "<f4") + _np.array(7 * i, dtype="<u2").tobytes()
        p = h.write_bytes("a.stl", b)
    else:
        ind = "    " if k == "indent" else " "
        s = "solid " + ("a name of two facets" if k == "names" else "x" * 80) + "\n"
        for i in range(2):
            n = [N[i, j] for j in range(3)]
            s += ind + "facet normal " + " ".join(repr(float(v)) if not h.symbolic else str(v) for v in n) + "\n" + ind * 2 + "outer loop\n"
            for j in range(3):
                s += ind * 3 + "vertex  " + "  ".join(repr(float(v)) if not h.symbolic else str(v) for v in [F[i, j, l] for l in range(3)]) + " \n"
            s += ind * 2 + "endloop\n" + ind + "endfacet\n"
            if k == "solids" and i == 0:
                s += "endsolid x\nsolid y\n"
            if k == "blank":
                s += "\n  \n"
        s += "endsolid x\n"
        if k == "blank":
            s += "\n"
        p = h.write_text("a.stl", s)
    g = h.meshio.read(p)
    h.check(len(g.cells) == 1, "one block")
    h.same(g.points[g.cells[0].data], F, "corners")
    if not k.startswith("bin"):
        h.same(g.cell_data["facet_normals"][0], N, "normals")


def txt(h, v):
    return str(v) if h.symbolic else repr(v.item() if hasattr(v, "item") else v)


def wkthand(h, sc):
    k = sc["k"]
    if k == "exp":
        s = "TIN (((1e-05 2.5E+3 -1.e2, 1E0 0.0 .5, 7 8 9, 1e-05 2.5E+3 -1.e2)))"
        g = h.meshio.read(h.write_text("a.wkt", s))
        return h.same(g.points[g.cells[0].data], h.const([[[1e-5, 2500.0, -100.0], [1.0, 0.0, 0.5], [7.0, 8.0, 9.0]]], dtype="f8"), "corners")
    d = 4 if k == "m" else 3
    F = h.floats("f", (2, 3, d))
    distinct_points(h, F.reshape(6, d), [4, 1, 0, 5, 2, 3], sc["signs"])
    for v in [F[i, j, l] for i in range(2) for j in range(3) for l in range(d)]:
        h.assume(v != 0)
    tri = []
    for i in range(2):
        c = [(("  " if k == "spaces" else " ")).join(txt(h, F[i, j, l]) for l in range(d)) for j in (0, 1, 2, 0)]
        tri.append("((" + (" , " if k == "spaces" else ", ").join(c) + "))")
    s = ("TIN(" if k == "spaces" else "TIN (") + (" ,\n" if k == "spaces" else ", ").join(tri) + ")\n"
    g = h.meshio.read(h.write_text("a.wkt", s))
    h.same(g.points[g.cells[0].data], F, "corners")


def offhand(h, sc):
    x = h.floats("x", (4, 3))
    c = h.ints("c", (2, 3), 0, 3)
    s = "OFF\n# comment\n\n# c2\n4 2 5\n" + "".join("  ".join(txt(h, x[i, j]) for j in range(3)) + "\n" for i in range(4)) + "\n"
    s += "".join("3  " + " ".join(str(c[i, j]) for j in range(3)) + "\n" for i in range(2))
    g = h.meshio.read(h.write_text("a.off", s))
    h.same(g.points, x, "points")
    check_cells(h, g, [("triangle", c)])


def objhand(h, sc):
    k = sc["k"]
    x = h.floats("x", (4, 3))
    c = h.ints("c", (3, 3), 0, 3)
    q = h.ints("q", (1, 4), 0, 3)
    V = ["v " + " ".join(txt(h, x[i, j]) for j in range(3)) + "\n" for i in range(4)]
    fc = lambda r, n, f="{}": "f " + " ".join(f.format(r[j] + 1) for j in range(n)) + "\n"
    if k == "crlf":
        s = ("".join(V) + "".join(fc(c[i], 3) for i in range(3)) + fc(q[0], 4)).replace("\n", "\r\n")
    elif k == "neggroups":
        h.assume(q[0, 0] < 3)
        for j in range(1, 4):
            h.assume(q[0, j] < 3)
        s = "".join(V[:3]) + "f " + " ".join(str(q[0, j] - 3) for j in range(4)) + "\ng a\n" + V[3] + "".join("f " + " ".join(str(c[i, j] - 4) for j in range(3)) + "\n" for i in range(3))
    elif k == "many":
        s = "".join(V) + "".join(fc(c[i], 3) for i in range(3)) + "vn 0 0 1\n" * 4 + "vt 0.5 1\n" * 4 + fc(q[0], 4)
    elif k == "glued":
        s = "".join(v.replace(" ", "\t") for v in V) + "".join(fc(c[i], 3).replace(" ", "\t  ") for i in range(3)) + fc(q[0], 4).strip()
    elif k == "slashes":
        s = "".join(V) + fc(c[0], 3, "{}/1/2") + fc(c[1], 3, "{}//2") + fc(c[2], 3, "{}/1") + fc(q[0], 4)
        groups = None
    elif k == "groups":
        s = "g empty\n" + "".join(V) + "g one\n" + fc(c[0], 3) + "g two\ns off\n" + fc(c[1], 3) + fc(c[2], 3) + "usemtl x\n" + fc(q[0], 4) + "g three\n" + fc(q[0], 4) + "g last\n"
        groups = [[1], [2, 2], [2], [3]]
    elif k == "negative":
        s = "".join(V)
        m = c - 4
        for i in range(3):
            s += "f " + " ".join(str(m[i, j]) for j in range(3)) + "\n"
        s += fc(q[0], 4)
        groups = None
    elif k == "late":
        h.assume(q[0, 0] < 3)
        for j in range(1, 4):
            h.assume(q[0, j] < 3)
        s = "".join(V[:3]) + fc(q[0], 4) + V[3] + "".join(fc(c[i], 3) for i in range(3))
    else:
        s = "# comment\nmtllib a.mtl\no obj\n\n" + "".join("  " + v for v in V) + "# f 1 2 3\n" + "".join(fc(c[i], 3) for i in range(3)) + "s 1\n" + fc(q[0], 4)
    g = h.meshio.read(h.write_text("a.obj", s))
    h.same(g.points, x, "points")
    cells = [("triangle", c), ("quad", q)]
    if k in ("late", "neggroups"):
        cells.reverse()
    if k == "groups":
        cells.append(("quad", q))
    check_cells(h, g, cells)
    if k == "groups":
        h.check([[int(v) for v in b] for b in g.cell_data["obj:group_ids"]] == groups, "groups")


def plyhand(h, sc):
    """files of other producers"""
    np = h.np
    enc, v = sc["k"], sc["v"]
    names = PO if v == "oldnames" else PT
    x = h.floats("x", (4, 3), "f4")
    pdt = ["f8", "i2", "u1", "u2", "i4", "i1", "u4", "f4"]
    pd = [data(h, f"p{j}", (4,), dt) for j, dt in enumerate(pdt)]
    conn = [h.ints("c0", (1, 3), 0, 3, "i4"), h.ints("c1", (2, 4), 0, 3, "i4"), h.ints("c2", (1, 3), 0, 3, "i4")]
    rows = [[b[i, j] for j in range(b.shape[1])] for b in conn for i in range(b.shape[0])]
    fp = {}
    if v in ("faceprops", "propsfirst"):
        fp = {"q": data(h, "q", (4,), "f4"), "mat": data(h, "mat", (4,), "i2"), "col": data(h, "col", (4,), "u1")}
    if v == "longlist":
        v = "extralist"
        fp = {"w": spread(h, "w", (4, 200), "f4", 2)}
    elif v == "extralist":
        fp = {"w": data(h, "w", (4, 2), "f4")}
    cnt = {"counts": "u2"}.get(v, "u1")
    head = f"ply\n" + ("comment foo\nobj_info x y\n".replace("obj_info x y\n", "") if v == "comments" else "") + f"format {enc} 1.0\n"
    if v == "comments":
        head += "comment\ncomment made by hand\nobj_info num_cols 512\n"
    head += "element vertex 4\n"
    props = [(c, "f4", x[:, j]) for j, c in enumerate("xyz")] + [(f"p{j}", dt, pd[j]) for j, dt in enumerate(pdt)]
    if v == "xyzorder":
        props = [props[2], props[5], props[0], props[4], props[1], props[3]] + props[6:]
    if v == "order":
        props = [props[3], props[0], props[1], props[4], props[2]] + props[5:]
    for n, dt, _ in props:
        head += f"property {names[dt]} {n}\n"
    head += "element face 4\n"
    lst = [f"property list {names[cnt]} {names['i4']} vertex_indices\n"]
    fdt = {"q": "f4", "mat": "i2", "col": "u1"}
    if v == "extralist":
        lst.insert(len(fp["w"][0]) != 200, f"property list {names['u1']} {names['f4']} w\n")
    elif fp:
        other = [f"property {names[fdt[n]]} {n}\n" for n in fp]
        lst = other[:2] + lst + other[2:] if v == "propsfirst" else lst + other
    head += "".join(lst) + "end_header\n"
    if enc == "ascii":
        t = lambda val, dt: (txt(h, val) if dt != "f4" or h.symbolic else str(val)) if dt[0] == "f" else str(val)
        body = "".join(" ".join(t(a[i], dt) for _, dt, a in props) + "\n" for i in range(4))
        for r in range(4):
            parts = [[str(len(rows[r]))] + [str(z) for z in rows[r]]]
            if v == "extralist":
                parts.insert(len(fp["w"][r]) != 200, [str(len(fp["w"][r]))] + [t(fp["w"][r, j], "f4") for j in range(len(fp["w"][r]))])
            elif fp:
                other = [[t(fp[n][r], fdt[n])] for n in fp]
                parts = other[:2] + parts + other[2:] if v == "propsfirst" else parts + other
            body += " ".join(z for q in parts for z in q) + "\n"
        p = h.write_text("a.ply", head + body)
    else:
        e = "<" if "little" in enc else ">"
        one = lambda val, dt: h.to_bytes(h.array([val], dtype=dt), e + dt)
        body = b"".join(one(a[i], dt) for i in range(4) for _, dt, a in props)
        for r in range(4):
            parts = [_np.array([len(rows[r])], dtype=e + cnt).tobytes() + b"".join(one(z, "i4") for z in rows[r])]
            if v == "extralist":
                parts.insert(len(fp["w"][r]) != 200, _np.array([len(fp["w"][r])], dtype="u1").tobytes() + b"".join(one(fp["w"][r, j], "f4") for j in range(len(fp["w"][r]))))
            elif fp:
                other = [one(fp[n][r], fdt[n]) for n in fp]
                parts = other[:2] + parts + other[2:] if v == "propsfirst" else parts + other
            body += b"".join(parts)
        p = h.write_bytes("a.ply", head.encode() + body)
    g = h.meshio.read(p)
    h.same(g.points, x, "points")
    for j, dt in enumerate(pdt):
        h.same(g.point_data.get(f"p{j}"), pd[j], f"p{j}", dtype=_np.dtype(dt))
    cells = [("triangle", conn[0]), ("quad", conn[1]), ("triangle", conn[2])]
    check_cells(h, g, cells)
    for n, a in fp.items():
        got = g.cell_data.get(n)
        if got is None or [len(z) for z in got] != [1, 2, 1]:
            h.fail(f"cell data {n}")
            continue
        h.same(np.concatenate(got), a, "cell data " + n)


def grid(h, sc):
    """a strip of n triangles over about n/2 + 2 fixed points, all used"""
    n = sc["n"]
    np_ = n // 2 + 3
    dim = sc.get("dim", 3)
    k = _np.arange(np_)
    x = _np.column_stack([0.25 + k / 3, ((k * 7919) % 1009 - 500.25) * 10.0 ** (k % 7 - 3), (-1.0) ** k * (k + 1) / 7])[:, :dim]
    i = _np.arange(n)
    tri = _np.column_stack([i // 2, i // 2 + 1 + i % 2, i // 2 + 2 - i % 2]) if n > 1 else _np.array([[0, 1, 2]])
    return x, tri


def soupbig(h, sc):
    """fixed triangle strips: corners in order, shared points shared, right-handed unit normals"""
    np, f, k = h.np, sc["fmt"], sc.get("k")
    x, tri = grid(h, sc)
    if sc.get("pdt") == "f4":
        x = x.astype("f4")
    if k == "be":
        x = x.astype(">f8")
    tri = tri.astype(sc.get("cdt", "i8"))
    xs, ts = x, tri
    if k == "F":
        xs, ts = _np.asfortranarray(x), _np.asfortranarray(tri)
    if k == "strided":
        xs, ts = _np.repeat(x, 2, axis=0)[::2], _np.repeat(tri, 2, axis=0)[::2]
    half = len(tri) // 3
    # one symbolic index, so that the verdict is the solver's
    c0 = h.array(ts)
    blocks = [("triangle", c0[:half]), ("triangle", c0[half:])] if half else [("triangle", c0)]
    cd = {}
    if k == "skip":
        blocks.insert(1, ("quad", h.const([[0, 1, 2, 3]], dtype="i8")))
        blocks.append(("tetra", h.const([[0, 1, 2, 3]], dtype="i8")))
    if k == "normals":
        N = h.floats("n", (len(tri), 3), "f4")
        cd = {"facet_normals": [N[: len(blocks[0][1])], N[len(blocks[0][1]) :]]}
    mesh = h.meshio.Mesh(h.array(xs), blocks, cell_data=cd)
    p = h.path("a.stl" if f != "wkt" else "a.wkt")
    snap = snapshot(h, mesh)
    h.meshio.write(p, mesh, **sc.get("kw", {}))
    unchanged(h, mesh, snap)
    g = h.meshio.read(p)
    binary = sc.get("kw", {}).get("binary", False)
    x3 = x if x.shape[1] == 3 else _np.column_stack([x, 0 * x[:, 0]])
    want = x3.astype("f4") if binary else x3
    h.check(len(g.cells) == 1 and g.cells[0].type == "triangle" and tuple(g.cells[0].data.shape) == tri.shape, "triangles")
    got = g.cells[0].data
    h.same(g.points[got], h.array(want[tri.astype("i8")]), "corners", digits=7 if sc.get("pdt") == "f4" else None)
    order = list(dict.fromkeys(tri.reshape(-1).tolist()))
    first = {q: j for j, q in enumerate(order)}
    h.check(g.points.shape[0] == len(order), f"{g.points.shape[0]} points instead of {len(order)}")
    h.same(got, h.const([[first[q] for q in r] for r in tri.tolist()], dtype="i8"), "points in the order of their first use", kind="iu")
    if f == "wkt":
        return
    if binary:
        b = h.read_bytes(p)
        h.check(len(b) == 84 + 50 * len(tri) and int.from_bytes(b[80:84], "little") == len(tri), "binary STL size")
        if len(b) != 84 + 50 * len(tri):
            return
        h.check(not b.startswith(b"solid"), "a binary file does not start with solid")
        nr = [h.from_bytes(b[84 + 50 * i : 96 + 50 * i], "<f4") for i in range(len(tri))]
        h.same(h.array([h.from_bytes(b[96 + 50 * i : 132 + 50 * i], "<f4") for i in range(len(tri))]).reshape(-1, 3, 3), h.array(want[tri.astype("i8")]), "corners in the file")
        h.check(all(b[132 + 50 * i : 134 + 50 * i] == b"\0\0" for i in range(len(tri))), "attributes")
    else:
        L = [q.split() for q in h.read_text(p).split("\n")]
        h.check(L[0][0] == "solid" and L[-2][0] == "endsolid", "solid lines")
        seq = [["facet", "normal"], ["outer", "loop"], ["vertex"], ["vertex"], ["vertex"], ["endloop"], ["endfacet"]]
        ok = len(L) == 7 * len(tri) + 3 and all(L[1 + 7 * i + j][: len(q)] == q for i in range(len(tri)) for j, q in enumerate(seq))
        h.check(ok, "lines of the facets")
        if not ok:
            return
        nr = [[h.parse_float(v) for v in L[1 + 7 * i][2:]] for i in range(len(tri))]
        if "facet_normals" not in g.cell_data:
            h.fail("no normals")
            return
        h.same(g.cell_data["facet_normals"][0], h.array(nr), "normals read")
    if k == "normals":
        return h.same(h.array(nr), N, "given normals", digits=None if binary else 7)
    P = x3[tri.astype("i8")].astype("f8")
    w = _np.cross(P[:, 1] - P[:, 0], P[:, 2] - P[:, 0])
    w /= _np.sqrt((w * w).sum(axis=1))[:, None]
    tol = 1e-5 if binary or sc.get("pdt") == "f4" else 1e-12
    d = _np.abs(_np.array([[float(v) for v in r] for r in nr]) - w)
    h.check(bool((d <= tol * (1 if not sc.get("pdt") else 1000)).all()), "computed unit normals")


def wktstr(h, sc):
    x, tri = grid(h, dict(n=9))
    m = h.meshio.Mesh(h.array(x), [("triangle", h.array(tri))])
    W = h.meshio.wkt._wkt
    s = W.write_str(m)
    g = W.read_str(s)
    h.same(g.points[g.cells[0].data], h.array(x[tri]), "corners")
    for bad in ("TIN ((0 0 0, 1 0 0, 0 1 0, 0 0 0))", "TIM (((0 0 0, 1 0 0, 0 1 0, 0 0 0)))", "TIN (((0 0 0, 1 0 0, 0 1 0, 0 0 1)))"):
        try:
            g = W.read_str(bad)
        except (h.meshio.ReadError, ValueError):
            h.check(True, "refused")
            continue
        h.fail("accepted " + bad)


def objrefuse(h, sc):
    mesh, e = build(h, sc)
    p = h.path("a.obj")
    try:
        h.meshio.write(p, mesh)
    except h.meshio.WriteError:
        return h.check(True, "refused")
    g = h.meshio.read(p)
    check_cells(h, g, e.cells)


def textout(h, sc):
    """the written file read by its own description"""
    f = sc["fmt"]
    x = h.floats("x", (4, 3), "f4" if f == "ng" else "f8")
    c = [h.ints("c0", (2, 3), 0, 3), h.ints("c1", (1, 4), 0, 3), h.ints("c2", (1, 3), 0, 3)]
    bl = [("triangle", c[0]), ("quad", c[1]), ("triangle", c[2])]
    p = h.path("a.off" if f == "off" else "a.obj" if f == "obj" else "a")
    h.meshio.write(p, h.meshio.Mesh(x, bl), file_format="neuroglancer" if f == "ng" else None)
    tri = h.np.concatenate([c[0], c[2]])
    if f == "ng":
        b = h.read_bytes(p)
        h.check(len(b) == 4 + 48 + 36 and int.from_bytes(b[:4], "little") == 4, "size and count")
        h.same(h.array(h.from_bytes(b[4:52], "<f4")).reshape(4, 3), x, "points")
        return h.same(h.array(h.from_bytes(b[52:], "<u4")).reshape(3, 3), tri, "triangles", kind="iu")
    L = [q.split() for q in h.read_text(p).split("\n") if q.strip() and q.strip()[0] != "#"]
    if f == "off":
        h.check(L[0] == ["OFF"] and L[1][:2] == ["4", "3"] and len(L[1]) == 3 and len(L) == 9, "header and counts")
        h.same(h.array([[h.parse_float(v) for v in r] for r in L[2:6]]), x, "points")
        h.check(all(r[0] == "3" for r in L[6:]), "corners per face")
        return h.same(h.array([[h.parse_int(v) for v in r[1:]] for r in L[6:]]), tri, "triangles", kind="iu")
    h.check([r[0] for r in L] == ["v"] * 4 + ["f"] * 4, "keywords")
    h.same(h.array([[h.parse_float(v) for v in r[1:]] for r in L[:4]]), x, "points")
    F = [[h.parse_int(v) for v in r[1:]] for r in L[4:]]
    h.same(h.array(F[:2]), c[0] + 1, "triangles", kind="iu")
    h.same(h.array(F[2:3]), c[1] + 1, "quads", kind="iu")
    h.same(h.array(F[3:]), c[2] + 1, "triangles 2", kind="iu")


def plyout(h, sc):
    """the written file follows its own header"""
    x = h.floats("x", (3, 3))
    pd = [("i", data(h, "pi", (3,), "i4")), ("f", h.floats("pf", (3,), "f4")), ("u", data(h, "pu", (3,), "u2"))]
    c = [h.ints("c0", (2, 3), 0, 2), h.ints("c1", (1, 4), 0, 2)]
    p = h.path("a.ply")
    h.meshio.write(p, h.meshio.Mesh(x, [("triangle", c[0]), ("quad", c[1])], point_data=dict(pd)), **sc["kw"])
    b = h.read_bytes(p)
    head, body = b.split(b"end_header\n", 1)
    H = [q for q in head.decode().split("\n") if q and not q.startswith("comment")]
    h.check(H[0] == "ply" and H[1] == "format " + ("binary_little_endian" if sc["kw"]["binary"] else "ascii") + " 1.0", "magic and format")
    canon = {**{v: k for k, v in PT.items()}, **{v: k for k, v in PO.items()}}
    H = [q.split() for q in H[2:]]
    h.check(H[0] == ["element", "vertex", "3"] and H[7] == ["element", "face", "3"] and len(H) == 9, "elements")
    h.check([(canon[q[1]], q[2]) for q in H[1:7]] == [("f8", "x"), ("f8", "y"), ("f8", "z"), ("i4", "i"), ("f4", "f"), ("u2", "u")], "vertex properties")
    h.check(H[8][:2] == ["property", "list"] and H[8][4] == "vertex_indices", "face property")
    cnt, idt = canon[H[8][2]], canon[H[8][3]]
    rows = [[c[0][i, j] for j in range(3)] for i in range(2)] + [[c[1][0, j] for j in range(4)]]
    if not sc["kw"]["binary"]:
        L = [q.split() for q in body.decode().split("\n") if q]
        h.check([len(q) for q in L] == [6, 6, 6, 4, 4, 5], "columns")
        h.same(h.array([[h.parse_float(v) for v in L[i][:3]] for i in range(3)]), x, "points")
        h.same(h.array([h.parse_int(L[i][3]) for i in range(3)]), pd[0][1], "integers", kind="iu")
        h.same(h.array([h.parse_float(L[i][4]) for i in range(3)]), pd[1][1], "singles", digits=7)
        h.same(h.array([h.parse_int(L[i][5]) for i in range(3)]), pd[2][1], "shorts", kind="iu")
        h.check([q[0] for q in L[3:]] == ["3", "3", "4"], "corners per face")
        for i, r in enumerate(rows):
            h.same(h.array([h.parse_int(v) for v in L[3 + i][1:]]), h.array(r), f"face {i}", kind="iu")
        return
    o = 0
    for i in range(3):
        h.same(h.array(h.from_bytes(body[o : o + 24], "<f8")), x[i], "point")
        h.same(h.array(h.from_bytes(body[o + 24 : o + 28], "<i4")), pd[0][1][i : i + 1], "integer", kind="iu")
        h.same(h.array(h.from_bytes(body[o + 28 : o + 32], "<f4")), pd[1][1][i : i + 1], "single")
        h.same(h.array(h.from_bytes(body[o + 32 : o + 34], "<u2")), pd[2][1][i : i + 1], "short", kind="iu")
        o += 34
    cs, isz = _np.dtype(cnt).itemsize, _np.dtype(idt).itemsize
    for i, r in enumerate(rows):
        h.check(int.from_bytes(body[o : o + cs], "little") == len(r), "corners per face")
        h.same(h.array(h.from_bytes(body[o + cs : o + cs + len(r) * isz], "<" + idt)), h.array(r), f"face {i}", kind="iu")
        o += cs + len(r) * isz
    h.check(o == len(body), "length of the body")


def plylist(h, sc):
    """face lists with all types of counts and indices"""
    e = {"ascii": "", "binary_little_endian": "<", "binary_big_endian": ">"}[sc["k"]]
    cnt, idt = sc["cnt"], sc["idt"]
    names = {**PT, "i8": "int64", "u8": "uint64"}
    x = h.floats("x", (4, 3))
    hi = {"i8": 2**53, "u8": 2**53}.get(idt, int(_np.iinfo(idt).max))
    bl = [("triangle", h.ints("c0", (2, 3), 0, hi, idt)), ("quad", h.ints("c1", (2, 4), 0, hi, idt)), ("polygon", h.ints("c2", (1, 7), 0, hi, idt)), ("triangle", h.ints("c3", (1, 3), 0, hi, idt)),
          ("line", h.ints("c4", (1, 2), 0, hi, idt))]
    s = f"ply\nformat {sc['k']} 1.0\nelement vertex 4\nproperty double x\nproperty double y\nproperty double z\nelement face 7\nproperty list {names[cnt]} {names[idt]} vertex_indices\nend_header\n"
    rows = [[c[i, j] for j in range(c.shape[1])] for _, c in bl for i in range(c.shape[0])]
    if not e:
        s += "".join(" ".join(txt(h, x[i, j]) for j in range(3)) + "\n" for i in range(4))
        s += "".join(f"{len(r)} " + " ".join(str(v) for v in r) + "\n" for r in rows)
        p = h.write_text("a.ply", s)
    else:
        b = s.encode() + h.to_bytes(x.reshape(-1), e + "f8")
        for r in rows:
            b += _np.array([len(r)], dtype=e + cnt).tobytes() + h.to_bytes(h.array(r, dtype=idt), e + idt)
        p = h.write_bytes("a.ply", b)
    g = h.meshio.read(p)
    h.same(g.points, x, "points")
    check_cells(h, g, bl)
