"""Medit (.mesh, .meshb): round trip, and files of other producers."""

import re

import numpy as _np

from .common import NN, build, check_cells, data, spread
from .medit_layout import LAYOUT
from .rt import roundtrip_mesh

TYPES = ["line", "triangle", "quad", "tetra", "wedge", "pyramid", "hexahedron"]
NAMES = {"line": "Edges", "triangle": "Triangles", "quad": "Quadrilaterals", "tetra": "Tetrahedra", "wedge": "Prisms", "pyramid": "Pyramids",
         "hexahedron": "Hexahedra"}
CODES = {"line": 5, "triangle": 6, "quad": 7, "tetra": 8, "wedge": 9, "hexahedron": 10, "pyramid": 49}
BOUNDS = ("<= 5 points in 2D/3D, <= 9 blocks of <= 3 cells, symbolic coordinates, connectivity and labels (labels over the full int32 range; int64 "
          "range below 2^53 with int64 connectivity); binary files of versions 1-4 in either byte order with sections to skip")
BOUNDS += "; also meshes of up to 66000 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = "labels outside int32 in meshes with int32 connectivity; ASCII versions 3 and 4; cell types Medit does not know (skipped with a warning)"


def scenarios(tier):
    out = []

    def add(i, **sc):
        for ext in (".mesh", ".meshb"):
            out.append(dict(id=i + ext, ext=ext, **sc))

    R = [["medit:ref", [], "i4"]]
    for t in TYPES:
        add(t, blocks=[[t, 2]], npts=3, cdata=R)
        add("twice-" + t, blocks=[[t, 2], ["triangle", 1], [t, 1]], npts=3, cdata=R, pdata=R)
    add("all", blocks=[[t, 1 + k % 3] for k, t in enumerate(TYPES)] + [["triangle", 1], ["tetra", 2]], npts=5, cdata=R, pdata=R)
    add("rev", blocks=[[t, 2] for t in reversed(TYPES)], npts=4, cdata=[["lab", [], "i4"]], pdata=[["f", [], "f8"], ["lab", [], "i4"], ["l2", [], "i4"]])
    add("nolabels", blocks=[["triangle", 2], ["line", 1]], npts=3)
    add("floatdata", blocks=[["triangle", 2], ["line", 1]], npts=3, pdata=[["f", [], "f8"]], cdata=[["g", [], "f8"]])
    add("2d", dim=2, blocks=[["triangle", 2], ["quad", 1]], npts=4, pdata=R, cdata=R)
    for dt in ("i2", "u2", "i4", "u1", "i1", "i8", "u4", "u8"):
        big = dt in ("i8", "u4", "u8")
        add("lab-" + dt, blocks=[["triangle", 2], ["line", 1]], npts=3, pdata=[["a", [], dt]], cdata=[["a", [], dt]],
            prange=(0, 2**53 - 1 if dt != "u4" else 2**32 - 1) if big else (), crange=(0, 2**53 - 1 if dt != "u4" else 2**32 - 1) if big else ())
    for cdt in ("i4", "u4", "u8"):
        add("conn-" + cdt, blocks=[["triangle", 2], ["line", 2]], npts=3, cdt=cdt, cdata=R, pdata=R)
    add("conn-i4-none", blocks=[["triangle", 2], ["line", 2]], npts=3, cdt="i4")
    add("pts-f4", blocks=[["triangle", 2]], npts=3, pdt="f4", pdata=R)
    for k, (p, c, d) in enumerate([(">f8", ">i8", ">i4"), (">f4", ">i4", ">i8"), ("<f8", "<i4", "<i2")]):
        add(f"bigendian{k}", blocks=[["quad", 2], ["line", 2]], npts=4, pdt=p, cdt=c, pdata=[["a", [], d]], cdata=[["a", [], d]],
            **({"prange": (0, 2**31 - 1), "crange": (0, 2**31 - 1)} if d == ">i8" else {}))
    add("F-order", blocks=[["quad", 2]], npts=4, layout="F", pdata=R, cdata=R)
    add("strided", blocks=[["quad", 2]], npts=4, layout="strided", pdata=R, cdata=R)
    # larger meshes, all connectivity types, many blocks
    add("medium", blocks=[["triangle", 150], ["hexahedron", 130], ["line", 20], ["triangle", 45]], npts=310, medium=3, cdata=R, pdata=R)
    add("medium-i4", blocks=[["tetra", 150], ["wedge", 130], ["pyramid", 20]], npts=310, cdt="i4", medium=3, cdata=R, pdata=R)
    add("medium-2d", dim=2, blocks=[["triangle", 150], ["quad", 40]], npts=310, medium=3, cdata=R, pdata=R)
    add("large", blocks=[["tetra", 4200], ["triangle", 1100]], npts=5000, medium=3, cdata=R, pdata=R, weight=4)
    add("huge", blocks=[["line", 66000]], npts=66000, medium=2, cdata=R, weight=9)
    add("huge-i4", blocks=[["line", 66000]], npts=66000, medium=2, cdt="i4", pdata=R, weight=9)
    for cdt in ("u1", "i1", "i2", "u2"):
        add("many-" + cdt, blocks=[["triangle", 100], ["hexahedron", 10]], npts=120, medium=2, medc=0, cdt=cdt, cdata=R, pdata=R)
        add("many-nolab-" + cdt, blocks=[["triangle", 100], ["hexahedron", 10]], npts=120, medium=2, medc=0, cdt=cdt)
    add("conn-huge", blocks=[["triangle", 2], ["tetra", 1]], npts=4, cmax=2**52, cdata=R)
    add("conn-huge-i4", blocks=[["triangle", 2], ["tetra", 1]], npts=4, cdt="i4", cmax=2**31 - 2, cdata=R)
    add("conn-huge-u8", blocks=[["triangle", 2], ["tetra", 1]], npts=4, cdt="u8", cmax=2**52, cdata=R)
    for k, (a, b, c) in enumerate([("i4", "i4", "i8"), ("i8", "i4", "i4"), ("i4", "u8", "i4"), ("u4", "i4", "i8")]):
        mx = {"i4": 2**31 - 2, "i8": 2**52, "u8": 2**52, "u4": 2**31 - 2}
        add(f"mixdt{k}", blocks=[["triangle", 2], ["quad", 1], ["line", 2]], npts=4, cdts=[[q, mx[q]] for q in (a, b, c)], cdata=R, pdata=R)
        add(f"mixdt-nolab{k}", blocks=[["triangle", 2], ["quad", 1], ["line", 2]], npts=4, cdts=[[q, mx[q]] for q in (a, b, c)])
    add("manyblocks", blocks=[[TYPES[(k * k + k // 3) % 7], 1 + k % 2] for k in range(40)], npts=4, cdata=R)
    add("pick", blocks=[["triangle", 2], ["line", 1], ["triangle", 1]], npts=3,
        pdata=[["v", [3], "i4"], ["f", [], "f8"], ["lab", [], "i4"], ["z", [], "i8"]], cdata=[["g", [], "f8"], ["w", [2], "i4"], ["m", [], "i4"], ["n", [], "i4"]])
    add("pick-vec", blocks=[["triangle", 2], ["line", 1]], npts=3, pdata=[["v", [3], "i4"]], cdata=[["w", [2], "i4"]])
    add("ponly", blocks=[["triangle", 2], ["line", 1]], npts=3, pdata=R)
    add("conly", blocks=[["triangle", 2], ["line", 1]], npts=3, cdata=R)
    add("sets", blocks=[["triangle", 2], ["line", 1]], npts=3, cdata=R, psets=[["a", [0, 1]]], csets=[["b", [[0], [0]]]])
    add("one", blocks=[["line", 1]], npts=1, cdata=R, pdata=R)
    add("negint", blocks=[["line", 1], ["tetra", 2]], npts=2, cdata=[["a", [], "i8"]], pdata=[["a", [], "i8"]], crange=(-(2**53) + 1, -1), prange=(-(2**53) + 1, -1))
    for k, bl in enumerate([[["vertex", 2], ["triangle", 2], ["line3", 1], ["line", 1]], [["triangle", 1], ["tetra10", 1], ["triangle", 2], ["quad8", 2]],
                            [["quad9", 1], ["hexahedron", 1], ["hexahedron20", 1], ["hexahedron", 2], ["wedge15", 2], ["pyramid", 1], ["pyramid13", 1]]]):
        add(f"unknown{k}", blocks=bl, npts=5, cdata=R, pdata=R)
        add(f"unknown-nolab{k}", blocks=bl, npts=5)
    for v in (1, 2, 3, 4):
        for e in "<>":
            for dim in (2, 3):
                out.append(dict(id=f"codes-v{v}{e}{dim}", special="bin", k="codes", v=v, e=e, dim=dim))
    for v in (1, 2, 3, 4):
        for e in "<>":
            for k in ("plain", "skip", "2d", "order", "medium"):
                out.append(dict(id=f"bin-v{v}{e}{k}", special="bin", v=v, e=e, k=k))
    for k in ("plain", "nextline", "skip", "comments", "order", "v1", "v0", "hexaedra", "2d", "spaces", "crlf", "wrapped", "noend", "empty", "medium"):
        out.append(dict(id="asc-" + k, special="asc", k=k))
    return out


def harness(h, sc):
    sp = sc.get("special")
    if sp == "bin":
        return binfile(h, sc)
    if sp == "asc":
        return ascfile(h, sc)
    np = h.np
    mesh, e = build(h, sc)
    pd = [v for v in e.point_data.values() if v.dtype.kind in "iu" and len(v.shape) == 1]
    cd = [v for v in e.cell_data.values() if v[0].dtype.kind in "iu" and len(v[0].shape) == 1]
    e.point_data = {"medit:ref": pd[0] if pd else np.ones(len(e.points), dtype="i8")}
    e.cell_data = {"medit:ref": cd[0] if cd else [np.ones(len(c), dtype="i8") for _, c in e.cells]}
    binary = sc["ext"] == ".meshb"
    keep = [k for k, (t, _) in enumerate(e.cells) if t in TYPES]
    e.cells = [e.cells[k] for k in keep]
    e.cell_data = {"medit:ref": [e.cell_data["medit:ref"][k] for k in keep]}
    roundtrip_mesh(h, sc, dict(ext=sc["ext"], pad2d=False, pdtype="f8" if binary else True, ddtype=False), mesh, e)
    filecheck(h, sc, e, binary)


def filecheck(h, sc, e, binary):
    """the written file, decoded by its own description: sections, counts and (binary) the position of the next section"""
    n, dim = (int(q) for q in e.points.shape)
    b = h.read_bytes(h.path("m" + sc["ext"]))
    want = [("Vertices", n)] + [(NAMES[t], len(c)) for t, c in e.cells]
    if not binary:
        lines = b.decode().split("\n")
        h.check(lines[0] == f"MeshVersionFormatted {1 if e.points.dtype.itemsize == 4 else 2}", "version line")
        h.check(lines[1] == f"Dimension {dim}", "dimension line")
        q = [k for k, l in enumerate(lines) if l.strip().isalpha()]
        h.check([lines[k].strip() for k in q] == [w for w, _ in want] + ["End"], "keywords of the file")
        for j, (w, cnt) in enumerate(want):
            k, k2 = q[j], q[j + 1]
            h.check(lines[k + 1].strip() == str(cnt), f"number of {w}")
            rows = [l for l in lines[k + 2 : k2] if l.strip()]
            h.check(len(rows) == cnt, f"rows of {w}")
            ncol = dim + 1 if j == 0 else int(e.cells[j - 1][1].shape[1]) + 1
            h.check(all(len(l.split()) == ncol for l in rows), f"columns of {w}")
        return
    i4 = lambda o: int.from_bytes(b[o : o + 4], "little", signed=True)
    i8 = lambda o: int.from_bytes(b[o : o + 8], "little", signed=True)
    v = i4(4)
    h.check(i4(0) == 1 and v in (3, 4) and i4(8) == 3 and i4(20) == dim, "header")
    isz, ival = (8, i8) if v == 4 else (4, i4)
    o = 24
    h.check(i8(12) == o, "position of the section after the dimension")
    codes = {"Vertices": 4, **{NAMES[t]: c for t, c in CODES.items()}}
    for j, (w, cnt) in enumerate(want):
        ok = i4(o) == codes[w] and ival(o + 12) == cnt
        h.check(ok, f"section {w}")
        if not ok:
            return
        rec = dim * 8 + isz if j == 0 else (int(e.cells[j - 1][1].shape[1]) + 1) * isz
        nxt = o + 12 + isz + cnt * rec
        h.check(i8(o + 4) == nxt, f"position of the section after {w}")
        o = nxt
    h.check(i4(o) == 54 and i8(o + 4) == 0 and len(b) == o + 12, "end of the file")


def content(h, dim=3, lab=(-(2**31), 2**31 - 1), fdt="f8", big=False):
    if big:
        x = spread(h, "x", (130, dim), fdt, 2)
        r = spread(h, "r", (130,), "i4", 2).astype("i8")
        cells = [(t, spread(h, "c" + t, (n, NN[t]), "i8", 2, 0, 129)) for t, n in (("tetra", 260), ("line", 140), ("tetra", 30))]
        return x, r, cells, [spread(h, f"cr{k}", (len(c),), "i8", 2, *lab) for k, (_, c) in enumerate(cells)]
    x = h.floats("x", (4, dim), fdt)
    r = h.ints("r", (4,), *lab)
    cells = [("line", h.ints("cl", (2, 2), 0, 3)), ("tetra", h.ints("ct", (1, 4), 0, 3)), ("triangle", h.ints("cr", (2, 3), 0, 3)),
             ("hexahedron", h.ints("ch", (1, 8), 0, 3)), ("line", h.ints("cl2", (1, 2), 0, 3)), ("pyramid", h.ints("cp", (1, 5), 0, 3)),
             ("quad", h.ints("cq", (1, 4), 0, 3)), ("wedge", h.ints("cw", (1, 6), 0, 3))]
    refs = [h.ints(f"cr{k}", (len(c),), *lab) for k, (_, c) in enumerate(cells)]
    return x, r, cells, refs


def compare(h, g, x, r, cells, refs):
    h.same(g.points, x, "points")
    h.same(g.point_data["medit:ref"], r, "point labels", kind="iu")
    check_cells(h, g, cells)
    if len(g.cell_data["medit:ref"]) != len(refs):
        return h.fail("number of label blocks")
    for k, (a, b) in enumerate(zip(g.cell_data["medit:ref"], refs)):
        h.same(a, b, f"labels of block {k}", kind="iu")


def binfile(h, sc):
    v, e, k = sc["v"], sc["e"], sc["k"]
    np = h.np
    it, ft, pt = e + ("i8" if v == 4 else "i4"), e + ("f4" if v == 1 else "f8"), e + ("i4" if v < 3 else "i8")
    kt = e + "i4"
    dim = sc.get("dim", 2 if k == "2d" else 3)
    x, r, cells, refs = content(h, dim, fdt=ft[1:], big=k == "medium")
    npts = len(x)
    if dim == 2:
        cells, refs = [cells[0], cells[2]], [refs[0], refs[2]]
    ib = lambda val, dt: _np.array(val, dtype=dt).tobytes()
    b = ib(1, kt) + ib(v, kt) + ib(3, kt) + ib(0, pt) + ib(dim, kt)

    def section(code, n, rows):
        nonlocal b
        b += ib(code, kt) + ib(0, pt) + ib(n, it) + rows

    if k == "skip":
        section(13, 2, ib([1, 2], it))  # corners
    if k == "codes":
        for (counter, lay), codes in LAYOUT.items():
            rec = [(ft if c == "r" else it, int(n)) for c, n in re.findall(r"([ir])(\d+)", lay)] if "d" not in lay else [(ft, dim)] * lay.count("d")
            for n, code in enumerate(codes):
                rows = b"".join(ib([code + i for i in range(n)], t) for _ in range(1 + n % 3 if counter else 1) for t, n in rec)
                b += ib(code, kt) + ib(0, pt) + (ib(1 + n % 3, it) if counter else b"") + rows
    rows = b""
    for i in range(npts):
        rows += h.to_bytes(x[i], ft) + h.to_bytes(r[i : i + 1], it)
    if k != "order":
        section(4, npts, rows)
    vrows = rows
    for j, ((t, c), l) in enumerate(zip(cells, refs)):
        if k == "skip" and j == 1:
            section(14, 3, ib([1, 2, 1], it))  # ridges
            section(20, 2, ib([1, 2, 1, 2], it))  # NormalAtVertices
            section(60, 2, ib([1.0, 2.0, 3.0, 4.0, 5.0, 6.0], ft))  # Normals
        rows = b""
        for i in range(len(c)):
            rows += h.to_bytes(c[i] + 1, it) + h.to_bytes(l[i : i + 1], it)
        section(CODES[t], len(c), rows)
        if k == "skip" and j == 3:
            section(15, 1, ib([3], it))
    if k == "order":
        section(4, npts, vrows)
    if k != "plain":
        b += ib(54, kt) + ib(0, pt)
    g = h.meshio.read(h.write_bytes("a.meshb", b))
    compare(h, g, x, r, cells, refs)


def ascfile(h, sc):
    k = sc["k"]
    dim = 2 if k == "2d" else 3
    f4 = k in ("v1", "v0")
    x, r, cells, refs = content(h, dim, fdt="f4" if f4 else "f8", big=k == "medium")
    npts = len(x)
    if k == "2d":
        cells, refs = [cells[0], cells[2]], [refs[0], refs[2]]
    s = f"MeshVersionFormatted {1 if k == 'v1' else 0 if k == 'v0' else 2}\n"
    if k == "comments":
        s = "# a comment\n\n" + s + "\n# another\n"
    s += f"Dimension\n{dim}\n" if k == "nextline" else f"Dimension {dim}\n"
    if k == "skip":
        s += "Identifier\n\"a b c\"\nGeometry\n\"g\"\nCorners\n2\n1\n3\n"
    vert = f"Vertices\n{npts}\n" + "".join(" ".join(repr(v) for v in x[i].tolist()) + f" {r[i]}\n" for i in range(npts))
    if not h.symbolic and f4:
        vert = f"Vertices\n{npts}\n" + "".join(" ".join(str(v) for v in x[i]) + f" {r[i]}\n" for i in range(npts))
    cs = ""
    for j, ((t, c), l) in enumerate(zip(cells, refs)):
        nm = "Hexaedra" if (t == "hexahedron" and k == "hexaedra") else NAMES[t]
        cs += f"\n{nm}\n{len(c)}\n" + "".join(" ".join(str(q) for q in (c[i] + 1).tolist()) + f" {l[i]}\n" for i in range(len(c)))
        if k == "skip" and j == 0:
            cs += "\nNormals\n2\n0. 0. 1.\n1. 0. 0.\n\nNormalAtVertices\n2\n1 2\n2 1\nRidges\n2\n1\n2\nRequiredVertices\n1\n4\n"
        if k == "skip" and j == 2:
            cs += "VertexOnGeometricVertex\n1\n1 2\nVertexOnGeometricEdge\n1\n1 2 0.5\nEdgeOnGeometricEdge\n1\n1 2\nSubDomainFromMesh\n1\n3 1 1 0\nTangents\n1\n1. 0. 0.\nTangentAtVertices\n1\n1 1 1\n"
    s += (cs + "\n" + vert) if k == "order" else (vert + cs)
    s += "" if k == "noend" else "\nEnd\n"
    if k == "empty":
        s = s.replace("\nEnd\n", "\nCorners\n0\n\nRidges\n0\n\nEnd\n")
    if k == "spaces":
        s = "\n".join("  " + q.replace(" ", "   ") + " " for q in s.split("\n"))
    if k == "wrapped":
        head, rest = s.split("Vertices", 1)
        s = head + "Vertices" + "\n".join(q.replace(" ", "\n") if " " in q else q for q in rest.split("\n"))
    if k == "crlf":
        s = s.replace("\n", "\r\n")
    g = h.meshio.read(h.write_text("a.mesh", s))
    compare(h, g, x, r, cells, refs)
