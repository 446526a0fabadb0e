"""FLAC3D, Netgen, TetGen, DOLFIN XML and ANSYS/Fluent .msh: round trip, and files of other producers."""

import struct

import numpy as _np

from .common import NN, build, check_cells, data
from .rt import roundtrip_mesh
from .p_text import allof, cnt, ids, row, txt

BOUNDS = ("<= 5 points, <= 6 blocks of <= 3 cells, symbolic coordinates, connectivity, data, region numbers; FLAC3D: the four corners that decide the orientation have one "
          "symbolic coordinate, connectivity of zones concrete; set members concrete; hand-written files with symbolic distinct node numbers 1..60 and FLAC3D cell numbers 1..7")
BOUNDS += "; also meshes of up to 66000 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = ("FLAC3D zones of arbitrary shape (sign of the triple product of symbolic corners), its slots and the cell_ids array of files with faces; "
           "DOLFIN data with several components; ANSYS zones of mixed cells and polyhedra; Netgen default region names")

# netgen record position of each node (VTK order)
NG = {"vertex": [0], "line": [0, 1], "triangle": [0, 1, 2], "triangle6": [0, 1, 2, 5, 3, 4], "quad": [0, 1, 2, 3], "quad8": [0, 1, 2, 3, 4, 7, 5, 6],
      "tetra": [0, 2, 1, 3], "tetra10": [0, 2, 1, 3, 5, 7, 4, 6, 9, 8], "pyramid": [0, 3, 2, 1, 4],
      "pyramid13": [0, 3, 2, 1, 4, 7, 6, 8, 5, 9, 12, 11, 10], "wedge": [0, 2, 1, 3, 5, 4],
      "wedge15": [0, 2, 1, 3, 5, 4, 7, 8, 6, 13, 14, 12, 9, 11, 10], "hexahedron": [0, 3, 2, 1, 4, 7, 6, 5],
      "hexahedron20": [0, 3, 2, 1, 4, 7, 6, 5, 10, 9, 11, 8, 16, 19, 18, 17, 14, 13, 15, 12]}
NDIM = {t: 0 if t == "vertex" else 1 if t == "line" else 2 if t[:2] in ("tr", "qu") else 3 for t in NG}
ANS = {"triangle": 1, "tetra": 2, "quad": 3, "hexahedron": 4, "pyramid": 5, "wedge": 6}
I4 = (-(2**31), 2**31 - 1)
BIG = (-(2**53) + 1, 2**53 - 1)


def scenarios(tier):
    out = []

    def add(f, i, **sc):
        out.append(dict(id=f"{f}-{i}", fmt=f, **sc))

    # ANSYS
    for b in (True, False):
        s = "b" if b else "a"
        kw = {"binary": b}
        for t in ANS:
            add("ans", f"{s}-{t}", blocks=[[t, 2]], npts=3, kw=kw)
        T = list(ANS)
        for k in range(6):
            add("ans", f"{s}-mix{k}", blocks=[[T[k], 2], [T[(k + 1) % 6], 1], [T[k], 3], [T[(k + 3) % 6], 1]], npts=4, kw=kw)
        add("ans", f"{s}-2d", dim=2, blocks=[["quad", 2], ["triangle", 1]], npts=3, kw=kw)
        add("ans", f"{s}-20pts", blocks=[["quad", 2]], npts=20, kw=kw, pdata=[])
        for cdt in ("i4", "u4", "u8", "i2"):
            add("ans", f"{s}-conn-{cdt}", blocks=[["quad", 2], ["triangle", 1]], npts=3, cdt=cdt, kw=kw)
        for pdt in ("f4", ">f8"):
            add("ans", f"{s}-pts-{pdt}", blocks=[["quad", 2]], npts=3, pdt=pdt, kw=kw)
        for lay in ("F", "strided"):
            add("ans", f"{s}-{lay}", blocks=[["quad", 2], ["tetra", 3]], npts=3, layout=lay, kw=kw)
    for k in ("plain", "open", "zones", "comments", "decl", "base", "faces", "bin4", "bin8", "mixed"):
        add("ans", "hand-" + k, special="anshand", k=k)
    T6 = list(ANS)
    for f, T, kws in (("ans", T6, [{"binary": True}, {"binary": False}]), ("tet", ["tetra"] * 4, [{}]), ("dol", ["triangle"] * 4, [{}]), ("dol", ["tetra"] * 4, [{}]),
                      ("ng", ["tetra", "hexahedron", "wedge15", "pyramid"], [{}]), ("ng", ["triangle", "quad8", "quad", "triangle6"], [{}])):
        for kw in kws:
            s = ("b-" if kw.get("binary") else "a-") if f == "ans" else T[0] + "-"
            dd = {"kw": kw} if kw else {}
            if f == "tet":
                dd.update(ext=".node", pdata=[["q", [], "f8"], ["m", [], "i4"]], cdata=[["r", [], "i4"], ["q", [], "i4"]])
            if f == "dol":
                dd.update(cdata=[["a", [], "f8"], ["b", [], "i4"]])
            if f == "ng":
                dd.update(names=4, idx="netgen:index")
            add(f, s + "medium", blocks=[[t, n] for t, n in zip(T, [150, 130, 20, 45])], npts=310, medium=2, medc=0, **dd)
            add(f, s + "large", blocks=[[T[0], 4200], [T[-1], 1100]], npts=5000, medium=2, medc=0, weight=6, **dd)
            if f in ("ans", "ng", "tet"):
                add(f, s + "huge", blocks=[[T[0], 3000], [T[-1], 70]], npts=66000, medium=2, medc=0, weight=9, **dd)
            for cdt in ("u1", "i1", "i2", "u2"):
                add(f, s + "many-" + cdt, blocks=[[T[0], 100], [T[-1], 30]], npts=120, medium=2, medc=0, cdt=cdt, **dd)
            for k, (pp, c) in enumerate([(">f8", ">i8"), (">f4", ">i4"), ("<f8", ">u4")]):
                add(f, s + f"bigendian{k}", blocks=[[T[0], 2], [T[-1], 1]], npts=4, pdt=pp, cdt=c, **dd)
            for k, dts in enumerate([("i4", "i8", "u4"), ("i8", "i4", "i8"), ("u4", "i4", "u8")]):
                add(f, s + f"mixdt{k}", blocks=[[T[0], 2], [T[-1], 1], [T[0], 1]], npts=4, cdts=[[q, 3] for q in dts], **dd)
            add(f, s + "strided2", blocks=[[T[0], 2], [T[-1], 2]], npts=4, layout="strided", **dd)
            add(f, s + "manyblocks", blocks=[[T[(k * k + k // 3) % len(T)], 1 + k % 2] for k in range(40)], npts=4, **dd)
            for c in (1, 3, 4, 5, 7, 9, 10, 15, 16, 17, 18):
                add(f, s + f"cnt{c}", blocks=[[T[0], c], [T[-1], c + 1]], npts=c, **dd)
            if f != "ng":
                add(f, s + "conn-huge", blocks=[[T[0], 2], [T[-1], 1]], npts=3, cmax=2**31 - 3, **dd)
    for b in (True, False):
        for cdt in ("i4", "u4", "i2"):
            add("ans", f"{'b' if b else 'a'}-large-{cdt}", blocks=[["tetra", 2300], ["quad", 1100]], npts=2500, medium=2, medc=0, cdt=cdt, weight=4, kw={"binary": b})
    for b in (True, False):
        for dim in (2, 3):
            add("ans", f"out-{'b' if b else 'a'}{dim}", special="ansout", dim=dim, b=b)
    # TetGen
    add("tet", "out", special="tetout")
    add("tet", "out-none", special="tetout", none=True)
    add("tet", "vec", blocks=[["tetra", 2], ["tetra", 1]], npts=3, ext=".ele", pdata=[["v", [3], "f8"], ["q", [], "f8"], ["m", [], "i4"], ["w", [2], "i4"]],
        cdata=[["u", [3], "f8"], ["r", [], "i4"], ["x", [2], "i4"]])
    add("tet", "attrs9", blocks=[["tetra", 2], ["tetra", 1]], npts=3, ext=".node", pdata=[[f"n{k}", [], "f8"] for k in range(12)], cdata=[[f"c{k}", [], "i8"] for k in range(12)])
    add("tet", "refs", blocks=[["tetra", 2], ["tetra", 1]], npts=3, ext=".node", pdata=[["a", [], "f8"], ["b:ref", [], "i4"], ["c:ref", [], "i4"], ["ref", [], "f8"]],
        cdata=[["a", [], "i4"], ["b:ref", [], "i4"], ["c:ref", [], "i8"], ["ref", [], "i8"]])
    add("tet", "realcell", blocks=[["tetra", 2], ["tetra", 1]], npts=3, ext=".node", cdata=[["a", [], "f8"], ["b", [], "i4"], ["c", [], "f8"]])
    add("tet", "dots", blocks=[["tetra", 2]], npts=3, ext=".node", name="a.1")
    add("tet", "dots2", blocks=[["tetra", 2]], npts=3, ext=".ele", name="a.b.1")
    for x in (".node", ".ele"):
        for nb in ([["tetra", 2]], [["tetra", 2], ["tetra", 1], ["tetra", 3]], [["triangle", 2], ["tetra", 2], ["line", 1], ["tetra", 1]]):
            add("tet", f"{x[1:]}-{len(nb)}", blocks=nb, npts=3, ext=x, pdata=[["tetgen:attr1", [], "f8"], ["my:ref", [], "i4"], ["q", [], "f8"]],
                cdata=[["a", [], "i8"], ["x:ref", [], "i4"], ["b", [], "i4"]])
    add("tet", "noref", blocks=[["tetra", 2], ["tetra", 1]], npts=3, pdata=[["p", [], "i4"], ["q", [], "f8"]], cdata=[["a", [], "i8"], ["b", [], "i4"]], ext=".node")
    add("tet", "nodata", blocks=[["line", 1], ["tetra", 2]], npts=3, ext=".ele")
    add("tet", "ponly", blocks=[["tetra", 2]], npts=3, pdata=[["q", [], "i8"]], prange=BIG, ext=".ele")
    add("tet", "one", blocks=[["tetra", 1]], npts=1, ext=".ele")
    add("tet", "f4", blocks=[["tetra", 1]], npts=3, pdt="f4", ext=".ele")
    for cdt in ("i4", "u8"):
        add("tet", "conn-" + cdt, blocks=[["tetra", 2]], npts=3, cdt=cdt, ext=".ele")
    add("tet", "F", blocks=[["tetra", 2]], npts=3, layout="F", ext=".ele", cdata=[["b", [], "i4"]])
    for k in ("zero", "one", "attrs", "comments", "base5", "real"):
        add("tet", "hand-" + k, special="tethand", k=k)
    # DOLFIN
    for dim in (2, 3):
        for t in ("triangle", "tetra") if dim == 3 else ("triangle",):
            add("dol", f"{dim}-{t}", dim=dim, blocks=[[t, 2]], npts=3, cdata=[["a", [], "f8"], ["b", [], "i4"], ["c", [], "u8"]])
            add("dol", f"{dim}-{t}-blocks", dim=dim, blocks=[[t, 2], ["line", 1], [t, 1], ["quad", 2], [t, 3]], npts=3, cdata=[["a", [], "f8"], ["b_2", [], "i8"]])
    add("dol", "both", blocks=[["triangle", 2], ["tetra", 1], ["triangle", 1], ["tetra", 2]], npts=3, cdata=[["a", [], "f8"]])
    add("dol", "none", blocks=[["triangle", 2], ["line", 1]], npts=3)
    add("dol", "name", blocks=[["triangle", 2]], npts=3, name="a+b.(1)", cdata=[["a", [], "f8"]])
    add("dol", "other", blocks=[["triangle", 2]], npts=3, name="a.b", cdata=[["a", [], "f8"]], special="dolother")
    for cdt in ("i4", "u8"):
        add("dol", "conn-" + cdt, blocks=[["tetra", 2]], npts=3, cdt=cdt)
    add("dol", "f4", blocks=[["tetra", 1]], npts=3, pdt="f4")
    add("dol", "F", blocks=[["tetra", 2]], npts=3, layout="F")
    add("dol", "hand", special="dolhand")
    add("dol", "hand3", special="dolhand", tet=True)
    add("dol", "out", special="dolout")
    add("dol", "out2", special="dolout", dim=2)
    for dt in ("i1", "i2", "i8", "u1", "u2", "u4", "f4"):
        add("dol", "data-" + dt, blocks=[["tetra", 2], ["tetra", 1]], npts=3, cdata=[["a", [], dt]])
    add("dol", "names", blocks=[["tetra", 2]], npts=3, cdata=[["a_b", [], "f8"], ["A", [], "f8"], ["x y", [], "f8"], ["gmsh:physical", [], "i4"], ["m_", [], "f8"], ["a_b_c", [], "f8"]])
    add("dol", "skipvec", blocks=[["tetra", 2], ["tetra", 1]], npts=3, cdata=[["v", [3], "f8"], ["a", [], "f8"], ["w", [2, 2], "f8"]], skipvec=True)
    # Netgen
    add("ng", "out", special="ngout")
    add("ng", "out2", special="ngout", dim=2)
    for t in NG:
        add("ng", "out-" + t, special="ngout", more=t)
    for dt in ("u4", "i2", "u1"):
        add("ng", "otheridx-" + dt, blocks=[["tetra", 2], ["triangle", 1]], npts=3, names=4, idx="m", extra=True, idt=dt)
    for k in (0, 1, 3):
        add("ng", f"ident{k}", blocks=[["tetra", 2], ["triangle", 1]], npts=3, names=4, ident=k)
    for dt in ("i4", "u4", "i2", "u1"):
        add("ng", "idx-" + dt, blocks=[["tetra", 2], ["triangle", 1]], npts=3, names=4, idx="netgen:index", idt=dt)
    add("ng", "prefer", blocks=[["tetra", 2], ["triangle", 1]], npts=3, names=4, idx="netgen:index", before=True)
    for t in NG:
        add("ng", t, blocks=[[t, 2]], npts=3, names=4)
    G = [["line", 1], ["tetra", 2], ["vertex", 2], ["triangle", 1], ["hexahedron", 1], ["quad", 2], ["triangle", 1], ["line", 2]]
    add("ng", "all", blocks=G, npts=4, idx="netgen:index", names=4)
    add("ng", "all2", blocks=list(reversed(G)), npts=4, idx="m", extra=True, names=4)
    add("ng", "second", blocks=[[t, 1] for t in NG if NN[t] > 5], npts=4, idx="netgen:index", names=4)
    add("ng", "noindex", blocks=G, npts=4, names=4)
    add("ng", "nonames", blocks=[["triangle", 2], ["tetra", 1]], npts=3, idx="netgen:index", irange=(1, 3))
    add("ng", "names1", blocks=[["triangle", 2], ["tetra", 1]], npts=3, idx="netgen:index", irange=(1, 3), names=1)
    add("ng", "2d", dim=2, blocks=[["line", 2], ["triangle", 2], ["vertex", 1]], npts=3, idx="netgen:index", names=4)
    add("ng", "one", dim=2, blocks=[["vertex", 1]], npts=1, names=4)
    add("ng", "f4", blocks=[["tetra", 1]], npts=3, pdt="f4", names=4)
    for cdt in ("i4", "u8"):
        add("ng", "conn-" + cdt, blocks=[["tetra", 2], ["quad", 1]], npts=3, cdt=cdt, names=4)
    add("ng", "F", blocks=[["tetra", 2]], npts=3, layout="F", idx="netgen:index", names=4)
    add("ng", "gz", blocks=[["tetra", 2], ["tetra", 1]], npts=3, idx="netgen:index", ext=".vol.gz", names=4)
    for k in ("plain", "two", "gi", "uv", "skip", "2d"):
        add("ng", "hand-" + k, special="nghand", k=k)
    # FLAC3D
    for b in (True, False):
        s = "b" if b else "a"
        kw = {"binary": b}
        for t in ("tetra", "pyramid", "wedge", "hexahedron"):
            add("flac", f"{s}-both-{t}", blocks=[[t, 4], ["quad", 1], [t, 3]], sign=0, kw=kw, csets=[["A", [[0, 3], [0], [2]]], ["B", [[1], [], [0, 1]]]])
        for t in ("wedge18", "hexahedron24", "wedge12", "triangle7", "quad8"):
            add("flac", f"{s}-{t}", blocks=[[t, 2]], sign=1, kw=kw)
        add("flac", f"{s}-manyblocks", blocks=[[["tetra", "quad", "wedge", "triangle", "hexahedron"][(k * k + k // 3) % 5], 1 + k % 3] for k in range(25)], sign=0, kw=kw,
            csets=[["S", [[0] if k % 2 else [] for k in range(25)]], ["R", [[k % 3] if k % 7 == 4 else None for k in range(25)]]])
        add("flac", f"{s}-large", blocks=[["tetra", 1500], ["quad", 300], ["hexahedron", 700]], sign=0, kw=kw, weight=5,
            csets=[["A", [list(range(0, 1500, 2)), list(range(299)), [699, 3, 0]]], ["B", [[1499, 7], [], list(range(256, 530))]]])
        for n in (19, 20, 21, 40, 41):
            add("flac", f"{s}-grp{n}", blocks=[["tetra", 45], ["triangle", 45]], sign=1, kw=kw, csets=[["A", [list(range(n)), list(range(n, 2, -1))]], ["Z", [list(range(3, 44)), []]]])
        for k, nm in enumerate(["ZGROUP", "SLOT 5", "F", "a,b", "1", "*x", "a  b", "name of more than thirty-two characters in all", "gmsh:bounding_entities"]):
            add("flac", f"{s}-name{k}", blocks=[["tetra", 2], ["quad", 1]], sign=1, kw=kw, csets=[[nm, [[1], [0]]], ["other", [[0], []]]])
        for cdt in ("i4", "u4", ">i8", "i2", "u1"):
            add("flac", f"{s}-cdt-{cdt}", blocks=[["hexahedron", 2], ["quad", 2]], sign=0, kw=kw, cdt=cdt)
        for turn in range(1, len(TURN)):
            add("flac", f"{s}-turn{turn}", blocks=[[t, 3] for t in CORNER], sign=0, kw=kw, turn=turn)
    for b in (True, False):
        add("flac", f"out-{'b' if b else 'a'}", special="flacout", b=b)
    Z = ["tetra", "pyramid", "wedge", "hexahedron"]
    for b in (True, False):
        s = "b" if b else "a"
        kw = {"binary": b}
        for t in Z + ["tetra10", "hexahedron20", "wedge15", "hexahedron27", "pyramid13"]:
            for sg in (1, -1):
                add("flac", f"{s}-{t}{'+' if sg > 0 else '-'}", blocks=[[t, 2]], sign=sg, kw=kw)
        for t in ("triangle", "quad", "triangle6", "quad9"):
            add("flac", f"{s}-{t}", blocks=[[t, 2]], sign=1, kw=kw)
        S = [["S1", [[0], [1, 0], [0], [2], [0, 1], []]], ["S 2", [[], [0], None, [], [], [0]]], ["F", [None, [1], None, None, [0], None]], ["E", [[], [], [], [], [], []]]]
        for k, bl in enumerate(([["tetra", 2], ["triangle", 2], ["line", 1], ["hexahedron", 3], ["quad", 2], ["tetra", 1]],
                                [["pyramid", 1], ["wedge", 2], ["tetra", 1], ["wedge", 3], ["hexahedron", 2], ["pyramid", 1]],
                                [["quad", 1], ["triangle", 2], ["quad", 1], ["tetra", 3], ["triangle", 2], ["wedge", 2]])):
            add("flac", f"{s}-mix{k}", blocks=bl, sign=1 - 2 * (k % 2), kw=kw, csets=S)
        add("flac", f"{s}-many", blocks=[["tetra", 22], ["triangle", 21]], sign=1, kw=kw, csets=[["A", [list(range(22)), list(range(20))]], ["B", [[21, 3], list(range(21))]]])
        add("flac", f"{s}-uni", blocks=[["tetra", 2]], sign=1, kw=kw, csets=[["Zürich", [[1]]]])
        add("flac", f"{s}-cdt", blocks=[["hexahedron", 2]], sign=-1, kw=kw, cdt="u8")
    for k in ("ascii", "bin", "b7", "binb7", "order", "nogroups"):
        add("flac", "hand-" + k, special="flachand", k=k)
    return out


def harness(h, sc):
    return globals()[sc.get("special") or sc["fmt"]](h, sc)


def ans(h, sc):
    mesh, e = build(h, sc)
    roundtrip_mesh(h, sc, dict(ext=".msh", file_format="ansys", read_format="ansys", pad2d=False, pdtype="f8", digits=None), mesh, e)


def anshand(h, sc):
    k = sc["k"]
    np = h.np
    dim = 2 if k in ("faces",) else 3
    x = h.floats("x", (4, dim))
    c = h.ints("c", (2, 4), 0, 3)
    d = h.ints("d", (1, 3), 0, 3)
    base = 0x1b if k == "base" else 1
    H = lambda r: " ".join(f"{v:x}" for v in (r + base).tolist())
    last = base + 3
    s = '(0 "a comment (with brackets) in it")\n(1 "other")\n' + f"(2 {dim})\n"
    s += f"(10 (0 1 {last:x} 0 {dim}))\n(12 (0 1 3 0))\n\n"
    if k == "comments":
        s += '(0 "Nodes:\n over two lines")\n(39 (1 fluid air 1)())\n(45 (2 wall wall-1)())\n(37 (\n(a 1)\n(b (2))\n))\n'
    op = "\n(\n" if k == "open" else "(\n"
    if k in ("bin4", "bin8"):
        key = "20" if k == "bin4" else "30"
        fd, idt = ("f4", "i4") if k == "bin4" else ("f8", "i8")
        xx = h.floats("y", (4, 3), fd)
        B = lambda a: h.to_bytes(a, a.dtype)
        out = s.encode() + f"({key}10 (1 1 4 1 3)(\n".encode() + B(xx) + f"\n)End of Binary Section   {key}10)\n".encode()
        out += f"({key}12 (2 1 2 1 2)(\n".encode() + B((c + 1).astype(idt)) + f"\n)End of Binary Section   {key}12)\n".encode()
        f = np.column_stack([h.ints("f", (2, 3), 0, 3) + 1, h.ints("adj", (2, 2), 0, 9)]).astype(idt)
        out += f"({key}13 (3 1 2 2 3)(\n".encode() + B(f) + f"\n)End of Binary Section   {key}13)\n".encode()
        g = h.meshio.read(h.write_bytes("a.msh", out), file_format="ansys")
        h.same(g.points, xx, "points")
        return check_cells(h, g, [("tetra", c), ("triangle", f[:, :3] - 1)])
    if k == "zones":
        s += f"(10 (1 1 3 1 3){op}" + "".join(row(h, x[i]) + "\n" for i in range(3)) + "))\n"
        s += f"(10 (2 4 4 1 3){op}" + row(h, x[3]) + "\n))\n"
    else:
        s += f"(10 (1 {base:x} {last:x} 1 {dim:x}){op}" + "".join(row(h, x[i]) + "\n" for i in range(4)) + "))\n"
    if k == "decl":
        s += "(10 (0 1 4 0 3))\n"
    if k == "faces":
        f = h.ints("f", (3, 2), 0, 3)
        s += "(13 (0 1 3 0))\n(13 (3 1 2 2 2)(\n" + "".join(H(f[i]) + " 1 0\n" for i in range(2)) + "))\n"
        s += "(13 (4 3 3 3 2)(\n" + H(f[2]) + " 2 1\n))\n"
        g = h.meshio.read(h.write_text("a.msh", s), file_format="ansys")
        h.same(g.points, x, "points")
        return check_cells(h, g, [("line", f)])
    if k == "mixed":
        s += "(13 (3 1 3 2 0)(\n" + f"3 {H(d[0])} 1 2\n4 {H(c[0])} 1 0\n4 {H(c[1])} 2 0\n" + "))\n"
        g = h.meshio.read(h.write_text("a.msh", s), file_format="ansys")
        h.same(g.points, x, "points")
        return check_cells(h, g, [("triangle", d), ("quad", c)])
    s += f"(12 (2 1 2 1 2){op}" + "".join(H(c[i]) + "\n" for i in range(2)) + "))\n"
    s += f"(12 (3 3 3 1 1){op}" + H(d[0]) + "\n))\n"
    g = h.meshio.read(h.write_text("a.msh", s), file_format="ansys")
    h.same(g.points, x, "points")
    check_cells(h, g, [("tetra", c), ("triangle", d)])


def tet(h, sc):
    mesh, e = build(h, sc)
    np = h.np
    tets = [k for k, (t, _) in enumerate(e.cells) if t == "tetra"]
    e.point_data = {n: v for n, v in e.point_data.items() if len(v.shape) == 1}
    cd = {n: np.concatenate([v[k] for k in tets]) for n, v in e.cell_data.items() if len(v[0].shape) == 1}
    e.cells = [("tetra", np.concatenate([e.cells[k][1] for k in tets]))]
    # the first name with ":ref" (else, for points, the first) is the marker; the others keep their order
    first = lambda ns: sorted(ns, key=lambda n: n != ([q for q in ns if ":ref" in q] + list(ns))[0])
    cn, pn = first(list(cd)), first(list(e.point_data))
    e.cell_data = {"tetgen:ref" + ("" if k == 0 else str(k + 1)): [cd[n]] for k, n in enumerate(cn)}
    pd = e.point_data
    e.point_data = {("tetgen:ref" if k == 0 else f"tetgen:attr{k}"): pd[n].astype("f8") for k, n in enumerate(pn)}
    roundtrip_mesh(h, sc, dict(ext=sc["ext"], pdtype="f8", ddtype=False, name=sc.get("name", "m")), mesh, e)


def tethand(h, sc):
    k = sc["k"]
    x = h.floats("x", (4, 3))
    a = h.floats("a", (4, 2))
    m = h.ints("m", (4,), *BIG)
    c = h.ints("c", (2, 4), 0, 3)
    r = h.ints("r", (2,), *BIG)
    b = {"zero": 0, "base5": 5}.get(k, 1)
    if k == "real":
        r = h.floats("rr", (2,))
    at = k in ("attrs", "real")
    n = (f"# nodes\n\n" if k == "comments" else "") + f"4  3  {2 if at else 0}  {1 if at or k == 'zero' else 0}\n"
    for i in range(4):
        n += f"   {i + b}    {row(h, x[i])}" + (f" {row(h, a[i])}" if at else "") + (f" {m[i]}" if at or k == "zero" else "") + "\n"
    e = (f"\n# tets\n" if k == "comments" else "") + f"2  4  {1 if at else 0}\n"
    for i in range(2):
        e += f"    {i + b}   " + "  ".join(str(v) for v in (c[i] + b).tolist()) + (f" {r[i]}" if at else "") + "\n"
    p = h.write_text("a.node", n + "# Generated\n")
    h.write_text("a.ele", e + "# Generated\n")
    g = h.meshio.read(p)
    h.same(g.points, x, "points")
    check_cells(h, g, [("tetra", c)])
    if at:
        h.same(g.point_data["tetgen:attr1"], a[:, 0], "attr1")
        h.same(g.point_data["tetgen:attr2"], a[:, 1], "attr2")
        h.same(g.cell_data["tetgen:ref"][0], r, "region")
    if at or k == "zero":
        h.same(g.point_data["tetgen:ref"], m.astype("f8"), "marker")


def dol(h, sc):
    mesh, e = build(h, sc)
    np = h.np
    t = "tetra" if any(t == "tetra" for t, _ in e.cells) else "triangle"
    ks = [k for k, (u, _) in enumerate(e.cells) if u == t]
    e.cell_data = {n: [np.concatenate([v[k] for k in ks])] for n, v in e.cell_data.items() if len(v[0].shape) == 1}
    e.cells = [(t, np.concatenate([e.cells[k][1] for k in ks]))]
    f4 = 7 if sc.get("pdt") in ("f4", ">f4") else None
    d4 = 7 if any(v[0].dtype == "f4" for v in e.cell_data.values()) else None
    roundtrip_mesh(h, sc, dict(ext=".xml", pad2d=False, pdtype="f8", digits=f4, ddigits=d4, ddtype=False, name=sc.get("name", "m")), mesh, e)


def dolother(h, sc):
    """data files of another mesh in the same directory do not belong to this one"""
    h.write_text("aXb_a.xml", "<dolfin></dolfin>")
    h.write_text("a.b_a.xml.bak", "<dolfin></dolfin>")
    dol(h, sc)


def dolhand(h, sc):
    tet = sc.get("tet")
    d = 3 if tet else 2
    name = "tetrahedron" if tet else "triangle"
    x = h.floats("x", (4, d))
    c = h.ints("c", (2, d + 1), 0, 3)
    v = h.ints("v", (2,), *I4)
    w = h.floats("w", (2,))
    s = f'<?xml version="1.0" encoding="UTF-8"?>\n<dolfin xmlns:dolfin="http://www.fenicsproject.org">\n<mesh celltype="{name}" dim="{d}">\n<vertices size="4">\n'
    for i in (2, 0, 3, 1):
        s += f'<vertex index="{i}" ' + " ".join(f'{q}="{txt(h, x[i, j])}"' for j, q in enumerate("xyz"[:d])) + "/>\n"
    s += '</vertices>\n<cells size="2">\n'
    for i in (1, 0):
        s += f'<{name} index="{i}" ' + " ".join(f'v{j}="{c[i, j]}"' for j in range(d + 1)) + "/>\n"
    s += "</cells>\n</mesh>\n</dolfin>\n"
    p = h.write_text("a.xml", s)
    h.write_text("a_mark.xml", f'<dolfin><mesh_function type="int" dim="{d}" size="2">' + "".join(f'<entity index="{i}" value="{v[i]}"/>' for i in (1, 0)) + "</mesh_function></dolfin>")
    h.write_text("a_real.xml", f'<dolfin><mesh_function type="float" dim="{d}" size="2">' + "".join(f'<entity index="{i}" value="{txt(h, w[i])}"/>' for i in (1, 0)) + "</mesh_function></dolfin>")
    g = h.meshio.read(p)
    h.same(g.points, x, "points")
    check_cells(h, g, [("tetra" if tet else "triangle", c)])
    h.check(set(g.cell_data) == {"mark", "real"}, "names")
    h.same(g.cell_data["mark"][0], v, "mark")
    h.same(g.cell_data["real"][0], w, "real")


def ng(h, sc):
    mesh, e = build(h, sc)
    np = h.np
    n = [len(c) for _, c in e.cells]
    if sc.get("extra"):
        mesh.cell_data["f"] = [h.floats(f"f{k}", (m,)) for k, m in enumerate(n)]
    idx = [h.const([1] * m, dtype="i8") for m in n]
    if sc.get("idx"):
        if sc.get("before"):
            mesh.cell_data["other0"] = [h.const([7] * m, dtype="i8") for m in n]
        idt = sc.get("idt", "i8")
        if max(n) > 20:
            idx = [h.const([(7 * i + k) % 1001 for i in range(m)], dtype=idt) for k, m in enumerate(n)]
        else:
            idx = [h.ints(f"i{k}", (m,), *sc.get("irange", I4 if idt == "i8" else (0, 100)), idt) for k, m in enumerate(n)]
        mesh.cell_data[sc["idx"]] = list(idx)
        if sc.get("extra"):
            mesh.cell_data["other"] = [h.const([7] * m, dtype="i8") for m in n]
    dim = sc.get("dim", 3)
    fd = {f"region {d} x": [2, d] for d in range(4 if sc.get("names") == 4 else 0) if d <= dim}
    if fd:
        fd["r1"] = [1, 2]
        fd["r5"] = [5, 1]
    elif sc.get("names") == 1:
        fd = {"abc": [3, 3]}
    mesh.field_data.update({k: h.const(v, dtype="i8") for k, v in fd.items()})
    if "ident" in sc:
        m = sc["ident"] + 1
        I, J = h.ints("ident", (m, 3), 1, 9), h.ints("idtype", (1, m), 1, 9)
        mesh.info = {"netgen:identifications": I, "netgen:identificationtypes": J}
    order = [k for d in (2, 3, 1, 0) for k, (t, _) in enumerate(e.cells) if NDIM[t] == d]
    ec, ei = [e.cells[k] for k in order], [idx[k] for k in order]
    e.cells, e.cell_data, e.point_data = ec, {"netgen:index": ei}, {}
    g = roundtrip_mesh(h, sc, dict(ext=sc.get("ext", ".vol"), pad2d=False, pdtype="f8", ddtype=False), mesh, e)
    if "ident" in sc:
        h.same(g.info["netgen:identifications"], I, "identifications", kind="iu")
        h.same(g.info["netgen:identificationtypes"], J, "identificationtypes", kind="iu")
    for k, v in fd.items():
        r = g.field_data.get(k)
        h.check(r is not None and [int(u) for u in r] == v, f"region {k}")
    if sc.get("names") == 4:
        h.check(set(g.field_data) == set(fd), f"regions {sorted(g.field_data)}")


def nghand(h, sc):
    k = sc["k"]
    np = h.np
    dim = 2 if k == "2d" else 3
    x = h.floats("x", (4, 3))
    tri, quad, te, seg = h.ints("t", (2, 3), 0, 3), h.ints("q", (1, 4), 0, 3), h.ints("te", (2, 4), 0, 3), h.ints("s", (2, 2), 0, 3)
    bc, mat, si = h.ints("bc", (3,), 1, 99), h.ints("mat", (2,), 1, 99), h.ints("si", (2,), 1, 99)
    R = lambda a: "  ".join(str(v) for v in (a + 1).tolist())
    s = "# a comment\nmesh3d\ndimension\n%d\ngeomtype\n11\n\n" % dim
    se = {"gi": "surfaceelementsgi", "uv": "surfaceelementsuv"}.get(k, "surfaceelements")
    tail = {"gi": lambda n: " 5" * n, "uv": lambda n: " 0.5 0.25" * n}.get(k, lambda n: "")
    s += f"# surfnr    bcnr   domin  domout      np      p1      p2      p3\n{se}\n3\n"
    s += f" 9 {bc[0]}  1 0  3  {R(tri[0])}{tail(3)}\n 9 {bc[1]}  1 0  3  {R(tri[1])}{tail(3)}\n 8 {bc[2]}  1 0  4  {R(quad[0])}{tail(4)}\n\n\n"
    W = lambda a, t: R(a[_np.argsort(NG[t]).tolist()])
    if k != "2d":
        s += f"#  matnr      np      p1      p2      p3      p4\nvolumeelements\n2\n {mat[0]} 4 {W(te[0], 'tetra')}\n {mat[1]} 4 {W(te[1], 'tetra')}\n\n"
    if k == "two":
        s += "surf1  surf2      p1      p2\n"
    s += "edgesegmentsgi2\n2\n"
    for i in range(2):
        s += f" {si[i]} 0 {R(seg[i])} -1 -1 0 0 1 0 1 0\n"
        if k == "two":
            s += " 1 0.0 1 1.0\n"
    s += "\n#     X   Y   Z\npoints\n4\n" + "".join(" " + row(h, x[i]) + "\n" for i in range(4)) + "\n"
    if k == "two":
        s += "#  pnum  index\npointelements\n3\n3 5\n1 6\n2 7\n"
    if k == "skip":
        s += "face_colours\n1\n1 0.0 1.0 0.0\nsingular_points\n0\n\n"
    s += "materials\n2\n1 iron\n2 air\n\nbcnames\n3\n1 in\n2 out\n3 a long name\nendmesh\n"
    g = h.meshio.read(h.write_text("a.vol", s))
    h.same(g.points, x[:, :dim], "points")
    if k == "2d":
        check_cells(h, g, [("triangle", tri), ("quad", quad), ("line", seg)])
        h.same(np.concatenate(g.cell_data["netgen:index"]), np.concatenate([bc, si]), "index")
    else:
        v = k == "two"
        check_cells(h, g, [("triangle", tri), ("quad", quad), ("tetra", te), ("line", seg)] + [("vertex", h.const([[2], [0], [1]], dtype="i8"))] * v)
        h.same(np.concatenate(g.cell_data["netgen:index"]), np.concatenate([bc, mat, si] + [h.const([5, 6, 7], dtype="i8")] * v), "index")
    exp = {"iron": [1, dim], "air": [2, dim], "in": [1, dim - 1], "out": [2, dim - 1], "a long name": [3, dim - 1]}
    h.check({n: [int(u) for u in v] for n, v in g.field_data.items()} == exp, f"regions {g.field_data}")


# first corners of a right-handed reference cell with the deciding coordinate left open
CORNER = {"tetra": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, "z")],
          "pyramid": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0.5, 0.5, "z")],
          "wedge": [(0, 0, 0), (0, 1, 0), (1, 0, 0), (0, 0, "z"), (0, 1, "z"), (1, 0, "z")],
          "hexahedron": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, "z"), (1, 0, "z"), (1, 1, "z"), (0, 1, "z")]}
FLIP = {"tetra": [0, 2, 1, 3], "pyramid": [0, 3, 2, 1, 4], "wedge": [0, 2, 1, 3, 5, 4], "hexahedron": [0, 3, 2, 1, 4, 7, 6, 5]}
LOW = {"tetra10": "tetra", "hexahedron20": "hexahedron", "wedge15": "wedge", "hexahedron27": "hexahedron", "pyramid13": "pyramid", "triangle6": "triangle", "quad9": "quad",
       "wedge18": "wedge", "hexahedron24": "hexahedron", "wedge12": "wedge", "triangle7": "triangle", "quad8": "quad"}
# FLAC3D record position of each node
FL = {"triangle": [0, 1, 2], "quad": [0, 1, 2, 3], "tetra": [0, 1, 2, 3], "pyramid": [0, 1, 4, 2, 3], "wedge": [0, 1, 3, 2, 4, 5], "hexahedron": [0, 1, 4, 2, 3, 6, 7, 5]}


# orientation-preserving maps of the reference cell
TURN = [None, [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[3, -1, 2], [1, 2, -1], [1, 1, 3]], [[-2, 1, 1], [1, -3, 2], [2, 1, 4]],
        [[1, -4, 2], [3, 1, -1], [-1, 2, 1]], [[2, 1, 1], [-1, 2, -5], [-4, 3, 2]], [[0, -2, 1], [3, 0, -1], [-1, 4, 5]], [[0, 2, -3], [2, 0, 2], [3, 2, -1]], [[4, -3, -3], [4, 3, -2], [2, 1, -1]], [[4, 0, 4], [-3, -1, -2], [1, -4, 3]], [[-3, 2, 2], [1, 0, 3], [-4, 3, 4]]]
for m in TURN[1:]:
    assert sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3)) > 0, m


def flac(h, sc):
    """zones come back as written if their corners are right-handed, mirrored otherwise; faces as
    written; faces precede zones; sets hold the same cells"""
    np = h.np
    sg = sc["sign"]
    # cells of one hand, or of both in turn
    sides = [sg] if sg else [1, -1, -1]
    z = {}
    turn = sc.get("turn", 0)
    for v in sorted(set(sides)):
        if turn > 2:  # an affine map: numbers only
            z[v] = 1.5 * v
            continue
        z[v] = h.floats("z" if v > 0 else "zn", (1,))[0]
        h.assume(z[v] > 1e-3 if v > 0 else z[v] < -1e-3)
        h.assume(z[v] < 1e6 if v > 0 else z[v] > -1e6)
    hand = []
    free = h.floats("x", (2, 3))
    rows, cells = [free], []
    npts = 2
    kinds = {}
    for t, n in sc["blocks"]:
        lo = LOW.get(t, t)
        m = NN[t]
        if lo in CORNER:
            for side in sorted(set(sides)):
                if (lo, side) in kinds:
                    continue
                pts = [[(z[side] if v == "z" else float(v)) for v in p] for p in CORNER[lo]]
                if 0 < turn <= 2:
                    pts = [[p[r.index(1)] for r in TURN[turn]] for p in pts]
                elif turn:
                    pts = [[sum(a * v for a, v in zip(r, p)) + 0.25 * k for k, r in enumerate(TURN[turn])] for p in pts]
                a = np.zeros((len(pts), 3))
                for i, p in enumerate(pts):
                    for j in range(3):
                        a[i, j] = p[j]
                rows.append(a)
                kinds[lo, side] = npts
                npts += len(pts)
            sd = [sides[q % len(sides)] for q in range(n)]
            hand.append(sd)
            c = [[kinds[lo, sd[q]] + i if i < NN[lo] else (i + q) % 2 for i in range(m)] for q in range(n)]
            cells.append((t, h.const(c, dtype=sc.get("cdt", "i8"))))
        else:
            hand.append(None)
            k = min(n, 2)
            c = h.ints(f"c{len(cells)}", (k, m), 0, 1, sc.get("cdt", "i8"))
            if n > k:
                c = np.concatenate([c, h.const([[(i + q) % 2 for i in range(m)] for q in range(n - k)], dtype=c.dtype)])
            cells.append((t, c))
    P = np.concatenate(rows)
    mk = lambda: {n: [None if v is None else h.const(v, dtype="i8") for v in vs] for n, vs in sc.get("csets", [])}
    csets, orig = mk(), mk()
    mesh = h.meshio.Mesh(P, cells, cell_sets=csets)
    p = h.path("a.f3grid")
    h.meshio.write(p, mesh, **sc["kw"])
    for n, vs in orig.items():
        for k, v in enumerate(vs):
            if v is not None:
                h.same(csets[n][k], v, f"caller's set {n}")
    g = h.meshio.read(p)
    h.same(g.points, P, "points")
    exp, src = [], []
    for face in (True, False):
        for k, (t, c) in enumerate(cells):
            lo = LOW.get(t, t)
            if lo not in FL or (lo in ("triangle", "quad")) != face:
                continue
            c = c[:, : NN[lo]]
            if not face:
                n_ = NN[lo]
                cc = c.tolist()
                c = h.const([r if s_ > 0 else [r[i] for i in FLIP[lo]] for r, s_ in zip(cc, hand[k])], dtype=c.dtype)
            exp.append((lo, c))
            src.append(k)
    if check_cells(h, g, exp) is None:
        return
    # sets, as global numbers of cells in file order
    first, pos = {}, 0
    for k, (_, c) in zip(src, exp):
        first[k] = pos
        pos += len(c)
    gfirst = [0]
    for b in g.cells:
        gfirst.append(gfirst[-1] + len(b.data))
    slot = "Default" if sc["kw"]["binary"] else "1"
    seen = set()
    for n, vs in orig.items():
        for kind, face in (("zone", False), ("face", True)):
            want = []
            for k in src:
                lo = LOW.get(cells[k][0], cells[k][0])
                if (lo in ("triangle", "quad")) == face and vs[k] is not None:
                    want += [first[k] + int(v) for v in dict(sc["csets"])[n][k]]
            r = g.cell_sets.get(f"{kind}:{n}:{slot}")
            got = []
            if r is not None:
                seen.add(f"{kind}:{n}:{slot}")
                h.check(len(r) == len(g.cells), f"set {n}: blocks")
                for q, a in enumerate(r):
                    h.check(all(0 <= int(v) < len(g.cells[q].data) for v in a.tolist()), f"set {n}: members of block {q}")
                    got += [gfirst[q] + v for v in a.tolist()]
            h.check(sorted(int(v) for v in got) == sorted(want), f"{kind} set {n}: {got} instead of {want}")
    h.check(set(g.cell_sets) == seen, f"sets {sorted(g.cell_sets)}")


def flachand(h, sc):
    k = sc["k"]
    np = h.np
    x = h.floats("x", (4, 3))
    n = ids(h, "nid", 4)
    zi = ids(h, "zid", 3, 7)
    fi = ids(h, "fid", 2, 6)
    conn = [("hexahedron", [0, 1, 2, 3, 3, 2, 1, 0]), ("tetra", [3, 0, 1, 2]), ("tetra", [1, 2, 3, 0])]
    faces = [("quad", [3, 2, 1, 0]), ("triangle", [0, 2, 1])]
    name = {"hexahedron": "B8", "tetra": "T4", "quad": "Q4", "triangle": "T3"}
    rec = lambda t, c: [c[i] for i in _np.argsort(FL[t])]
    zrec = [(name[t], rec(t, c)) for t, c in conn]
    if k in ("b7", "binb7"):
        zrec[0] = ("B7", rec("hexahedron", [0, 1, 2, 3, 3, 0, 2, 1])[:7])
        full = zrec[0][1] + [zrec[0][1][6]]
        conn[0] = ("hexahedron", [full[i] for i in FL["hexahedron"]])
    frec = [(name[t], rec(t, c)) for t, c in faces]
    zg = [("Region 1", "1", [2, 0]), ("b", "Rock", [1])] if k != "nogroups" else []
    fg = [("side", "1", [1])] if k != "nogroups" else []
    if k in ("bin", "binb7"):
        w = lambda v: h.to_bytes(h.np.array(v), "u4")
        o = struct.pack("<2I", 1375135718, 3) + struct.pack("<I", 4)
        for i in range(4):
            o += w([n[i]]) + h.to_bytes(x[i], "f8")
        for cells, idv, groups in ((zrec, zi, zg), (frec, fi, fg)):
            o += struct.pack("<I", len(cells))
            for j, (_, c) in enumerate(cells):
                o += w([idv[j]]) + struct.pack("<I", len(c)) + w([n[v] for v in c])
            o += struct.pack("<I", len(groups))
            for nm, sl, mem in groups:
                o += struct.pack(f"<H{len(nm)}sH{len(sl)}sI", len(nm), nm.encode(), len(sl), sl.encode(), len(mem)) + w([idv[j] for j in mem])
        p = h.write_bytes("a.f3grid", o)
    else:
        s = "* FLAC3D grid\n* GRIDPOINTS\n" + "".join(f"G {n[i]} {row(h, x[i])}\n" for i in range(4))
        zs = "* ZONES\n" + "".join(f"Z {t} {zi[j]} " + " ".join(str(n[v]) for v in c) + "\n" for j, (t, c) in enumerate(zrec))
        zgs = "".join(f'ZGROUP "{nm}" SLOT {sl}\n' + "".join(f"{zi[j]}\n" if j % 2 else f"{zi[j]} " for j in mem) + "\n" for nm, sl, mem in zg)
        fs = "* FACES\n" + "".join(f"F {t} {fi[j]} " + " ".join(str(n[v]) for v in c) + "\n" for j, (t, c) in enumerate(frec))
        fgs = "".join(f"FGROUP '{nm}' SLOT {sl}\n" + " ".join(str(fi[j]) for j in mem) + "\n" for nm, sl, mem in fg)
        s += fs + fgs + zs + zgs if k == "order" else zs + "* ZONE GROUPS\n" + zgs + fs + "* FACE GROUPS\n" + fgs
        p = h.write_text("a.f3grid", s)
    g = h.meshio.read(p)
    h.same(g.points, x, "points")
    check_cells(h, g, [(t, h.const([c], dtype="i8")) for t, c in faces + conn])
    want = {f"zone:{nm}:{sl}": [2 + j for j in mem] for nm, sl, mem in zg}
    want.update({f"face:{nm}:{sl}": mem for nm, sl, mem in fg})
    h.check(set(g.cell_sets) == set(want), f"sets {sorted(g.cell_sets)}")
    first = [0, 1, 2, 3]
    for key, mem in want.items():
        r = g.cell_sets.get(key)
        if r is None:
            continue
        got = [first[q] + int(v) for q, a in enumerate(r) for v in a.tolist()]
        h.check(all(0 <= int(v) < len(g.cells[q].data) for q, a in enumerate(r) for v in a.tolist()), f"set {key}: members")
        h.check(sorted(got) == sorted(mem), f"set {key}: {got} instead of {mem}")


# ---------------------------------------------------------------------------
# the written files, looked at without the reader
# ---------------------------------------------------------------------------
def ansout(h, sc):
    """node section, then one cell section per block with consecutive cell numbers"""
    dim, b = sc["dim"], sc["b"]
    x = h.floats("x", (17, dim))
    bl = [("triangle", h.ints("c0", (2, 3), 0, 16)), ("quad", h.ints("c1", (18, 4), 0, 16)), ("triangle", h.ints("c2", (1, 3), 0, 16, "i4"))]
    p = h.path("a.msh")
    h.meshio.write(p, h.meshio.Mesh(x, bl), file_format="ansys", binary=b)
    raw = h.read_bytes(p) if b else None
    if b:
        pos = 0

        def line():
            nonlocal pos
            q = raw.index(b"\n", pos)
            r = raw[pos:q]
            pos = q + 1
            return bytes(r).decode()
    else:
        it = iter(h.read_text(p).split("\n"))
        line = lambda: next(it)
    h.check(line().startswith("(1 "), "header")
    h.check(line() == f"(2 {dim})", "dimension")
    h.check(line().split()[:4] == ["(10", "(0", "1", "11"], "number of nodes")
    h.check(line().split()[:4] == ["(12", "(0", "1", "15"], "number of cells")
    h.check(line() == f"({'30' if b else ''}10 (1 1 11 1 {dim})(", "node section")
    if b:
        n = 17 * dim * 8
        h.same(h.from_bytes(raw[pos:pos + n], "f8").reshape(17, dim), x, "nodes")
        pos += n
        h.check(line() == "", "end of nodes")
        h.check(line().startswith(")End of Binary Section"), "end of nodes")
    else:
        for i in range(17):
            w = line().split()
            h.check(len(w) == dim, "columns")
            for j in range(dim):
                h.same(h.np.array([h.parse_float(w[j])]), x[i:i + 1, j], f"node {i}")
        h.check(line() == "))", "end of nodes")
    first = None
    for t, c in bl:
        w = line().replace("(", " ").replace(")", " ").split()
        f, l = int(w[2], 16), int(w[3], 16)
        k = {"12": "a", "2012": "i4", "3012": "i8"}[w[0]]
        h.check((k == "a") == (not b) and int(w[5], 16) == ANS[t], f"section {w}")
        h.check(l - f + 1 == len(c) and (first is None or f == first), "cell numbers")
        first = l + 1
        if b:
            n = c.shape[0] * c.shape[1] * int(k[1])
            h.same(h.from_bytes(raw[pos:pos + n], k).reshape(c.shape), c + 1, "cells", kind="iu")
            pos += n
            h.check(line() == "" and line().startswith(")End of Binary Section"), "end of cells")
        else:
            for i in range(len(c)):
                w = line().split()
                h.check(len(w) == c.shape[1], "columns")
                for j, s in enumerate(w):
                    h.check(h.parse_int(s, 16) == c[i, j] + 1, f"cell {i}")
            h.check(line() == "))", "end of cells")


def tetout(h, sc):
    """.node and .ele: counts, numbers from 0, attributes then marker"""
    x = h.floats("x", (3, 3))
    a, m = h.floats("a", (3,)), h.ints("m", (3,), -99, 99)
    c0, c1 = h.ints("c0", (2, 4), 0, 2), h.ints("c1", (1, 4), 0, 2)
    r0, r1 = h.ints("r0", (2,), -99, 99), h.ints("r1", (1,), -99, 99)
    none = sc.get("none")
    kw = {} if none else dict(point_data={"a": a, "t:ref": m}, cell_data={"r": [r0, h.const([5], dtype="i8"), r1]})
    p = h.path("a.node")
    h.meshio.write(p, h.meshio.Mesh(x, [("tetra", c0), ("line", h.const([[0, 1]], dtype="i8")), ("tetra", c1)], **kw))
    L = [l.split() for l in h.read_text(p).split("\n") if l.strip() and not l.startswith("#")]
    h.check(L[0] == (["3", "3", "0", "0"] if none else ["3", "3", "1", "1"]) and len(L) == 4, f"header {L[0]}")
    for i in range(3):
        w = L[1 + i]
        h.check(len(w) == (4 if none else 6) and w[0] == str(i), "node number")
        for j in range(3):
            h.same(h.np.array([h.parse_float(w[1 + j])]), x[i:i + 1, j], "node")
        if not none:
            h.same(h.np.array([h.parse_float(w[4])]), a[i:i + 1], "attribute")
            h.check(h.parse_int(w[5]) == m[i], "marker")
    L = [l.split() for l in h.read_text(h.path("a.ele")).split("\n") if l.strip() and not l.startswith("#")]
    h.check(L[0] == ["3", "4", "0" if none else "1"] and len(L) == 4, f"header {L[0]}")
    c, r = h.np.concatenate([c0, c1]), h.np.concatenate([r0, r1])
    for i in range(3):
        w = L[1 + i]
        h.check(len(w) == (5 if none else 6) and w[0] == str(i), "cell number")
        for j in range(4):
            h.check(h.parse_int(w[1 + j]) == c[i, j], "cell")
        if not none:
            h.check(h.parse_int(w[5]) == r[i], "region")


def dolout(h, sc):
    """mesh file and one mesh function file per cell data array"""
    import re
    from html import unescape

    dim = sc.get("dim", 3)
    t, name = ("tetra", "tetrahedron") if dim == 3 else ("triangle", "triangle")
    x = h.floats("x", (3, dim))
    c0, c1 = h.ints("c0", (2, dim + 1), 0, 2), h.ints("c1", (1, dim + 1), 0, 2)
    a = [h.floats("a0", (2,)), h.floats("al", (1,)), h.floats("a1", (1,))]
    i_ = [h.ints("i0", (2,), -99, 99, "i4"), h.ints("il", (1,), -99, 99, "i4"), h.ints("i1", (1,), -99, 99, "i4")]
    h.meshio.write(h.path("a.xml"), h.meshio.Mesh(x, [(t, c0), ("line", h.const([[0, 1]], dtype="i8")), (t, c1)], cell_data={"f": a, "i": i_}))
    s = h.read_text(h.path("a.xml"))
    tags = re.findall("<([a-z]+) ([^>]*?)/?>", s)
    at = lambda u: {q: unescape(v) for q, v in re.findall('([a-z0-9]+)="([^"]*)"', u)}
    M = [at(u) for n, u in tags if n == "mesh"]
    h.check(len(M) == 1 and M[0] == {"celltype": name, "dim": str(dim)}, f"mesh {M}")
    V = [at(u) for n, u in tags if n == "vertex"]
    h.check([v.get("index") for v in V] == ["0", "1", "2"], "vertices")
    for i, v in enumerate(V):
        h.check(set(v) == {"index", *"xyz"[:dim]}, "coordinates")
        for j in range(dim):
            h.same(h.np.array([h.parse_float(v["xyz"[j]])]), x[i:i + 1, j], "vertex")
    C = [at(u) for n, u in tags if n == name]
    h.check([v.get("index") for v in C] == ["0", "1", "2"], "cells")
    c = h.np.concatenate([c0, c1])
    for i, v in enumerate(C):
        for j in range(dim + 1):
            h.check(h.parse_int(v[f"v{j}"]) == c[i, j], "cell")
    h.check([at(u) for n, u in tags if n == "vertices"] == [{"size": "3"}] and [at(u) for n, u in tags if n == "cells"] == [{"size": "3"}], "sizes")
    for n, ty, d in (("f", "float", a), ("i", "int", i_)):
        s = h.read_text(h.path(f"a_{n}.xml"))
        tags = re.findall("<([a-z_]+) ([^>]*?)/?>", s)
        F = [at(u) for q, u in tags if q == "mesh_function"]
        h.check(len(F) == 1 and F[0].get("type") == ty and F[0].get("size") == "3", f"function {F}")
        E = [at(u) for q, u in tags if q == "entity"]
        h.check([v.get("index") for v in E] == ["0", "1", "2"], "entities")
        want = h.np.concatenate([d[0], d[2]])
        for i, v in enumerate(E):
            if ty == "int":
                h.check(h.parse_int(v["value"]) == want[i], "value")
            else:
                h.same(h.np.array([h.parse_float(v["value"])]), want[i:i + 1], "value")


def ngout(h, sc):
    """the sections of a .vol file"""
    dim = sc.get("dim", 3)
    np = h.np
    x = h.floats("x", (3, dim))
    bl = [("triangle", h.ints("c0", (2, 3), 0, 2)), ("line", h.ints("c1", (1, 2), 0, 2)), ("quad", h.ints("c2", (1, 4), 0, 2)), ("vertex", h.ints("c3", (1, 1), 0, 2))]
    if dim == 3:
        bl += [("tetra", h.ints("c4", (2, 4), 0, 2)), ("hexahedron20", h.ints("c5", (1, 20), 0, 2)), ("line", h.ints("c6", (1, 2), 0, 2))]
    if "more" in sc:
        bl = bl[:1] + [(sc["more"], h.ints("c7", (1, NN[sc["more"]]), 0, 2))] + bl[1:]
    I = [h.ints(f"i{k}", (len(c),), 1, 99) for k, (t, c) in enumerate(bl)]
    m = h.meshio.Mesh(x, bl, cell_data={"netgen:index": I}, field_data={"mat": np.array([2, dim]), "bc one": np.array([3, dim - 1]),
                                                                                         "e": np.array([1, dim - 2]), "p": np.array([1, dim - 3])})
    h.meshio.write(h.path("a.vol"), m)
    L = [l.split() for l in h.read_text(h.path("a.vol")).split("\n") if l.strip() and not l.startswith("#")]
    h.check(L[0] == ["mesh3d"], "first line")
    pos = lambda s: [k for k, l in enumerate(L) if l == [s]]
    one = lambda s: pos(s)[0] if len(pos(s)) == 1 else -1
    for s in ("dimension", "surfaceelements", "volumeelements", "edgesegmentsgi2", "points", "pointelements", "materials", "bcnames", "endmesh"):
        h.check(len(pos(s)) == 1, "section " + s)
    h.check(L[one("dimension") + 1] == [str(dim)], "dimension")
    k = one("points")
    h.check(L[k + 1] == ["3"], "number of points")
    for i in range(3):
        w = L[k + 2 + i]
        for j in range(dim):
            h.same(np.array([h.parse_float(w[j])]), x[i:i + 1, j], "point")
        if dim == 2:
            h.check(len(w) == 3 and float(w[2]) == 0, "third component")
    for s, d in (("surfaceelements", 2), ("volumeelements", 3), ("edgesegmentsgi2", 1), ("pointelements", 0)):
        k = one(s)
        bs = [b for b, (t, _) in enumerate(bl) if NDIM[t] == d]
        h.check(L[k + 1] == [str(sum(len(bl[b][1]) for b in bs))], "number of " + s)
        k += 2
        for b in bs:
            t, c = bl[b]
            n = NN[t]
            for i in range(len(c)):
                w = L[k]
                k += 1
                # position of the index, of the number of nodes, and of the nodes
                pi, pn, p0 = {0: (1, None, 0), 1: (0, None, 2), 2: (1, 4, 5), 3: (0, 1, 2)}[d]
                h.check(h.parse_int(w[pi]) == I[b][i], f"index of {t}")
                h.check(pn is None or w[pn] == str(n), f"nodes of {t}")
                for j in range(n):
                    h.check(h.parse_int(w[p0 + NG[t][j]]) == c[i, j] + 1, f"{t} {i}")
    k = one("materials")
    h.check(L[k + 1] == ["2"] and L[k + 2] == ["1"] and L[k + 3] == ["2", "mat"], "materials")
    k = one("bcnames")
    h.check(L[k + 1] == ["3"] and L[k + 4] == ["3", "bc", "one"], "bcnames")
    h.check(L[-1] == ["endmesh"], "end")


def flacout(h, sc):
    """gridpoints, zones, zone groups, faces, face groups; cell numbers run on"""
    b = sc["b"]
    np = h.np
    x = h.const([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.5], [1, 1, 0]], dtype="f8")
    f = h.ints("f", (2, 3), 0, 4)
    q = h.ints("q", (1, 4), 0, 4)
    z = h.const([[0, 1, 2, 3], [0, 2, 1, 3]], dtype="i8")
    y = h.const([[0, 1, 4, 2, 3]], dtype="i8")
    bl = [("triangle", f), ("tetra", z), ("quad", q), ("pyramid", y)]
    cs = {"S": [h.const(v, dtype="i8") for v in ([1], [0], [0], [0])], "Z": [h.const(v, dtype="i8") for v in ([], [1], [], [])]}
    h.meshio.write(h.path("a.f3grid"), h.meshio.Mesh(x, bl, cell_sets=cs), binary=b)
    zones = [("T4", [0, 1, 2, 3]), ("T4", [0, 1, 2, 3]), ("P5", [0, 1, 2, 3, 4])]
    want_z = [("T4", 1, [1, 2, 3, 4]), ("T4", 2, [1, 2, 3, 4]), ("P5", 3, [1, 2, 3, 4, 5])]
    # pyramid: two base nodes, the other neighbour of the first, apex, opposite base node
    want_z[2] = ("P5", 3, [1, 2, 3, 4, 5])
    want_f = [("T3", 4, [f[0, j] + 1 for j in range(3)]), ("T3", 5, [f[1, j] + 1 for j in range(3)]), ("Q4", 6, [q[0, j] + 1 for j in range(4)])]
    zg = {"S": [1, 3], "Z": [2]}
    fg = {"S": [5, 6], "Z": []}
    if b:
        raw = h.read_bytes(h.path("a.f3grid"))
        pos = 8

        def u(n=1):
            nonlocal pos
            r = h.from_bytes(raw[pos:pos + 4 * n], "u4")
            pos += 4 * n
            return [r[i] for i in range(n)]
        h.check(int(u()[0]) == 5, "gridpoints")
        for i in range(5):
            h.check(int(u()[0]) == i + 1, "number of a gridpoint")
            h.same(h.from_bytes(raw[pos:pos + 24], "f8"), x[i], "gridpoint")
            pos += 24
        for want, groups in ((want_z, zg), (want_f, fg)):
            h.check(int(u()[0]) == len(want), "number of cells")
            for t, i, c in want:
                a, n = u(2)
                h.check(int(a) == i and int(n) == len(c), f"{t} {i}")
                for v, w in zip(u(len(c)), c):
                    h.check(v == w, f"nodes of {t} {i}")
            h.check(int(u()[0]) == len(groups), "number of groups")
            for nm, mem in groups.items():
                for s in (nm, "Default"):
                    n = struct.unpack("<H", bytes(raw[pos:pos + 2]))[0]
                    h.check(bytes(raw[pos + 2:pos + 2 + n]).decode() == s, f"name {s}")
                    pos += 2 + n
                n = int(u()[0])
                h.check([int(v) for v in u(n)] == mem, f"group {nm}")
        h.check(pos == len(raw), "end of file")
        return
    L = [l.split() for l in h.read_text(h.path("a.f3grid")).split("\n") if l.strip() and l[0] != "*"]
    k = 0
    for i in range(5):
        h.check(L[k][:2] == ["G", str(i + 1)], "number of a gridpoint")
        for j in range(3):
            h.same(np.array([h.parse_float(L[k][2 + j])]), x[i:i + 1, j], "gridpoint")
        k += 1
    for e, want, groups in (("Z", want_z, zg), ("F", want_f, fg)):
        for t, i, c in want:
            h.check(L[k][:3] == [e, t, str(i)] and len(L[k]) == 3 + len(c), f"{t} {i}")
            for v, w in zip(L[k][3:], c):
                h.check(h.parse_int(v) == w, f"nodes of {t} {i}")
            k += 1
        for nm, mem in groups.items():
            h.check(L[k][:2] == [e + "GROUP", f'"{nm}"'] and L[k][2] == "SLOT", f"group {nm}")
            k += 1
            got = []
            while k < len(L) and L[k][0].isdigit():
                got += [int(v) for v in L[k]]
                k += 1
            h.check(got == mem, f"members of {nm}")
    h.check(k == len(L), "end of file")
