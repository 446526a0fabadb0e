"""Abaqus inp: round trip (with point and cell sets), and files of other producers."""

import numpy as _np

from .common import NN, build, check_cells
from .rt import roundtrip, roundtrip_mesh

TYPES = ["line", "line3", "quad", "quad8", "quad9", "triangle", "triangle6", "hexahedron", "hexahedron20", "tetra", "tetra10", "wedge", "wedge15"]
ATYPES = {"T2D2": "line", "T3D3H": "line3", "B31": "line", "B32": "line3", "CPS4R": "quad", "S4": "quad", "S8R": "quad8", "S9R5": "quad9",
          "CPS3": "triangle", "S3R": "triangle", "STRI65": "triangle6", "C3D8": "hexahedron", "C3D8R": "hexahedron", "C3D20R": "hexahedron20",
          "C3D4": "tetra", "C3D4H": "tetra", "C3D10M": "tetra10", "C3D10": "tetra10", "C3D6": "wedge", "C3D15": "wedge15", "CPE6": "triangle6", "CAX4P": "quad",
          "T2D2H": "line", "T2D3": "line3", "T2D3H": "line3", "T3D2": "line", "T3D2H": "line", "T3D3": "line3", "B21": "line", "B21H": "line", "B22": "line3", "B22H": "line3",
          "B31H": "line", "B32H": "line3", "CPS4": "quad", "S4R": "quad", "S4RS": "quad", "S4RSW": "quad", "S4R5": "quad", "S8R5": "quad8", "STRI3": "triangle", "S3": "triangle",
          "S3RS": "triangle", "R3D3": "triangle", "C3D8H": "hexahedron", "C3D8I": "hexahedron", "C3D8IH": "hexahedron", "C3D8RH": "hexahedron", "C3D20": "hexahedron20",
          "C3D20H": "hexahedron20", "C3D20RH": "hexahedron20", "C3D10H": "tetra10", "C3D10I": "tetra10", "C3D10MH": "tetra10"}
BOUNDS = ("<= 5 points, <= 5 element blocks of <= 3 elements; symbolic coordinates and connectivity, symbolic set members; "
          "hand-written files with symbolic node and element numbers (1..60, distinct) and sets")
BOUNDS += "; also meshes of up to 2500 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = "point/cell data (not written by meshio); parts/instances; sets in included files (documented as unsupported)"


def scenarios(tier):
    out = []

    def add(i, **sc):
        out.append(dict(id=i, **sc))

    for t in TYPES:
        add(t, blocks=[[t, 2]], npts=3)
        add("mix-" + t, blocks=[[t, 2], ["triangle", 1], [t, 1], ["quad", 2]], npts=4)
    add("2d", dim=2, blocks=[["triangle", 2], ["quad", 1]], npts=4)
    add("pts-f4", blocks=[["triangle", 2]], npts=3, pdt="f4")
    for cdt in ("i4", "u4", "u8"):
        add("conn-" + cdt, blocks=[["triangle", 2], ["quad", 1]], npts=3, cdt=cdt)
    add("F-order", blocks=[["quad", 2]], npts=4, layout="F")
    add("strided", blocks=[["quad", 2]], npts=4, layout="strided")
    add("psets", blocks=[["tetra", 2]], npts=5, psets=[["left", [0, 3]], ["right", [4]], ["all", [4, 3, 2, 1, 0]]])
    add("psets-long", blocks=[["tetra", 2]], npts=18, psets=[["a", list(range(17))], ["b", list(range(16))], ["c", list(range(8))], ["d", list(range(9))]])
    add("csets", blocks=[["tetra", 2], ["triangle", 3], ["tetra", 1]], npts=5,
        csets=[["a", [[0], [2, 1], []]], ["b", [[], [0], [0]]], ["c", [[1], [], [0]]], ["d", [[0, 1], [0, 1, 2], [0]]], ["n", [None, [1], None]]])
    add("csets-long", blocks=[["line", 17], ["triangle", 9]], npts=3, csets=[["a", [list(range(17)), list(range(9))]], ["b", [list(range(8)), list(range(8))]]])
    add("symsets", special="symsets")
    add("medium", blocks=[["triangle", 150], ["quad", 130], ["line", 30], ["triangle", 45]], npts=310, medium=3, medc=0,
        psets=[["all", list(range(310))], ["back", list(range(309, -1, -3))], ["one", [309]]],
        csets=[["c", [list(range(150)), list(range(129, -1, -1)), [29], [44, 0]]], ["d", [[], [], [], list(range(45))]], ["e", [[149], [128], None, []]]])
    add("medium20", blocks=[["hexahedron20", 40]], npts=900, medium=3, medc=0)
    add("large", blocks=[["tetra", 3000]], npts=2500, medium=2, medc=0, weight=3, psets=[["a", list(range(0, 2500, 2))]], csets=[["b", [list(range(2999, 0, -2))]]])
    for cdt in ("u1", "i1", "u2", "i2"):
        add("many-" + cdt, blocks=[["triangle", 100], ["quad", 10]], npts=120, medium=3, medc=0, cdt=cdt)
    add("mixdt", blocks=[["triangle", 1], ["quad", 1], ["line", 1]], npts=4, cdts=[["i4", 3], ["i8", 3], ["u4", 3]])
    add("setnames", blocks=[["tetra", 2], ["line", 1]], npts=5, psets=[["a", [0]], ["A", [1]], ["a b", [2, 1]], ["x" * 80, [3]], ["12a", [4]], ["set-1", [0, 1, 2, 3, 4]]],
        csets=[["a", [[0], []]], ["A", [[1], [0]]], ["a b", [[1, 0], []]], ["y" * 80, [[], [0]]], ["Eall", [[0, 1], [0]]]])
    add("samesetname", blocks=[["tetra", 2], ["line", 1]], npts=5, psets=[["a", [4]], ["b", [1, 2]]], csets=[["a", [[1], []]], ["b", [[], [0]]]])
    add("eleven", blocks=[[t, 1 + j % 2] for j, t in enumerate(["triangle", "quad"] * 6)][:11], npts=4, csets=[["s", [[0]] * 11], ["last", [None] * 10 + [[0]]]])
    for n in (7, 8, 9, 15, 16, 17, 24, 25):
        add(f"set{n}", blocks=[["line", n]], npts=n, medium=2, medc=0, psets=[["p", list(range(n))]], csets=[["c", [list(range(n))]]])
    add("types", blocks=[[t, 1] for t in TYPES], npts=4)
    add("notranslate", blocks=[["triangle", 2], ["quad", 1]], npts=4, special="notranslate")
    add("numbers", blocks=[["triangle", 2], ["quad", 1], ["triangle", 1]], npts=4, special="numbers")
    for k in ("ids", "elsets", "elset2", "elsetnames", "elsetlate", "nsets", "generate", "gen3", "nodes2", "multiline", "include", "include2", "comments", "inner", "elsetmix", "blank", "manyids", "include3", "crlf", "setline"):
        add("hand-" + k, special="hand")
    for k in ATYPES:
        add("type-" + k, special="type")
    return out


def sets(h, g, e, sc):
    h.check(set(g.point_sets) == set(e.point_sets), f"point set names {sorted(g.point_sets)}")
    for n, a in e.point_sets.items():
        h.same(g.point_sets.get(n), a, "point set " + n, kind="iu")
    h.check(set(g.cell_sets) == set(e.cell_sets), f"cell set names {sorted(g.cell_sets)}")
    for n, lst in e.cell_sets.items():
        got = g.cell_sets.get(n)
        if got is None or len(got) != len(lst):
            h.fail(f"cell set {n}: blocks")
            continue
        for k, (x, y) in enumerate(zip(got, lst)):
            h.same(x, h.const([], dtype="i4") if y is None else y, f"cell set {n} block {k}", kind="iu")


def harness(h, sc):
    sp = sc.get("special")
    if sp == "type":
        return etype(h, sc)
    if sp == "hand":
        return hand(h, sc)
    if sp in ("notranslate", "numbers"):
        return {"notranslate": notranslate, "numbers": numbers}[sp](h, sc)
    spec = dict(ext=".inp", pad2d=False, pdtype="f8", post=sets)
    if sp == "symsets":
        mesh, e = build(h, dict(npts=5, blocks=[["triangle", 3], ["quad", 2]]))
        e.point_sets = {"a": h.ints("sa", (3,), 0, 4), "b": h.ints("sb", (1,), 0, 4, "i4")}
        e.cell_sets = {"x": [h.ints("cx0", (2,), 0, 2), h.ints("cx1", (1,), 0, 1)], "y": [h.const([], dtype="i8"), h.ints("cy1", (2,), 0, 1)]}
        mesh.point_sets, mesh.cell_sets = dict(e.point_sets), dict(e.cell_sets)
        return roundtrip_mesh(h, sc, spec, mesh, e)
    roundtrip(h, sc, spec)


def notranslate(h, sc):
    """translate_cell_names=False keeps meshio's names"""
    mesh, e = build(h, sc)
    p = h.path("m.inp")
    h.meshio.write(p, mesh, translate_cell_names=False)
    got = [ln.strip() for ln in h.read_text(p).splitlines() if ln.startswith("*ELEMENT")]
    h.check(got == ["*ELEMENT, TYPE=triangle", "*ELEMENT, TYPE=quad"], f"{got}")


def numbers(h, sc):
    """node and element numbers in the file count from 1"""
    mesh, e = build(h, sc)
    p = h.path("m.inp")
    h.meshio.write(p, mesh)
    sec, nodes, els = None, [], []
    for ln in h.read_text(p).splitlines():
        if ln.startswith("*"):
            sec = ln.split(",")[0]
        elif sec == "*NODE":
            nodes.append(ln.split(","))
        elif sec == "*ELEMENT":
            els.append(ln.split(","))
    h.check([int(r[0]) for r in nodes] == [1, 2, 3, 4], "node numbers")
    h.check([int(r[0]) for r in els] == [1, 2, 3, 4], "element numbers")
    rows = [c[i] for _, c in e.cells for i in range(len(c))]
    for r, c in zip(els, rows):
        h.same(h.array([h.parse_int(v) for v in r[1:]], dtype="i8"), c + 1, "nodes of an element in the file", kind="iu")
    for r, x in zip(nodes, range(4)):
        h.same(h.array([h.parse_float(v) for v in r[1:]], dtype="f8"), e.points[x], "coordinates in the file")


def row(a):
    return ", ".join(repr(v) if isinstance(v, float) or not isinstance(v, int) else str(v) for v in a.reshape(-1).tolist())


def etype(h, sc):
    k = sc["id"].split("-", 1)[1]
    t = ATYPES[k]
    x = h.floats("x", (3, 3))
    c = h.ints("c", (2, NN[t]), 0, 2)
    s = "*NODE\n" + "".join(f"{i + 1}, {row(x[i])}\n" for i in range(3)) + f"*ELEMENT, TYPE={k}\n"
    s += "".join(f"{i + 1}, {row(c[i] + 1)}\n" for i in range(2))
    g = h.meshio.read(h.write_text("a.inp", s))
    h.same(g.points, x, "points")
    check_cells(h, g, [(t, c)])


def hand(h, sc):
    np = h.np
    k = sc["id"].split("-")[1]
    x = h.floats("x", (4, 3))
    top = 2**31 - 2 if k in ("manyids", "ids") else 60
    nid = h.ints("nid", (4,), 1, top)
    h.distinct(nid)
    n = [nid[i] for i in range(4)]
    eid = h.ints("eid", (5,), 1, top)
    h.distinct(eid)
    I = [eid[i] for i in range(5)]
    tri = [[0, 1, 2], [3, 2, 1], [0, 3, 1]]
    quad = [[3, 2, 1, 0], [0, 2, 1, 3]]
    P = []
    w = P.append
    w("*HEADING\nsome text\n")
    if k == "comments":
        w("** a comment\n**NODE, not a keyword\n")
    if k == "manyids":  # numbers that differ by powers of two
        for j in range(4):
            h.assume(n[j] == 7 + (0, 256, 65536, 2**24)[j])
        for j in range(5):
            h.assume(I[j] == 9 + (0, 2**30, 65536, 256, 2**24)[j])
    if k in ("inner", "blank"):
        sep = "** x, y\n**1, 2\n" if k == "inner" else "\n   \n"
        w(f"*NODE\n{sep}" + sep.join(f"{n[i]}, {row(x[i])}\n" for i in range(4)) + sep)
    elif k == "nodes2":
        w("*NODE\n" + "".join(f"{n[i]}, {row(x[i])}\n" for i in (0, 1)) + "*NODE, NSET=second\n" + "".join(f"{n[i]}, {row(x[i])}\n" for i in (2, 3)))
    else:
        w("*NODE, NSET=Nall\n" + "".join(f"  {n[i]},  {row(x[i])}\n" for i in range(4)))
        if k == "comments":
            w("** c\n\n")
    es0, es1, es2 = "", "", ""
    if k == "elsets":
        es0, es2 = ", ELSET=one", ", ELSET=three"
    elif k == "elset2":
        es0, es1, es2 = ", ELSET=all", ", ELSET=all", ", ELSET=last"
    elif k == "elsetnames":
        es0, es1, es2 = ", ELSET=E0", ", elset=E1", ", ELSET=E2"
    w(f"*ELEMENT, TYPE=S3{es0}\n" + "".join(f"{I[j]}, " + ", ".join(str(n[v]) for v in tri[j]) + "\n" for j in (0, 1)))
    if k in ("inner", "blank"):
        w(f"*ELEMENT, TYPE=S4\n{sep}{I[2]}, {n[3]}, {n[2]}, {n[1]}, {n[0]}\n{sep}{I[3]}, {n[0]}, {n[2]}, {n[1]}, {n[3]}\n{sep}")
    elif k == "multiline":
        w(f"*Element, type=S4{es1}\n{I[2]}, {n[3]}, {n[2]},\n  {n[1]}, {n[0]}\n{I[3]}, {n[0]}, {n[2]}, {n[1]}, {n[3]},\n")
    else:
        w(f"*ELEMENT, TYPE=S4{es1}\n" + "".join(f"{I[2 + j]}, " + ", ".join(str(n[v]) for v in quad[j]) + "\n" for j in (0, 1)))
    if k == "elsetlate":
        w(f"*ELSET, ELSET=early\n{I[1]}\n")
    w(f"*ELEMENT, ELSET=dummy, TYPE=S3\n".replace(" ELSET=dummy,", (es2[1:] + ",") if es2 else "") + f"{I[4]}, " + ", ".join(str(n[v]) for v in tri[2]) + "\n")
    E = lambda *v: h.const(list(v), dtype="i4")
    cs, ps = {}, {}
    if k == "elsets":
        cs = {"one": [E(0, 1), E(), E()], "three": [E(), E(), E(0)]}
    elif k == "elset2":
        cs = {"all": [E(0, 1), E(0, 1), E()], "last": [E(), E(), E(0)]}
    elif k == "elsetnames":
        w("*ELSET, ELSET=U\nE0, E2\n*ELSET, ELSET=V\nE1\nU\n")
        cs = {"E0": [E(0, 1), E(), E()], "E1": [E(), E(0, 1), E()], "E2": [E(), E(), E(0)],
              "U": [E(0, 1), E(), E(0)], "V": [E(0, 1), E(0, 1), E(0)]}
    elif k == "elsetlate":
        cs = {"early": [E(1), E(), E()]}
    elif k in ("ids", "manyids"):
        w(f"*ELSET, ELSET=mix\n{I[4]}, {I[1]}, {I[2]}\n{I[0]}\n*NSET, NSET=pts\n{n[3]}, {n[1]}\n*ELSET, ELSET=mix\n{I[3]}\n")
        cs = {"mix": [E(1, 0), E(0, 1), E(0)]}
        ps = {"pts": E(3, 1)}
    elif k in ("inner", "blank"):
        w(f"*NSET, NSET=a\n{sep}{n[3]}, {n[1]},\n{sep}{n[0]}\n{sep}*ELSET, ELSET=b\n{sep}{I[4]},\n{sep}{I[0]}\n{sep}")
        ps = {"a": E(3, 1, 0)}
        cs = {"b": [E(0), E(), E(0)]}
    elif k == "elsetmix":
        w(f"*ELSET, ELSET=A\n{I[0]}, {I[4]}\n*ELSET, ELSET=B\n{I[2]}\nA\n*NSET, NSET=q\n{n[2]}\n*NSET, NSET=r\n{n[0]}\nq\n")
        cs = {"A": [E(0), E(), E(0)], "B": [E(0), E(0), E(0)]}
        ps = {"q": E(2), "r": E(0, 2)}
    elif k == "setline":
        w(f"*ELSET,elset = long name ,INTERNAL\n {I[3]},\n {I[1]}, \n*Nset , nset=N1 , internal\n{n[3]},{n[0]},{n[1]},{n[2]},\n")
        cs = {"long name": [E(1), E(1), E()]}
        ps = {"N1": E(3, 0, 1, 2)}
    elif k == "nsets":
        w(f"*NSET, NSET=a\n{n[3]}, {n[1]},\n{n[0]}\n*NSET, NSET=b\n{n[2]}\n*NSET, NSET=c\na\nb\n*NSET, NSET=b\n{n[0]}\n")
        ps = {"a": E(3, 1, 0), "b": E(2, 0), "c": E(3, 1, 0, 2)}
    elif k == "generate":
        # numbers 10, 12, 14 -> elements 0, 1, 2
        h.assume(I[0] == 10)
        h.assume(I[1] == 12)
        h.assume(I[2] == 14)
        for j in (3, 4):
            h.assume(I[j] > 20)
        w("*ELSET, ELSET=g, GENERATE\n10, 14, 2\n")
        cs = {"g": [E(0, 1), E(0), E()]}
    elif k == "gen3":
        for j in range(4):
            h.assume(n[j] == 5 + 5 * (3 - j))
        w("*NSET, NSET=g, generate\n 5, 20, 5\n*NSET, NSET=hh, generate\n 10, 19, 5\n")
        ps = {"g": E(3, 2, 1, 0), "hh": E(2, 1)}
    elif k == "comments":
        w("** end\n*STEP\n*STATIC\n1., 1.\n*NODE OUTPUT\nU\n*ELEMENT OUTPUT\nS\n*END STEP\n")
    cells = [("triangle", [tri[0], tri[1]]), ("quad", quad), ("triangle", [tri[2]])]
    pts = x
    if k.startswith("include"):
        y = h.floats("y", (3, 3))
        if k == "include3":  # many nodes come first
            z = h.const(_np.arange(900.0).reshape(300, 3), dtype="f8")
            P[:0] = ["*NODE\n" + "".join(f"{j + 1000}, {row(z[j])}\n" for j in range(300))]
            x = np.concatenate([z, x])
            cells = [(t, [[v + 300 for v in r] for r in c]) for t, c in cells]
        h.write_text("inc.inp", "*NODE\n" + "".join(f"{j + 1}, {row(y[j])}\n" for j in range(3)) + "*ELEMENT, TYPE=S3\n1, 3, 1, 2\n*NSET, NSET=inc\n2, 3\n")
        if k in ("include", "include3"):
            w("*INCLUDE, INPUT=inc.inp\n" if k == "include" else "*Include, input = inc.inp\n")
            pts = np.concatenate([x, y])
            o = len(x)
            cells.append(("triangle", [[2 + o, o, 1 + o]]))
            ps = {"inc": E(1 + o, 2 + o)}
        else:
            w("*INCLUDE, INPUT=inc.inp\n" + f"*ELSET, ELSET=z\n{I[0]}, {I[4]}\n")
            pts = np.concatenate([x, y])
            cells.append(("triangle", [[6, 4, 5]]))
            ps = {"inc": E(5, 6)}
            cs = {"z": [E(0), E(), E(0), E()]}
    text = "".join(P)
    g = h.meshio.read(h.write_bytes("a.inp", text.replace("\n", "\r\n").encode()) if k == "crlf" else h.write_text("a.inp", text))
    h.same(g.points, pts, "points")
    h.check([b.type for b in g.cells] == [t for t, _ in cells], f"cell types {[b.type for b in g.cells]}")
    for b, (t, c) in zip(g.cells, cells):
        h.same(b.data, h.const(c, dtype="i8"), "cells " + t, kind="iu")

    class e:
        point_sets, cell_sets = ps, cs

    sets(h, g, e, sc)
