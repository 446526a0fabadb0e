"""The mesh object: consistency checks, views per cell type, conversion between sets and data."""

import numpy as _np

from .common import NN, build, data

BOUNDS = ("<= 5 points, <= 5 blocks of <= 3 cells, up to 45 blocks / 3000 cells / 300 sets of fixed layout (empty blocks included), symbolic connectivity, data values and set members; every length 0..4 of point and cell data; "
          "integer data for sets from a symbolic range of 4 values")
BOUNDS += "; also meshes of up to 2000 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = "set members out of range; names of sets containing '-' (joined names cannot be split again)"

BL = {
    "one": [["triangle", 2]],
    "two": [["triangle", 2], ["quad", 1]],
    "rep": [["triangle", 2], ["quad", 1], ["triangle", 1]],
    "rep2": [["line", 1], ["quad", 1], ["line", 2], ["quad", 1]],
    "empty": [["triangle", 0], ["quad", 2], ["triangle", 1]],
    "high": [["tetra10", 1], ["hexahedron20", 1], ["tetra10", 2]],
}


def scenarios(tier):
    out = []

    def add(i, k, **sc):
        out.append(dict(id=i, k=k, **sc))

    for n, b in BL.items():
        for form in ("tuples", "lists", "blocks"):
            add(f"views-{n}-{form}", "views", blocks=b, npts=3, form=form, cdata=[["a", [], "f8"], ["b", [3], "i4"]], pdata=[["p", [2], "f8"]])
        add(f"sets-{n}", "setsdict", blocks=b)
        add(f"c2d-{n}", "cells2data", blocks=b)
        add(f"d2c-{n}", "data2cells", blocks=b)
    add("dict", "dictcells")
    for n in range(6):
        add(f"plen-{n}", "plen", n=n)
    for n in range(5):
        add(f"cblocks-{n}", "cblocks", n=n)
        add(f"clen-{n}", "clen", n=n)
    for n in (1, 2, 3):
        for ns in (1, 2, 3):
            add(f"p2d-{n}-{ns}", "points2data", n=n, ns=ns)
    for dt in ("i4", "i8", "u2", "u8"):
        add(f"d2p-{dt}", "data2points", dt=dt)
    add("twodata", "twodata")
    add("float", "floatdata")
    add("copy", "copy", blocks=BL["rep"], npts=3, cdata=[["a", [], "f8"]], pdata=[["p", [2], "f8"]])
    add("dims", "dims")
    # sizes, storage types, long sequences of blocks
    D = dict(cdata=[["a", [], "f8"], ["b", [3], "i4"], ["c", [2, 2], "f4"]], pdata=[["p", [2], "f8"], ["q", [], "u2"]])
    add("views-many", "views", blocks=[[["triangle", "quad", "line", "tetra10"][(k * k + k // 3) % 4], k % 4] for k in range(45)], npts=4, form="tuples", **D)
    add("views-large", "views", blocks=[["triangle", 3000], ["tetra", 500], ["triangle", 260], ["quad", 130], ["tetra", 40]], npts=2000, form="blocks", medium=3, medc=2, weight=3, **D)
    add("views-lists", "views", blocks=[["triangle", 40], ["quad", 30], ["triangle", 26]], npts=100, form="lists", medium=3, medc=2, cdata=[["a", [], "f8"]], pdata=[["p", [2], "f8"]])
    for k, dts in enumerate([("i4", "i8", "i2"), ("u4", "i4", "i8"), ("u2", "u2", "u8"), (">i4", "i4", "<i8")]):
        add(f"views-mix{k}", "views", blocks=[["triangle", 2], ["triangle", 1], ["triangle", 2]], npts=4, cdts=[[q, {"i2": 2**15, "u2": 2**16, "i4": 2**31, "u4": 2**32, "i8": 2**53, "u8": 2**53}[q[-2:]] - 1] for q in dts], form="tuples", **D)
    for lay in ("F", "strided"):
        add("views-" + lay, "views", blocks=BL["rep"], npts=3, form="tuples", layout=lay, **D)
    add("views-dim2", "views", blocks=BL["rep2"], npts=3, dim=2, form="tuples", **D)
    add("views-vtk", "views", blocks=[["VTK_LAGRANGE_TRIANGLE", 2, 10], ["line", 1], ["VTK_LAGRANGE_TRIANGLE", 1, 10]], npts=3, form="tuples", **D)
    add("views-nopoints", "views", blocks=[], npts=0, form="tuples", pdata=[["p", [], "f8"]])
    add("views-nocells", "views", blocks=[], npts=2, form="tuples", pdata=[["p", [2], "f8"]])
    add("absent", "absent")
    for k in range(12):
        add(f"many-clen{k}", "manylen", pos=k)
    add("mixdata", "mixdata")
    add("names3", "names3")
    add("poly", "poly")
    add("held", "held")
    many = [[["line", "triangle", "quad"][(k + k // 4) % 3], 1 + k % 3] for k in range(12)]
    add("sets-many", "setsdict", blocks=many)
    add("sets-large", "setsbig", blocks=[["triangle", 300], ["quad", 20], ["triangle", 150], ["triangle", 200], ["quad", 300]])
    for n in (2, 9, 10, 11, 130, 300):
        add(f"c2d-n{n}", "manysets", n=n)
        add(f"d2c-n{n}", "manyvals", n=n)
    for n, b in BL.items():
        add(f"part-{n}", "partial", blocks=b)
    for key in ("a-b", "a-a", "a-b-c", "x", "-"):
        add("key-" + key, "keyname", key=key)
    for dt in ("i1", "i2", "u1", "u4", "u8", "i8"):
        add("ext-" + dt, "extremes", dt=dt)
    return out


def harness(h, sc):
    globals()[sc["k"]](h, sc)


def views(h, sc):
    np = h.np
    mesh, e = build(h, sc)
    if sc["form"] != "tuples":
        # other ways of saying the same thing
        cells = [h.meshio.CellBlock(t, c) for t, c in e.cells] if sc["form"] == "blocks" else [(t, c.tolist()) if len(c) else (t, c) for t, c in e.cells]
        mesh = h.meshio.Mesh(e.points if sc["form"] == "blocks" else e.points.tolist(), cells,
                             point_data={k: (v if sc["form"] == "blocks" else v.tolist()) for k, v in e.point_data.items()},
                             cell_data={k: [x if sc["form"] == "blocks" or not len(x) else x.tolist() for x in v] for k, v in e.cell_data.items()})
    h.same(mesh.points, e.points, "points")
    h.check([b.type for b in mesh.cells] == [t for t, _ in e.cells], "block types")
    h.check(len(mesh.cells) == len(e.cells), "number of blocks")
    for b, (t, c) in zip(mesh.cells, e.cells):
        h.check(len(b) == len(c), "len of a block")
        h.same(b.data, c, "block " + t)
    for k, v in e.point_data.items():
        h.same(mesh.point_data[k], v, "point data " + k)
    types = list(dict.fromkeys(t for t, _ in e.cells))
    d = mesh.cells_dict
    h.check(set(d) == set(types), f"types {sorted(d)}")
    for t in types:
        c = np.concatenate([c for u, c in e.cells if u == t])
        h.same(d[t], c, "cells_dict " + t)
        h.same(mesh.get_cells_type(t), c, "get_cells_type " + t)
    h.check(tuple(mesh.get_cells_type("wedge").shape) == (0, 6), "absent type")
    dd = mesh.cell_data_dict
    h.check(set(dd) == set(e.cell_data), "names")
    for k, v in e.cell_data.items():
        h.check(set(dd[k]) == set(types), f"types of {k}")
        for t in types:
            x = np.concatenate([x for (u, _), x in zip(e.cells, v) if u == t])
            h.same(dd[k][t], x, f"cell_data_dict {k} {t}")
            h.same(mesh.get_cell_data(k, t), x, f"get_cell_data {k} {t}")


def plain(h, d):
    out = {h.plain(k): v for k, v in d.items()}
    h.check(len(out) == len(d), "distinct names")
    return out


def dictcells(h, sc):
    c, q = h.ints("c", (2, 3), 0, 3), h.ints("q", (1, 4), 0, 3)
    m = h.meshio.Mesh(h.floats("x", (4, 3)), {"triangle": c, "quad": q}, cell_data={"a": [h.floats("a", (2,)), h.floats("b", (1,))]})
    h.check([b.type for b in m.cells] == ["triangle", "quad"], "order of a dictionary")
    h.same(m.cells[0].data, c, "triangle")
    h.same(m.cells[1].data, q, "quad")


def raises(h, f, label):
    try:
        f()
    except ValueError:
        return
    h.fail(label)


def plen(h, sc):
    x = h.floats("x", (3, 2))
    good, p = h.floats("g", (3,)), h.floats("p", (sc["n"], 2))
    mk = lambda: h.meshio.Mesh(x, [("line", h.ints("c", (2, 2), 0, 2))], point_data={"good": good, "p": p})
    if sc["n"] == 3:
        h.same(mk().point_data["p"], p, "point data")
    else:
        raises(h, mk, f"{sc['n']} values for 3 points accepted")


def cblocks(h, sc):
    x = h.floats("x", (3, 2))
    cells = [("line", h.ints("c", (2, 2), 0, 2)), ("vertex", h.ints("v", (2, 1), 0, 2)), ("line", h.ints("d", (2, 2), 0, 2))]
    lst = [h.floats(f"a{k}", (2,)) for k in range(sc["n"])]
    mk = lambda: h.meshio.Mesh(x, cells, cell_data={"a": list(lst)})
    if sc["n"] == 3:
        m = mk()
        for k in range(3):
            h.same(m.cell_data["a"][k], lst[k], "cell data")
    else:
        raises(h, mk, f"cell data of {sc['n']} blocks for 3 blocks accepted")


def clen(h, sc):
    x = h.floats("x", (3, 2))
    for pos in range(3):
        n = [2, 2, 2]
        n[pos] = sc["n"]
        cells = [("line", h.ints(f"c{pos}", (2, 2), 0, 2)), ("vertex", h.ints(f"v{pos}", (2, 1), 0, 2)), ("line", h.ints(f"d{pos}", (2, 2), 0, 2))]
        lst = [h.floats(f"a{pos}{k}", (m,)) for k, m in enumerate(n)]
        mk = lambda: h.meshio.Mesh(x, cells, cell_data={"a": list(lst)})
        if sc["n"] == 2:
            h.same(mk().cell_data["a"][pos], lst[pos], "cell data")
        else:
            raises(h, mk, f"{sc['n']} values for the 2 cells of block {pos} accepted")


def mesh_of(h, blocks, npts=4):
    x = h.floats("x", (npts, 3))
    cells = [(t, h.ints(f"c{k}", (n, NN[t]), 0, npts - 1)) for k, (t, n) in enumerate(blocks)]
    return h.meshio.Mesh(x, cells), cells


def setsdict(h, sc):
    """members of cell_sets_dict count the cells of earlier blocks of the type"""
    np = h.np
    m, cells = mesh_of(h, sc["blocks"])
    n = [b[1] for b in sc["blocks"]]
    sets = {"A": [], "B": [], "C": []}
    for k, q in enumerate(n):
        sets["A"].append(h.ints(f"A{k}", (min(q, 2),), 0, q - 1) if q else h.const([], dtype="i8"))
        sets["B"].append(None if k % 2 == 0 else h.ints(f"B{k}", (1,), 0, q - 1) if q else h.const([], dtype="i8"))
        sets["C"].append(None if k + 1 < len(n) else h.ints(f"C{k}", (1,), 0, q - 1))
    m.cell_sets = {k: list(v) for k, v in sets.items()}
    d = m.cell_sets_dict
    h.check(set(d) == set(sets), "set names")
    types = list(dict.fromkeys(t for t, _ in cells))
    for name, lst in sets.items():
        for t in types:
            off, parts = 0, []
            for (u, _), q, mem in zip(cells, n, lst):
                if u != t:
                    continue
                if mem is not None and len(mem):
                    parts.append(mem + off)
                off += q
            if parts:
                h.same(d[name].get(t), np.concatenate(parts), f"{name} {t}", kind="iu")
            else:
                h.check(t not in d[name] or len(d[name][t]) == 0, f"{name} {t} is empty")
        h.check(set(d[name]) <= set(types), f"types of {name}")


def cells2data(h, sc):
    """sets that hold every cell exactly once -> integer data -> the same sets"""
    np = h.np
    m, cells = mesh_of(h, sc["blocks"])
    n = [b[1] for b in sc["blocks"]]
    # cell k of the mesh belongs to set s_k; s symbolic, all sets used
    names = ["a", "bb", "c"]
    tot = sum(n)
    ns = min(len(names), tot)
    s = h.ints("s", (tot,), 0, ns - 1)
    sl = [int(s[i]) for i in range(tot)]
    h.assume(set(sl) == set(range(ns)))
    pos, own = 0, []
    for q in n:
        own.append(sl[pos : pos + q])
        pos += q
    sets = {names[j]: [h.const([i for i, v in enumerate(o) if v == j], dtype="i8") for o in own] for j in range(ns)}
    m.cell_sets = {k: list(v) for k, v in sets.items()}
    m.cell_sets_to_data()
    key = "-".join(names[:ns])
    h.check(list(m.cell_data) == [key], f"data name {list(m.cell_data)}")
    h.check(not m.cell_sets, "sets are converted")
    for k, o in enumerate(own):
        h.same(m.cell_data[key][k], h.const(o, dtype="i8"), f"data of block {k}", kind="iu")
    m.cell_data_to_sets(key)
    h.check(not m.cell_data, "data is converted")
    h.check(set(m.cell_sets) == set(sets), f"set names {sorted(m.cell_sets)}")
    for name, lst in sets.items():
        for k in range(len(n)):
            h.same(m.cell_sets[name][k], lst[k], f"{name} in block {k}", kind="iu")


def data2cells(h, sc):
    """the set made of a value holds exactly the cells with that value"""
    np = h.np
    m, cells = mesh_of(h, sc["blocks"])
    n = [b[1] for b in sc["blocks"]]
    v = [h.ints(f"v{k}", (q,), -1, 1 if sum(n) > 3 else 2) for k, q in enumerate(n)]
    m.cell_data["mat"] = list(v)
    m.cell_data["keep"] = [h.floats(f"k{k}", (q,)) for k, q in enumerate(n)]
    m.cell_data_to_sets("mat")
    m.cell_sets = plain(h, m.cell_sets)
    h.check(list(m.cell_data) == ["keep"], "only this data is converted")
    vals = sorted({int(x) for a in v for x in a})
    h.check(len(m.cell_sets) == len(vals), f"number of sets {sorted(m.cell_sets)}")
    for val, (name, lst) in zip(vals, m.cell_sets.items()):
        h.check(len(lst) == len(n), "blocks of a set")
        if not (len(vals) == 1 and val != -1):
            h.check(name == f"set-mat-{val}", f"name {name}")
        for k, a in enumerate(v):
            h.same(lst[k], h.const([i for i, x in enumerate(a) if int(x) == val], dtype="i8"), f"{name} block {k}", kind="iu")


def twodata(h, sc):
    """sets of different data arrays do not replace each other"""
    m, cells = mesh_of(h, [["line", 2]], 3)
    a, b = h.ints("a", (2,), 0, 1), h.ints("b", (2,), 0, 1)
    p, q = h.ints("p", (3,), 0, 1), h.ints("q", (3,), 0, 1)
    h.assume(a[0] != a[1])
    h.assume(b[0] != b[1])
    h.assume(p[0] != p[1])
    h.assume(q[0] != q[1])
    m.cell_data = {"a": [a], "b": [b]}
    m.point_data = {"p": p, "q": q}
    for k in ("a", "b"):
        m.cell_data_to_sets(k)
    for k in ("p", "q"):
        m.point_data_to_sets(k)
    m.cell_sets, m.point_sets = plain(h, m.cell_sets), plain(h, m.point_sets)
    h.check(len(m.cell_sets) == 4, f"cell sets {sorted(m.cell_sets)}")
    h.check(len(m.point_sets) == 4, f"point sets {sorted(m.point_sets)}")
    for k, arr in (("a", a), ("b", b)):
        for t in (0, 1):
            h.same(m.cell_sets[f"set-{k}-{t}"][0], h.const([i for i in range(2) if int(arr[i]) == t], dtype="i8"), f"cells {k} {t}", kind="iu")
    for k, arr in (("p", p), ("q", q)):
        for t in (0, 1):
            h.same(m.point_sets[f"set-{k}-{t}"], h.const([i for i in range(3) if int(arr[i]) == t], dtype="i8"), f"points {k} {t}", kind="iu")


def points2data(h, sc):
    n, ns = sc["n"] + 1, sc["ns"]
    x = h.floats("x", (n, 3))
    names = ["left", "b", "c"][:ns]
    s = h.ints("s", (n,), 0, ns - 1)
    sl = [int(s[i]) for i in range(n)]
    full = set(sl) == set(range(ns))
    sets = {nm: h.const([i for i, v in enumerate(sl) if v == j], dtype="i8") for j, nm in enumerate(names)}
    m = h.meshio.Mesh(x, [], point_sets=dict(sets), point_data={"other": h.floats("o", (n,))})
    m.point_sets_to_data()
    key = "-".join(names)
    h.check(set(m.point_data) == {"other", key} and not m.point_sets, f"data {sorted(m.point_data)}")
    h.same(m.point_data[key], h.const(sl, dtype="i8"), "data", kind="iu")
    m.point_data_to_sets(key)
    h.check(set(m.point_data) == {"other"}, "data is converted")
    for nm in names:
        if nm in m.point_sets:
            h.same(m.point_sets[nm], sets[nm], "set of an old name", kind="iu")
    if full:
        h.check(set(m.point_sets) == set(sets), f"sets {sorted(m.point_sets)}")
        for nm in names:
            h.same(m.point_sets[nm], sets[nm], nm, kind="iu")


def data2points(h, sc):
    dt = sc["dt"]
    x = h.floats("x", (4, 3))
    lo = 0 if dt[0] == "u" else -1
    v = h.ints("v", (4,), lo, lo + 2, dt)
    keep = h.ints("w", (4,), 0, 5)
    m = h.meshio.Mesh(x, [], point_data={"v": v, "w": keep})
    m.point_data_to_sets("v")
    m.point_sets = plain(h, m.point_sets)
    h.check(list(m.point_data) == ["w"], "only this data is converted")
    h.same(m.point_data["w"], keep, "other data")
    vals = sorted({int(a) for a in v})
    h.check(len(m.point_sets) == len(vals), "number of sets")
    for val, (name, a) in zip(vals, m.point_sets.items()):
        h.same(a, h.const([i for i in range(4) if int(v[i]) == val], dtype="i8"), f"set of {val}", kind="iu")
        if len(vals) > 1 or val == -1:
            h.check(name == f"set-v-{val}", f"name {name}")


def floatdata(h, sc):
    """real data cannot be converted; it stays"""
    m, cells = mesh_of(h, [["line", 2], ["line", 1]])
    a, b, p = h.floats("a", (2,)), h.ints("b", (1,), 0, 5), h.floats("p", (4,))
    m.cell_data, m.point_data = {"a": [a, b]}, {"p": p}
    for f, k in ((m.cell_data_to_sets, "a"), (m.point_data_to_sets, "p")):
        try:
            f(k)
        except RuntimeError:
            continue
        h.fail("real data became sets")
    h.check(not m.cell_sets and not m.point_sets, "no sets")
    h.same(m.cell_data["a"][0], a, "cell data")
    h.same(m.point_data["p"], p, "point data")


def copy(h, sc):
    mesh, e = build(h, sc)
    mesh.point_sets = {"s": h.const([0, 2], dtype="i8")}
    mesh.cell_sets = {"c": [h.const([0], dtype="i8"), None, h.const([0], dtype="i8")]}
    mesh.field_data = {"f": h.const([1, 2], dtype="i8")}
    mesh.info = {"k": [0]}
    mesh.gmsh_periodic = [[1, (0, 1), h.const([[0, 1]], dtype="i8")]]
    m = mesh.copy()
    m.points[0, 0] = 7.0
    m.cells[0].data[0, 0] = 1
    m.point_data["p"][0, 0] = 3.0
    m.cell_data["a"][2][0] = 5.0
    m.point_sets["s"][0] = 1
    m.cell_data["new"] = 1
    m.cell_sets["c"][0][0] = 1
    m.cell_sets["c"].append(None)
    m.field_data["f"][0] = 9
    m.info["k"].append(1)
    m.gmsh_periodic[0][2][0, 0] = 5
    m.cells.append(m.cells[0])
    h.same(mesh.points, e.points, "points")
    for b, (t, c) in zip(mesh.cells, e.cells):
        h.same(b.data, c, "cells " + t)
    h.same(mesh.point_data["p"], e.point_data["p"], "point data")
    h.check(list(mesh.cell_data) == ["a"], "names")
    for k in range(3):
        h.same(mesh.cell_data["a"][k], e.cell_data["a"][k], "cell data")
    h.same(mesh.point_sets["s"], h.const([0, 2], dtype="i8"), "sets")
    h.check(float(m.points[0, 0]) == 7.0, "the copy can be changed")
    h.check(len(mesh.cells) == 3 and len(mesh.cell_sets["c"]) == 3, "number of blocks")
    h.same(mesh.cell_sets["c"][0], h.const([0], dtype="i8"), "cell sets")
    h.same(mesh.field_data["f"], h.const([1, 2], dtype="i8"), "field data")
    h.same(mesh.gmsh_periodic[0][2], h.const([[0, 1]], dtype="i8"), "periodic")
    h.check(mesh.info == {"k": [0]}, "info")


def manylen(h, sc):
    """one wrong length among twelve blocks and three arrays"""
    bl = [(["line", "vertex", "triangle"][b % 3], 2) for b in range(12)]
    x = h.floats("x", (3, 2))
    cells = [(t, h.const([[i % 3 for i in range(NN[t])]] * n, dtype="i8")) for t, n in bl]
    for wrong in (0, 1, 2):
        for n in (0, 1, 3):
            cd = {nm: [h.floats(f"a{wrong}{n}{j}_{b}", (n if (j, b) == (wrong, sc["pos"]) else 2,)) for b in range(12)] for j, nm in enumerate("abc")}
            raises(h, lambda: h.meshio.Mesh(x, cells, cell_data=cd), f"{n} values for the 2 cells of block {sc['pos']} accepted")
    cd = {nm: [h.floats(f"o{nm}{b}", (2,)) for b in range(12)] for nm in "abc"}
    m = h.meshio.Mesh(x, cells, cell_data={k: list(v) for k, v in cd.items()})
    for nm in "abc":
        for b in range(12):
            h.same(m.cell_data[nm][b], cd[nm][b], f"{nm} {b}")


def mixdata(h, sc):
    """blocks of data of different types"""
    np = h.np
    x = h.floats("x", (3, 2))
    cells = [("line", h.ints("c", (2, 2), 0, 2)), ("line", h.ints("d", (1, 2), 0, 2)), ("line", h.ints("e", (2, 2), 0, 2))]
    a = [h.ints("a0", (2,), -99, 99, "i4"), h.floats("a1", (1,)), h.floats("a2", (2,), "f4")]
    b = [h.ints("b0", (2,), -99, 99, "i2"), h.ints("b1", (1,), -(2**62), 2**62), h.ints("b2", (2,), 0, 2**32 - 1, "u4")]
    m = h.meshio.Mesh(x, cells, cell_data={"a": list(a), "b": list(b)})
    for nm, v in (("a", a), ("b", b)):
        for q in (m.cell_data_dict[nm]["line"], m.get_cell_data(nm, "line")):
            h.same(q, np.concatenate(v), nm)
    m.cell_data["b"] = [h.const([1, 300], dtype="i2"), h.const([2**40], dtype="i8"), h.const([300, 7], dtype="u4")]
    m.cell_data_to_sets("b")
    for v, w in ((1, [[0], [], []]), (7, [[], [], [1]]), (300, [[1], [], [0]]), (2**40, [[], [0], []])):
        for k in range(3):
            h.same(m.cell_sets[f"set-b-{v}"][k], h.const(w[k], dtype="i8"), f"{v} block {k}", kind="iu")


def names3(h, sc):
    """sets without members do not lend their names to others"""
    for sets in ([[0, 1], [], [2]], [[], [0, 2], [1]], [[2, 0, 1], [], []], [[], [], [0, 1, 2]]):
        m, cells = mesh_of(h, [["line", 3]], 3)
        m.cell_sets = {nm: [h.const(v, dtype="i8")] for nm, v in zip("abc", sets)}
        m.point_sets = {nm: h.const(v, dtype="i8") for nm, v in zip("abc", sets)}
        m.cell_sets_to_data()
        m.point_sets_to_data()
        m.cell_data_to_sets("a-b-c")
        m.point_data_to_sets("a-b-c")
        for s_ in (m.point_sets, {k: v[0] for k, v in m.cell_sets.items()}):
            h.check(len(s_) == sum(1 for v in sets if v), "number of sets")
            for nm, v in zip("abc", sets):
                h.check(nm not in s_ or sorted(int(i) for i in s_[nm]) == sorted(v), f"set {nm}")
                h.check(not v or sorted(v) in [sorted(int(i) for i in w) for w in s_.values()], f"members of {nm}")


def absent(h, sc):
    """types without cells"""
    m = h.meshio.Mesh(h.floats("x", (3, 2)), [("line", h.ints("c", (1, 2), 0, 2))])
    for t, n in NN.items():
        if t != "line":
            a = m.get_cells_type(t)
            h.check(tuple(a.shape) == (0, n) and a.dtype.kind in "iu", f"no {t}: {a.shape}")


def poly(h, sc):
    """polygons and polyhedra"""
    x = h.floats("x", (8, 3))
    faces = [[0, 1, 2], [0, 1, 3], [1, 2, 3], [0, 2, 3]]
    cells = [[h.const(f, dtype="i8") for f in faces], [h.const([4 + v for v in f], dtype="i8") for f in faces]]
    a, b = h.floats("a", (2,)), h.floats("b", (3,))
    pg = h.ints("pg", (3, 5), 0, 7)
    m = h.meshio.Mesh(x, [("polyhedron4", cells), ("polygon", pg)], cell_data={"a": [a, b]})
    h.check([c.type for c in m.cells] == ["polyhedron4", "polygon"], "types")
    h.check([c.dim for c in m.cells] == [3, 2] and [len(c) for c in m.cells] == [2, 3], "dimension and number of cells")
    for i in range(2):
        for j in range(4):
            h.check([int(v) for v in m.cells[0].data[i][j]] == [4 * i + v for v in faces[j]], f"face {i} {j}")
    h.same(m.cells[1].data, pg, "polygons")
    h.same(m.get_cells_type("polygon"), pg, "polygons")
    h.same(m.cell_data_dict["a"]["polyhedron4"], a, "data of polyhedra")
    h.same(m.get_cell_data("a", "polygon"), b, "data of polygons")
    raises(h, lambda: h.meshio.Mesh(x, [("polyhedron4", cells), ("polygon", pg)], cell_data={"a": [b, a]}), "data of other lengths accepted")


def held(h, sc):
    """everything else given to the constructor"""
    x, c = h.floats("x", (3, 2)), h.ints("c", (2, 2), 0, 2)
    fd, info, per = {"f": h.const([1, 2], dtype="i8")}, {"k": 1}, [1]
    ps, cs = {"p": h.const([0, 2], dtype="i8")}, {"c": [h.const([1], dtype="i8")]}
    m = h.meshio.Mesh(x, [("line", c)], {"pd": h.floats("p", (3,))}, {"cd": [h.floats("q", (2,))]}, fd, ps, cs, per, info)
    h.same(m.field_data["f"], fd["f"], "field data")
    h.same(m.point_sets["p"], ps["p"], "point sets")
    h.same(m.cell_sets["c"][0], cs["c"][0], "cell sets")
    h.check(m.info == {"k": 1} and m.gmsh_periodic == [1], "info")
    h.check(list(m.point_data) == ["pd"] and list(m.cell_data) == ["cd"] and list(m.field_data) == ["f"], "names")
    n = h.meshio.Mesh(x, [("line", c)])
    h.check(n.point_data == {} and n.cell_data == {} and n.field_data == {} and n.point_sets == {} and n.cell_sets == {} and n.info is None and n.gmsh_periodic is None, "nothing")
    o = h.meshio.Mesh(x, [("line", c)])
    n.point_data["new"], n.cell_sets["new"], n.field_data["new"] = 1, 1, 1
    h.check(not o.point_data and not o.cell_sets and not o.field_data, "meshes share nothing")
    b = h.meshio.CellBlock("line", c, ["t2", "t1"])
    m = h.meshio.Mesh(x, [b, ("line", c)])
    h.check(list(m.cells[0].tags) == ["t2", "t1"] and list(m.cells[1].tags) == [], "tags")


def setsbig(h, sc):
    np = h.np
    m, cells = mesh_of2(h, sc["blocks"])
    n = [b[1] for b in sc["blocks"]]
    A = [h.const(list(range(q - 1, -1, -3)), dtype="i8") for q in n]
    B = [h.ints(f"b{k}", (2,), 0, q - 1) if k % 2 == 0 else None for k, q in enumerate(n)]
    m.cell_sets = {"A": list(A), "B": list(B), "E": [h.const([], dtype="i8") for _ in n]}
    d = m.cell_sets_dict
    for t in ("triangle", "quad"):
        for nm, S in (("A", A), ("B", B)):
            off, parts = 0, []
            for (u, _), q, mem in zip(cells, n, S):
                if u == t:
                    if mem is not None:
                        parts.append(mem + off)
                    off += q
            h.same(d[nm][t], np.concatenate(parts), f"{nm} {t}", kind="iu")
    h.check(all(len(v) == 0 for v in d["E"].values()), "no members")


def mesh_of2(h, blocks):
    x = h.floats("x", (3, 3))
    cells = [(t, h.const([[(i + j) % 3 for j in range(NN[t])] for i in range(n)], dtype="i8")) for t, n in blocks]
    return h.meshio.Mesh(x, cells), cells


def manysets(h, sc):
    """many sets <-> data"""
    n = sc["n"]
    bl = [["line", n], ["triangle", n // 2 + 1]]
    m, cells = mesh_of2(h, bl)
    names = [f"s{i}" for i in range(n)]
    own = [[(7 * i + 3) % n if n % 7 else i for i in range(n)], [(5 * i + 1) % n for i in range(n // 2 + 1)]]
    m.cell_sets = {nm: [h.const([i for i, v in enumerate(o) if v == j], dtype="i8") for o in own] for j, nm in enumerate(names)}
    orig = {nm: [[i for i, v in enumerate(o) if v == j] for o in own] for j, nm in enumerate(names)}
    m.points = h.floats("y", (n, 2))
    m.point_sets = {nm: h.const(orig[nm][0], dtype="i8") for nm in names}
    m.cell_sets_to_data()
    m.point_sets_to_data()
    key = "-".join(names)
    h.check(list(m.cell_data) == [key] and list(m.point_data) == [key], "names of data")
    for k, o in enumerate(own):
        h.same(m.cell_data[key][k], h.const(o, dtype="i8"), f"data of block {k}", kind="iu")
    h.same(m.point_data[key], h.const(own[0], dtype="i8"), "point data", kind="iu")
    m.cell_data_to_sets(key)
    m.point_data_to_sets(key)
    h.check(list(m.cell_sets) == names and list(m.point_sets) == names, "set names")
    for nm in names:
        for k in range(2):
            h.same(m.cell_sets[nm][k], h.const(orig[nm][k], dtype="i8"), f"{nm} block {k}", kind="iu")
        h.same(m.point_sets[nm], h.const(orig[nm][0], dtype="i8"), nm, kind="iu")
    m.cell_sets_to_data("mine")
    m.point_sets_to_data("+")
    h.check(list(m.cell_data) == ["mine"] and list(m.point_data) == ["+".join(names)], "given names")
    h.same(m.cell_data["mine"][0], h.const(own[0], dtype="i8"), "data", kind="iu")
    h.same(m.point_data["+".join(names)], h.const(own[0], dtype="i8"), "data", kind="iu")


def manyvals(h, sc):
    """many values: every cell and point is in the set of its value and in no other"""
    n = sc["n"]
    m, cells = mesh_of2(h, [["line", n], ["triangle", n // 2 + 1]])
    v = [[(977 * i * i + i) % (3 * n) - n for i in range(n)], [(5 * i + 1) % n for i in range(n // 2 + 1)]]
    m.points = h.floats("y", (n, 2))
    m.cell_data["m"] = [h.const(a, dtype="i4") for a in v]
    m.point_data["m"] = h.const(v[0], dtype="i8")
    m.cell_data_to_sets("m")
    m.point_data_to_sets("m")
    for sets, arrs in ((m.cell_sets, v), ({k: [a] for k, a in m.point_sets.items()}, v[:1])):
        vals = sorted({x for a in arrs for x in a})
        h.check(len(sets) == len(vals), "number of sets")
        for val, (nm, lst) in zip(vals, sets.items()):
            h.check(len(vals) == 1 or nm == f"set-m-{val}", f"name {nm}")
            for k, a in enumerate(arrs):
                h.same(lst[k], h.const([i for i, x in enumerate(a) if x == val], dtype="i8"), f"{nm} {k}", kind="iu")


def partial(h, sc):
    """cells and points in no set have a value of their own, the others keep theirs"""
    n = [b[1] for b in sc["blocks"]]
    m, cells = mesh_of(h, sc["blocks"])
    tot = sum(n)
    # two sets; entry 2: in no set
    s = h.ints("s", (min(tot, 3),), 0, 2)
    sl = [int(s[i]) for i in range(min(tot, 3))] + [(k * k) % 3 for k in range(3, tot)]
    pos, own = 0, []
    for q in n:
        own.append(sl[pos : pos + q])
        pos += q
    mem = lambda o, j: h.const([i for i, v in enumerate(o) if v == j], dtype="i8")
    # blocks without a member: None in one set, an empty array in the other
    m.cell_sets = {"a": [mem(o, 0) if 0 in o else None for o in own], "b": [mem(o, 1) for o in own]}
    m.cell_data["keep"] = [h.floats(f"k{k}", (q,)) for k, q in enumerate(n)]
    keep = list(m.cell_data["keep"])
    tl = [(sl + sl)[0], 2 - (sl + sl)[1], 2, 1]
    m.point_sets = {"a": mem(tl, 0), "b": mem(tl, 1)}
    m.cell_sets_to_data()
    m.point_sets_to_data()
    val = lambda o: h.const([[0, 1, -1][v] for v in o], dtype="i8")
    for k, o in enumerate(own):
        h.same(m.cell_data["a-b"][k], val(o), f"data of block {k}", kind="iu")
        h.same(m.cell_data["keep"][k], keep[k], "other data")
    h.same(m.point_data["a-b"], val(tl), "point data", kind="iu")
    h.check(not m.cell_sets and not m.point_sets, "sets are converted")
    m.cell_data_to_sets("a-b")
    m.point_data_to_sets("a-b")
    for sets, arrs in ((m.cell_sets, own), ({k: [a] for k, a in m.point_sets.items()}, [tl])):
        want = [tuple(tuple(i for i, v in enumerate(o) if v == j) for o in arrs) for j in range(3)]
        got = [tuple(tuple(int(i) for i in a) for a in lst) for lst in sets.values()]
        for j, nm in enumerate("ab"):
            h.check(nm not in sets or tuple(tuple(int(i) for i in a) for a in sets[nm]) == want[j], f"set of the old name {nm}")
        h.check(sorted(got) == sorted(w for w in want if any(w)), f"memberships {got}")


def keyname(h, sc):
    """whatever the name of the data: one set per value"""
    m, cells = mesh_of(h, [["line", 2], ["triangle", 1]], 3)
    a = h.ints("a", (3,), 0, 3)
    al = [int(v) for v in a]
    pl = [al[2], al[0], 3 - al[1]]
    m.cell_data[sc["key"]] = [h.const(al[:2], dtype="i8"), h.const(al[2:], dtype="i8")]
    m.point_data[sc["key"]] = h.const(pl, dtype="i8")
    m.cell_data_to_sets(sc["key"])
    m.point_data_to_sets(sc["key"])
    h.check(not m.cell_data and not m.point_data, "data is converted")
    for sets, arrs in ((m.cell_sets, [al[:2], al[2:]]), ({k: [v] for k, v in m.point_sets.items()}, [pl])):
        vals = sorted({v for o in arrs for v in o})
        want = [tuple(tuple(i for i, v in enumerate(o) if v == j) for o in arrs) for j in vals]
        got = [tuple(tuple(int(i) for i in x) for x in lst) for lst in sets.values()]
        h.check(got == want, f"memberships {got} instead of {want}")


def extremes(h, sc):
    """values of all sizes"""
    dt = sc["dt"]
    ii = _np.iinfo(dt)
    m, cells = mesh_of(h, [["line", 3], ["triangle", 1]], 4)
    vals = [int(ii.max), int(ii.min), 0, int(ii.max) - 1]
    m.cell_data["m"] = [h.const(vals[:3], dtype=dt), h.const(vals[3:], dtype=dt)]
    m.point_data["m"] = h.const(vals, dtype=dt)
    m.cell_data_to_sets("m")
    m.point_data_to_sets("m")
    for v in sorted(set(vals)):
        nm = f"set-m-{v}"
        h.same(m.cell_sets[nm][0], h.const([i for i in range(3) if vals[i] == v], dtype="i8"), nm, kind="iu")
        h.same(m.cell_sets[nm][1], h.const([0] if vals[3] == v else [], dtype="i8"), nm, kind="iu")
        h.same(m.point_sets[nm], h.const([i for i in range(4) if vals[i] == v], dtype="i8"), nm, kind="iu")


def dims(h, sc):
    """topological dimension of every named cell type"""
    D = {"vertex": 0, "line": 1, "triangle": 2, "quad": 2, "tetra": 3, "hexahedron": 3, "wedge": 3, "pyramid": 3}
    for t, n in NN.items():
        base = next((b for b in sorted(D, key=len, reverse=True) if t.startswith(b)), None)
        if base is None or t[len(base):].strip("0123456789"):
            continue
        c = h.ints("c_" + t, (1, n), 0, 3) if n < 30 else h.const([[0] * n], dtype="i8")
        b = h.meshio.CellBlock(t, c)
        h.check(b.dim == D[base], f"dimension of {t}")
    V = {"CURVE": 1, "TRIANGLE": 2, "QUADRILATERAL": 2, "TETRAHEDRON": 3, "HEXAHEDRON": 3, "WEDGE": 3, "PYRAMID": 3}
    for f in ("LAGRANGE", "BEZIER"):
        for t, d in V.items():
            h.check(h.meshio.CellBlock(f"VTK_{f}_{t}", h.const([[0] * 7], dtype="i8")).dim == d, f"dimension of {f} {t}")
    for t, d in (("polygon", 2), ("pixel", 2), ("penta_prism", 3), ("hexa_prism", 3)):
        h.check(h.meshio.CellBlock(t, h.const([[0] * 7], dtype="i8")).dim == d, f"dimension of {t}")
