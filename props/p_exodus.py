"""Exodus II: round trip, and files of other producers (separate coordinates, element variables)."""

import numpy as _np

from .common import NN, check_cells
from .rt import roundtrip

TYPES = ["vertex", "line", "line3", "quad", "quad8", "quad9", "triangle", "triangle6", "triangle7", "hexahedron", "hexahedron20",
         "hexahedron27", "tetra", "tetra10", "tetra14", "pyramid", "wedge"]
BOUNDS = "<= 5 points in 2D/3D, <= 11 blocks of <= 3 cells, <= 3 node variables, <= 11 node sets, symbolic coordinates, connectivity, data, set members"
BOUNDS += "; also meshes of up to 2500 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = "cell data and cell sets (not written by meshio), names over 32 characters, scalar names that form X/Y/Z or _R/_Z groups (combined on reading)"


def scenarios(tier):
    out = []

    def add(i, **sc):
        out.append(dict(id=i, **sc))

    for t in TYPES:
        add(t, blocks=[[t, 2]], npts=3)
        add("mix-" + t, blocks=[[t, 2], ["triangle", 1], [t, 1], ["quad", 2]], npts=4, pdata=[["u", [], "f8"]])
    add("2d", dim=2, blocks=[["triangle", 2], ["quad", 1]], npts=4, pdata=[["u", [2], "f8"]])
    for dt in ("f4", "f8", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"):
        add("dt-" + dt, blocks=[["triangle", 2]], npts=3, pdata=[["u", [], dt], ["w", [3], dt]])
    add("pts-f4", blocks=[["triangle", 2]], npts=3, pdt="f4")
    for cdt in ("i4", "u4", "u8"):
        add("conn-" + cdt, blocks=[["triangle", 2], ["quad", 1]], npts=3, cdt=cdt)
    add("comp", blocks=[["triangle", 2]], npts=3, pdata=[["a", [6], "f8"], ["one", [1], "f8"], ["m", [3, 3], "f8"], ["a long name of 30 characters..", [], "f8"]])
    add("eleven", blocks=[[t, 1 + j % 2] for j, t in enumerate(["triangle", "quad"] * 6)][:11], npts=4,
        pdata=[[f"n{k}", [], "f8"] for k in range(11)], psets=[[f"s{k}", [k % 4, (k + 1) % 4][: 1 + k % 2]] for k in range(11)])
    add("F-order", blocks=[["quad", 2]], npts=4, layout="F", pdata=[["a", [3], "f8"]])
    add("strided", blocks=[["quad", 2]], npts=4, layout="strided", pdata=[["a", [3], "f8"]])
    add("psets", blocks=[["tetra", 2], ["triangle", 1]], npts=5, psets=[["left", [0, 3]], ["right side", [4]], ["all", [4, 3, 2, 1, 0]]])
    add("symsets", blocks=[["tetra", 2], ["triangle", 1]], npts=5, special="symsets")
    add("medium", blocks=[["triangle", 150], ["quad", 130], ["line", 30], ["triangle", 45]], npts=310, medium=3, pdata=[["a", [3], "f8"], ["k", [], "i4"]])
    add("medium-i4", blocks=[["triangle", 150], ["quad", 130]], npts=310, medium=3, cdt="i4", pdt="f4", pdata=[["a", [3], "f4"]])
    add("large", blocks=[["hexahedron", 1500]], npts=2500, medium=3, pdata=[["a", [], "f8"]], weight=2)
    add("conn-huge", blocks=[["quad", 1], ["wedge", 1]], npts=4, cmax=2**62)
    for cdt in ("u1", "i1", "u2", "i2"):
        add("many-" + cdt, blocks=[["triangle", 100], ["quad", 5]], npts=120, medium=3, medc=0, cdt=cdt)
    for dt in ("f4", "i4", "u8", "i8"):
        add("comp-" + dt, blocks=[["triangle", 2]], npts=3, pdata=[["a", [6], dt], ["t", [9], dt], ["one", [1], dt], ["m", [3, 3], dt], ["v2", [2], dt]])
    add("names", blocks=[["triangle", 1]], npts=2, pdata=[["  lead", [], "f8"], ["a  b", [], "f8"], ["x" * 32, [], "f8"], ["y" * 31, [2], "f8"], ["A", [], "f8"], ["a", [], "f8"], ["Y", [], "f8"], ["q_Z", [], "f8"],
                                                          ["uX", [], "f8"], ["uY", [], "f8"], ["w_R", [], "f8"], ["sR", [], "f8"], ["sZ", [], "f8"]],
        psets=[["  lead", [0]], ["a  b", [1]], ["x" * 32, [1, 0]], ["A", [0]], ["a", [1]]])
    add("bigset", blocks=[["triangle", 2]], npts=400, medium=3, psets=[["all", list(range(400))], ["back", list(range(399, -1, -3))], ["one", [399]]])
    for dt in ("i4", "i8", "u4", "u8", "u1", "i2"):
        add("sets-" + dt, blocks=[["tetra", 2]], npts=5, special="symsets", sdt=dt)
    add("seven", blocks=[["triangle", 1], ["quad", 1], ["triangle", 2], ["line", 1], ["vertex", 1], ["line", 1], ["vertex", 2]], npts=4, pdata=[["q", [], "f8"]])
    add("mixdt", blocks=[["triangle", 1], ["quad", 1], ["line", 1]], npts=4, cdts=[["i4", 3], ["i8", 2**40], ["u4", 2**32 - 2]])
    add("bigendian", blocks=[["triangle", 1]], npts=3, pdt=">f8", cdt=">i8", pdata=[["a", [3], ">f8"]])
    for k in ("coordxyz", "coordxy", "elemvars", "sparse", "whole", "names", "times", "single", "info", "sets", "manyvars"):
        add("hand-" + k, special="hand")
    for k in ("TETRA4", "TET4", "TETRA", "HEX", "hex8", "TRI", "TRIANGLE", "tri3", "SHELL", "SHELL4", "QUAD", "BEAM", "BEAM2", "BAR2", "WEDGE", "PYRAMID",
              "SHELL8", "SHELL9", "BEAM3", "SPHERE", "HEXAHEDRON", "QUAD4", "QUAD8", "QUAD9", "TRI3", "TRI6", "TRI7", "HEX8", "HEX20", "HEX27", "TETRA10",
              "TETRA14", "Tetra", "quad9"):
        add("type-" + k, special="type")
    return out


ET = {"TETRA4": "tetra", "TET4": "tetra", "TETRA": "tetra", "HEX": "hexahedron", "hex8": "hexahedron", "TRI": "triangle",
      "TRIANGLE": "triangle", "tri3": "triangle", "SHELL": "quad", "SHELL4": "quad", "QUAD": "quad", "BEAM": "line", "BEAM2": "line", "BAR2": "line",
      "WEDGE": "wedge", "PYRAMID": "pyramid", "SHELL8": "quad8", "SHELL9": "quad9", "BEAM3": "line3", "SPHERE": "vertex", "HEXAHEDRON": "hexahedron",
      "QUAD4": "quad", "QUAD8": "quad8", "QUAD9": "quad9", "TRI3": "triangle", "TRI6": "triangle6", "TRI7": "triangle7", "HEX8": "hexahedron", "HEX20": "hexahedron20",
      "HEX27": "hexahedron27", "TETRA10": "tetra10", "TETRA14": "tetra14", "Tetra": "tetra", "quad9": "quad9"}


def sets(h, g, e, sc):
    h.check(set(g.point_sets) == set(e.point_sets), f"point set names {sorted(g.point_sets)}")
    for n, a in e.point_sets.items():
        h.same(g.point_sets.get(n), a, "point set " + n, kind="iu")
    ncfile(h, e)


def ncfile(h, e):
    """what the file says, without meshio's reader"""
    nc = netcdf(h).Dataset(h.path("m.e"))
    h.check(len(nc.dimensions["num_el_blk"]) == len(e.cells), "num_el_blk")
    h.check(len(nc.dimensions["num_elem"]) == sum(len(c) for _, c in e.cells), "num_elem")
    h.check(len(nc.dimensions["num_nodes"]) == len(e.points), "num_nodes")
    for k, (t, c) in enumerate(e.cells):
        v = nc.variables[f"connect{k + 1}"]
        h.check(ET.get(v.elem_type) == t, f"elem_type {v.elem_type} for {t}")
        h.same(v[:], c + 1, f"connect{k + 1} in the file", kind="iu")
    for k, (n, a) in enumerate(e.point_sets.items()):
        h.same(nc.variables[f"node_ns{k + 1}"][:], a + 1, f"node set {n} in the file", kind="iu")
    nc.close()


def netcdf(h):
    return __import__("engine.stubs", fromlist=["MODULES"]).MODULES.get("netCDF4") if h.symbolic else __import__("netCDF4")


def harness(h, sc):
    sp = sc.get("special")
    if sp in ("hand", "type"):
        return hand(h, sc)
    if sp == "symsets":
        from .common import build
        from .rt import roundtrip_mesh

        mesh, e = build(h, sc)
        e.point_sets = {"a": h.ints("sa", (3,), 0, 4), "b": h.ints("sb", (1,), 0, 4, "i4")}
        if sc.get("sdt"):
            dt = sc["sdt"]
            e.point_sets = ({"a": h.const([4, 1], dtype=dt), "b": h.const([0], dtype=dt)} if dt == "u1"
                            else {"a": h.ints("sa", (3,), 0, 4, dt), "b": h.ints("sb", (1,), 0, 4, dt), "c": h.ints("sc", (2,), 0, 2**14, dt)})
        mesh.point_sets = dict(e.point_sets)
        return roundtrip_mesh(h, sc, dict(ext=".e", pad2d=False, post=sets), mesh, e)
    roundtrip(h, sc, dict(ext=".e", pad2d=False, post=sets))


def names(nc, var, dim, lst):
    nc.createDimension(dim, len(lst))
    v = nc.createVariable(var, "S1", (dim, "len_string"))
    v.set_auto_mask(False)
    for k, n in enumerate(lst):
        for i, c in enumerate(n):
            v[k, i] = c.encode()


def hand(h, sc):
    k = sc["id"].split("-")[1]
    netCDF4 = __import__("engine.stubs", fromlist=["MODULES"]).MODULES.get("netCDF4") if h.symbolic else __import__("netCDF4")
    np = h.np
    p = h.path("a.e")
    nc = netCDF4.Dataset(p, "w")
    npts = 4
    pts = h.floats("x", (npts, 3))
    nc.createDimension("len_string", 33)
    nc.createDimension("num_nodes", npts)
    nc.createDimension("num_dim", 3)
    nc.createDimension("time_step", None)
    if k == "coordxy" or k == "coordxyz":
        for j, c in enumerate("xyz" if k == "coordxyz" else "xy"):
            v = nc.createVariable("coord" + c, "f8", ("num_nodes",))
            v[:] = pts[:, j]
        if k == "coordxy":
            pts = np.column_stack([pts[:, 0], pts[:, 1], np.zeros(npts)])
    else:
        v = nc.createVariable("coord", "f8", ("num_dim", "num_nodes"))
        v[:] = pts.T
    blocks = [("TRI3", "triangle", 2), ("QUAD4", "quad", 1), ("TRI3", "triangle", 3)]
    if sc["special"] == "type":
        blocks = [(k, ET[k], 2)]
    cells = []
    for b, (et, t, n) in enumerate(blocks):
        c = h.ints(f"c{b}", (n, NN[t]), 0, npts - 1)
        nc.createDimension(f"num_el_in_blk{b + 1}", n)
        nc.createDimension(f"num_nod_per_el{b + 1}", NN[t])
        v = nc.createVariable(f"connect{b + 1}", "i4", (f"num_el_in_blk{b + 1}", f"num_nod_per_el{b + 1}"))
        v.elem_type = et
        v[:] = c + 1
        cells.append((t, c))
    exp = {}
    if k in ("elemvars", "sparse", "whole"):
        vn = ["sig", "tau"]
        names(nc, "name_elem_var", "num_elem_var", vn)
        order = [(i, b) for b in range(3) for i in (1, 0)]
        if k == "whole":
            nc.createDimension("num_elem", 6)
            for i in (1, 0):
                a = h.floats(f"w{i}", (6,))
                v = nc.createVariable(f"vals_elem_var{i + 1}", "f8", ("time_step", "num_elem"))
                v[0] = a
                exp[vn[i]] = [a[:2], a[2:3], a[3:]]
        else:
            for i, b in order:
                a = h.floats(f"v{i}{b}", (blocks[b][2],))
                lst = exp.setdefault(vn[i], [None] * 3)
                if k == "sparse" and (i, b) in ((0, 0), (1, 1)):
                    lst[b] = h.array(_np.full(blocks[b][2], _np.nan))
                    continue
                v = nc.createVariable(f"vals_elem_var{i + 1}eb{b + 1}", "f8", ("time_step", f"num_el_in_blk{b + 1}"))
                v[0] = a
                lst[b] = a
    expp, exps = {}, {}
    if k in ("times", "single", "manyvars"):
        n = {"times": 2, "single": 1, "manyvars": 12}[k]
        nn = [f"n{i}" for i in range(n)]
        names(nc, "name_nod_var", "num_nod_var", nn)
        for i in reversed(range(n)):
            a = h.floats(f"n{i}", (npts,))
            v = nc.createVariable("vals_nod_var" if k == "single" else f"vals_nod_var{i + 1}", "f8", ("time_step", "num_nodes"))
            v[0] = a
            if k == "times":
                v[1] = h.floats(f"later{i}", (npts,))
            expp[nn[i]] = a
    if k == "info":
        nc.createDimension("len_line", 81)
        nc.createDimension("four", 4)
        names2 = nc.createVariable("info_records", "S1", ("num_dim", "len_line"))
        for i, c in enumerate("some text"):
            names2[1, i] = c.encode()
    if k == "sets":
        sn = ["left", "right", "top"]
        names(nc, "ns_names", "num_node_sets", sn)
        for i, n in enumerate(sn):
            nc.createDimension(f"num_nod_ns{i + 1}", i + 1)
            a = h.ints(f"s{i}", (i + 1,), 0, 3, "i4")
            v = nc.createVariable(f"node_ns{i + 1}", "i4", (f"num_nod_ns{i + 1}",))
            v[:] = a + 1
            d = nc.createVariable(f"dist_fact_ns{i + 1}", "f8", (f"num_nod_ns{i + 1}",))
            d[:] = h.const([1.0] * (i + 1), dtype="f8")
            exps[n] = a
    if k == "names":
        nn = ["T", "vX", "vY", "vZ", "a_R", "p", "a_Z", "soloX", "b_R"]
        names(nc, "name_nod_var", "num_nod_var", nn)
        a = [h.floats(f"n{i}", (npts,)) for i in range(len(nn))]
        for i in range(len(nn)):
            v = nc.createVariable(f"vals_nod_var{i + 1}", "f8", ("time_step", "num_nodes"))
            v[0] = a[i]
        expp = {"T": a[0], "v": np.column_stack(a[1:4]), "a": np.column_stack([a[4], a[6]]), "p": a[5], "soloX": a[7], "b_R": a[8]}
    nc.close()
    g = h.meshio.read(p)
    h.same(g.points, pts, "points")
    h.check([b.type for b in g.cells] == [t for t, _ in cells], f"cell types {[b.type for b in g.cells]}")
    for b, (t, c) in zip(g.cells, cells):
        h.same(b.data, c, "cells " + t, kind="iu")
    h.check(set(g.cell_data) == set(exp), f"cell data names {sorted(g.cell_data)}")
    for n, lst in exp.items():
        h.check(len(g.cell_data[n]) == len(cells), "cell data blocks")
        for b, a in enumerate(lst):
            h.same(g.cell_data[n][b], a, f"cell data {n} block {b}")
    h.check(set(g.point_sets) == set(exps), "point sets")
    for n, a in exps.items():
        h.same(g.point_sets.get(n), a, "point set " + n, kind="iu")
    h.check(set(g.point_data) == set(expp), f"point data names {sorted(g.point_data)}")
    for n, a in expp.items():
        h.same(g.point_data.get(n), a, "point data " + n)
