"""XDMF time series: TimeSeriesWriter / TimeSeriesReader."""

from .common import NN, build, check_cells

BOUNDS = ("<= 4 steps, each with its own names/arrays, <= 5 points, <= 4 cell blocks of <= 3 cells, symbolic times, "
          "coordinates, connectivity and data")
BOUNDS += "; also meshes of up to 310 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = "more steps; 4, 5, 7, 8 components (refused)"
TYPES = ["vertex", "line", "line3", "quad", "quad8", "quad9", "pyramid", "pyramid13", "tetra", "triangle", "triangle6",
         "tetra10", "wedge", "wedge15", "wedge18", "hexahedron", "hexahedron20", "hexahedron24", "hexahedron27"]


def scenarios(tier):
    out = []

    def add(v, i, **sc):
        out.append(dict(id=f"{v}-{i}", fmt=v, **sc))

    for v in ("XML", "Binary", "HDF"):
        for t in TYPES:
            add(v, t, blocks=[[t, 2]], npts=3)
            add(v, "mix-" + t, blocks=[[t, 2], ["triangle", 1], [t, 1]], npts=3, cd=[["q", [], "f8"]])
        add(v, "mixed", blocks=[["vertex", 1], ["line", 2], ["triangle", 1], ["hexahedron", 1]], npts=4, cd=[["q", [], "f8"], ["r", [3], "f8"]],
            pd=[["u", [], "f8"]], steps=3)
        add(v, "2d", dim=2, blocks=[["triangle", 2], ["line", 1]], npts=4, pd=[["u", [2], "f8"]], cd=[["q", [2], "f8"]], steps=2)
        for dt in ("f4", "f8", "i4", "i8", "u4", "u8", "i2", "u2", "i1", "u1"):
            add(v, "dt-" + dt, blocks=[["line", 2]], npts=2, pd=[["a", [], dt], ["b", [3], dt]], cd=[["q", [], dt]], steps=2)
        add(v, "steps4", blocks=[["triangle", 2]], npts=3, pd=[["u", [], "f8"], ["w", [3], "f8"]], cd=[["q", [], "f8"]], steps=4)
        add(v, "names", blocks=[["triangle", 2]], npts=3, pd=[["u<&>", [], "f8"], ["w w", [9], "f8"]], steps=2)
        add(v, "comp", blocks=[["triangle", 2]], npts=3, pd=[["a", [6], "f8"], ["t", [9], "f8"], ["one", [1], "f8"], ["m", [3, 3], "f8"]], cd=[["m", [3, 3], "f8"]], steps=2)
        add(v, "vary", blocks=[["triangle", 2], ["quad", 1]], npts=3, pd=[["u", [], "f8"], ["w", [3], "f8"]], cd=[["q", [], "f8"]], steps=3, vary=True)
        add(v, "dict", blocks=[["triangle", 2], ["line", 1]], npts=3, cd=[["q", [], "f8"]], steps=2, cells="dict")
        add(v, "tuples", blocks=[["triangle", 2], ["line", 1]], npts=3, cd=[["q", [], "f8"]], steps=2, cells="tuples")
        add(v, "pts-f4", blocks=[["triangle", 2]], npts=3, pdt="f4", pd=[["u", [], "f8"]])
        add(v, "conn-i4", blocks=[["triangle", 2], ["quad", 1]], npts=3, cdt="i4")
        add(v, "bigendian", blocks=[["triangle", 1]], npts=3, pdt=">f8", cdt=">i8", pd=[["a", [3], ">f8"]], cd=[["q", [], ">i4"]])
        add(v, "back", blocks=[["triangle", 2]], npts=3, pd=[["u", [], "f8"]], steps=3, order=[2, 0, 1, 0])
        add(v, "F-order", blocks=[["quad", 2], ["line", 2]], npts=4, layout="F", pd=[["a", [3], "f8"], ["m", [3, 3], "f8"]], cd=[["q", [3], "f8"]], steps=2)
        add(v, "strided", blocks=[["quad", 2]], npts=4, layout="strided", pd=[["a", [3], "f8"]], cd=[["q", [], "f8"]], steps=2)
        add(v, "medium", blocks=[["triangle", 150], ["quad", 130], ["wedge", 20], ["line", 30], ["triangle", 45]], npts=310, medium=3, pd=[["a", [3], "f8"], ["k", [], "i4"]],
            cd=[["q", [], "f8"], ["k", [], "u1"]], steps=2)
        add(v, "large-mixed", blocks=[["quad", 6000], ["triangle", 1500]], npts=300, medium=3, cd=[["q", [], "i4"]], weight=3)
        add(v, "many-steps", blocks=[["line", 1]], npts=2, pd=[["u", [], "f8"]], cd=[["q", [], "f8"]], steps=14, order=[0, 13, 1, 12, 2, 11, 10, 3])
        add(v, "conn-huge", blocks=[["quad", 1], ["wedge", 1], ["line", 1]], npts=4, cmax=2**62)
        for cdt in ("u1", "i1"):
            add(v, "many-" + cdt, blocks=[["triangle", 100], ["hexahedron20", 3]], npts=120, medium=3, cdt=cdt)
        for dt in ("f4", "i4", "u8", "u1"):
            add(v, f"comp-{dt}", blocks=[["triangle", 2], ["line", 1]], npts=3, pd=[["a", [6], dt], ["t", [9], dt], ["one", [1], dt], ["m", [3, 3], dt], ["v2", [2], dt]],
                cd=[["q", [6], dt], ["m", [3, 3], dt], ["v3", [3], dt]])
        add(v, "samename", blocks=[["triangle", 2], ["line", 1]], npts=3, pd=[["u", [], "f8"], ["k", [2], "i4"]], cd=[["u", [], "f8"], ["k", [], "i4"]], steps=2)
        add(v, "names2", blocks=[["triangle", 1]], npts=2, pd=[["  lead", [], "f8"], ["a  b", [], "f8"], ["x" * 90, [], "f8"], ["gamma\u03b3", [], "f8"], ["A", [], "f8"], ["a", [], "f8"]],
            cd=[["A", [], "f8"], ["a", [], "i8"], ["it's", [], "f8"], ["p/q:r", [], "f8"]], steps=2)
        add(v, "all-types", blocks=[[t, 1] for t in TYPES], npts=3, medium=4, cd=[["q", [], "f8"]])
        add(v, "nodata", blocks=[["triangle", 1]], npts=2, steps=3)
        add(v, "onlycd", blocks=[["triangle", 1]], npts=2, steps=2, cd=[["q", [], "f8"]])
        add(v, "inttime", blocks=[["triangle", 1]], npts=2, steps=3, cd=[["q", [], "f8"]], times=[0, 7, 2**40])
        add(v, "f4time", blocks=[["triangle", 1]], npts=2, steps=2, cd=[["q", [], "f8"]], times="f4")
        add(v, "two", blocks=[["triangle", 1]], npts=2, pd=[["u", [], "f8"]], cd=[["q", [], "f8"]], special="two")
        add(v, "reuse", blocks=[["triangle", 2]], npts=3, pd=[["u", [3], "f8"]], cd=[["q", [], "f8"]], special="reuse")
        for k in ("plain", "first", "firsttype", "num", "default", "order", "mixed", "2d", "last"):
            add(v, "hand-" + k, special="hand", kind=k)
    return out


def lay(h, sc, a):
    if sc.get("layout") == "F":
        return h.np.asfortranarray(a)
    return h.np.repeat(a, 2, axis=0)[::2] if sc.get("layout") == "strided" else a


def sametime(h, got, exp, sc):
    got = h.array(got)
    return h.eqcond(got.astype("f4") if sc.get("times") == "f4" else got, h.array(exp))


def file_check(h, p, e, sc, ts, P, C):
    """the file says what XDMF documents"""
    from xml.etree import ElementTree as ET

    from .p_xdmf import attributes, file_content

    root = ET.fromstring(h.read_text(p))
    grids = root.find("Domain").findall("Grid")
    coll = [g for g in grids if g.get("GridType") == "Collection" and g.get("CollectionType") == "Temporal"]
    uni = [g for g in grids if g.get("GridType") == "Uniform"]
    if root.tag != "Xdmf" or root.get("Version") != "3.0" or len(coll) != 1 or len(uni) != 1:
        h.fail("grids in the file")
        return
    file_content(h, p, e, sc, grid=uni[0], data=False)
    steps = coll[0].findall("Grid")
    if len(steps) != len(ts):
        h.fail(f"{len(steps)} steps in the file")
        return
    for k, g in enumerate(steps):
        inc = [x for x in g if x.tag.endswith("include")]
        if len(inc) != 1 or f'"{uni[0].get("Name")}"' not in inc[0].get("xpointer"):
            h.fail(f"step {k} does not refer to the mesh")
        tt = h.parse_float(g.find("Time").get("Value"))
        h.check(sametime(h, tt, ts[k], sc), f"time of step {k} in the file")
        attributes(h, p, g, P[k], {n: (h.np.concatenate(v) if len(v) > 1 else v[0]) for n, v in C[k].items()})


def two(h, sc):
    """two writers at work at the same time, then two readers"""
    from .p_xdmf import Prefixed

    X = h.meshio.xdmf
    out = []
    for pre, nm in (("a", "one.xdmf"), ("b", "two.xdmf")):
        hh = Prefixed(h, pre)
        mesh, e = build(hh, sc)
        out.append((h.path(nm), mesh, e, [hh.floats(f"u{k}", (2,)) for k in range(2)], [hh.floats(f"q{k}", (1,)) for k in range(2)]))
    with X.TimeSeriesWriter(out[0][0], data_format=sc["fmt"]) as w0, X.TimeSeriesWriter(out[1][0], data_format=sc["fmt"]) as w1:
        ws = [w0, w1]
        for w, o in zip(ws, out):
            w.write_points_cells(o[1].points, o[1].cells)
        for k in range(2):
            for w, o in zip(ws, out):
                w.write_data(float(k), point_data={"u": o[3][k]}, cell_data={"q": [o[4][k]]})
    with X.TimeSeriesReader(out[0][0]) as r0, X.TimeSeriesReader(out[1][0]) as r1:
        rs = [r0, r1]
        for r, o in zip(rs, out):
            points, cells = r.read_points_cells()
            h.same(points, o[2].points, "points")
            check_cells(h, h.meshio.Mesh(points, cells), o[2].cells)
        for k in (1, 0):
            for r, o in zip(rs, out):
                t, pd, cd = r.read_data(k)
                h.check(t == k, "time")
                h.same(pd["u"], o[3][k], f"point data of step {k}")
                h.same(cd["q"][0], o[4][k], f"cell data of step {k}")


def reuse(h, sc):
    """a caller that reuses its arrays between the steps: each step keeps the values it was given"""
    mesh, e = build(h, sc)
    u = [h.floats(f"u{k}", (3, 3)) for k in range(3)]
    q = [h.floats(f"q{k}", (2,)) for k in range(3)]
    p = h.path("ts.xdmf")
    pd, cd = {"u": u[0].copy()}, {"q": [q[0].copy()]}
    with h.meshio.xdmf.TimeSeriesWriter(p, data_format=sc["fmt"]) as w:
        w.write_points_cells(mesh.points, mesh.cells)
        for k in range(3):
            pd["u"][...] = u[k]
            cd["q"][0][...] = q[k]
            w.write_data(0.5 * k, point_data=pd, cell_data=cd)
            h.same(pd["u"], u[k], "the caller's point data")
            h.same(cd["q"][0], q[k], "the caller's cell data")
    with h.meshio.xdmf.TimeSeriesReader(p) as r:
        r.read_points_cells()
        got = [r.read_data(k) for k in range(3)]
        for k, (t, gp, gc) in enumerate(got):
            h.check(t == 0.5 * k, "time")
            h.same(gp["u"], u[k], f"point data of step {k}")
            h.same(gc["q"][0], q[k], f"cell data of step {k}")


def hand(h, sc):
    """files of other producers"""
    import numpy as _np

    from .p_xdmf import hdf5, txt

    k, fmt, np = sc["kind"], sc["fmt"], h.np
    fdt = "f4" if k == "default" else "f8"
    idt = "i4" if k == "default" else "i8"
    dim = 2 if k == "2d" else 3
    pts = h.floats("x", (4, dim), fdt)
    other = h.floats("y", (4, dim), fdt)
    c0 = h.ints("c0", (2, 3), 0, 3, idt)
    c1 = h.ints("c1", (1, 2), 0, 3, idt)
    us = [h.floats(f"u{i}", (4, 3), fdt) for i in range(3)]
    qs = [h.floats(f"q{i}", (3 if k == "mixed" else 2,), fdt) for i in range(3)]
    NT = "NumberType" if k == "num" else "DataType"
    h5 = hdf5(h).File(h.path("sol.h5"), "w") if fmt == "HDF" else None
    cnt = [0]

    def item(a, typ):
        dt = _np.dtype(a.dtype)
        cnt[0] += 1
        if fmt == "Binary":
            body = h.write_bytes(f"r{cnt[0]}.raw", h.to_bytes(a, dt))
        elif fmt == "HDF":
            h5.create_dataset(f"Vis/{cnt[0]}/v", data=a)
            body = f"sol.h5:/Vis/{cnt[0]}/v"
        else:
            body = txt(a)
        head = f' {NT}="{typ}" Precision="{dt.itemsize}"' if k != "default" else ("" if typ == "Float" else f' {NT}="{typ}"')
        return f'<DataItem{head} Dimensions="{" ".join(str(x) for x in a.shape)}" Format="{fmt}">{body}</DataItem>'

    TT, GT = ("Type", "Type") if k == "firsttype" else ("TopologyType", "GeometryType")
    geo = f'<Geometry {GT}="{"XY" if dim == 2 else "XYZ"}">{item(pts, "Float")}</Geometry>'
    if k == "mixed":
        one = h.const([4, 2, 2], dtype=idt)
        flat = np.concatenate([one[:1], c0[0], one[:1], c0[1], one[1:], c1[0]])
        topo = f'<Topology {TT}="Mixed" NumberOfElements="3">{item(flat, "Int")}</Topology>'
        cells = [("triangle", c0), ("line", c1)]
    else:
        topo = f'<Topology {TT}="Triangle" NumberOfElements="2">{item(c0, "Int")}</Topology>'
        cells = [("triangle", c0)]
    mesh = topo + geo if k == "order" else geo + topo
    moved = f'<Geometry {GT}="{"XY" if dim == 2 else "XYZ"}">{item(other, "Float")}</Geometry>' + topo if k in ("first", "firsttype") else ""
    steps = ""
    for i in range(3):
        att = f'<Attribute Name="u" AttributeType="Vector" Center="Node">{item(us[i], "Float")}</Attribute><Attribute AttributeType="Scalar" Center="Cell" Name="q">{item(qs[i], "Float")}</Attribute>'
        tm = f'<Time Value="{1.25 * i}" />'
        inside = (mesh if i == 0 else moved) if k in ("first", "firsttype") else ""
        steps += f'<Grid Name="s{i}" GridType="Uniform">' + (inside + att + tm if k == "order" else inside + tm + att) + "</Grid>\n"
    coll = f'<Grid Name="TimeSeries" GridType="Collection" CollectionType="Temporal">\n{steps}</Grid>\n'
    sep = "" if k in ("first", "firsttype") else f'<Grid Name="mesh" GridType="Uniform">{mesh}</Grid>\n'
    p = h.write_text("h.xdmf", '<?xml version="1.0"?>\n<Xdmf Version="3.0"><Domain>' + (coll + sep if k == "last" else sep + coll) + "</Domain></Xdmf>\n")
    if h5:
        h5.close()
    with h.meshio.xdmf.TimeSeriesReader(p) as r:
        points, gc = r.read_points_cells()
        h.same(points, pts, "points", dtype=fdt)
        check_cells(h, h.meshio.Mesh(points, gc), cells)
        h.check(r.num_steps == 3, "number of steps")
        for i in (2, 0, 1):
            t, pd, cd = r.read_data(i)
            h.check(t == 1.25 * i, "time")
            if set(pd) != {"u"} or set(cd) != {"q"}:
                h.fail("names")
                continue
            h.same(pd["u"], us[i], f"point data of step {i}", dtype=fdt)
            h.same(np.concatenate(cd["q"]) if len(cd["q"]) > 1 else cd["q"][0], qs[i], f"cell data of step {i}", dtype=fdt)
            if [len(x) for x in cd["q"]] != [len(c) for _, c in cells]:
                h.fail("blocks of the cell data")


def harness(h, sc):
    from .common import data

    if sc.get("special"):
        return {"two": two, "reuse": reuse, "hand": hand}[sc["special"]](h, sc)

    mesh, e = build(h, sc)
    steps = sc.get("steps", 1)
    ts = [h.float(f"t{k}") for k in range(steps)]
    if sc.get("times") == "f4":
        ts = [h.floats(f"tt{k}", (1,), "f4")[0] for k in range(steps)]
    elif sc.get("times"):
        ts = sc["times"]
    P, C = [], []
    for k in range(steps):
        pd = {n: data(h, f"p{k}{j}", (sc["npts"], *s), dt) for j, (n, s, dt) in enumerate(sc.get("pd", []))
              if not (sc.get("vary") and (j + k) % 3 == 2)}
        cd = {n: [data(h, f"c{k}{j}_{b}", (blk[1], *s), dt) for b, blk in enumerate(sc["blocks"])]
              for j, (n, s, dt) in enumerate(sc.get("cd", [])) if not (sc.get("vary") and k == 1)}
        P.append(pd)
        C.append(cd)
    p = h.path("ts.xdmf")
    cells = mesh.cells
    if sc.get("cells") == "dict":
        cells = {t: c for t, c in e.cells}
    elif sc.get("cells") == "tuples":
        cells = list(e.cells)
    keep = [c.copy() for _, c in e.cells]
    with h.meshio.xdmf.TimeSeriesWriter(p, data_format=sc["fmt"]) as w:
        w.write_points_cells(mesh.points, cells)
        for k in range(steps):
            w.write_data(ts[k], point_data={n: lay(h, sc, v) for n, v in P[k].items()}, cell_data={n: [lay(h, sc, x) for x in v] for n, v in C[k].items()})
    for (t, c), kk in zip(e.cells, keep):
        h.same(c, kk, f"writing changed the {t} connectivity of the caller")
    file_check(h, p, e, sc, ts, P, C)
    with h.meshio.xdmf.TimeSeriesReader(p) as r:
        points, gc = r.read_points_cells()
        h.same(points, e.points, "points", dtype=e.points.dtype)
        h.check(r.num_steps == steps, "number of steps")
        m = h.meshio.Mesh(points, gc)
        match = check_cells(h, m, e.cells)
        for k in sc.get("order", range(steps)):
            t, pd, cd = r.read_data(k)
            h.check(sametime(h, t, ts[k], sc), f"time of step {k}")
            if set(pd) != set(P[k]) or set(cd) != set(C[k]):
                h.fail(f"step {k}: data names {sorted(pd)} {sorted(cd)}")
                continue
            for n, a in P[k].items():
                h.same(pd[n], a, f"step {k} point data {n}", dtype=a.dtype)
            if match is None:
                continue
            g, ee = match
            for n, lst in C[k].items():
                for (key, gi), (_, ei) in zip(g, ee):
                    h.same(h.np.concatenate([cd[n][i] for i in gi]), h.np.concatenate([lst[i] for i in ei]), f"step {k} cell data {n} ({key[0]})", dtype=lst[0].dtype)
