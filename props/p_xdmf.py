"""XDMF (XML, Binary, HDF): round trip; reading of hand-written XDMF 2/3 files."""

import numpy as _np

from .common import NN, build, check_cells, check_cell_data, check_point_data
from .rt import compare, roundtrip_mesh

TYPES = ["vertex", "line", "line3", "quad", "quad8", "quad9", "pyramid", "pyramid13", "tetra", "triangle", "triangle6",
         "tetra10", "wedge", "wedge15", "wedge18", "hexahedron", "hexahedron20", "hexahedron24", "hexahedron27",
         "hexahedron64", "hexahedron125", "hexahedron216", "hexahedron343", "hexahedron512", "hexahedron729",
         "hexahedron1000"]
DT = ["f4", "f8", "i2", "u2", "i4", "u4", "i8", "u8", "i1", "u1"]
VARIANTS = {
    "xml": dict(kw={"data_format": "XML"}),
    "bin": dict(kw={"data_format": "Binary"}),
    "hdf": dict(kw={}),
    "hdfn": dict(kw={"compression": None}),
}
BOUNDS = ("meshes with <= 6 points in 2D/3D, <= 4 blocks of <= 3 cells (every XDMF cell type meshio knows), symbolic "
          "coordinates, connectivity and data of every supported dtype; 1, 2, 3, 6, 9, 3x3 components")
BOUNDS += "; also meshes of up to 2500 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = "field data and sets (not written by this writer); 4, 5, 7, 8 components (refused)"


def scenarios(tier):
    out = []

    def add(v, i, **sc):
        out.append(dict(id=f"{v}-{i}", fmt=v, **sc))

    for v in VARIANTS:
        for t in TYPES:
            if NN[t] > 130 and v != "bin" and tier == "quick":
                continue
            add(v, t, blocks=[[t, 2 if NN[t] < 30 else 1]], npts=3)
            if NN[t] < 130:
                add(v, "mix-" + t, blocks=[[t, 2], ["triangle", 1], [t, 1]], npts=3, cdata=[["q", [], "f8"]])
        add(v, "mixed", blocks=[["triangle", 2], ["quad", 1], ["triangle", 1], ["line", 2]], npts=4,
            cdata=[["q", [], "f8"], ["k", [], "i8"]], pdata=[["u", [], "f8"]])
        add(v, "mixed2", blocks=[["vertex", 2], ["line", 1], ["tetra", 1], ["hexahedron", 1]], npts=4,
            cdata=[["q", [], "f8"], ["k", [3], "f8"]], pdata=[["u", [], "f8"]])
        add(v, "same2", blocks=[["triangle", 2], ["triangle", 1]], npts=4, cdata=[["q", [], "i4"]])
        add(v, "2d", dim=2, blocks=[["triangle", 2]], npts=4, pdata=[["u", [2], "f8"], ["w", [], "f8"]],
            cdata=[["q", [2], "f8"], ["s", [3], "f8"]])
        add(v, "2d-mixed", dim=2, blocks=[["triangle", 2], ["quad", 1]], npts=4)
        for dt in DT:
            add(v, f"dt-{dt}", blocks=[["line", 2]], npts=2, pdata=[["a", [], dt], ["b", [3], dt]], cdata=[["q", [], dt], ["r", [2], dt]])
        add(v, "pts-f4", blocks=[["line", 1]], npts=3, pdt="f4")
        for cdt in ("i4", "u4", "u8", "i2", "u2"):
            add(v, "conn-" + cdt, blocks=[["quad", 2]], npts=4, cdt=cdt)
        for cdt in ("i4", "u4", "i2", "u8"):
            add(v, "mconn-" + cdt, blocks=[["quad", 2], ["line", 1]], npts=4, cdt=cdt)
        add(v, "F-order", blocks=[["quad", 2]], npts=4, layout="F", pdata=[["a", [3], "f8"]], cdata=[["q", [3], "f8"]])
        add(v, "strided", blocks=[["quad", 2]], npts=4, layout="strided", pdata=[["a", [3], "f8"]], cdata=[["q", [], "f8"]])
        add(v, "bigendian", blocks=[["triangle", 1]], npts=3, pdt=">f8", cdt=">i8", pdata=[["a", [3], ">f8"]], cdata=[["q", [], ">i4"]])
        add(v, "comp", blocks=[["triangle", 2]], npts=3, pdata=[["a", [6], "f8"], ["t", [9], "f8"], ["one", [1], "f8"], ["m", [3, 3], "f8"], ["mm", [2, 2], "f8"]],
            cdata=[["q", [6], "f8"], ["m", [3, 3], "f8"]])
        add(v, "names", blocks=[["triangle", 1]], npts=3, pdata=[["a b", [], "f8"], ["x<&>\"y", [], "f8"]], cdata=[["q r", [], "f8"]])
        if v in ("xml", "bin"):
            for t in TYPES:
                if NN[t] > 130:
                    add(v, "mix-" + t, blocks=[[t, 1], ["triangle", 1]], npts=3, cdata=[["q", [], "f8"]])
        add(v, "all-types", blocks=[[t, 1] for t in TYPES if NN[t] < 70], npts=3, medium=4, cdata=[["q", [], "f8"]])
        add(v, "large-mixed", blocks=[["quad", 6000], ["triangle", 1500]], npts=300, medium=3, cdata=[["q", [], "i4"]], weight=3)
        add(v, "zeros", special="zeros")
        add(v, "nocd", blocks=[["triangle", 1], ["line", 2]], npts=3)
        add(v, "medium", blocks=[["triangle", 150], ["quad", 130], ["wedge", 20], ["line", 30], ["triangle", 45]], npts=310, medium=3, pdata=[["a", [3], "f8"], ["k", [], "i4"]],
            cdata=[["q", [], "f8"], ["k", [], "u1"]])
        add(v, "medium-u2", blocks=[["triangle", 150], ["quad", 130]], npts=310, medium=3, cdt="u2", medc=0, pdt="f4", pdata=[["a", [3], "f4"]])
        add(v, "large", blocks=[["hexahedron", 1500]], npts=2500, medium=3, pdata=[["a", [], "f8"]], cdata=[["q", [], "i8"]], weight=3)
        add(v, "conn-huge", blocks=[["quad", 1]], npts=4, cmax=2**62)
        add(v, "mconn-huge", blocks=[["quad", 1], ["wedge", 1], ["line", 1]], npts=4, cmax=2**62)
        for cdt in ("u1", "i1"):
            add(v, "many-" + cdt, blocks=[["triangle", 100], ["hexahedron20", 3]], npts=120, medium=3, cdt=cdt)
            add(v, "one-" + cdt, blocks=[["triangle", 100]], npts=120, medium=3, cdt=cdt)
        for dt in ("f4", "i4", "u8", "u1"):
            add(v, f"comp-{dt}", blocks=[["triangle", 2], ["line", 1]], npts=3, pdata=[["a", [6], dt], ["t", [9], dt], ["one", [1], dt], ["m", [3, 3], dt], ["v2", [2], dt]],
                cdata=[["q", [6], dt], ["m", [3, 3], dt], ["v3", [3], dt]])
        add(v, "many-arrays", blocks=[["triangle", 1], ["quad", 1]], npts=2, pdata=[[f"a{i}", [], "f8"] for i in range(13)], cdata=[[f"c{i}", [], "i4"] for i in range(13)])
        add(v, "mixed-dtypes", blocks=[["triangle", 1], ["quad", 1], ["line", 1]], npts=4, special="mixdt")
        add(v, "names2", blocks=[["triangle", 1]], npts=2, pdata=[["  lead", [], "f8"], ["a  b", [], "f8"], ["x" * 90, [], "f8"], ["gamma\u03b3", [], "f8"], ["A", [], "f8"], ["a", [], "f8"]],
            cdata=[["A", [], "f8"], ["a", [], "i8"], ["it's", [], "f8"], ["p/q:r", [], "f8"]])
        add(v, "seven", blocks=[["triangle", 1], ["quad", 1], ["triangle", 2], ["line", 1], ["vertex", 1], ["line", 1], ["vertex", 2]], npts=4, cdata=[["q", [], "f8"]])
        add(v, "allv", blocks=[["vertex", 2], ["vertex", 1], ["line", 2], ["line", 1]], npts=4, cdata=[["q", [], "f8"]])
        if v != "hdfn":
            add(v, "twice", blocks=[["triangle", 2], ["line", 1]], npts=3, pdata=[["a", [], "f8"]], cdata=[["q", [], "f8"]], special="twice")
    for k in ("3", "2", "2mixed", "3mixed", "3type", "3num", "3ref", "2ref", "3xy", "3f4", "3default", "2default", "3bin", "3hdf", "2bin", "2hdf", "3hdfslash", "3hdfdeep", "3mixedhdf",
              "3info", "2info", "2grid", "3order", "3mixedbin", "3int1"):
        add("hand", k, special="hand")
    for n in ALIASES:
        add("hand", "alias:" + n, special="hand")
    return out


# the documented names and indices of XDMF's topologies, independent of meshio's tables
ALIASES = {"Polyvertex": "vertex", "Polyline": "line", "Edge_3": "line3", "Quadrilateral": "quad", "Quadrilateral_8": "quad8", "Quad_8": "quad8",
           "Quadrilateral_9": "quad9", "Quad_9": "quad9", "Pyramid": "pyramid", "Pyramid_13": "pyramid13", "Tetrahedron": "tetra", "Triangle": "triangle",
           "Triangle_6": "triangle6", "Tri_6": "triangle6", "Tetrahedron_10": "tetra10", "Tet_10": "tetra10", "Wedge": "wedge", "Wedge_15": "wedge15",
           "Wedge_18": "wedge18", "Hexahedron": "hexahedron", "Hexahedron_20": "hexahedron20", "Hex_20": "hexahedron20", "Hexahedron_24": "hexahedron24",
           "Hex_24": "hexahedron24", "Hexahedron_27": "hexahedron27", "Hex_27": "hexahedron27", "Hexahedron_64": "hexahedron64", "Hex_64": "hexahedron64",
           "Hexahedron_125": "hexahedron125", "Hex_125": "hexahedron125"}
INDEX = {1: "vertex", 2: "line", 4: "triangle", 5: "quad", 6: "tetra", 7: "pyramid", 8: "wedge", 9: "hexahedron", 0x22: "line3", 0x23: "quad9", 0x24: "triangle6",
         0x25: "quad8", 0x26: "tetra10", 0x27: "pyramid13", 0x28: "wedge15", 0x29: "wedge18", 0x30: "hexahedron20", 0x31: "hexahedron24", 0x32: "hexahedron27",
         0x33: "hexahedron64", 0x34: "hexahedron125", 0x35: "hexahedron216", 0x36: "hexahedron343", 0x37: "hexahedron512", 0x38: "hexahedron729",
         0x39: "hexahedron1000", 0x40: "hexahedron1331"}
NPTYPE = {("Float", "4"): "f4", ("Float", "8"): "f8", ("Int", "1"): "i1", ("Int", "2"): "i2", ("Int", "4"): "i4", ("Int", "8"): "i8",
          ("UInt", "1"): "u1", ("UInt", "2"): "u2", ("UInt", "4"): "u4", ("UInt", "8"): "u8"}


def hdf5(h):
    return __import__("engine.stubs", fromlist=["MODULES"]).MODULES.get("h5py") if h.symbolic else __import__("h5py")


def load(h, item, p):
    """the array of a DataItem, read without meshio's reader"""
    import os

    dt = _np.dtype(NPTYPE[item.get("DataType"), item.get("Precision")])
    dims = [int(x) for x in item.get("Dimensions").split()]
    fmt = item.get("Format")
    if fmt == "XML":
        f = h.parse_float if dt.kind == "f" else h.parse_int
        a = h.array([f(x) for x in item.text.split()], dtype=dt)
    elif fmt == "Binary":
        a = h.from_bytes(h.read_bytes(os.path.join(os.path.dirname(p), item.text.strip())), dt)
    else:
        fn, name = item.text.strip().split(":")
        with hdf5(h).File(os.path.join(os.path.dirname(p), fn), "r") as f:
            a = f[name][()]
        if _np.dtype(a.dtype).newbyteorder("=") != dt or list(a.shape) != dims:
            h.fail(f"DataItem {dt} {dims} describes an HDF5 dataset of {a.dtype} {a.shape}")
    if int(_np.prod(a.shape, dtype=int)) != int(_np.prod(dims, dtype=int)):
        h.fail(f"DataItem of dimensions {dims} holds {a.shape} entries")
    return a.reshape(dims)


def kind(shape):
    tail = tuple(shape[1:])
    n = int(_np.prod(tail, dtype=int))
    if len(tail) < 2:
        return {1: "Scalar", 2: "Vector", 3: "Vector", 6: "Tensor6", 9: "Tensor"}[n]
    return "Tensor" if tail == (3, 3) else "Matrix"


def unmix(h, flat, e):
    """the cells of a Mixed topology (its types are fixed by the expected cells)"""
    i, out = 0, []
    for t, c in e:
        rows = []
        for _ in range(len(c)):
            if i >= len(flat):
                h.fail("Mixed topology is too short")
                return None
            k = int(flat[i])
            if INDEX.get(k) != t:
                h.fail(f"Mixed topology: index {k} instead of {t}")
                return None
            i += 1
            if t in ("vertex", "line"):
                h.check(flat[i] == NN[t], f"Mixed topology: number of nodes of a {t}")
                i += 1
            rows.append(flat[i : i + NN[t]])
            i += NN[t]
        out.append(h.np.concatenate(rows).reshape(len(c), NN[t]))
    if i != len(flat):
        h.fail("Mixed topology is too long")
        return None
    return out


def file_content(h, p, e, sc, grid=None, data=True):
    """the file says what XDMF documents"""
    from xml.etree import ElementTree as ET

    if grid is None:
        root = ET.fromstring(h.read_text(p))
        if root.tag != "Xdmf" or root.get("Version") != "3.0":
            h.fail("XDMF version")
        grid = root.find("Domain").find("Grid")
    geo = grid.find("Geometry")
    if geo.get("GeometryType") != {2: "XY", 3: "XYZ"}[e.points.shape[1]]:
        h.fail(f"GeometryType {geo.get('GeometryType')}")
    h.same(load(h, geo[0], p), e.points, "points in the file", dtype=_np.dtype(e.points.dtype).newbyteorder("="))
    topo = grid.find("Topology")
    n = sum(len(c) for _, c in e.cells)
    if topo.get("NumberOfElements") != str(n):
        h.fail(f"NumberOfElements {topo.get('NumberOfElements')}")
    if len(e.cells) == 1:
        t, c = e.cells[0]
        if ALIASES.get(topo.get("TopologyType"), "hexahedron" + topo.get("TopologyType").split("_")[-1]) != t:
            h.fail(f"TopologyType {topo.get('TopologyType')} for {t}")
        if topo.get("NodesPerElement", str(NN[t])) != str(NN[t]):
            h.fail("NodesPerElement")
        h.same(load(h, topo[0], p), c, "cells in the file", kind="iu")
    else:
        if topo.get("TopologyType") != "Mixed":
            h.fail(f"TopologyType {topo.get('TopologyType')}")
        for (t, c), g in zip(e.cells, unmix(h, load(h, topo[0], p), e.cells) or []):
            h.same(g, c, f"{t} cells in the file", kind="iu")
    if not data:
        return
    attributes(h, p, grid, e.point_data, {k: h.np.concatenate(v) if len(v) > 1 else v[0] for k, v in e.cell_data.items()})


def attributes(h, p, grid, pd, cd):
    for center, exp in (("Node", pd), ("Cell", cd)):
        got = [a for a in grid.findall("Attribute") if a.get("Center") == center]
        if [a.get("Name") for a in got] != list(exp):
            h.fail(f"{center} attributes {[a.get('Name') for a in got]}")
            continue
        for a, (name, arr) in zip(got, exp.items()):
            if a.get("AttributeType") != kind(arr.shape):
                h.fail(f"AttributeType {a.get('AttributeType')} for {arr.shape}")
            h.same(load(h, a[0], p), arr, f"{center} attribute {name} in the file", dtype=_np.dtype(arr.dtype).newbyteorder("="))


def harness(h, sc):
    if sc.get("special") == "hand":
        return hand(h, sc)
    s = dict(ext=".xdmf", pad2d=False, **VARIANTS[sc["fmt"]])
    if sc.get("special") == "mixdt":
        from .common import Exp

        e = Exp()
        e.points = h.floats("x", (4, 3))
        for b, ((t, n), dt) in enumerate(zip(sc["blocks"], ("i4", "i8", "u2"))):
            e.cells.append((t, h.ints(f"c{b}", (n, NN[t]), 0, 3 if dt != "i8" else 2**40, dt)))
        roundtrip_mesh(h, sc, s, h.meshio.Mesh(e.points, list(e.cells)), e)
        return
    if sc.get("special") == "zeros":
        from .common import Exp

        e = Exp()
        e.points = h.const([[0.0, 0.0, 0.0]], dtype="f8")
        e.cells = [("vertex", h.const([[0]], dtype="i8"))]
        e.point_data = {"i": h.const([0], dtype="i8"), "f": h.const([0.0], dtype="f4"), "v": h.const([[0, 0]], dtype="i4")}
        e.cell_data = {"i": [h.const([0], dtype="i8")], "u": [h.const([0], dtype="u1")]}
        roundtrip_mesh(h, sc, s, h.meshio.Mesh(e.points, list(e.cells), point_data=dict(e.point_data), cell_data=dict(e.cell_data)), e)
        return
    if sc.get("special") == "twice":
        # two files next to each other keep their data apart; writing again replaces the first
        m1, e1 = build(h, sc)
        m2, e2 = build(Prefixed(h, "z"), dict(sc, npts=4, blocks=[["quad", 1]]))
        p1, p2 = h.path("a.xdmf"), h.path("b.xdmf")
        kw = s["kw"]
        h.meshio.write(p1, m1, **kw)
        h.meshio.write(p2, m2, **kw)
        compare(h, sc, s, h.meshio.read(p1), e1)
        compare(h, sc, s, h.meshio.read(p2), e2)
        h.meshio.write(p1, m2, **kw)
        compare(h, sc, s, h.meshio.read(p1), e2)
        return
    mesh, e = build(h, sc)
    roundtrip_mesh(h, sc, s, mesh, e)
    file_content(h, h.path("m.xdmf"), e, sc)


class Prefixed:
    """a harness whose variables have another prefix"""

    def __init__(self, h, p):
        self._h, self._p = h, p

    def floats(self, name, *a, **k):
        return self._h.floats(self._p + name, *a, **k)

    def ints(self, name, *a, **k):
        return self._h.ints(self._p + name, *a, **k)

    def __getattr__(self, n):
        return getattr(self._h, n)


def txt(a):
    return " ".join(repr(v) if isinstance(v, float) or not isinstance(v, int) else str(v) for v in a.reshape(-1).tolist())


def hand(h, sc):
    np = h.np
    k = sc["id"].split("-", 1)[1]
    al = k.split(":")[1] if ":" in k else None
    ver = "2.0" if k.startswith("2") else "3.0"
    dim = 2 if k == "3xy" else 3
    fdt = "f4" if k in ("3f4", "3default", "2default") else "f8"
    idt = "i1" if k == "3int1" else "i4" if k in ("3f4", "3default", "2default") else "i8"
    fmt = "Binary" if "bin" in k else "HDF" if "hdf" in k else "XML"
    NT = "NumberType" if (ver == "2.0" or k == "3num") else "DataType"
    TT = "Type" if k == "3type" or al else "TopologyType"
    GT = "Type" if k == "3type" or al else "GeometryType"
    t0 = ALIASES[al] if al else "triangle6" if k == "3type" else "triangle"
    pts = h.floats("x", (4, dim), fdt)
    c0 = h.ints("c0", (2, NN[t0]), 0, 3, idt) if k != "3int1" else h.const([[0, 1, 2], [3, 1, 0]], dtype="i1")
    c1 = h.ints("c1", (2, 4), 0, 3, idt)
    c2 = h.ints("c2", (1, 2), 0, 3, idt)
    u = h.floats("u", (4,), fdt)
    w = h.floats("w", (4, 3), fdt)
    q = h.floats("q", (5 if "mixed" in k else 2,), fdt)
    cnt = [0]
    h5 = hdf5(h).File(h.path("other.h5"), "w") if fmt == "HDF" else None

    def item(a, typ, extra=""):
        dt = _np.dtype(a.dtype)
        dims = " ".join(str(x) for x in a.shape)
        prec = f' Precision="{dt.itemsize}"'
        nt = f' {NT}="{typ}"'
        if k.endswith("default"):
            prec = ""
            nt = "" if typ == "Float" else nt
        cnt[0] += 1
        if fmt == "Binary":
            body = h.write_bytes(f"raw{cnt[0]}.dat", h.to_bytes(a, dt))
        elif fmt == "HDF":
            name = f"d{cnt[0]}" if "deep" not in k else f"Mesh/{cnt[0]}/mesh/geo"
            h5.create_dataset(name, data=a)
            body = f"other.h5:{'' if 'slash' in k else '/'}{name}"
        else:
            body = txt(a)
        return f'<DataItem{nt}{prec} Dimensions="{dims}" Format="{fmt}"{extra}>\n{body}\n</DataItem>'

    geo = f'<Geometry {GT}="{"XY" if dim == 2 else "XYZ"}">{item(pts, "Float")}</Geometry>\n'
    if "mixed" in k:
        one = h.const([4, 5, 2, 2], dtype=idt)
        flat = np.concatenate([one[0:1], c0[0], one[0:1], c0[1], one[1:2], c1[0], one[1:2], c1[1], one[2:4], c2[0]])
        topo = f'<Topology {TT}="Mixed" NumberOfElements="5">{item(flat, "Int")}</Topology>\n'
        cells = [("triangle", c0), ("quad", c1), ("line", c2)]
        cd = {"q": [q[:2], q[2:4], q[4:]]}
    else:
        topo = f'<Topology {TT}="{al or ("Tri_6" if k == "3type" else "Triangle")}" NumberOfElements="2">{item(c0, "Int")}</Topology>\n'
        cells = [(t0, c0)]
        cd = {"q": [q]}
    ref = ' Name="ud"' if k.endswith("ref") else ""
    att = f'<Attribute Name="u" Center="Node" AttributeType="Scalar">{item(u, "Float", ref)}</Attribute>\n'
    att += f'<Attribute Name="w" Center="Node" AttributeType="Vector">{item(w, "Float")}</Attribute>\n'
    att += f'<Attribute Name="q" Center="Cell" AttributeType="Scalar">{item(q, "Float")}</Attribute>\n'
    o1 = h.floats("o1", (4, 1), fdt)
    att += f'<Attribute Name="o1" Center="Node" AttributeType="Scalar">{item(o1, "Float")}</Attribute>\n'
    pd = {"u": u, "w": w, "o1": o1}
    fd = {}
    if k.endswith("ref"):
        att += '<Attribute Name="u2" Center="Node"><DataItem Reference="XML">\n/Xdmf/Domain/Grid/Attribute/DataItem[@Name="ud"]\n</DataItem></Attribute>\n'
        att += '<Attribute Name="w2" Center="Node"><DataItem Reference="/Xdmf/Domain/Grid/Attribute[@Name=\'w\']/DataItem"/></Attribute>\n'
        att += '<Attribute Name="q2" Center="Cell"><DataItem Reference="/Xdmf/Domain/Grid/Attribute[@Name=\'q\']/DataItem"/></Attribute>\n'
        pd["u2"], pd["w2"], cd["q2"] = u, w, cd["q"]
    if k.endswith("info"):
        att += '<Information Name="i"><![CDATA[<main><map key="left" dim="2">7</map><map key="right side" dim="1">12</map></main>]]></Information>\n'
        fd = {"left": [7, 2], "right side": [12, 1]}
    if k == "2grid":
        att += f'<Attribute Name="g" Center="Grid">{item(u, "Float")}</Attribute>\n'
    body = topo + att + geo if k == "3order" else geo + topo + att
    if h5:
        h5.close()
    p = h.write_text("m.xdmf", f'<?xml version="1.0" ?>\n<Xdmf Version="{ver}"><Domain><Grid Name="mesh" GridType="Uniform">\n{body}</Grid></Domain></Xdmf>\n')
    g = h.meshio.read(p)
    h.same(g.points, pts, "points", dtype=fdt)
    m = check_cells(h, g, cells)
    check_point_data(h, g, pd)
    check_cell_data(h, g, cells, cd, m)
    if set(g.field_data) != set(fd):
        h.fail(f"field data {sorted(g.field_data)}")
    else:
        for n, v in fd.items():
            h.same(g.field_data[n], h.const(v, dtype="i8"), f"field data {n}", kind="iu")
