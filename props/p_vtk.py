"""VTK legacy files: write/read round trip."""

from .common import NN
from .rt import roundtrip

V42 = ["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "penta_prism",
       "hexa_prism", "line3", "triangle6", "quad8", "tetra10", "hexahedron20", "wedge15", "pyramid13", "quad9",
       "hexahedron27", "quad6", "wedge12", "wedge18", "hexahedron24", "triangle7", "line4"]
LAG = [("VTK_LAGRANGE_CURVE", 5), ("VTK_LAGRANGE_TRIANGLE", 10), ("VTK_LAGRANGE_QUADRILATERAL", 16),
       ("VTK_LAGRANGE_TETRAHEDRON", 20), ("VTK_LAGRANGE_HEXAHEDRON", 27), ("VTK_LAGRANGE_WEDGE", 18),
       ("VTK_LAGRANGE_PYRAMID", 14)]
DT = ["f4", "f8", "i2", "u2", "i4", "u4", "i8", "u8", "i1", "u1"]

VARIANTS = {
    "51b": dict(file_format="vtk", kw={"binary": True}),
    "51a": dict(file_format="vtk", kw={"binary": False}),
    "42b": dict(file_format="vtk42", kw={"binary": True}),
    "42a": dict(file_format="vtk42", kw={"binary": False}),
}

BOUNDS = ("meshes with <= 6 points (all coordinates symbolic binary64/binary32), <= 4 cell blocks of <= 3 cells each "
          "(connectivity symbolic), <= 3 point/cell data arrays (values symbolic over the whole dtype range)")
BOUNDS += "; hand-written files: grids of up to 4x3x3 points, every data section with symbolic values, all VTK type names"
BOUNDS += "; also meshes of up to 11000 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = "field names with spaces (refused by the writer), POLYDATA, NORMALS and TEXTURE_COORDINATES sections (refused), bit arrays, field data"
BEZ = [("VTK_BEZIER_CURVE", 4), ("VTK_BEZIER_TRIANGLE", 6), ("VTK_BEZIER_QUADRILATERAL", 9), ("VTK_BEZIER_TETRAHEDRON", 10),
       ("VTK_BEZIER_HEXAHEDRON", 27), ("VTK_BEZIER_WEDGE", 18), ("VTK_BEZIER_PYRAMID", 14)]
NAMES = {"unsigned_char": "u1", "char": "i1", "unsigned_short": "u2", "short": "i2", "unsigned_int": "u4", "int": "i4", "unsigned_long": "u8", "long": "i8", "float": "f4", "double": "f8",
         "vtkIdType": "i4", "vtktypeint64": "i8", "vtktypeuint64": "u8"}
GRIDS = [[3, 2, 2], [2, 3, 3], [4, 3, 2], [3, 2, 1], [3, 1, 2], [1, 3, 2], [4, 1, 1], [1, 1, 3], [1, 4, 1], [2, 2, 2]]


def scenarios(tier):
    out = []

    def add(v, i, **sc):
        out.append(dict(id=f"{v}-{i}", fmt=v, **sc))

    for v in VARIANTS:
        types = list(V42) + ["pixel"]
        for t in types:
            add(v, t, blocks=[[t, 2]], npts=3)
        for t, n in LAG + BEZ:
            add(v, t, blocks=[[t, 1, n], [t, 2, n]], npts=3, cdata=[["q", [], "f8"]])
        add(v, "lagrange-mixed", blocks=[["VTK_LAGRANGE_CURVE", 1, 4], ["triangle", 2], ["VTK_LAGRANGE_CURVE", 2, 5], ["VTK_LAGRANGE_CURVE", 1, 4], ["wedge", 1]], npts=4, cdata=[["q", [3], "f8"], ["i", [], "i4"]])
        add(v, "polygon", blocks=[["polygon", 1, 3], ["polygon", 2, 5], ["polygon", 1, 4]], npts=5)
        add(v, "polygon-cd", blocks=[["polygon", 1, 3], ["polygon", 2, 5], ["triangle", 2], ["polygon", 1, 4], ["wedge", 1]], npts=5,
            cdata=[["q", [], "f8"], ["v", [3], "i4"]])
        add(v, "mixed", blocks=[["triangle", 2], ["quad", 1], ["triangle", 1], ["line", 2]], npts=4,
            cdata=[["q", [], "f8"], ["k", [], "i8"]], pdata=[["u", [], "f8"]])
        add(v, "same2", blocks=[["triangle", 2], ["triangle", 1]], npts=4, cdata=[["q", [], "i4"]])
        add(v, "wedges", blocks=[["wedge", 1], ["hexahedron", 1], ["wedge", 2]], npts=4, cdata=[["q", [2], "f8"]])
        add(v, "2d", dim=2, blocks=[["triangle", 2]], npts=4, pdata=[["u", [2], "f8"], ["w", [], "f8"]], cdata=[["q", [2], "f8"], ["s", [3], "f8"]])
        for dt in DT:
            add(v, f"dt-{dt}", blocks=[["line", 2]], npts=2, pdata=[["a", [], dt], ["b", [3], dt]], cdata=[["q", [], dt]])
        add(v, "pts-f4", blocks=[["line", 1]], npts=3, pdt="f4")
        add(v, "conn-i4", blocks=[["quad", 2]], npts=4, cdt="i4")
        add(v, "conn-u8", blocks=[["quad", 2]], npts=4, cdt="u8")
        add(v, "conn-u4", blocks=[["wedge", 2]], npts=4, cdt="u4")
        add(v, "F-order", blocks=[["quad", 2]], npts=4, layout="F", pdata=[["a", [3], "f8"]], cdata=[["q", [3], "f8"]])
        add(v, "strided", blocks=[["quad", 2]], npts=4, layout="strided", pdata=[["a", [3], "f8"]], cdata=[["q", [], "f8"]])
        add(v, "bigendian", blocks=[["triangle", 1]], npts=3, pdt=">f8", cdt=">i8", pdata=[["a", [3], ">f8"]], cdata=[["q", [], ">i4"]])
        for dt in ("f4", "i4", "i8", "u2", "u1"):
            add(v, f"vec2-{dt}", blocks=[["line", 2], ["triangle", 1]], npts=2, pdata=[["a", [2], dt], ["s", [], dt]], cdata=[["q", [2], dt]])
        add(v, "names", blocks=[["line", 2]], npts=2, pdata=[["A_long-Name.of/some(quantity)[m/s]:0123456789012345678901234567890123456789" * 3, [], "f8"], ["a", [], "f8"], ["A", [], "f8"], ["METADATA2", [], "f8"], ["a%d{x}", [], "f8"]],
            cdata=[["Q_" * 100, [], "f8"], ["q", [], "f8"], ["Q", [], "i4"], ["\u00fcml", [], "i4"]])
        add(v, "medium", blocks=[["triangle", 150], ["quad", 130], ["wedge", 20], ["triangle", 45]], npts=310, medium=3, pdata=[["a", [3], "f8"], ["k", [], "i4"]], cdata=[["q", [], "f8"], ["k", [], "u1"]])
        add(v, "medium-u2", blocks=[["triangle", 150], ["quad", 130]], npts=310, medium=3, cdt="u2", pdt="f4")
        add(v, "conn-u1", blocks=[["triangle", 100], ["quad", 30]], npts=250, medium=3, cdt="u1")
        add(v, "large", blocks=[["hexahedron", 9000]], npts=11000, medium=3, pdata=[["a", [], "f8"]], cdata=[["q", [], "i8"]], weight=4)
        if v[:2] == "51":
            add(v, "conn-huge", blocks=[["quad", 1], ["wedge", 1]], npts=4, cmax=2**62)
        add(v, "comp4", blocks=[["triangle", 1]], npts=3, pdata=[["a", [4], "f8"], ["t", [9], "f8"]], cdata=[["q", [6], "f8"]])
    for ver in ("2.0", "3.0", "4.2", "5.1"):
        for e in "ab":
            for k in range(len(GRIDS)) if ver in ("4.2", "5.1") else (0, 3):
                for g in ("sp", "rg", "sg"):
                    add(f"{ver}{e}", f"{g}-{k}", hand=g, ver=ver, e=e, dims=GRIDS[k])
            add(f"{ver}{e}", "rg-mixed", hand="rg", ver=ver, e=e, dims=[3, 2, 2], ct=["int", "double", "float"])
            for k in range(6):
                add(f"{ver}{e}", f"data-{k}", hand="data", ver=ver, e=e, n=k)
            for n in NAMES:
                if (n.startswith("vtktype") and ver != "5.1") or (n.endswith("long") and ver == "5.1"):
                    continue
                add(f"{ver}{e}", f"type-{n}", hand="types", ver=ver, e=e, name=n)
            for k in range(4):
                add(f"{ver}{e}", f"ug-{k}", hand="ug", ver=ver, e=e, n=k)
    return out


class F:
    """a legacy file"""

    def __init__(self, h, sc):
        self.h, self.b = h, sc["e"] == "b"
        self.out = [f"# vtk DataFile Version {sc['ver']}\nsome title\n{'BINARY' if self.b else 'ASCII'}\n".encode()]

    def line(self, s=""):
        self.out.append((s + "\n").encode())

    def arr(self, a, name, per=3):
        """the values, in the order of the array"""
        f = a.reshape(-1)
        if self.b:
            self.out.append(self.h.to_bytes(f, ">" + NAMES[name]) + b"\n")
            return
        v = [str(x) for x in f.tolist()]
        for i in range(0, len(v), per):
            self.line(" ".join(v[i:i + per]))

    def read(self):
        return self.h.meshio.read(self.h.write_bytes("a.vtk", b"".join(self.out)))


def grid_cells(dims):
    """connectivity of a structured grid: x runs fastest"""
    nx, ny, nz = dims
    idx = lambda i, j, k: i + nx * (j + ny * k)
    cells = []
    for k in range(max(1, nz - 1)):
        for j in range(max(1, ny - 1)):
            for i in range(max(1, nx - 1)):
                ax = [a for a in range(3) if dims[a] > 1]
                e = [[int(b == a) for b in range(3)] for a in ax]
                at = lambda *s: idx(*[x + sum(c * v[d] for c, v in zip(s, e)) for d, x in enumerate((i, j, k))])
                if len(ax) == 1:
                    cells.append([at(0), at(1)])
                elif len(ax) == 2:
                    cells.append([at(0, 0), at(1, 0), at(1, 1), at(0, 1)])
                else:
                    cells.append([at(0, 0, 0), at(1, 0, 0), at(1, 1, 0), at(0, 1, 0), at(0, 0, 1), at(1, 0, 1), at(1, 1, 1), at(0, 1, 1)])
    return {1: "line", 2: "quad", 3: "hexahedron"}[len(ax)], cells


def grid(h, sc):
    """structured data sets"""
    dims, kind = sc["dims"], sc["hand"]
    n = dims[0] * dims[1] * dims[2]
    f = F(h, sc)
    ijk = [(i, j, k) for k in range(dims[2]) for j in range(dims[1]) for i in range(dims[0])]
    if kind == "sp":
        f.line("DATASET STRUCTURED_POINTS")
        f.line("DIMENSIONS {} {} {}".format(*dims))
        o, s = [0.5, -2.0, 3.0], [0.25, 1.5, 2.0]
        if dims[0] == 2:
            # many binary digits, yet exact for two points
            o, s = [0.12345678901 + 2.0**-50, -2.0e-9, 3.0e12], [1.0 + 2.0**-45, 2.0**-31, 2.0**-9]
        f.line("ORIGIN {} {} {}".format(*o))
        f.line("{} {} {} {}".format("ASPECT_RATIO" if sc["ver"] == "2.0" else "SPACING", *s))
        pts = h.const([[o[d] + s[d] * p[d] for d in range(3)] for p in ijk], dtype="f8")
    elif kind == "rg":
        f.line("DATASET RECTILINEAR_GRID")
        f.line("DIMENSIONS {} {} {}".format(*dims))
        ct = sc.get("ct", ["double"] * 3)
        ax = []
        for d in range(3):
            a = h.ints(f"x{d}", (dims[d],), -99, 99, "i4") if ct[d] == "int" else h.floats(f"x{d}", (dims[d],), NAMES[ct[d]])
            f.line(f"{'XYZ'[d]}_COORDINATES {dims[d]} {ct[d]}")
            f.arr(a, ct[d])
            ax.append(a)
        pts = h.np.stack([ax[d].astype("f8")[[p[d] for p in ijk]] for d in range(3)], axis=1)
    else:
        f.line("DATASET STRUCTURED_GRID")
        f.line("DIMENSIONS {} {} {}".format(*dims))
        pts = h.floats("x", (n, 3))
        f.line(f"POINTS {n} double")
        f.arr(pts, "double", 9)
    t, cells = grid_cells(dims)
    pd = h.floats("p", (n,))
    cd = h.floats("q", (len(cells),))
    f.line(f"CELL_DATA {len(cells)}")
    f.line("SCALARS q double 1")
    f.line("LOOKUP_TABLE default")
    f.arr(cd, "double")
    f.line(f"POINT_DATA {n}")
    f.line("FIELD FieldData 1")
    f.line(f"p 1 {n} double")
    f.arr(pd, "double")
    g = f.read()
    h.same(g.points, pts, "points")
    h.check([(c.type, tuple(c.data.shape)) for c in g.cells] == [(t, (len(cells), NN[t]))], f"cells {[(c.type, c.data.shape) for c in g.cells]}")
    h.same(g.cells[0].data, h.const(cells), "connectivity")
    h.same(g.point_data["p"].reshape(-1), pd, "point data")
    h.same(g.cell_data["q"][0].reshape(-1), cd, "cell data")


def ugrid(h, f, sc, blocks, npts, pname="double"):
    """UNSTRUCTURED_GRID of blocks [(vtk type, nodes per cell)]; one cell each -> points, cells"""
    pts = h.floats("x", (npts, 3), NAMES[pname])
    f.line("DATASET UNSTRUCTURED_GRID")
    f.line(f"POINTS {npts} {pname}")
    f.arr(pts, pname, 9)
    conn = [h.ints(f"c{k}", (n,), 0, npts - 1, "i8") for k, (_, n) in enumerate(blocks)]
    tot = sum(n for _, n in blocks)
    it = sc.get("it", "vtktypeint64")
    if sc["ver"] == "5.1":
        f.line(f"CELLS {len(blocks) + 1} {tot}")
        f.line("OFFSETS " + it)
        offs = [0]
        for _, n in blocks:
            offs.append(offs[-1] + n)
        f.arr(h.const(offs, dtype="i8"), it, 9)
        f.line("CONNECTIVITY " + it)
        f.arr(h.np.concatenate(conn), it, 9)
    else:
        f.line(f"CELLS {len(blocks)} {tot + len(blocks)}")
        a = []
        for (_, n), c in zip(blocks, conn):
            a += [h.const([n], dtype="i8"), c]
        f.arr(h.np.concatenate(a), "int", 5)
    if sc.get("blank"):
        f.line()
    f.line(f"CELL_TYPES {len(blocks)}")
    f.arr(h.const([t for t, _ in blocks], dtype="i4"), "int", 1)
    return pts, conn


TYPES = {1: "vertex", 3: "line", 5: "triangle", 7: "polygon", 9: "quad", 10: "tetra", 12: "hexahedron", 13: "wedge", 14: "pyramid", 22: "triangle6", 24: "tetra10"}


def check_ug(h, g, pts, blocks, conn):
    h.same(g.points, pts, "points", dtype=pts.dtype)
    got = [(c.type, c.data[i]) for c in g.cells for i in range(len(c.data))]
    h.check([t for t, _ in got] == [TYPES[t] for t, _ in blocks], f"types {[t for t, _ in got]}")
    for k, ((t, n), (_, d)) in enumerate(zip(blocks, got)):
        c = conn[k]
        if t == 13:
            c = c[[0, 2, 1, 3, 5, 4]]
        h.same(d, c, f"cell {k}")


def ug(h, sc):
    blocks = [[(5, 3), (5, 3), (9, 4), (13, 6), (1, 1), (13, 6)], [(7, 5), (7, 3), (5, 3), (7, 3), (7, 3), (3, 2)], [(10, 4), (12, 8), (14, 5), (10, 4)], [(22, 6), (24, 10), (22, 6)]][sc["n"]]
    f = F(h, sc)
    sc = dict(sc, it="vtktypeint64", blank=sc["n"] == 1)
    pts, conn = ugrid(h, f, sc, blocks, 5, "float" if sc["n"] == 2 else "double")
    n = len(blocks)
    q = h.floats("q", (n, 2))
    k = h.ints("k", (n,), -100, 100, "i4")
    f.line(f"CELL_DATA {n}")
    f.line("FIELD FieldData 2")
    f.line(f"q 2 {n} double")
    f.arr(q, "double")
    f.line("METADATA")
    if sc["n"] % 2:
        f.line("COMPONENT_NAMES")
        f.line("first%20one")
        f.line("second")
    f.line("INFORMATION 0")
    f.line()
    f.line(f"k 1 {n} int")
    f.arr(k, "int")
    g = f.read()
    check_ug(h, g, pts, blocks, conn)
    h.same(h.np.concatenate(g.cell_data["q"]), q, "cell data q")
    h.same(h.np.concatenate(g.cell_data["k"]), k, "cell data k")


def types(h, sc):
    f = F(h, sc)
    blocks = [(5, 3), (3, 2)]
    pts, conn = ugrid(h, f, sc, blocks, 3)
    nm, dt = sc["name"], NAMES[sc["name"]]
    import numpy as _np

    def data(k, shape):
        if dt[0] == "f":
            return h.floats(k, shape, dt)
        i = _np.iinfo(dt)
        if i.bits > 8:
            return h.ints(k, shape, int(i.min), int(i.max), dt)
        # one byte: text or end-of-line marks, few symbolic values
        a = h.const(_np.resize([10, 13, 32, 35, 0, int(i.max), int(i.min), 9], shape), dtype=dt)
        a.reshape(-1)[1:2] = h.ints(k, (1,), int(i.min), int(i.min) + 4, dt)
        return a

    a, v, q = data("a", (3,)), data("v", (3, 3)), data("q", (2, 2))
    f.line("POINT_DATA 3")
    f.line(f"SCALARS a {nm}")
    f.line("LOOKUP_TABLE default")
    f.arr(a, nm)
    f.line(f"VECTORS v {nm}")
    f.arr(v, nm)
    f.line("CELL_DATA 2")
    f.line("FIELD FieldData 1")
    f.line(f"q 2 2 {nm}")
    f.arr(q, nm)
    g = f.read()
    check_ug(h, g, pts, blocks, conn)
    h.same(g.point_data["a"].reshape(-1), a, "scalars", kind=dt[0])
    h.same(g.point_data["v"], v, "vectors", kind=dt[0])
    h.same(h.np.concatenate(g.cell_data["q"]), q, "field", kind=dt[0])


def data(h, sc):
    """sequences of data sections"""
    f = F(h, sc)
    blocks = [(5, 3), (9, 4), (9, 4)]
    pts, conn = ugrid(h, f, sc, blocks, 4)
    seq = [
        [("P", "scalars", 1), ("P", "vectors", 3), ("C", "scalars", 1), ("C", "vectors", 3)],
        [("C", "tensors", 9), ("C", "scalars", 4), ("P", "tensors", 9), ("P", "scalars", 2)],
        [("P", "scalars", 1), ("P", "lut", 5), ("P", "vectors", 3), ("P", "scalars", 3), ("C", "scalars", 1)],
        [("P", "color", 3), ("P", "scalars", 1), ("C", "color", 4), ("C", "vectors", 3)],
        [("P", "field", 2), ("P", "meta", 0), ("P", "scalars", 1), ("C", "field", 3), ("C", "meta", 0), ("C", "field", 1)],
        [("P", "vectors", 3), ("P", "field", 1), ("P", "vectors", 3), ("C", "field", 6), ("C", "tensors", 9)],
    ][sc["n"]]
    cur, exp = None, []
    for i, (w, k, m) in enumerate(seq):
        n = 4 if w == "P" else 3
        if w != cur:
            f.line(f"{'POINT' if w == 'P' else 'CELL'}_DATA {n}")
            cur = w
        if k == "meta":
            f.line("METADATA")
            f.line("INFORMATION 1")
            f.line("NAME L2_NORM_RANGE LOCATION vtkDataArray")
            f.line("DATA 2 0.5 1.5")
            f.line()
            continue
        if k == "lut":
            f.line(f"LOOKUP_TABLE mine {m}")
            if f.b:
                f.out.append(bytes([10, 255] * (2 * m)) + b"\n")
            else:
                f.line(" ".join(["0.25 1.0 0 1"] * m))
            continue
        if k == "color":
            f.line(f"COLOR_SCALARS col{i} {m}")
            if f.b:
                f.out.append(bytes([10, 255, 32] * (n * m))[:n * m] + b"\n")
            else:
                for _ in range(n):
                    f.line(" ".join(["0.25"] * m))
            continue
        a = h.floats(f"d{i}", (n, m))
        exp.append((w, f"d{i}", a))
        if k == "scalars":
            f.line(f"SCALARS d{i} double" + (f" {m}" if m > 1 or i % 2 else ""))
            f.line("LOOKUP_TABLE " + ("mine" if ("P", "lut", 5) in seq else "default"))
        elif k == "field":
            f.line("FIELD FieldData 1")
            f.line(f"d{i} {m} {n} double")
        else:
            f.line(f"{k.upper()} d{i} double")
        f.arr(a, "double", 3 if k == "vectors" else 4)
    g = f.read()
    check_ug(h, g, pts, blocks, conn)
    h.check(set(g.point_data) == {k for w, k, _ in exp if w == "P"}, f"names of the point data {sorted(g.point_data)}")
    h.check(set(g.cell_data) == {k for w, k, _ in exp if w == "C"}, f"names of the cell data {sorted(g.cell_data)}")
    for w, k, a in exp:
        got = g.point_data[k] if w == "P" else h.np.concatenate(g.cell_data[k])
        h.same(got.reshape(-1), a.reshape(-1), f"data {k}")


def harness(h, sc):
    k = sc.get("hand")
    if k:
        return {"sp": grid, "rg": grid, "sg": grid, "data": data, "types": types, "ug": ug}[k](h, sc)
    roundtrip(h, sc, dict(ext=".vtk", vecpad=True, **VARIANTS[sc["fmt"]]))
