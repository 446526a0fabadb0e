"""Gmsh MSH 2.2 / 4.0 / 4.1 (ASCII and binary): round trip; reading of hand-written files."""

import numpy as _np

from .common import NN, build, check_cells, check_cell_data, check_point_data, data
from .rt import compare, roundtrip_mesh

TYPES = ["line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "line3", "triangle6", "quad9",
         "tetra10", "hexahedron27", "wedge18", "pyramid14", "vertex", "quad8", "hexahedron20", "wedge15", "pyramid13",
         "triangle10", "triangle15", "triangle21", "line4", "line5", "line6", "tetra20", "tetra35", "tetra56", "quad16",
         "quad25", "quad36", "triangle28", "triangle36", "triangle45", "triangle55", "triangle66", "quad49", "quad64",
         "quad81", "quad100", "quad121", "line7", "line8", "line9", "line10", "line11", "tetra84", "tetra120",
         "tetra165", "tetra220", "tetra286", "wedge40", "wedge75", "hexahedron64", "hexahedron125", "hexahedron216",
         "hexahedron343", "hexahedron512", "hexahedron729", "hexahedron1000", "wedge126", "wedge196", "wedge288",
         "wedge405", "wedge550"]

VERS = {"22": ("2.2", "gmsh22"), "40": ("4.0", None), "41": ("4.1", "gmsh")}

BOUNDS = ("meshes with <= 6 points, <= 4 blocks of <= 3 cells (every Gmsh cell type meshio knows), symbolic "
          "coordinates/connectivity/data/physical tags; geometrical tags, entity tags and set membership concrete; "
          "integer data within +-2^31 (MSH stores data as doubles)")
BOUNDS += "; also meshes of up to 1100 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = ("parametric nodes (refused by the reader), partitioned entities, several physical tags per entity; data with "
           "other than 1, 3 or 9 components (refused by the writer)")


def scenarios(tier):
    out = []

    def add(v, m, i, **sc):
        out.append(dict(id=f"{v}{m}-{i}", ver=v, mode=m, **sc))

    for v in VERS:
        for m in "ab":
            for t in TYPES:
                n = 2 if NN[t] <= 36 else 1
                if NN[t] > 130 and tier == "quick" and not (m == "b" and v == "41"):
                    continue
                add(v, m, t, blocks=[[t, n]], npts=3)
            add(v, m, "2d", dim=2, blocks=[["triangle", 2]], npts=4, pdata=[["u", [], "f8"]])
            add(v, m, "data", blocks=[["triangle", 3]], npts=4, pdata=[["u", [], "f8"], ["v w", [3], "f8"], ["t", [9], "f8"]],
                cdata=[["q", [], "f8"], ["r", [3], "f8"], ["s", [9], "f8"]])
            add(v, m, "data1", blocks=[["line", 2]], npts=2, pdata=[["u", [1], "f8"]], cdata=[["q", [1], "f8"]], sq=1)
            for dt in ("i2", "i4", "i8", "u4", "f4"):
                add(v, m, "dt-" + dt, blocks=[["line", 2]], npts=2, pdata=[["a", [], dt], ["b", [3], dt]], cdata=[["q", [], dt]],
                    prange=[0 if dt[0] == "u" else -32768, 32767], crange=[0 if dt[0] == "u" else -32768, 32767], dd=7 if dt == "f4" else None)
            add(v, m, "pts-f4", blocks=[["line", 1]], npts=3, pdt="f4")
            for cdt in ("i4", "u4", "u8", "i2"):
                add(v, m, "conn-" + cdt, blocks=[["quad", 2]], npts=4, cdt=cdt)
            add(v, m, "F-order", blocks=[["quad", 2]], npts=4, layout="F", pdata=[["a", [3], "f8"]], cdata=[["q", [3], "f8"]])
            add(v, m, "strided", blocks=[["tetra10", 2]], npts=4, layout="strided", pdata=[["a", [3], "f8"]], cdata=[["q", [], "f8"]])
            add(v, m, "bigendian", blocks=[["triangle", 1]], npts=3, pdt=">f8", cdt=">i8", pdata=[["a", [3], ">f8"]], cdata=[["q", [], ">f8"]])
            if v == "41":
                dtg = dict(dimtags=[[0, 1], [1, 1], [1, 2], [2, 1], [2, 1]])
                add(v, m, "mixed", blocks=[["vertex", 1], ["line", 2], ["line", 1], ["triangle", 2]], npts=5, geo=[1, 1, 2, 1], phys=True,
                    cdata=[["q", [], "f8"]], pdata=[["u", [], "f8"]], **dtg)
                add(v, m, "mixed-names", blocks=[["vertex", 1], ["line", 2], ["line", 1], ["triangle", 2]], npts=5, geo=[1, 1, 2, 1],
                    physv=[5, 6, 7, 6], field=[["left side", 6, 1], ["pt", 5, 0], ["srf", 6, 2]], **dtg)
                add(v, m, "nophys", blocks=[["vertex", 1], ["line", 2], ["line", 1], ["triangle", 2]], npts=5, geo=[1, 1, 2, 1], nophys=True,
                    cdata=[["q", [], "f8"]], **dtg)
                add(v, m, "unsorted-periodic", blocks=[["line", 2], ["triangle", 2]], npts=5, geo=[2, 1], phys=True, reorder=True, periodic="two",
                    dimtags=[[2, 1], [1, 2], [2, 1], [1, 2], [0, 1]])
                add(v, m, "bounds", blocks=[["vertex", 1], ["line", 2], ["line", 1], ["triangle", 2]], npts=5, geo=[1, 1, 2, 1],
                    physv=[5, 6, 7, 6], bounding=[[], [1], [1, 3], [1, -2]], **dtg)
                add(v, m, "unsorted", blocks=[["line", 2], ["triangle", 2]], npts=5, geo=[2, 1], phys=True, reorder=True,
                    cdata=[["q", [], "f8"]], pdata=[["u", [], "f8"], ["w", [3], "f8"]],
                    dimtags=[[2, 1], [1, 2], [2, 1], [1, 2], [0, 1]])
            else:
                add(v, m, "mixed", blocks=[["triangle", 2], ["quad", 1], ["triangle", 1], ["line", 2]], npts=4,
                    cdata=[["q", [], "f8"], ["k", [3], "f8"]], pdata=[["u", [], "f8"]], phys=(v == "22"))
                add(v, m, "same2", blocks=[["tetra10", 2], ["tetra10", 1]], npts=4, cdata=[["q", [], "f8"]], phys=(v == "22"))
            add(v, m, "medium", blocks=[["triangle", 300]], npts=310, medium=3, medc=0, pdata=[["a", [3], "f8"], ["k", [], "f8"]], cdata=[["q", [], "f8"]])
            add(v, m, "medium10", blocks=[["tetra10", 40]], npts=1100, medium=2, medc=0, cdt="u2")
            if v != "41":
                add(v, m, "medium-mixed", blocks=[["quad", 150], ["line", 120], ["quad", 9]], npts=270, medium=2, medc=0, pdata=[["a", [3], "f8"]], cdata=[["q", [], "f8"]], phys=(v == "22"))
            else:
                n = 300
                add(v, m, "many-entities", blocks=[["vertex", 1], ["vertex", 1], ["line", 40], ["triangle", 260]], npts=n + 4, medium=2, medc=0, geo=[258, 3, 12, 7], physv=[5, 6, 7, 8],
                    dimtags=[[0, k + 1] for k in range(n)] + [[1, 12], [1, 12], [2, 7], [2, 7]], cdata=[["q", [], "f8"]], pdata=[["u", [], "f8"]])
            if v == "22":
                add(v, m, "tags3", blocks=[["triangle", 2], ["line", 2], ["triangle", 1], ["line", 1], ["triangle", 2], ["quad", 1], ["triangle", 1]], npts=4,
                    cdata=[["gmsh:physical", [], "i4"], ["gmsh:geometrical", [], "i4"]])
                add(v, m, "tags", blocks=[["triangle", 2], ["line", 2], ["triangle", 1]], npts=4,
                    cdata=[["gmsh:physical", [], "i4"], ["gmsh:geometrical", [], "i4"], ["q", [], "f8"]], crange=[-1000, 2**31 - 1],
                    field=[["wall", 3, 1], ["in let", 9, 2]])
            add(v, m, "names", blocks=[["line", 2]], npts=2, pdata=[["A long   Name, of/some(quantity) [m/s]: " + "0123456789" * 20, [], "f8"], ["a", [], "f8"], ["A", [], "f8"]], cdata=[["q", [], "f8"], ["Q", [3], "f8"], ["\u00fc", [], "f8"]])
            for a in ("none", "affine", "two", "empty", "many") + (("affine44",) if v == "22" else ()):
                add(v, m, "periodic-" + a, blocks=[["line", 2]], npts=4, periodic=a)
            add(v, m, "field", blocks=[["line", 2]], npts=4, field=[["wall", 3, 1], ["in let", 9, 2], ["z", 9, 1], ["three   blanks", 9, 3], ["again", 9, 2], ["Wall", 4, 1], ["a'b", 12345678, 0] if False else ["n" * 200, 12345678, 0]])
        for k in ("a", "b"):
            add(v, k, "hand", special="hand")
            add(v, k, "hand-data", special="hand", nd=True)
            add(v, k, "hand-data-order", special="hand", nd=True, ndorder=[2, 0, 3, 1])
            add(v, k, "hand-periodic", special="hand", per=True)
            add(v, k, "hand-nophys", special="hand", nph=[0, 0])
            if v != "22":
                add(v, k, "hand-phys-first", special="hand", nph=[1, 0])
                add(v, k, "hand-phys-second", special="hand", nph=[0, 1])
                add(v, k, "hand-phys-two", special="hand", nph=[2, 1])
                add(v, k, "hand-phys-three", special="hand", nph=[1, 3])
            else:
                for nt in range(1, 6):
                    add(v, k, f"hand-tags{nt}", special="hand", ntags=nt)
                add(v, k, "hand-single", special="hand", single=True)
        add(v, "a", "hand-crlf", special="hand", crlf=True) if v != "40" else None
    add("41", "b", "hand-size4", special="hand", size=4)
    return out


def harness(h, sc):
    if sc.get("special") == "hand":
        return hand(h, sc)
    np = h.np
    fv, ff = VERS[sc["ver"]]
    binary = sc["mode"] == "b"
    mesh, e = build(h, sc)
    nb = len(sc["blocks"])
    if sc.get("dimtags"):
        mesh.point_data["gmsh:dim_tags"] = h.const(sc["dimtags"], dtype="i8")
        mesh.cell_data["gmsh:geometrical"] = [h.const([g] * b[1], dtype="i8") for g, b in zip(sc["geo"], sc["blocks"])]
        e.cell_data["gmsh:geometrical"] = mesh.cell_data["gmsh:geometrical"]
        # the physical tag of an entity: the same for all cells of a block
        if sc.get("nophys"):
            pv = None
        elif sc.get("phys"):
            pv = [h.int(f"phys{k}", 1, 2**31 - 1) for k in range(nb)]
        else:
            pv = sc["physv"]
        if pv is not None:
            mesh.cell_data["gmsh:physical"] = [h.array([p] * b[1], dtype="i8") for p, b in zip(pv, sc["blocks"])]
            e.cell_data["gmsh:physical"] = mesh.cell_data["gmsh:physical"]
        if not sc.get("reorder"):
            e.point_data["gmsh:dim_tags"] = mesh.point_data["gmsh:dim_tags"]
    elif sc.get("phys"):
        for nm in ("gmsh:physical", "gmsh:geometrical"):
            mesh.cell_data[nm] = [h.ints(f"{nm}{k}", (b[1],), 0, 2**31 - 1, "i4") for k, b in enumerate(sc["blocks"])]
            e.cell_data[nm] = list(mesh.cell_data[nm])
    if sc.get("bounding"):
        mesh.cell_sets["gmsh:bounding_entities"] = [h.const(b, dtype="i4") for b in sc["bounding"]]
    if sc.get("field"):
        mesh.field_data = {n: h.const([t, d], dtype="i8") for n, t, d in sc["field"]}
    if sc.get("periodic"):
        mesh.gmsh_periodic = periodic(h, sc["periodic"])
        if sc["periodic"] == "affine44":
            # given as a matrix
            mesh.gmsh_periodic = [[d, t, a.reshape(4, 4), sm] for d, t, a, sm in mesh.gmsh_periodic]
    if sc.get("sq"):
        e.point_data = {k: v[:, 0] for k, v in e.point_data.items()}
        e.cell_data = {k: [x[:, 0] for x in v] for k, v in e.cell_data.items()}
    p = h.path("m.msh")
    if ff is None:
        h.meshio.gmsh.write(p, mesh, fmt_version=fv, binary=binary)
    else:
        h.meshio.write(p, mesh, file_format=ff, binary=binary)
    numbering(h, sc, p)
    g = h.meshio.read(p)
    igp = () if sc.get("dimtags") and not sc.get("reorder") else ("gmsh:dim_tags",)
    igc = () if "gmsh:geometrical" in e.cell_data else ("gmsh:physical", "gmsh:geometrical")
    if sc.get("reorder"):
        return reordered(h, g, e, sc, mesh.gmsh_periodic)
    compare(h, sc, dict(pdtype="f8", ddtype=None, ddigits=sc.get("dd"), ignore_pdata=igp, ignore_cdata=igc), g, e)
    if sc.get("field"):
        field(h, g, sc)
    if sc.get("periodic"):
        check_periodic(h, g, mesh.gmsh_periodic)
    if sc.get("field") and sc.get("dimtags"):
        # named physical groups become cell sets
        for n, t, d in sc["field"]:
            got = g.cell_sets.get(n)
            if got is None:
                h.fail(f"cell set {n} missing")
                continue
            dims = {"vertex": 0, "line": 1, "triangle": 2}
            for k, b in enumerate(sc["blocks"]):
                member = sc["physv"][k] == t and dims[b[0]] == d
                h.same(got[k] if got[k] is not None else h.const([], dtype="i8"),
                       h.const(list(range(b[1])) if member else [], dtype="i8"), f"cell set {n} block {k}")
    if sc.get("bounding"):
        got = g.cell_sets.get("gmsh:bounding_entities")
        if got is None:
            return h.fail("bounding entities missing")
        for k, b in enumerate(sc["bounding"]):
            h.same(got[k] if got[k] is not None else h.const([], dtype="i4"), h.const(b, dtype="i4"), f"bounding entities of block {k}")


def numbering(h, sc, p):
    """the element numbers are distinct and the data sections refer to them (text and binary MSH 4 files)"""
    v, binary = sc["ver"], sc["mode"] == "b"
    ncells = [b[1] for b in sc["blocks"]]
    total = sum(ncells)
    head = {"22": b"2.2", "40": b"4.0", "41": b"4.1"}[v] + (b" 1 8\n" if binary else b" 0 8\n")
    if not h.read_bytes(p).startswith(b"$MeshFormat\n" + head):
        return h.fail(f"the file begins with {h.read_bytes(p)[:24]}, not with the version and the kind of file asked for")
    if binary:
        if v == "22":
            return
        b = h.read_bytes(p)
        pos = b.index(b"$Elements\n") + 10
        u = lambda o, n: [int(x) for x in _np.frombuffer(b[o:o + 8 * n], "u8")]
        q, t, k = ("u8", 8, 4) if v == "41" else ("i4", 4, 2)
        hd = u(pos, k)
        pos += 8 * k
        tags = []
        for blk in sc["blocks"]:
            pos += 12
            n, = u(pos, 1)
            pos += 8
            w = 1 + (blk[2] if len(blk) > 2 else NN[blk[0]])
            tags += [int(_np.frombuffer(b[pos + t * w * k:][:t], q)[0]) for k in range(n)]
            pos += t * w * n
    else:
        lines = h.read_text(p).splitlines()
        sec = {}
        for i, l in enumerate(lines):
            if l.startswith("$") and not l.startswith("$End"):
                sec.setdefault(l[1:].strip(), []).append(i + 1)
        i = sec["Elements"][0]
        tags = []
        if v == "22":
            h.check(lines[i] == str(total), "number of elements")
            tags = [int(lines[i + 1 + k].split()[0]) for k in range(total)]
            hd = None
        else:
            hd = [int(x) for x in lines[i].split()]
            i += 1
            for n in ncells:
                h.check(lines[i].split()[3] == str(n), "number of elements of a block")
                tags += [int(lines[i + 1 + k].split()[0]) for k in range(n)]
                i += 1 + n
        for i in sec.get("ElementData", []):
            i += 1 + int(lines[i])
            i += 1 + int(lines[i])
            k = int(lines[i])
            n = int(lines[i + 3])
            got = [int(l.split()[0]) for l in lines[i + k + 1:i + k + 1 + n]]
            h.check(got == tags, "the element data refers to the elements")
    h.check(min(tags) >= 1, "element numbers are positive")
    h.check(len(tags) == total and len(set(tags)) == total, "element numbers are distinct")
    if hd:
        h.check(hd[:2] == [len(ncells), total], "counts of blocks and elements")
        if len(hd) == 4:
            h.check(hd[2:] == [min(tags), max(tags)], "range of the element numbers")


def reordered(h, g, e, sc, per=None):
    """the nodes may be renumbered, together with everything that refers to them"""
    cells = [(b.type, b.data) for b in g.cells]
    if [(t, c.shape) for t, c in cells] != [(t, c.shape) for t, c in e.cells]:
        return h.fail("cell blocks changed")
    if g.points.shape != e.points.shape:
        return h.fail("number of points changed")
    for (t, c), (_, ce) in zip(cells, e.cells):
        h.same(g.points[c], e.points[ce], f"coordinates of the {t} nodes")
        for n, v in e.point_data.items():
            if n not in g.point_data:
                return h.fail(f"point data {n} missing")
            h.same(g.point_data[n][c], v[ce], f"point data {n} of the {t} nodes")
        h.same(g.point_data["gmsh:dim_tags"][c], h.const(sc["dimtags"], dtype="i8")[ce], f"entities of the {t} nodes")
    for n, v in e.cell_data.items():
        for k in range(len(cells)):
            h.same(g.cell_data[n][k], v[k], f"cell data {n}")
    if per:
        h.check(len(g.gmsh_periodic) == len(per), "periodic links")
        for (d, tags, aff, sm), (ed, etags, eaff, esm) in zip(g.gmsh_periodic, per):
            h.same(g.points[sm], e.points[esm], "periodic nodes")


def periodic(h, kind):
    out = []
    for k in range(2 if kind == "two" else 1):
        aff = None
        if kind.startswith("affine") or (kind == "two" and k == 0):
            aff = h.floats(f"aff{k}", (16,))
        sm = h.ints(f"sm{k}", ({"empty": 0, "many": 5}.get(kind, 2), 2), 0, 3, "i8")
        out.append([1 + (kind == "many"), (3 + k, 7 + k), aff, sm])
    return out


def check_periodic(h, g, exp):
    got = g.gmsh_periodic
    if got is None or len(got) != len(exp):
        return h.fail("periodic links missing")
    for (d, tags, aff, sm), (ed, etags, eaff, esm) in zip(got, exp):
        h.check(d == ed, "periodic: dimension")
        h.check(tags[0] == etags[0], "periodic: slave entity")
        h.check(tags[1] == etags[1], "periodic: master entity")
        if eaff is None:
            h.check(aff is None or len(aff) == 0, "periodic: no affine transformation")
        else:
            h.same(aff, eaff.reshape(-1), "periodic: affine transformation")
        h.same(sm, esm, "periodic: node pairs")


def field(h, g, sc):
    if set(g.field_data) != {n for n, _, _ in sc["field"]}:
        return h.fail(f"field_data names {sorted(g.field_data)}")
    for n, t, d in sc["field"]:
        h.same(g.field_data[n], h.const([t, d], dtype="i8"), f"field_data {n}")


# ---------------------------------------------------------------------------
def hand(h, sc):
    """a file as another program would write it: node tags neither dense nor sorted"""
    np = h.np
    v, binary = sc["ver"], sc["mode"] == "b"
    n = 4
    # node tags need not be dense or sorted (MSH 2.2 binary: meshio requires dense tags)
    tags = [1, 2, 3, 4] if (v == "22" and binary) else [7, 2, 30, 11]
    T = h.const(tags, dtype="i8")
    pts = h.floats("x", (n, 3))
    c0 = h.ints("c0", (2, 3), 0, n - 1)
    c1 = h.ints("c1", (1, 10), 0, n - 1)
    u = h.floats("u", (n,))
    q = h.floats("q", (3,))
    e0, e1 = T[c0], T[c1]
    blocks = [("triangle", 2, 3, 4, e0), ("tetra10", 11, 2, 5, e1)]
    ph = [h.int("ph0", 1, 10**9), h.int("ph1", 1, 10**9)]
    ge = [3, 2]
    nph = list(sc.get("nph", [1, 1]))
    has = list(nph)
    nl = "\r\n" if sc.get("crlf") else "\n"
    out = bytearray()
    sz = sc.get("size", 8)
    U = f"u{sz}"

    def w(*a):
        nonlocal out
        out += (" ".join(str(x) for x in a) + nl).encode()

    def wb(a, dt):
        nonlocal out
        out += h.to_bytes(h.array(a) if isinstance(a, list) else a, "<" + dt)

    w("$Comments"), w("$whatever, 1 2 3"), w("$EndComments")
    w("$MeshFormat")
    w({"22": "2.2", "40": "4.0", "41": "4.1"}[v], 1 if binary else 0, sz)
    if binary:
        wb([1], "i4")
        w()
    w("$EndMeshFormat")
    w("$SomethingElse"), w("1 2 3"), w("$EndSomethingElse")
    w("$PhysicalNames"), w(3), w(2, 6, '"my wall"'), w(3, 8, '"vol"'), w(3 if nph[1] > 1 else 2, 12345, '"second"'), w("$EndPhysicalNames")
    if v == "22":
        w("$Nodes"), w(n)
        for k in range(n):
            if binary:
                wb([tags[k]], "i4"), wb(pts[k], "f8")
            else:
                w(tags[k], *[repr(x) for x in pts[k].tolist()])
        if binary:
            w()
        w("$EndNodes")
        w("$Elements"), w(3)
        el = 11
        code = {"triangle": 2, "tetra10": 11}
        for (t, _, _, _, ee), p_, g_ in zip(blocks, ph, ge):
            tg = [p_, g_, 2, 1, -3][:sc.get("ntags", 2)] if any(has) else []
            if binary and not sc.get("single"):
                wb([code[t], len(ee), len(tg)], "i4")
            for row in ee:
                if binary:
                    if sc.get("single"):
                        wb([code[t], 1, len(tg)], "i4")
                    wb([el] + tg, "i4"), wb(row, "i4")
                else:
                    w(el, code[t], len(tg), *tg, *row.tolist())
                el += 7
        if binary:
            w()
        w("$EndElements")
    else:
        # entities: a surface 3 and a volume 2
        w("$Entities")
        ul = "u8" if v == "40" else U
        if binary:
            wb([1, 0, 1, 1], ul)
            wb([1], "i4"), wb([0.0] * (6 if v == "40" else 3), "f8"), wb([0], ul)
            for g_, p_ in zip(ge, ph):
                p_ = [p_, 12345, 777][: nph.pop(0)]
                wb([g_], "i4"), wb([0.0] * 6, "f8"), wb([len(p_)], ul), wb(p_, "i4") if p_ else None, wb([2], ul), wb([1, -2], "i4")
            w()
        else:
            w(1, 0, 1, 1)
            w(1, *(["0.5"] * (6 if v == "40" else 3)), 0)
            for g_, p_ in zip(ge, ph):
                p_ = [p_, 12345, 777][: nph.pop(0)]
                w(g_, 0, 0, 0, 1, 1, 1, len(p_), *p_, 2, 1, -2)
        w("$EndEntities")
        w("$Nodes")
        groups = [(2, 3, [0, 1, 2]), (3, 2, [3])]
        if v == "40":
            if binary:
                wb([2, n], "u8")
            else:
                w(2, n)
            for d, t, idx in groups:
                if binary:
                    wb([t, d, 0], "i4"), wb([len(idx)], "u8")
                else:
                    w(t, d, 0, len(idx))
                for k in idx:
                    if binary:
                        wb([tags[k]], "i4"), wb(pts[k], "f8")
                    else:
                        w(tags[k], *[repr(x) for x in pts[k].tolist()])
        else:
            if binary:
                wb([2, n, 2, 30], U)
            else:
                w(2, n, 2, 30)
            for d, t, idx in groups:
                if binary:
                    wb([d, t, 0], "i4"), wb([len(idx)], U), wb([tags[k] for k in idx], U)
                    for k in idx:
                        wb(pts[k], "f8")
                else:
                    w(d, t, 0, len(idx))
                    for k in idx:
                        w(tags[k])
                    for k in idx:
                        w(*[repr(x) for x in pts[k].tolist()])
        if binary:
            w()
        w("$EndNodes")
        w("$Elements")
        ent = [(2, 3, 2, e0), (3, 2, 11, e1)]
        if binary:
            wb([2, 3] if v == "40" else [2, 3, 11, 25], ul)
        else:
            w(*([2, 3] if v == "40" else [2, 3, 11, 25]))
        el = 11
        for d, t, code, ee in ent:
            if binary:
                wb([t, d, code] if v == "40" else [d, t, code], "i4"), wb([len(ee)], ul)
                for row in ee:
                    wb([el], "i4" if v == "40" else U), wb(row, "i4" if v == "40" else U)
                    el += 7
            else:
                w(*([t, d, code] if v == "40" else [d, t, code]), len(ee))
                for row in ee:
                    w(el, *row.tolist())
                    el += 7
        if binary:
            w()
        w("$EndElements")
    if sc.get("nd"):
        for nm, sec, vals, ids in (("u", "NodeData", u, tags), ("q", "ElementData", q, [11, 18, 25])):
            ids = list(range(1, len(ids) + 1)) if binary else ids
            w("$" + sec), w(1), w(f'"{nm}"'), w(1), w(0.0), w(3), w(0), w(1), w(len(ids))
            for k in sc["ndorder"] if sec == "NodeData" and "ndorder" in sc and not binary else range(len(ids)):
                i = ids[k]
                if binary:
                    wb([i], "i4"), wb(vals[k : k + 1], "f8")
                else:
                    w(i, repr(vals.tolist()[k]))
            if binary:
                w()
            w("$End" + sec)
    if sc.get("per"):
        # a link of nodes by their tags
        sm = h.ints("sm", (2, 2), 0, n - 1)
        st = T[sm]
        w("$Periodic")
        if v == "41":
            if binary:
                wb([1], U), wb([1, 5, 6], "i4"), wb([0], U), wb([2], U), wb(st, U)
            else:
                w(1), w(1, 5, 6), w(0), w(2), [w(*r) for r in st.tolist()]
        elif v == "40" and binary:
            wb([1], "i4"), wb([1, 5, 6], "i4"), wb([2], "i8"), wb(st, "i4")
        else:
            w(1), w(1, 5, 6), w(2), [w(*r) for r in st.tolist()]
        if binary and v != "22":
            w()
        w("$EndPeriodic")
    p = h.write_bytes("m.msh", bytes(out))
    g = h.meshio.read(p, file_format="gmsh")
    h.same(g.points, pts, "points")
    perm = [0, 1, 2, 3, 4, 5, 6, 7, 9, 8]
    cells = [("triangle", c0), ("tetra10", c1[:, perm])]
    m = check_cells(h, g, cells)
    if m is None:
        return
    ph = [x if k else 0 for x, k in zip(ph, has)]
    tags_(h, g, ph, ge, has, v, "", sc.get("ntags", 2))
    if sc.get("per"):
        check_periodic(h, g, [[1, (5, 6), None, sm]])
    field(h, g, {"field": [["my wall", 6, 2], ["vol", 8, 3], ["second", 12345, 3 if has[1] > 1 else 2]]})
    if v == "41" and max(has) > 1:
        k = has.index(max(has))
        h.same(g.cell_sets["second"][k], h.const(range([2, 1][k]), dtype="i8"), "group of a second physical tag")
        h.check(len(g.cell_sets["second"][1 - k]) == 0, "group of a second physical tag: other cells")
    if sc.get("nd") and not (binary and v != "22"):
        h.same(g.point_data["u"], u, "node data")
        h.same(np.concatenate(g.cell_data["q"]), q, "element data")
    if sc.get("nd") or "size" in sc:
        return
    # what was read can be written and read again
    for b in (True, False):
        q = h.path(f"n{b}.msh")
        h.meshio.write(q, g, file_format={"22": "gmsh22", "40": "gmsh22", "41": "gmsh"}[v], binary=b)
        g2 = h.meshio.read(q, file_format="gmsh")
        h.same(g2.points, pts, "points, written again")
        if check_cells(h, g2, cells, "cells, written again") is None:
            return
        tags_(h, g2, ph, ge, has, v, ", written again", sc.get("ntags", 2))
        if sc.get("per"):
            check_periodic(h, g2, [[1, (5, 6), None, sm]])


def tags_(h, g, ph, ge, has, v, label, nt=2):
    np = h.np
    if any(has):
        h.same(np.concatenate(g.cell_data["gmsh:physical"]), h.array([ph[0], ph[0], ph[1]], dtype="i8"), "physical tags" + label)
    elif "gmsh:physical" in g.cell_data:
        h.same(np.concatenate(g.cell_data["gmsh:physical"]), h.const([0, 0, 0], dtype="i8"), "no physical tags" + label)
    if v != "22" or (any(has) and (nt != 1 or label)):
        if nt == 1:
            ge = [0, 0]
        h.same(np.concatenate(g.cell_data["gmsh:geometrical"]), h.array([ge[0], ge[0], ge[1]], dtype="i8"), "geometrical tags" + label)
