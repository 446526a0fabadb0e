"""AFLR UGRID: round trip in all ten binary layouts and ASCII, and files of other producers."""

import numpy as _np

from .common import NN, build, check_cells, spread
from .rt import roundtrip_mesh

ORDER = ["triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"]
LAY = {"": ("ascii", "f8", "i8"), "b8l": ("C", ">f8", ">i8"), "b8": ("C", ">f8", ">i4"), "b4": ("C", ">f4", ">i4"), "lb8l": ("C", "<f8", "<i8"),
       "lb8": ("C", "<f8", "<i4"), "lb4": ("C", "<f4", "<i4"), "r8": ("F", ">f8", ">i4"), "r4": ("F", ">f4", ">i4"), "lr8": ("F", "<f8", "<i4"),
       "lr4": ("F", "<f4", "<i4")}
BOUNDS = "<= 5 points, one block (<= 3 cells) of each of the six cell types in any order, symbolic coordinates, connectivity, int32 labels"
BOUNDS += "; also meshes of up to 66000 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = "2D points, several blocks of one type (refused by the writer), other cell types (skipped with a warning)"


def scenarios(tier):
    out = []

    def add(i, only=None, **sc):
        for l in LAY:
            if only is None or l in only:
                out.append(dict(id=f"{i}-{l or 'ascii'}", lay=l, **sc))

    R = [["ugrid:ref", [], "i4"]]
    for t in ORDER:
        add(t, blocks=[[t, 2]], npts=4)
    add("all", blocks=[[t, 1 + k % 3] for k, t in enumerate(ORDER)], npts=5, cdata=R)
    add("rev", blocks=[[t, 2] for t in reversed(ORDER)], npts=4, cdata=[["f", [], "f8"], ["lab", [], "i4"], ["l2", [], "i4"]])
    add("surf", blocks=[["quad", 3], ["triangle", 2]], npts=4, cdata=R)
    add("nolab", blocks=[["quad", 3], ["triangle", 2], ["tetra", 1]], npts=4, cdata=[["f", [], "f8"]])
    add("vol", blocks=[["hexahedron", 1], ["tetra", 2]], npts=4, cdata=R)
    add("conn-i4", blocks=[["hexahedron", 1], ["triangle", 2]], npts=4, cdt="i4", cdata=R, only=("", "b8l", "lr8"))
    add("conn-u8", blocks=[["hexahedron", 1], ["triangle", 2]], npts=4, cdt="u8", cdata=R, only=("", "b8l", "lr8"))
    add("lab-i8", blocks=[["hexahedron", 1], ["triangle", 2]], npts=4, cdata=[["ref", [], "i8"]], crange=(-(2**31), 2**31 - 1), only=("", "b8", "lr8"))
    add("lab-u2", blocks=[["hexahedron", 1], ["triangle", 2]], npts=4, cdata=[["ref", [], "u2"]], only=("", "b8", "lr8"))
    add("F-order", blocks=[["pyramid", 2], ["quad", 2]], npts=4, layout="F", cdata=R, only=("", "b8", "lr8"))
    add("strided", blocks=[["pyramid", 2], ["quad", 2]], npts=4, layout="strided", cdata=R, only=("", "b8", "lr8"))
    add("pts-f4", blocks=[["triangle", 2]], npts=4, pdt="f4", only=("", "b8", "lr4", "lb4"))
    # larger meshes, other storage types, kinds of labels
    add("medium", blocks=[["hexahedron", 130], ["triangle", 150], ["tetra", 20], ["quad", 45], ["pyramid", 40]], npts=310, medium=2, cdata=R)
    add("large", blocks=[["tetra", 4200], ["triangle", 1100]], npts=5000, medium=2, cdata=R, weight=4, only=("", "b8l", "lr8", "r4", "lb8"))
    add("huge", blocks=[["tetra", 66000], ["triangle", 3]], npts=66000, medium=2, weight=9, only=("b8", "lr4"))
    for cdt in ("u1", "i1", "i2", "u2"):
        add("many-" + cdt, blocks=[["triangle", 100], ["hexahedron", 20], ["pyramid", 30]], npts=120, medium=2, medc=0, cdt=cdt, cdata=R, only=("", "b8l", "lr8", "r4"))
    add("conn-huge", blocks=[["triangle", 2], ["tetra", 1], ["pyramid", 1]], npts=4, cmax=2**31 - 2, cdata=R)
    add("conn-huge8", blocks=[["triangle", 2], ["tetra", 1], ["pyramid", 1]], npts=4, cmax=2**62, cdata=[["ref", [], "i8"]], only=("b8l", "lb8l"))
    for k, (p, c, d) in enumerate([(">f8", ">i8", ">i4"), (">f4", ">i4", ">i8"), ("<f8", "<i4", "<i2")]):
        add(f"bigendian{k}", blocks=[["quad", 2], ["wedge", 2], ["pyramid", 1]], npts=4, pdt=p, cdt=c, cdata=[["a", [], d]],
            **({"crange": (-(2**31), 2**31 - 1)} if d == ">i8" else {}))
    for k, dts in enumerate([("i4", "i8", "u4"), ("u8", "i4", "i8")]):
        add(f"mixdt{k}", blocks=[["triangle", 2], ["quad", 1], ["tetra", 2]], npts=4, cdts=[[q, 2**31 - 2] for q in dts], cdata=R, only=("", "b8l", "lr8", "r4"))
    add("pick", blocks=[["tetra", 1], ["triangle", 2], ["quad", 1]], npts=3, cdata=[["g", [], "f8"], ["w", [2], "i4"], ["m", [], "i4"], ["n", [], "i4"]], pdata=[["q", [], "i4"]], nop=True)
    add("pick-vec", blocks=[["tetra", 1], ["triangle", 2], ["quad", 1]], npts=3, cdata=[["w", [2], "i4"]], only=("", "b8l", "lr8"))
    for k, bl in enumerate([[["vertex", 2], ["triangle", 2], ["line", 1], ["tetra", 1]], [["quad8", 1], ["quad", 2], ["tetra10", 1], ["hexahedron", 2], ["line3", 1], ["triangle", 1]]]):
        add(f"unknown{k}", blocks=bl, npts=5, cdata=R)
    for k, n in enumerate([1, 2, 3, 5, 6, 7, 8, 9]):
        add(f"counts{n}", blocks=[[t, 1 + (n + j) % 4] for j, t in enumerate(ORDER)], npts=n, cdata=R, only=("", "b8", "lr8", "r4", "lb8l"))
    for n in range(1, 63):
        add(f"subset{n}", blocks=[[t, 1 + j % 2] for j, t in enumerate(ORDER) if n >> j & 1][:: 1 if n % 2 else -1], npts=3, cdata=R, only=("", "lb8l", "r8") if n % 3 else ("b4", "lr4"))
    for nm in ("lb8", "a.b8", "r4.x", "b8l.lr8"):
        add("name-" + nm, blocks=[["triangle", 1], ["tetra", 1]], npts=3, cdata=R, fname=nm, only=("", "b8", "lr4", "lb8l"))
    for t in ORDER:
        add("twice-" + t, special="twice", blocks=[[t, 2], ["hexahedron" if t != "hexahedron" else "quad", 1], [t, 1]], npts=4, only=("", "b8", "lr8"))
    add("hand", special="hand")
    add("hand-medium", special="hand", big=True)
    add("hand-surf", special="hand", types=["quad", "triangle"])
    add("hand-vol", special="hand", types=["pyramid", "hexahedron"])
    for k in ("wrap", "oneline", "rows"):
        add("hand-" + k, special="hand", asc=k, only=("",))
    add("out", special="out")
    add("out-medium", special="out", big=True)
    add("out-surf", special="out", types=["quad", "triangle"])
    add("out-tri", special="out", types=["triangle", "tetra"])
    add("out-vol", special="out", types=["pyramid", "hexahedron"])
    return out


def harness(h, sc):
    kind, ft, it = LAY[sc["lay"]]
    if sc.get("special") == "hand":
        return hand(h, sc, kind, ft, it)
    if sc.get("special") == "out":
        return outfile(h, sc, kind, ft, it)
    if sc.get("special") == "twice":
        return twice(h, sc)
    np = h.np
    mesh, e = build(h, sc)
    if sc.get("nop"):
        e.point_data = {}
    lab = [v for v in e.cell_data.values() if v[0].dtype.kind in "iu" and len(v[0].shape) == 1]
    order = sorted([k for k in range(len(e.cells)) if e.cells[k][0] in ORDER], key=lambda k: ORDER.index(e.cells[k][0]))
    refs = []
    for k in order:
        t, c = e.cells[k]
        refs.append((lab[0][k] if lab else np.ones(len(c), dtype="i8")) if t in ("triangle", "quad") else np.zeros(len(c), dtype="i8"))
    e.cells = [e.cells[k] for k in order]
    e.cell_data = {"ugrid:ref": refs}
    f4 = ft.endswith("4")
    if f4 and e.points.dtype.itemsize == 8:
        e.points = e.points.astype("f4")
    digits = 7 if kind == "ascii" and sc.get("pdt") in ("f4", ">f4") else None
    ext = ("." + sc["lay"] if sc["lay"] else "") + ".ugrid"
    roundtrip_mesh(h, sc, dict(ext=ext, pdtype=False, ddtype=False, digits=digits, name=sc.get("fname", "m")), mesh, e)


def twice(h, sc):
    """several blocks of one type: refused, or all of them are written"""
    mesh, e = build(h, sc)
    p = h.path("m" + ("." + sc["lay"] if sc["lay"] else "") + ".ugrid")
    try:
        h.meshio.write(p, mesh)
    except (ValueError, h.meshio.WriteError):
        return h.check(True, "refused")
    g = h.meshio.read(p)
    check_cells(h, g, e.cells, order="type")


def content(h, ft, n=4, types=ORDER, big=False):
    if big:
        n = 140
        x = spread(h, "x", (n, 3), "f4" if ft.endswith("4") else "f8", 2)
        cells = {t: spread(h, "c" + t, (90 + 31 * k, NN[t]), "i8", 2, 0, n - 1) for k, t in enumerate(ORDER)}
        return x, cells, {t: spread(h, "l" + t, (len(cells[t]),), "i8", 2, -(2**31), 2**31 - 1) for t in ("triangle", "quad")}
    x = h.floats("x", (n, 3), "f4" if ft.endswith("4") else "f8")
    cells = {t: h.ints("c" + t, (1 + k % 3 if t in types else 0, NN[t]), 0, n - 1) for k, t in enumerate(ORDER)}
    lab = {t: h.ints("l" + t, (len(cells[t]),), -(2**31), 2**31 - 1) for t in ("triangle", "quad")}
    return x, cells, lab


PYR = [1, 0, 4, 2, 3]  # position in the VTK pyramid of each UGRID node


def body(h, x, cells, lab):
    """the numbers of the second record, in order: (kind, array)"""
    out = [("f", x.reshape(-1))]
    for t in ("triangle", "quad"):
        out.append(("i", (cells[t] + 1).reshape(-1)))
    for t in ("triangle", "quad"):
        out.append(("i", lab[t]))
    for t in ORDER[2:]:
        c = cells[t] + 1
        if t == "pyramid":
            c = c[:, PYR]
        out.append(("i", c.reshape(-1)))
    return out


def hand(h, sc, kind, ft, it):
    x, cells, lab = content(h, ft, types=sc.get("types", ORDER), big=sc.get("big"))
    head = [len(x)] + [len(cells[t]) for t in ORDER]
    parts = body(h, x, cells, lab)
    ext = ("." + sc["lay"] if sc["lay"] else "") + ".ugrid"
    if kind == "ascii":
        s = " ".join(map(str, head)) + "\n"
        for k, a in parts:
            s += "\n".join(repr(v) if k == "f" else str(v) for v in a.tolist()) + "\n"
        if sc.get("asc") == "oneline":
            s = " ".join(s.split())
        elif sc.get("asc") == "wrap":
            s = s.replace(" ", "\n")
        elif sc.get("asc") == "rows":
            q = s.split()
            s = " ".join(q[:7]) + "\n" + "\n".join("  " + "  ".join(q[k : k + 5]) for k in range(7, len(q), 5))
        p = h.write_text("a" + ext, s)
    else:
        hb = _np.array(head, dtype=it).tobytes()
        bb = b"".join(h.to_bytes(a, ft if k == "f" else it) for k, a in parts)
        if kind == "F":
            m = lambda n: _np.array([n], dtype=it[0] + "i4").tobytes()
            hb, bb = m(len(hb)) + hb + m(len(hb)), m(len(bb)) + bb + m(len(bb))
        p = h.write_bytes("a" + ext, hb + bb)
    g = h.meshio.read(p)
    h.same(g.points, x, "points")
    check_cells(h, g, [(t, cells[t]) for t in ORDER])
    refs = [lab[t] if t in lab else h.np.zeros(len(cells[t]), dtype="i8") for t in ORDER if len(cells[t])]
    h.check(len(g.cell_data["ugrid:ref"]) == len(refs), "number of label blocks")
    for k, r in enumerate(refs):
        h.same(g.cell_data["ugrid:ref"][k], r, f"labels {k}", kind="iu")


def outfile(h, sc, kind, ft, it):
    """the bytes written are exactly the format's layout"""
    x, cells, lab = content(h, ft, types=sc.get("types", ORDER), big=sc.get("big"))
    vol = {t: h.np.zeros(len(cells[t]), dtype="i8") for t in ORDER[2:]}
    order = [t for t in ("wedge", "quad", "tetra", "triangle", "hexahedron", "pyramid") if len(cells[t])]
    mesh = h.meshio.Mesh(x, [(t, cells[t]) for t in order], cell_data={"ref": [lab[t] if t in lab else vol[t] for t in order]})
    p = h.path("a" + ("." + sc["lay"] if sc["lay"] else "") + ".ugrid")
    h.meshio.write(p, mesh)
    if kind == "ascii":
        q = h.read_text(p).split()
        want = [len(x)] + [len(cells[t]) for t in ORDER]
        h.check([int(v) for v in q[:7]] == want, "counts")
        parts = body(h, x, cells, lab)
        if len(q) != 7 + sum(len(a) for _, a in parts):
            return h.fail("number of values in the file")
        pos = 7
        for j, (k, a) in enumerate(parts):
            got = [h.parse_float(v) if k == "f" else h.parse_int(v) for v in q[pos : pos + len(a)]]
            pos += len(a)
            if got:
                h.same(h.array(got), a, f"section {j}", kind=None if k == "f" else "iu")
        return
    b = h.read_bytes(p)
    isz, fsz = int(it[-1]), int(ft[-1])
    parts = body(h, x, cells, lab)
    blen = sum(len(a) * (fsz if k == "f" else isz) for k, a in parts)
    pos = 0

    def ints(n, dt=None):
        nonlocal pos
        d = _np.dtype(dt or it)
        r = b[pos : pos + n * d.itemsize]
        pos += n * d.itemsize
        return h.from_bytes(r, d)

    want = 7 * isz + blen + (16 if kind == "F" else 0)
    h.check(len(b) == want, f"file length {len(b)} instead of {want}")
    if len(b) != want:
        return
    mark = lambda n: kind != "F" or h.same(h.array(ints(1, it[0] + "i4")), h.const([n], dtype="i8"), "record length", kind="iu")
    mark(7 * isz)
    h.same(h.array(ints(7)), h.const([len(x)] + [len(cells[t]) for t in ORDER], dtype="i8"), "counts", kind="iu")
    mark(7 * isz)
    mark(blen)
    for j, (k, a) in enumerate(parts):
        h.same(h.array(ints(len(a), ft if k == "f" else it)), a, f"section {j}", kind=None if k == "f" else "iu")
    mark(blen)
