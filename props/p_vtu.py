"""VTU files: write/read round trip; reading of hand-written VTU files."""

import base64
import zlib

from .common import check_cells, check_cell_data, check_point_data, data, Exp, NN, spread
from .p_vtk import V42, LAG, DT
from .rt import roundtrip

VARIANTS = {
    "zlib": dict(kw={}),
    "lzma": dict(kw={"compression": "lzma"}),
    "raw": dict(kw={"compression": None}),
    "h64": dict(kw={"header_type": "UInt64"}),
    "raw64": dict(kw={"compression": None, "header_type": "UInt64"}),
    "ascii": dict(kw={"binary": False}, digits=12, ddigits=12),
}

BOUNDS = ("meshes with <= 6 points (all coordinates symbolic), <= 4 cell blocks of <= 3 cells each (connectivity "
          "symbolic), <= 3 point/cell data arrays; polyhedra: <= 3 cells with <= 5 faces, concrete faces (their node "
          "count decides the type name); hand-written files with <= 3 pieces")
BOUNDS += "; also meshes of up to 66000 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = "field data; vtkhdf and parallel (.pvtu) files; names with characters XML cannot hold"


def scenarios(tier):
    out = []

    def add(v, i, **sc):
        out.append(dict(id=f"{v}-{i}", fmt=v, **sc))

    for v in VARIANTS:
        full = v in ("zlib", "ascii", "raw")
        for t in V42 + ["pixel"] if full else ["triangle", "wedge", "hexahedron20"]:
            add(v, t, blocks=[[t, 2]], npts=3)
        for t, n in LAG if full else LAG[:2]:
            add(v, t, blocks=[[t, 1, n], [t, 2, n]], npts=3, cdata=[["q", [], "f8"]])
        add(v, "polygon", blocks=[["polygon", 1, 3], ["polygon", 2, 5], ["polygon", 1, 4]], npts=5)
        add(v, "polygon-cd", blocks=[["polygon", 1, 3], ["polygon", 2, 5], ["triangle", 2], ["polygon", 1, 4]], npts=5,
            cdata=[["q", [], "f8"]])
        add(v, "mixed", blocks=[["triangle", 2], ["quad", 1], ["triangle", 1], ["line", 2]], npts=4,
            cdata=[["q", [], "f8"], ["k", [], "i8"]], pdata=[["u", [], "f8"]])
        add(v, "same2", blocks=[["triangle", 2], ["triangle", 1]], npts=4, cdata=[["q", [], "i4"]])
        add(v, "wedges", blocks=[["wedge", 1], ["hexahedron", 1], ["wedge", 2]], npts=4, cdata=[["q", [2], "f8"]])
        add(v, "2d", dim=2, blocks=[["triangle", 2]], npts=4, pdata=[["u", [2], "f8"], ["w", [], "f8"]],
            cdata=[["q", [2], "f8"], ["s", [3], "f8"]])
        for dt in DT:
            add(v, f"dt-{dt}", blocks=[["line", 2]], npts=2, pdata=[["a", [], dt], ["b", [3], dt]], cdata=[["q", [], dt]])
        add(v, "pts-f4", blocks=[["line", 1]], npts=3, pdt="f4")
        for cdt in ("i4", "u4", "u8", "i2"):
            add(v, "conn-" + cdt, blocks=[["quad", 2], ["wedge", 1]], npts=4, cdt=cdt)
        add(v, "F-order", blocks=[["quad", 2]], npts=4, layout="F", pdata=[["a", [3], "f8"]], cdata=[["q", [3], "f8"]])
        add(v, "strided", blocks=[["quad", 2]], npts=4, layout="strided", pdata=[["a", [3], "f8"]], cdata=[["q", [], "f8"]])
        add(v, "bigendian", blocks=[["triangle", 1]], npts=3, pdt=">f8", cdt=">i8", pdata=[["a", [3], ">f8"]], cdata=[["q", [], ">i4"]])
        add(v, "comp", blocks=[["triangle", 1]], npts=3, pdata=[["a", [4], "f8"], ["t", [9], "f8"], ["one", [1], "f8"]], cdata=[["q", [6], "f8"]])
        for dt in ("f4", "i4", "u2"):
            add(v, f"vec-{dt}", blocks=[["line", 2], ["triangle", 1]], npts=2, pdata=[["a", [2], dt], ["s", [], dt], ["o", [1], dt]], cdata=[["q", [2], dt]])
        add(v, "medium", blocks=[["triangle", 150], ["quad", 130], ["wedge", 20], ["triangle", 45]], npts=310, medium=3, pdata=[["a", [3], "f8"], ["k", [], "i4"]], cdata=[["q", [], "f8"], ["k", [], "u1"]])
        add(v, "medium-u2", blocks=[["triangle", 150], ["quad", 130]], npts=310, medium=3, cdt="u2", pdt="f4")
        for cdt in ("u1", "i1", "i2"):
            add(v, "many-" + cdt, blocks=[["triangle", 100], ["quad", 30]], npts=120, medium=3, cdt=cdt)
        add(v, "large", blocks=[["hexahedron", 5000]], npts=7000, medium=3, pdata=[["a", [], "f8"]], cdata=[["q", [], "i8"]], weight=4)
        if v in ("zlib", "raw"):
            add(v, "huge", blocks=[["line", 66000], ["triangle", 300]], npts=66000, medium=3, pdata=[["a", [], "f4"]], cdata=[["q", [], "f4"]], weight=9)
        add(v, "conn-huge", blocks=[["quad", 1], ["wedge", 1]], npts=4, cmax=2**62)
        add(v, "long-names", blocks=[["triangle", 1]], npts=3, pdata=[["A_long-Name.of/some(quantity)[m/s]:0123456789012345678901234567890123456789" * 3, [], "f8"], ["a", [], "f8"], ["A", [], "f8"], ["\u00fcml", [], "f8"], [" lead", [], "f8"]],
            cdata=[["Q_" * 100, [], "f8"], ["q", [], "f8"], ["Q", [], "i4"]])
        add(v, "names", blocks=[["triangle", 1]], npts=3, pdata=[["a b", [], "f8"], ["x<&>\"y", [], "f8"]], cdata=[["q r", [], "f8"]])
        if v != "ascii":
            for nb in (4095, 4096, 4097, 8192):
                add(v, f"edge-{nb}", big=nb, special="edge", weight=3)
            add(v, "big", blocks=[["triangle", 1]], npts=3, big=9000 if v != "lzma" else 6000, special="big", weight=3)
        add(v, "polyhedra", special="poly", weight=2)
        add(v, "polyhedra-desc", special="poly2", weight=2)
    for v in ("1", "2", "3", "app", "appz", "rawapp", "rawappz", "rawapp64", "rawappo", "rawappo64", "be", "split"):
        add("hand", v, special="hand")
    # every combination: where the data is, its encoding, compression, header, byte order, pieces
    n = 0
    for where in ("inline", "split", "app", "raw"):
        for comp in (None, "zlib", "lzma"):
            for hdt in ("u4", "u8", None):
                for order in "<>":
                    for npieces in (1, 2):
                        if where == "split" and comp:
                            continue
                        n += 1
                        add("lay", f"{where}-{comp or 'plain'}-{hdt or 'nohdr'}-{'le' if order == '<' else 'be'}-{npieces}", special="hand", where=where, comp=comp, hdt=hdt, order=order, pieces=npieces, perm=n)
    add("lay", "ascii-many", special="hand", where="ascii", comp=None, hdt=None, order="<", pieces=2, perm=1, npts=300)
    add("lay", "raw-many", special="hand", where="raw", comp="zlib", hdt="u4", order=">", pieces=3, perm=2, npts=300)
    return out


def harness(h, sc):
    sp = sc.get("special")
    if sp == "edge":
        return edge(h, sc)
    if sp == "big":
        return big(h, sc)
    if sp in ("poly", "poly2"):
        return poly(h, sc)
    if sp == "hand":
        return hand(h, sc)
    roundtrip(h, sc, dict(ext=".vtu", vecpad=False, **VARIANTS[sc["fmt"]]))


def big(h, sc):
    """data arrays of several compressed blocks (32 KiB each): few symbolic values"""
    import numpy as _np

    n = sc["big"]
    base = _np.arange(n * 3, dtype=float).reshape(n, 3) * 0.37 - 5.0
    pts = h.array(base)
    s = h.floats("x", (6,))
    rows = [0, 1365, 1366, n // 2, n - 2, n - 1]
    for k, r in enumerate(rows):
        pts[r, k % 3] = s[k]
    c = h.ints("c", (2, 3), 0, n - 1)
    mesh = h.meshio.Mesh(pts, [("triangle", c)], point_data={"a": pts[:, 0] if False else pts.copy()})
    p = h.path("m.vtu")
    h.meshio.write(p, mesh, **VARIANTS[sc["fmt"]]["kw"])
    g = h.meshio.read(p)
    h.same(g.points, pts, "points")
    h.same(g.cells[0].data, c, "cells")
    h.same(g.point_data["a"], pts, "point_data a")


def edge(h, sc):
    """array sizes at and around multiples of the compression block size (32 KiB)"""
    import numpy as _np

    n = sc["big"]
    a = h.array(_np.arange(n, dtype=float) * 0.25 + 1.0)
    b = h.array(_np.arange(2 * n, dtype="f4").reshape(2 * n) * _np.float32(0.5))[:n]
    s = h.floats("x", (3,))
    for k, r in enumerate([0, n // 2, n - 1]):
        a[r] = s[k]
    pts = h.array(_np.zeros((n, 3)))
    z = h.floats("z", (2,))
    pts[0, 0] = z[0]
    pts[n - 1, 2] = z[1]
    k1 = h.array((_np.arange(n) % 251).astype("u1"))
    cells = h.array(_np.arange(n, dtype="i8").reshape(n, 1))
    c = h.ints("c", (2,), 0, n - 1)
    cells[0, 0] = c[0]
    cells[n - 1, 0] = c[1]
    mesh = h.meshio.Mesh(pts, [("vertex", cells)], point_data={"a": a, "k": k1, "b": b}, cell_data={"q": [a]})
    p = h.path("m.vtu")
    h.meshio.write(p, mesh, **VARIANTS[sc["fmt"]]["kw"])
    g = h.meshio.read(p)
    h.same(g.points, pts, "points")
    h.same(g.cells[0].data, cells, "cells")
    h.same(g.point_data["a"], a, "point_data a", dtype="f8")
    h.same(g.point_data["k"], k1, "point_data k", dtype="u1")
    h.same(g.point_data["b"], b, "point_data b", dtype="f4")
    h.same(g.cell_data["q"][0], a, "cell_data q", dtype="f8")


FACES = {
    4: [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]],
    5: [[0, 1, 2, 3], [0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]],
    6: [[0, 1, 2], [3, 4, 5], [0, 1, 4, 3], [1, 2, 5, 4], [2, 0, 3, 5]],
}


def poly(h, sc):
    """polyhedral cells: faces and cell data stay together"""
    np = h.np
    pts = h.floats("x", (8, 3))
    order = [4, 4, 5, 6] if sc["special"] == "poly" else [6, 4, 5, 4]
    blocks, cd = [], []
    groups = []
    for k in order:
        if groups and groups[-1][0] == k:
            groups[-1][1] += 1
        else:
            groups.append([k, 1])
    k0 = 0
    cells = []
    for nnode, cnt in groups:
        faces = []
        for j in range(cnt):
            sh = (k0 + j) % 3
            faces.append([[int(v) + (sh if nnode + sh <= 8 else 0) for v in f] for f in FACES[nnode]])
        blocks.append((f"polyhedron{nnode}", [[h.array(f, dtype="i8") for f in cf] for cf in faces]))
        cells.append((nnode, faces))
        cd.append(h.floats(f"q{k0}", (cnt,)))
        k0 += cnt
    mesh = h.meshio.Mesh(pts, blocks, cell_data={"q": cd})
    p = h.path("m.vtu")
    h.meshio.write(p, mesh, **VARIANTS[sc["fmt"]]["kw"])
    g = h.meshio.read(p)
    h.same(g.points, pts, "points", digits=VARIANTS[sc["fmt"]].get("digits"))
    # expected: cells grouped by node count, keeping their order within a group
    exp = {}
    for (nnode, faces), q in zip(cells, cd):
        e = exp.setdefault(f"polyhedron{nnode}", ([], []))
        e[0].extend(faces)
        e[1].append(q)
    got = {}
    for i, b in enumerate(g.cells):
        e = got.setdefault(b.type, ([], []))
        e[0].extend([[[int(x) for x in f] for f in cell] for cell in b.data])
        e[1].append(g.cell_data["q"][i])
    if sorted(exp) != sorted(got):
        return h.fail(f"polyhedra: {sorted(got)} instead of {sorted(exp)}")
    for t in exp:
        h.check(exp[t][0] == got[t][0], f"faces of {t}")
        h.same(np.concatenate(got[t][1]), np.concatenate(exp[t][1]), f"cell_data of {t}", digits=VARIANTS[sc["fmt"]].get("ddigits"))


# ---------------------------------------------------------------------------
VT = {"f8": "Float64", "i8": "Int64", "i4": "Int32", "u1": "UInt8", "f4": "Float32", "u4": "UInt32", "i2": "Int16", "u2": "UInt16", "i1": "Int8", "u8": "UInt64"}
KIND = {
    "1": dict(where="ascii", pieces=1), "2": dict(where="ascii", pieces=2), "3": dict(where="ascii", pieces=3),
    "app": dict(where="app"), "appz": dict(where="app", comp="zlib"), "rawapp": dict(where="raw"), "rawappz": dict(where="raw", comp="zlib"),
    "rawapp64": dict(where="raw", hdt="u8"), "rawappo": dict(where="raw", swap=1), "rawappo64": dict(where="raw", hdt="u8", swap=1),
    "be": dict(where="inline", order=">"), "split": dict(where="split"),
}


def hand(h, sc):
    """files not written by meshio: several pieces, appended data, big endian"""
    import lzma

    import numpy as _np

    np = h.np
    o = dict(comp=None, hdt="u4", order="<", pieces=1, swap=0, perm=0, npts=3)
    o.update(KIND[sc["id"].split("-", 1)[1]] if "where" not in sc else sc)
    where, comp, order, npieces, perm = o["where"], o["comp"], o["order"], o["pieces"], o["perm"]
    hdt = o["hdt"] or "u4"
    app = bytearray() if where == "raw" else ""
    body = ""

    def enc(a, dt):
        raw = h.to_bytes(a, order + dt)
        if comp:
            cut = 8 * max(1, (len(raw) // 16))
            bl = [raw[i:i + cut] for i in range(0, len(raw), cut)]
            z = [{"zlib": zlib, "lzma": lzma}[comp].compress(b) for b in bl]
            hd = _np.array([len(bl), cut, len(bl[-1]) % cut] + [len(b) for b in z], dtype=order + hdt).tobytes()
            return hd, b"".join(z)
        return _np.array([len(raw)], dtype=order + hdt).tobytes(), raw

    def arr(name, a, dt, comps=None):
        nonlocal app
        nc = f' NumberOfComponents="{comps}"' if comps else ""
        head = f'<DataArray type="{VT[dt]}" Name="{name}"{nc} '
        if where == "ascii":
            vals = a.reshape(-1).tolist()
            return head + 'format="ascii">\n' + " ".join(repr(v) for v in vals) + "\n</DataArray>\n"
        hd, raw = enc(a, dt)
        b64 = lambda b: base64.b64encode(b).decode()
        one = b64(hd) + b64(raw) if comp or where == "split" else b64(hd + raw)
        if where in ("inline", "split"):
            return head + 'format="binary">\n' + one + "\n</DataArray>\n"
        off = len(app)
        app += hd + raw if where == "raw" else one
        return head + f'format="appended" offset="{off}"/>\n'

    fdt, idt, tdt = [("f8", "i8", "u1"), ("f4", "i4", "i4"), ("f8", "i8", "i8"), ("f8", "i4", "u1")][perm % 4]
    e = Exp()
    allpts, allu, cells, q = [], [], [], []
    off = 0
    mk = (lambda name, shape, dt: spread(h, name, shape, dt, 2)) if o["npts"] > 3 else (lambda name, shape, dt: h.floats(name, shape, dt))
    for k in range(npieces):
        n = o["npts"] + k
        pts = mk(f"x{k}", (n, 3), fdt)
        tri = h.ints(f"t{k}", (2, 3), 0, n - 1, idt)
        wed = h.ints(f"w{k}", (1, 6), 0, n - 1, idt)
        u = mk(f"u{k}", (n,), fdt)
        qq = h.floats(f"q{k}", (3,))
        vq = h.floats(f"v{k}", (3, 2), fdt)
        j = h.ints(f"j{k}", (3,), -(2**31), 2**31 - 1, "i4")
        conn = np.concatenate([tri.reshape(-1), wed.reshape(-1)])
        s_p = "<Points>" + arr("Points", pts, fdt, 3) + "</Points>\n"
        ca = [("connectivity", conn, idt), ("offsets", h.array([3, 6, 12], dtype=idt), idt), ("types", h.array([5, 5, 13], dtype=tdt), tdt)]
        if o["swap"]:
            # the order makes a rewritten offset coincide with an original one
            ca[:2] = ca[1::-1]
        s_c = "<Cells>" + "".join(arr(*a) for a in ca) + "</Cells>\n"
        s_u = "<PointData>" + arr("u", u, fdt) + "</PointData>\n"
        s_q = "<CellData>" + arr("q", qq, "f8") + arr("v", vq, fdt, 2) + arr("j", j, "i4", 1 if perm % 2 else None) + "</CellData>\n"
        body += f'<Piece NumberOfPoints="{n}" NumberOfCells="3">\n' + "".join([[s_p, s_c, s_u, s_q], [s_u, s_q, s_p, s_c]][perm % 2]) + "</Piece>\n"
        allpts.append(pts)
        allu.append(u)
        cells += [("triangle", tri + off), ("wedge", wed[:, [0, 2, 1, 3, 5, 4]] + off)]
        if perm % 2:
            j = j.reshape(3, 1)
        for nm, d in (("q", qq), ("v", vq), ("j", j)):
            e.cell_data.setdefault(nm, []).extend([d[:2], d[2:]])
        off += n
    head = '<?xml version="1.0"?>\n<VTKFile type="UnstructuredGrid" version="%s" byte_order="%s"%s%s>\n<UnstructuredGrid>\n' % (
        "1.0" if hdt == "u8" else "0.1",
        "BigEndian" if order == ">" else "LittleEndian",
        f' header_type="{VT[hdt]}"' if o["hdt"] else "",
        {None: "", "zlib": ' compressor="vtkZLibDataCompressor"', "lzma": ' compressor="vtkLZMADataCompressor"'}[comp])
    tail = "</UnstructuredGrid>\n"
    if where == "raw":
        blob = (head + body + tail).encode() + b'<AppendedData encoding="raw">\n_' + bytes(app) + b"\n</AppendedData>\n</VTKFile>\n"
        p = h.write_bytes("m.vtu", blob)
    else:
        if where == "app":
            tail += '<AppendedData encoding="base64">\n_' + app + "\n</AppendedData>\n"
        p = h.write_text("m.vtu", head + body + tail + "</VTKFile>\n")
    g = h.meshio.read(p)
    h.same(g.points, np.concatenate(allpts), "points")
    m = check_cells(h, g, cells)
    check_point_data(h, g, {"u": np.concatenate(allu)})
    check_cell_data(h, g, cells, e.cell_data, m)
