"""Nastran bulk data: round trip in all field formats, and files of other producers."""

import numpy as _np

from .common import NN, build, check_cells
from .rt import roundtrip, roundtrip_mesh

TYPES = ["vertex", "line", "triangle", "triangle6", "quad", "quad8", "quad9", "tetra", "tetra10", "pyramid", "pyramid13", "wedge", "wedge15",
         "hexahedron", "hexahedron20"]
NTYPES = {"CELAS1": "vertex", "CBEAM": "line", "CBUSH": "line", "CBUSH1D": "line", "CROD": "line", "CGAP": "line", "CBAR": "line",
          "CTRIAR": "triangle", "CTRIA3": "triangle", "CTRIA6": "triangle6", "CTRAX6": "triangle6", "CTRIAX6": "triangle6", "CQUADR": "quad",
          "CSHEAR": "quad", "CQUAD4": "quad", "CQUAD8": "quad8", "CQUAD9": "quad9", "CTETRA": "tetra", "CPYRAM": "pyramid", "CPYRA": "pyramid",
          "CPENTA": "wedge", "CHEXA": "hexahedron"}
SECOND = {"CTETRA": "tetra10", "CPYRA": "pyramid13", "CPENTA": "wedge15", "CHEXA": "hexahedron20"}
# position in the Nastran card of each VTK node
ORDER = {"CTRIAX6": [0, 2, 4, 1, 3, 5], "CTRAX6": [0, 2, 4, 1, 3, 5],
         "hexahedron20": list(range(12)) + [16, 17, 18, 19, 12, 13, 14, 15], "wedge15": list(range(9)) + [12, 13, 14, 9, 10, 11]}
BOUNDS = ("<= 5 points, <= 5 blocks of <= 3 cells; symbolic connectivity and references; symbolic coordinates with 5 or 17 significant digits, either sign, "
          "decimal exponents of 1 to 3 digits; hand-written files with symbolic node/element numbers 1..99999 in free, small and large fields")
BOUNDS += "; also meshes of up to 66000 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = ("coordinates in the small field format beyond 6 integer digits (the writer truncates them to 8 characters), references given on some cards only, blank "
           "coordinates, element cards with extra property fields, subnormal coordinates and decimal exponents that change by rounding")


def scenarios(tier):
    out = []

    def add(i, **sc):
        out.append(dict(id=i, **sc))

    for cf in ("fixed-small", "fixed-large", "free"):
        for t in TYPES:
            add(f"{t}-{cf}", blocks=[[t, 2]], npts=3, const=True, kw={"cell_format": cf})
        add("mix-" + cf, blocks=[["hexahedron20", 1], ["triangle", 2], ["quad9", 1], ["line", 1]], npts=4, const=True, kw={"cell_format": cf}, refs=True)
        add("many-" + cf, blocks=[["tetra", 3], ["wedge15", 1], ["tetra", 2], ["wedge", 2], ["pyramid13", 2]], npts=5, const=True, kw={"cell_format": cf}, refs=True)
    for pf in ("fixed-large", "free"):
        for j in range(3):
            add(f"pts{j}-{pf}", blocks=[["triangle", 1]], npts=2, kw={"point_format": pf}, sym=j)
            add(f"pts{j}-f4-{pf}", blocks=[["triangle", 1]], npts=2, pdt="f4", kw={"point_format": pf}, sym=j)
        add("prefs-" + pf, blocks=[["triangle", 1]], npts=2, const=True, kw={"point_format": pf}, refs=True)
    add("pts-fixed-small", blocks=[["triangle", 2]], npts=4, const="int", kw={"point_format": "fixed-small"}, refs=True)
    add("2d", dim=2, blocks=[["triangle", 2], ["quad", 1]], npts=4, const=True)
    for cdt in ("i4", "u4", "u8"):
        add("conn-" + cdt, blocks=[["triangle", 2], ["quad", 1]], npts=3, cdt=cdt, const=True)
    add("F-order", blocks=[["quad", 2]], npts=4, layout="F", const=True)
    for cf in ("fixed-small", "fixed-large", "free"):
        for n in range(1, 4):
            add(f"all{n}-{cf}", blocks=[[t, n] for t in (TYPES if n < 3 else TYPES[::-1])], npts=4, const=True, kw={"cell_format": cf}, refs=n == 2)
        add("medium-" + cf, blocks=[["triangle", 150], ["hexahedron20", 130], ["wedge15", 20], ["triangle", 45]], npts=310, medium=2, medc=0, const="grid", kw={"cell_format": cf}, refs=True)
        add("large-" + cf, blocks=[["tetra10", 4200]], npts=5000, medium=2, medc=0, const="grid", kw={"cell_format": cf}, weight=4)
        for cdt in ("u1", "i1", "i2", "u2"):
            add(f"many-{cdt}-{cf}", blocks=[["triangle", 100], ["hexahedron20", 10]], npts=120, medium=2, medc=0, cdt=cdt, const="grid", kw={"cell_format": cf})
        add("mixdt-" + cf, blocks=[["triangle", 1], ["quad", 1], ["line", 1]], npts=4, cdts=[["i4", 3], ["i8", 3], ["u4", 3]], const=True, kw={"cell_format": cf})
    add("huge", blocks=[["triangle", 2]], npts=66000, medium=2, medc=0, const="grid", kw={}, weight=9)
    for pf in ("fixed-large", "free"):
        for k in range(6):
            add(f"values{k}-{pf}", special="values", kw={"point_format": pf}, chunk=k)
    add("values-fixed-small", special="values", kw={"point_format": "fixed-small"}, chunk=None)
    for pf in ("fixed-small", "fixed-large", "free"):
        for cf in ("fixed-small", "fixed-large", "free"):
            add(f"combo-{pf}-{cf}", blocks=[["hexahedron20", 2], ["triangle", 2], ["quad9", 1], ["wedge15", 1]], npts=4, const="int", kw={"point_format": pf, "cell_format": cf}, refs=True)
    for fm in ("smallr", "larger", "autor", "mixedr", "free", "small", "large", "mixed", "auto", "comments", "contname", "contplain", "extra", "crlf", "tail"):
        add("hand-" + fm, special="hand")
    for k in NTYPES:
        add("type-" + k, special="type")
    for k in SECOND:
        for fm in ("free", "small", "large", "auto", "smallr", "larger", "autor"):
            add(f"second-{k}-{fm}", special="second")
    for t in ("hexahedron20", "wedge15", "pyramid13", "tetra10", "triangle6", "hexahedron"):
        for cf in ("fixed-small", "fixed-large", "free"):
            add(f"out-{t}-{cf}", special="out", t=t, cf=cf)
    return out


# coordinates the 8 columns of a small field hold exactly
SMALL = [1.0, -2.0, 0.5, 0.123456, 1.234567, -1.23456, 0.000001, -0.00001, 12.34567, 123456.5, -12345.5, 999999.0, -99999.0, 0.0, 100.0, 1200.0, -10.0, 0.1, 99.9]
VALUES = [s * m * 10.0**e for e in (0, 1, -1, 4, 7, 9, 10, -9, -10, 15, 42, 99, 100, -99, -100, 250, -250) for m in (1.0, 1 / 3 * 10, 2 / 7 * 10, 9.8765432109876) for s in (1, -1)] + [0.0]


def value_digits(x, pf):
    """significant digits that fit a field of 16 characters (never more than 12 are written)"""
    if x == 0:
        return 12
    e = int(f"{x:.11e}".split("e")[1])
    return min(12, 16 - (x < 0) - 1 - 2 - len(str(abs(e))))


def values(h, sc):
    """fixed coordinates of all magnitudes: as many digits as the field takes"""
    pf = sc["kw"]["point_format"]
    v = SMALL if sc["chunk"] is None else VALUES[sc["chunk"] * 24 : (sc["chunk"] + 1) * 24]
    v = (list(v) + [0.0, 0.0])[: -(-len(v) // 3) * 3]
    a = _np.array(v).reshape(-1, 3)
    c = h.ints("c", (1, 3), 0, len(a) - 1)
    p = h.path("v.bdf")
    h.meshio.write(p, h.meshio.Mesh(h.const(a.tolist(), dtype="f8"), [("triangle", c)]), **sc["kw"])
    g = h.meshio.read(p)
    h.check(tuple(g.points.shape) == a.shape, "number of points")
    for i in range(a.shape[0]):
        for j in range(3):
            x, y = float(a[i, j]), float(g.points[i, j])
            d = value_digits(x, pf)
            e = 0 if x == 0 else int(f"{x:.17e}".split("e")[1])
            tol = 0.0 if sc["chunk"] is None else 0.51 * 10.0 ** (e - d + 1)
            h.check(abs(x - y) <= tol + 2e-16 * abs(x), f"coordinate {x!r} came back as {y!r}")
    check_cells(h, g, [("triangle", c)])


PTS = _np.array([[0.5, -1.25, 3.0], [1e-9, 2e10, -4.0], [0.0, 7.0, -1 / 3], [-2 / 7e20, 1e300, 1.0], [3.0, 2.0, 1.0]])


def harness(h, sc):
    sp = sc.get("special")
    if sp == "type":
        return etype(h, sc)
    if sp == "second":
        return second(h, sc)
    if sp == "hand":
        return hand(h, sc)
    if sp == "out":
        return outfile(h, sc)
    if sp == "values":
        return values(h, sc)
    np = h.np
    mesh, e = build(h, sc)
    if sc.get("const") == "grid":
        a = _np.arange(3.0 * sc["npts"]).reshape(-1, 3) / 4
        e.points = h.const(a.tolist(), dtype="f8")
        mesh.points = e.points
    elif sc.get("const"):
        a = PTS if sc["const"] is True else _np.array([[1.0, -2.0, 3.5], [100000.0, 0.25, -9999.0], [0.0, 12.5, 1e5], [-1.0, -1.0, 99999.5]])
        e.points = h.const(a[: e.points.shape[0], : e.points.shape[1]].tolist(), dtype="f8")
        mesh.points = e.points
    if "sym" in sc:
        # one symbolic coordinate, in the last point
        a = _np.array(PTS[:2], dtype=sc.get("pdt", "f8"))
        x = [[a[i, j].item() for j in range(3)] for i in range(2)]
        x[1][sc["sym"]] = e.points[1, sc["sym"]]
        e.points = h.array(x, dtype=sc.get("pdt", "f8"))
        mesh.points = e.points
    if sc.get("refs"):
        e.point_data["nastran:ref"] = (h.ints("pref", (len(e.points),), 0, 99999999) if len(e.points) < 50 else h.const([(7919 * i) % 99999999 for i in range(len(e.points))], dtype="i8"))
        mesh.point_data["nastran:ref"] = e.point_data["nastran:ref"]
        e.cell_data["nastran:ref"] = [h.ints(f"cref{k}", (len(c),), 0, 99999999) if len(c) < 50 else h.const([(7907 * i + k) % 99999999 for i in range(len(c))], dtype="i8")
                                       for k, (_, c) in enumerate(e.cells)]
        mesh.cell_data["nastran:ref"] = list(e.cell_data["nastran:ref"])
    roundtrip_mesh(h, sc, dict(ext=".bdf", pdtype="f8", digits=7 if sc.get("pdt") == "f4" else 9, ddtype=False), mesh, e)


def card(fmt, name, fields, cont="+"):
    """one bulk data card, fields are str"""
    out = []
    fmt = base(fmt)
    if fmt == "free":
        rows = [fields[i : i + 8] for i in range(0, len(fields), 8)]
        return "\n".join((name if k == 0 else "+") + "," + ",".join(r) for k, r in enumerate(rows)) + "\n"
    w, n = (8, 8) if fmt in ("small", "auto") else (16, 4)
    rows = [fields[i : i + n] for i in range(0, len(fields), n)]
    for k, r in enumerate(rows):
        head = (name + ("*" if w == 16 else "")) if k == 0 else (" " if fmt == "auto" else ("*" if w == 16 else "+"))
        line = f"{head:<8s}" + "".join(f for f in r)
        if fmt == "auto" and k + 1 < len(rows):
            line += " " * 8
        out.append(line)
    return "\n".join(out) + "\n"


def base(fmt):
    return fmt[:-1] if fmt.endswith("r") else fmt


def I(fmt, v):
    if fmt.endswith("r"):  # right-adjusted
        return f"{v:>8d}" if base(fmt) in ("small", "auto") else f"{v:>16d}"
    return f"{v}" if fmt == "free" else (f"{v:<8d}" if fmt in ("small", "auto") else f"{v:<16d}")


def F(fmt, v):
    fmt = base(fmt)
    return v if fmt == "free" else (f"{v:>8s}" if fmt in ("small", "auto") else f"{v:>16s}")


def blank(fmt):
    fmt = base(fmt)
    return "" if fmt == "free" else " " * (8 if fmt in ("small", "auto") else 16)


FL = ["1.5", "-2.", "3.+1", "-4.5-2", "1.E-3", ".25", "7.0E+0", "-0.5", "100.", "-1.+2", "2.25", "0."]
FV = [1.5, -2.0, 30.0, -0.045, 1e-3, 0.25, 7.0, -0.5, 100.0, -100.0, 2.25, 0.0]


def grid(fmt, n, k, ref=None):
    return card(fmt, "GRID", [I(fmt, n), blank(fmt) if ref is None else I(fmt, ref)] + [F(fmt, FL[3 * k + j]) for j in range(3)])


def pts(h):
    return h.const(_np.array(FV).reshape(4, 3).tolist(), dtype="f8")


def prelude():
    return "$ comment\nSOL 101\nCEND\nBEGIN BULK\n"


def etype(h, sc):
    k = sc["id"].split("-", 1)[1]
    t = NTYPES[k]
    c = h.ints("c", (2, NN[t]), 0, 3)
    ref = h.ints("r", (2,), 1, 999)
    s = prelude() + "".join(grid("small", i + 1, i) for i in range(4))
    for i in range(2):
        row = c[i] + 1
        vals = [row[j] for j in range(NN[t])]
        if k in ORDER:
            v2 = [None] * 6
            for vtk, pos in enumerate(ORDER[k]):
                v2[pos] = vals[vtk]
            vals = v2
        s += card("small", k, [I("small", i + 1), I("small", ref[i])] + [I("small", v) for v in vals] +
                  ([F("small", "11.0"), F("small", "0.0"), F("small", "0.0")] if k in ("CBAR", "CBEAM", "CBUSH", "CGAP") else [I("small", 3)] if k == "CBUSH1D" else []))
    g = h.meshio.read(h.write_text("a.bdf", s + "ENDDATA\n"))
    h.same(g.points, pts(h), "points")
    check_cells(h, g, [(t, c)])
    h.same(g.cell_data["nastran:ref"][0], ref, "refs", kind="iu")


def second(h, sc):
    _, k, fmt = sc["id"].split("-")
    t = SECOND[k]
    c = h.ints("c", (2, NN[t]), 0, 3)
    s = prelude() + "".join(grid("large", i + 1, i) for i in range(4))
    for i in range(2):
        row = c[i] + 1
        vals = [row[j] for j in range(NN[t])]
        v2 = list(vals)
        if t in ORDER:
            for vtk, pos in enumerate(ORDER[t]):
                v2[pos] = vals[vtk]
        s += card(fmt, k, [I(fmt, 10 + i), I(fmt, 7)] + [I(fmt, v) for v in v2])
    g = h.meshio.read(h.write_text("a.bdf", s + "ENDDATA\n"))
    h.same(g.points, pts(h), "points")
    check_cells(h, g, [(t, c)])


def hand(h, sc):
    k = sc["id"].split("-")[1]
    fm = {"smallr": ["smallr"] * 4, "larger": ["larger"] * 4, "autor": ["autor"] * 4, "mixedr": ["larger", "smallr", "free", "larger"], "free": ["free"] * 4, "small": ["small"] * 4, "large": ["large"] * 4, "mixed": ["large", "free", "small", "large"],
          "auto": ["auto"] * 4, "contname": ["small", "large"] * 2, "contplain": ["small", "large"] * 2, "extra": ["small", "free", "large", "small"], "crlf": ["small", "free", "large", "free"], "tail": ["large", "free", "small", "free"], "comments": ["small", "free", "large", "free"]}[k]
    top = 99999 if k in ("free",) else 99999999
    nid = h.ints("nid", (4,), 1, top)
    h.distinct(nid)
    eid = h.ints("eid", (4,), 1, top)
    h.distinct(eid)
    n = [nid[i] for i in range(4)]
    ref = h.ints("ref", (4,), 1, 9999)
    tri = [[0, 1, 2], [3, 2, 1]]
    quad, hexa = [3, 2, 1, 0], [0, 1, 2, 3, 3, 2, 1, 0]
    P = [prelude()]
    w = P.append
    el = lambda f, name, j, conn: card(f, name, [I(f, eid[j]), I(f, ref[j])] + [I(f, n[v]) for v in conn])
    if k == "comments":
        w("$ c\n\n")
    for i in (2, 0):
        w(grid(fm[i], n[i], i))
        if k == "comments":
            w("$ another\n//x y\n#abc\n\n")
    w(el(fm[0], "CTRIA3", 0, tri[0]))
    for i in (3, 1):
        w(grid(fm[i], n[i], i))
    w("PSHELL  1       1       0.1\nMAT1,1,2.1E5,,0.3\n")
    w(el(fm[1], "CTRIA3", 1, tri[1]))
    w(el(fm[2], "CHEXA", 2, hexa))
    w(el(fm[3], "CQUAD4", 3, quad))
    w("ENDDATA\n")
    text = "".join(P)
    if k == "tail":
        text += "GRID,9,,1.,2.,3.\nsome text after the end\n"
    if k in ("contname", "contplain", "extra"):
        # continuation names in the last and first field; constraints and coordinate systems after the coordinates
        ls, out, num = text.split("\n"), [], 0
        for ln in ls:
            if k == "extra" and ln.startswith("GRID"):
                ln += ",,123456" if "," in ln else (" " * 8 + "123456  " if not ln.startswith("GRID*") else "")
            if k.startswith("cont") and ln[:1] in "+*" and ln[1:8] == " " * 7 and "," not in ln:
                num += 1
                out[-1] = f"{out[-1]:<72s}{ln[0]}C{num:<6d}" if k == "contname" else f"{out[-1]:<72s}C{num:<7d}"
                ln = f"{ln[0]}C{num:<6d}" + ln[8:]
            out.append(ln)
        text = "\n".join(out)
    g = h.meshio.read(h.write_bytes("a.bdf", text.replace("\n", "\r\n").encode()) if k == "crlf" else h.write_text("a.bdf", text))
    pos = [2, 0, 3, 1]
    inv = [pos.index(i) for i in range(4)]
    h.same(g.points, h.const(_np.array(FV).reshape(4, 3)[pos].tolist(), dtype="f8"), "points")
    m = lambda rows: h.const([[inv[v] for v in r] for r in rows], dtype="i8")
    check_cells(h, g, [("triangle", m(tri)), ("hexahedron", m([hexa])), ("quad", m([quad]))])
    h.same(h.np.concatenate(g.cell_data["nastran:ref"]), ref, "refs", kind="iu")


def outfile(h, sc):
    """the file written names the standard card and lists the nodes in Nastran's order"""
    t, cf = sc["t"], sc["cf"]
    c = h.ints("c", (1, NN[t]), 0, 98)
    ref = h.ints("r", (1,), 1, 999)
    mesh = h.meshio.Mesh(h.const(_np.zeros((99, 3)).tolist(), dtype="f8"), [(t, c)], cell_data={"nastran:ref": [ref]})
    p = h.path("a.bdf")
    h.meshio.write(p, mesh, cell_format=cf)
    lines = h.read_text(p).split("ENDDATA")[0].split("\n")
    lines = [ln for ln in lines[lines.index("BEGIN BULK") + 1 :] if ln and not ln.startswith("GRID")]
    lines = lines[[i for i, ln in enumerate(lines) if ln[0] == "C"][0] :]
    fields = []
    name = None
    for k, ln in enumerate(lines):
        if cf == "free":
            f = ln.split(",")
            head, body = f[0], f[1:]
            h.check(len(body) <= 8, "more than 8 fields in a line")
        else:
            wd = 8 if cf == "fixed-small" else 16
            head, body = ln[:8].strip(), [ln[8 + i * wd : 8 + (i + 1) * wd] for i in range(64 // wd)]
            h.check(len(ln) <= 80, f"line of {len(ln)} characters")
            body = [b for b in body if b.strip()]
        if k == 0:
            name = head
        else:
            h.check(head[:1] in "+*", "continuation line " + head)
        fields += [b.strip() for b in body]
    want = {"tetra10": "CTETRA", "pyramid13": "CPYRA", "wedge15": "CPENTA", "hexahedron20": "CHEXA", "hexahedron": "CHEXA", "triangle6": "CTRIA6"}[t]
    h.check(name == want + ("*" if cf == "fixed-large" else ""), f"card name {name}")
    h.check(len(fields) == 2 + NN[t], f"{len(fields)} fields")
    if len(fields) != 2 + NN[t]:
        return
    h.check(h.parse_int(fields[1]) == ref[0], "property field")
    order = ORDER.get(t, list(range(NN[t])))
    for vtk, pos in enumerate(order):
        h.check(h.parse_int(fields[2 + pos]) == c[0, vtk] + 1, f"node {vtk}")
