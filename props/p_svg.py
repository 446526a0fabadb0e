"""SVG drawings."""

from xml.etree import ElementTree as ET

from .common import NN

BOUNDS = "6 points in a fixed bounding box (two of them symbolic within it), boxes of several sizes, places and proportions, 1..3 blocks of <= 2 cells with symbolic connectivity, all image widths and number formats listed"
OUTSIDE = "appearance other than the geometry, the style text and the view box; coordinates outside the fixed box"

BLOCKS = {"tri": [["triangle", 2]], "quad": [["quad", 2]], "line": [["line", 2]], "mixed": [["line", 1], ["triangle", 2], ["quad", 1], ["triangle", 1]],
          "many": [[["line", "vertex", "triangle", "quad", "tetra", "line3"][(k * k + k // 3) % 6], 1 + k % 3] for k in range(20)],
          "skip": [["vertex", 1], ["triangle", 1], ["triangle6", 1], ["line", 2]]}


def scenarios(tier):
    out = []
    for b in BLOCKS:
        if b == "many":
            continue
        for w in (100, None, 37.5, 1):
            for d in (2, 3):
                out.append(dict(id=f"{b}-{w}-{d}d", b=b, w=w, d=d, fmt=".16e"))
        for dt in ("f4", ">f8", "i8"):
            out.append(dict(id=f"{b}-{dt}", b=b, w=100, d=3, fmt=".16e", dt=dt))
        for fmt in (None, ".3f", ".8e", ".12g"):
            out.append(dict(id=f"{b}-{fmt}", b=b, w=100, d=3, fmt=fmt, const=True))
            out.append(dict(id=f"{b}-{fmt}-none", b=b, w=None, d=2, fmt=fmt, const=True))
    out.append(dict(id="style", b="mixed", w=100, d=3, fmt=".16e", style=dict(stroke_width="0.25", fill="none", stroke="#ff0000")))
    for k in (1e-14, 1e-7, 1e9):
        for w in (100, None):
            for fmt in (".16e", ".12g"):
                out.append(dict(id=f"scale-{k}-{w}-{fmt}", b="mixed", w=w, d=2, fmt=fmt, const=True, scale=k))
    for k in range(3):
        out.append(dict(id=f"many{k}", b="many", w=[100, None, 7][k], d=2 + k % 2, fmt=".12g", const=True))
    out.append(dict(id="vertical", b="line", w=100, d=2, fmt=".16e", flat=0))
    out.append(dict(id="horizontal", b="line", w=100, d=2, fmt=".16e", flat=1))
    out.append(dict(id="notflat", b="tri", w=100, d=3, fmt=".16e", notflat=True))
    out.append(dict(id="empty", b="tri", w=100, d=3, fmt=".16e", empty=True))
    return out


def harness(h, sc):
    dt = sc.get("dt", "f8")
    box = [[-1, 2, 0], [7, 1, 0], [2, -3, 0], [3, 9, 0]]
    if dt[-2] == "i":
        x = h.const(box + [[0, 0, 0], [5, 5, 0]], dtype=dt)
    elif sc.get("const"):
        x = h.const([[v + 0.125 for v in p[:2]] + [0] for p in box] + [[0.3, 1.7, 0], [2.0, 6.5, 0]], dtype="f8")
    else:
        x = h.const(box + [[0, 0, 0], [5, 5, 0]], dtype="f8").astype(dt)
        s = h.floats("x", (2, 2), dt)
        for i in range(2):
            for j in range(2):
                h.assume(s[i, j] > 0.0625)
                h.assume(s[i, j] < 1.9375)
        x[4:6, :2] = s
    if "scale" in sc:
        x = x * sc["scale"]
    if "flat" in sc:
        x[:, sc["flat"]] = 1.5
    if sc.get("notflat"):
        z = h.floats("z", (1,))
        h.assume(z[0] > 1e-12)
        x[3:4, 2] = z
    if sc["d"] == 2:
        x = x[:, :2]
    if sc.get("empty"):
        x = x[:0]
    blocks = [] if sc.get("empty") else BLOCKS[sc["b"]]
    if sc.get("const") or dt[-2] == "i":
        cells = [(t, h.ints(f"c{k}", (n, NN[t]), 0, 5)) for k, (t, n) in enumerate(blocks)]
    else:
        cells = [(t, h.const([[(5 - k + (2 * i + 1) * j) % 6 for j in range(NN[t])] for i in range(n)], dtype="i8")) for k, (t, n) in enumerate(blocks)]
    m = h.meshio.Mesh(x, cells)
    p = h.path("a.svg")
    kw = dict(sc.get("style", {}))
    if sc["fmt"]:
        kw["float_fmt"] = sc["fmt"]
    if sc["w"] != 100:
        kw["image_width"] = sc["w"]
    if sc.get("notflat"):
        try:
            h.meshio.write(p, m, **kw)
        except h.meshio.WriteError:
            return h.check(True, "refused")
        return h.fail("a mesh that is not flat was drawn")
    h.meshio.write(p, m, **kw)
    root = ET.fromstring(h.read_text(p))
    ns = root.tag[:-3]
    h.check(root.tag.endswith("svg"), "svg element")
    if sc.get("empty"):
        return h.check(not root.findall(ns + "path"), "no paths")
    # geometry: x to the right, y upwards
    lo, hi = [-1.0, -3.0], [7.0, 9.0]
    if sc.get("const"):
        lo, hi = [v + 0.125 for v in lo], [v + 0.125 for v in hi]
    if "scale" in sc:
        lo, hi = [v * sc["scale"] for v in lo], [v * sc["scale"] for v in hi]
    if "flat" in sc:
        lo[sc["flat"]] = hi[sc["flat"]] = 1.5
    width = hi[0] - lo[0]
    s = sc["w"] / width if sc["w"] is not None and width else 1.0
    fmt = sc["fmt"] or ".3f"
    tol = {".16e": 13 if dt != "f4" else 5, ".12g": 11, ".8e": 8, ".3f": -3}[fmt]

    def close(a, e, label):
        h.same(h.array([a]), h.array([e]), label, digits=tol)

    vb = root.attrib["viewBox"].split()
    h.check(len(vb) == 4, "viewBox")
    for k, (a, e) in enumerate(zip(vb, [lo[0] * s, lo[1] * s, width * s, (hi[1] - lo[1]) * s])):
        close(h.parse_float(a), e, f"viewBox {k}")
    y0 = lo[1] + hi[1]
    px = x[:, :2].astype("f8" if dt[-2] == "i" else dt)
    px[:, 1] = y0 - px[:, 1]
    px *= s
    paths = [e for e in root if e.tag == ns + "path"]
    exp = [(t, c[i]) for t, c in cells for i in range(len(c)) if t in ("line", "triangle", "quad")]
    h.check(len(paths) == len(exp), f"{len(paths)} paths")
    for k, (e, (t, c)) in enumerate(zip(paths, exp)):
        d = e.attrib["d"]
        h.check(d.strip().endswith("Z") == (t != "line"), f"closed {k}")
        v = d.replace("M", " ").replace("L", " ").replace("Z", " ").split()
        h.check(len(v) == 2 * NN[t], f"corners of {k}")
        for j in range(NN[t]):
            q = px[c[j]]
            close(h.parse_float(v[2 * j]), q[0], f"x of corner {j} of cell {k}")
            close(h.parse_float(v[2 * j + 1]), q[1], f"y of corner {j} of cell {k}")
    st = root.find(ns + "style").text
    for name, val in {"fill": "#c8c5bd", "stroke": "#000080", **{k.replace("_", "-"): v for k, v in sc.get("style", {}).items()}}.items():
        h.check(f"{name}: {val}" in st, f"style {name}")
    if not sc.get("style"):
        close(h.parse_float(st.split("stroke-width:")[1].split(";")[0].strip()), width * s / 100, "stroke width")
