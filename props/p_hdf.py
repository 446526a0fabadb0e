"""MED, H5M, CGNS, HMF (HDF5 based): round trip."""

import numpy as _np

from .common import NN, build, data
from .rt import compare, roundtrip, roundtrip_mesh

MED = ["vertex", "line", "line3", "triangle", "triangle6", "quad", "quad8", "tetra", "tetra10", "hexahedron", "hexahedron20",
       "pyramid", "pyramid13", "wedge", "wedge15"]
from .p_xdmf import TYPES as XT

BOUNDS = ("meshes with <= 6 points, <= 12 cell blocks (HMF) / all 15 MED cell types, symbolic coordinates, connectivity, "
          "data and tags; MED files of other producers with profiles and time steps")
BOUNDS += "; also meshes of up to 5000 points of mostly fixed values, with a few symbolic entries per array"
OUTSIDE = "MED component names (med:nom), MED Gauss-point (ELGA) fields, H5M sets, CGNS cells other than tetra"


def scenarios(tier):
    out = []

    def add(v, i, **sc):
        out.append(dict(id=f"{v}-{i}", fmt=v, **sc))

    for t in MED:
        add("med", t, blocks=[[t, 2]], npts=3, cdata=[["q", [], "f8"]])
        if NN[t] > 1:
            add("med", "elno-" + t, blocks=[[t, 2]], npts=3, cdata=[["q", [NN[t], 2], "f8"]])
    add("med", "mixed", blocks=[["wedge", 1], ["triangle", 2], ["hexahedron", 1], ["line", 3]], npts=4,
        cdata=[["q", [], "f8"], ["k", [3], "f8"]], pdata=[["u", [], "f8"], ["w", [3], "f8"], ["v", [2], "f8"]])
    add("med", "mixed2", blocks=[["vertex", 1], ["pyramid", 2], ["tetra", 1]], npts=4,
        cdata=[["q", [2], "f8"], ["k", [], "f8"]], pdata=[["zz", [], "f8"], ["aa", [3], "f8"]])
    add("med", "samename", blocks=[["triangle", 2], ["line", 1]], npts=4, cdata=[["q", [], "f8"]], pdata=[["q", [], "f8"]])
    add("med", "2d", dim=2, blocks=[["triangle", 2], ["quad", 1]], npts=4, pdata=[["u", [2], "f8"]], cdata=[["q", [2], "f8"]])
    add("med", "1d", dim=1, blocks=[["line", 2]], npts=4)
    for dt in ("f4", "f8", "i4", "i8"):
        add("med", "dt-" + dt, blocks=[["triangle", 2], ["line", 1]], npts=3, pdata=[["u", [], dt], ["w", [3], dt]], cdata=[["q", [], dt]])
    add("med", "pts-f4", blocks=[["triangle", 2]], npts=3, pdt="f4")
    for cdt in ("i4", "u4", "u8"):
        add("med", "conn-" + cdt, blocks=[["triangle", 2], ["line", 2]], npts=3, cdt=cdt)
    add("med", "F-order", blocks=[["quad", 2]], npts=4, layout="F", pdata=[["a", [3], "f8"]], cdata=[["q", [3], "f8"]])
    add("med", "strided", blocks=[["quad", 2]], npts=4, layout="strided", pdata=[["a", [3], "f8"]], cdata=[["q", [3], "f8"]])
    add("med", "tags", special="tags")
    add("med", "tags2", special="tags")
    for k in ("tags3", "ptags", "ctags", "longnames", "manytags"):
        add("med", k, special="tags")
    for k in ("profile", "steps", "flat", "eleven", "ga1", "order", "pdt", "surface"):
        add("medhand", k, special="medhand")
    add("med", "fifteen", blocks=[[t, 1 + j % 2] for j, t in enumerate(reversed(MED))], npts=3, cdata=[["q", [], "f8"], ["w", [3], "f8"]], pdata=[["u", [], "f8"]])
    for n in (1, 2, 4, 5, 6, 9):
        add("med", f"comp{n}", blocks=[["quad", 3], ["line", 2]], npts=4, pdata=[["w", [n], "f8"]] if n > 1 else [], cdata=[["q", [n], "f8"]] if n > 1 else [["q", [], "f8"]])
    for t in ("triangle", "quad", "tetra10"):
        for n in (1, 3):
            add("med", f"elno{n}-{t}", blocks=[[t, 3], ["line", 2]], npts=3, cdata=[["q", [NN[t], n], "f8"]], special="elno")
    add("med", "names", blocks=[["triangle", 1], ["line", 1]], npts=2, pdata=[["  lead", [], "f8"], ["a  b", [], "f8"], ["x" * 60, [], "f8"], ["A", [], "f8"], ["a", [], "f8"], ["p[1]", [], "f8"]],
        cdata=[["A", [], "f8"], ["a", [], "f8"], ["it's", [], "f8"], ["point_tags2", [], "f8"]])
    add("med", "many-fields", blocks=[["triangle", 2]], npts=2, pdata=[[f"u{i}", [], "f8"] for i in range(12)], cdata=[[f"u{i}", [2], "f8"] for i in range(12)])
    for v in ("med", "hmf", "h5m"):
        b = [["triangle", 150], ["tetra" if v == "h5m" else "quad", 130], ["line", 45]]
        cd = [] if v == "h5m" else [["q", [], "f8"], ["w", [3], "f8"]]
        add(v, "medium", blocks=b, npts=310, medium=3, pdata=[["a", [3], "f8"], ["k", [], "f8"]], cdata=cd)
        add(v, "medium-i4", blocks=b, npts=310, medium=3, cdt="i4", pdt="f4")
        add(v, "conn-huge", blocks=[["triangle", 1], ["line", 2]], npts=4, cmax=2**62)
        add(v, "conn-u8-huge", blocks=[["triangle", 1], ["line", 2]], npts=4, cmax=2**62, cdt="u8")
        add(v, "large", blocks=[["tetra", 3000]], npts=5000, medium=3, pdata=[["a", [], "f8"]], weight=2)
        add(v, "bigendian", blocks=[["triangle", 1]], npts=3, pdt=">f8", cdt=">i8", pdata=[["a", [3], ">f8"]])
    for v in ("hmf", "h5m"):
        add(v, "F-order", blocks=[["triangle", 2]], npts=4, layout="F", pdata=[["a", [3], "f8"]], cdata=[["q", [3], "f8"]] if v == "hmf" else [])
        add(v, "strided", blocks=[["triangle", 2]], npts=4, layout="strided", pdata=[["a", [3], "f8"]], cdata=[["q", [3], "f8"]] if v == "hmf" else [])
        add(v, "names", blocks=[["triangle", 1], ["line", 1]], npts=2, pdata=[["  lead", [], "f8"], ["a  b", [], "f8"], ["x" * 60, [], "f8"], ["A", [], "f8"], ["a", [], "f8"], ["gamma\u03b3", [], "f8"]],
            cdata=[["A", [], "f8"], ["a", [], "f8"]] if v == "hmf" else [])
        add(v, "comp", blocks=[["triangle", 2]], npts=3, pdata=[[f"w{n}", [n], "f8"] for n in (1, 2, 4, 5, 6, 9)], cdata=[[f"w{n}", [n], "f8"] for n in (1, 2, 4, 6)] if v == "hmf" else [])
        for cdt in ("u1", "u2", "i2"):
            add(v, "conn-" + cdt, blocks=[["triangle", 100], ["line", 20]], npts=120, medium=3, cdt=cdt)
    add("h5m", "order", blocks=[["tetra", 1], ["line", 2], ["triangle", 3]], npts=4, pdata=[["u", [], "f8"]], file=True)
    add("h5m", "gid", blocks=[["triangle", 2]], npts=4, special="gid")
    add("h5m", "other", blocks=[["quad", 1], ["triangle", 2], ["vertex", 1]], npts=4, special="skip")
    add("h5m", "hand", special="h5mhand")
    add("cgns", "other", blocks=[["triangle", 1], ["tetra", 2], ["hexahedron", 1]], npts=4, special="skip")
    add("cgns", "conn-huge", blocks=[["tetra", 2]], npts=4, cmax=2**62)
    add("cgns", "conn-u8-huge", blocks=[["tetra", 2]], npts=4, cmax=2**62, cdt="u8")
    add("cgns", "medium", blocks=[["tetra", 300]], npts=310, medium=3)
    add("cgns", "large", blocks=[["tetra", 3000]], npts=5000, medium=3, weight=2)
    for cdt in ("u4", "u8", "i2", "u2"):
        add("cgns", "conn-" + cdt, blocks=[["tetra", 2]], npts=4, cdt=cdt)
    add("cgns", "conn-u1", blocks=[["tetra", 100]], npts=120, medium=3, cdt="u1")
    add("hmf", "same3", blocks=[["triangle", 1], ["triangle", 2], ["triangle", 1]], npts=4, cdata=[["q", [], "f8"], ["k", [], "i4"]])
    add("hmf", "many", blocks=[[t, 1 + j % 2] for j, t in enumerate(["triangle", "quad", "line"] * 36)], npts=4, medium=2, cdata=[["q", [], "f8"]], weight=2)
    add("hmf", "dt-u1", blocks=[["triangle", 2]], npts=3, pdata=[["u", [], "u1"], ["w", [3], "i1"]], cdata=[["q", [], "u1"]])
    add("hmf", "nodata", blocks=[["triangle", 2]], npts=3)
    for t in ("line", "triangle", "tetra"):
        add("h5m", "file-" + t, blocks=[[t, 2]], npts=3, file=True)

    for k, ty in (("a", ["line", "triangle", "tetra"]), ("b", ["tetra", "triangle"]), ("c", ["triangle"]), ("d", ["tetra"]), ("e", ["line"])):
        for g in (True, False):
            add("h5m", f"{k}{int(g)}", blocks=[[t, 2 + j % 2] for j, t in enumerate(ty)], npts=4, kw={"add_global_ids": g},
                pdata=[["u", [], "f8"], ["w", [3], "f8"], ["v", [2], "f8"]])
    add("h5m", "cd", blocks=[["triangle", 2], ["tetra", 1]], npts=4, cdata=[["q", [], "f8"], ["r", [3], "f8"]])
    add("h5m", "nocomp", blocks=[["triangle", 2], ["tetra", 1]], npts=4, kw={"compression": None, "compression_opts": None}, pdata=[["u", [3], "f4"]])
    add("h5m", "2d", dim=2, blocks=[["triangle", 2]], npts=4)
    for dt in ("f4", "i4", "i8", "u4", "u8", "i2"):
        add("h5m", "dt-" + dt, blocks=[["triangle", 2]], npts=3, pdata=[["u", [], dt], ["w", [3], dt]])
    for cdt in ("i4", "u4", "u8"):
        add("h5m", "conn-" + cdt, blocks=[["triangle", 2], ["line", 1]], npts=3, cdt=cdt)

    for kw, k in (({}, "gz"), ({"compression": None, "compression_opts": None}, "no")):
        add("cgns", k, blocks=[["tetra", 3]], npts=5, kw=kw)
        add("cgns", k + "1", blocks=[["tetra", 1]], npts=4, kw=kw)
        add("cgns", k + "f4", blocks=[["tetra", 2]], npts=4, pdt="f4", cdt="i4", kw=kw)
        add("cgns", k + "F", blocks=[["tetra", 2]], npts=4, layout="F", kw=kw)
        add("cgns", k + "S", blocks=[["tetra", 2]], npts=4, layout="strided", kw=kw)

    for t in XT:
        if NN[t] < 130:
            add("hmf", t, blocks=[[t, 2]], npts=3, cdata=[["q", [], "f8"]])
    add("hmf", "mixed", blocks=[["triangle", 2], ["quad", 1], ["triangle", 1], ["line", 2]], npts=4,
        cdata=[["q", [], "f8"], ["k", [3], "i8"]], pdata=[["u", [], "f8"], ["w", [3, 3], "f8"]])
    add("hmf", "twelve", blocks=[[t, 1 + j % 2] for j, t in enumerate(["triangle", "quad"] * 6)], npts=4, cdata=[["q", [], "f8"]])
    add("hmf", "nocomp", blocks=[["triangle", 2], ["line", 1]], npts=4, kw={"compression": None, "compression_opts": None}, pdata=[["u", [3], "f4"]])
    add("hmf", "2d", dim=2, blocks=[["triangle", 2]], npts=4, pdata=[["u", [2], "f8"]])
    for dt in ("f4", "i4", "i8", "u4", "u8", "i2"):
        add("hmf", "dt-" + dt, blocks=[["triangle", 2]], npts=3, pdata=[["u", [], dt], ["w", [3], dt]], cdata=[["q", [], dt]])
    return out


def harness(h, sc):
    f = sc["fmt"]
    sp = sc.get("special")
    if sp == "tags":
        return tags(h, sc)
    if sp == "medhand":
        return medhand(h, sc)
    if sp:
        return {"elno": elno, "gid": gid, "skip": skip, "h5mhand": h5mhand}[sp](h, sc)
    if f == "med":
        return roundtrip(h, sc, dict(ext=".med", pad2d=False, order="type", post=medfile))
    if f == "h5m":
        return roundtrip(h, sc, dict(ext=".h5m", pad2d=False, order="type", cdata=False,
                                     ignore_pdata=("GLOBAL_ID",) if sc.get("kw", {}).get("add_global_ids", True) else (),
                                     post=gids))
    if f == "cgns":
        return roundtrip(h, sc, dict(ext=".cgns"))
    return roundtrip(h, sc, dict(ext=".hmf", pad2d=False))


MEDNAME = dict(zip(MED, ["PO1", "SE2", "SE3", "TR3", "TR6", "QU4", "QU8", "TE4", "T10", "HE8", "H20", "PY5", "P13", "PE6", "P15"]))


def medfile(h, g, e, sc):
    """the counts stored next to the arrays"""
    f = __import__("h5py").File(h.path("m.med"), "r")
    m = f["ENS_MAA/mesh"]
    h.check(int(m.attrs["ESP"]) == e.points.shape[1], "ESP")
    st = m["-0000000000000000001-0000000000000000001"]
    h.check(int(st["NOE/COO"].attrs["NBR"]) == len(e.points), "number of points")
    h.check(sorted(st["MAI"]) == sorted(MEDNAME[t] for t, _ in e.cells), "cell types in the file")
    for t, c in e.cells:
        h.check(int(st[f"MAI/{MEDNAME[t]}/NOD"].attrs["NBR"]) == len(c), f"number of {t}")
    for n, a in list(e.point_data.items()) + [(n, v[0]) for n, v in e.cell_data.items() if n not in e.point_data]:
        h.check(int(f["CHA"][n].attrs["NCO"]) == (1 if len(a.shape) == 1 else a.shape[-1]), f"NCO of {n}")


def gids(h, g, e, sc):
    if sc.get("kw", {}).get("add_global_ids", True):
        n = len(e.points)
        h.same(g.point_data.get("GLOBAL_ID"), h.const(list(range(1, n + 1)), dtype="i8"), "GLOBAL_ID", kind="iu")
    if sc.get("file"):
        # consecutive id ranges of the nodes and each kind of element, as MOAB wants them
        f = __import__("h5py").File(h.path("m.h5m"), "r")["tstt"]
        names = {"line": ("Edge2", 1), "triangle": ("Tri3", 2), "tetra": ("Tet4", 5)}
        h.check(int(f["nodes/coordinates"].attrs["start_id"]) == 1, "start_id of the nodes")
        rng = []
        for t, c in e.cells:
            gr = f["elements"][names[t][0]]
            h.check(int(gr.attrs["element_type"]) == names[t][1], "element_type")
            s0 = int(gr["connectivity"].attrs["start_id"])
            rng.append((s0, s0 + len(c)))
        rng.sort()
        h.check(rng[0][0] == len(e.points) + 1 and all(a[1] == b[0] for a, b in zip(rng, rng[1:])), f"id ranges {rng}")
        h.check(int(f.attrs["max_id"]) >= rng[-1][1] - 1, "max_id")


def elno(h, sc):
    """data at the nodes of each cell of one block, per cell in the other"""
    mesh, e = build(h, dict(sc, cdata=[]))
    (t, n), (t2, n2) = sc["blocks"]
    k = sc["cdata"][0][1][1]
    a, b = h.floats("qa", (n, NN[t], k)), h.floats("qb", (n2, NN[t2], k))
    mesh.cell_data["q"] = [a, b]
    e.cell_data["q"] = [a, b]
    roundtrip_mesh(h, sc, dict(ext=".med", pad2d=False, order="type"), mesh, e)


def gid(h, sc):
    """ids given by the caller are kept"""
    mesh, e = build(h, sc)
    a = h.ints("gid", (4,), 0, 2**40)
    mesh.point_data["GLOBAL_ID"] = a
    e.point_data["GLOBAL_ID"] = a
    roundtrip_mesh(h, sc, dict(ext=".h5m", pad2d=False, order="type"), mesh, e)


def skip(h, sc):
    """blocks the format cannot take are left out with a warning, the others are kept"""
    mesh, e = build(h, sc)
    ok = ("tetra",) if sc["fmt"] == "cgns" else ("line", "triangle", "tetra")
    e.cells = [(t, c) for t, c in e.cells if t in ok]
    p = h.path("m." + sc["fmt"])
    h.meshio.write(p, mesh)
    compare(h, sc, dict(pad2d=False, order="type", ignore_pdata=("GLOBAL_ID",)), h.meshio.read(p), e)


def h5mhand(h, sc):
    """a file of another producer with every documented element name"""
    h5py = __import__("engine.stubs", fromlist=["MODULES"]).MODULES.get("h5py") if h.symbolic else __import__("h5py")
    names = {"Edge2": "line", "Hex8": "hexahedron", "Prism6": "wedge", "Pyramid5": "pyramid", "Quad4": "quad", "Tri3": "triangle", "Tet4": "tetra"}
    pts = h.floats("x", (4, 3))
    u = h.floats("u", (4,))
    p = h.path("o.h5m")
    f = h5py.File(p, "w")
    t = f.create_group("tstt")
    nodes = t.create_group("nodes")
    nodes.create_dataset("coordinates", data=pts)
    nodes.create_group("tags").create_dataset("u", data=u)
    el = t.create_group("elements")
    cells = {}
    for j, (n, m) in enumerate(names.items()):
        c = h.ints(f"c{j}", (1 + j % 2, NN[m]), 0, 3)
        cells[m] = c
        g = el.create_group(n)
        g.create_dataset("connectivity", data=c + 1)
        g.create_group("tags").create_dataset("q", data=h.const([1.0] * len(c), dtype="f8"))
    f.close()
    g = h.meshio.read(p)
    h.same(g.points, pts, "points")
    h.same(g.point_data.get("u"), u, "point data")
    h.check(sorted(b.type for b in g.cells) == sorted(cells), "cell types")
    for b in g.cells:
        h.same(b.data, cells[b.type], b.type, kind="iu")


def tags(h, sc):
    """families: tags of points and cells and their group names"""
    mesh, e = build(h, dict(npts=4, blocks=[["triangle", 2], ["line", 3], ["vertex", 1]], pdata=[["u", [], "f8"]], cdata=[["q", [], "f8"]]))
    pt = h.ints("pt", (4,), 0, 9)
    ct = [h.ints(f"ct{k}", (n,), -20, 0) for k, n in enumerate((2, 3, 1))]
    k = sc["id"].split("-")[1]
    if k != "ctags":
        mesh.point_data["point_tags"] = pt
        e.point_data["point_tags"] = pt
    if k != "ptags":
        mesh.cell_data["cell_tags"] = ct
        e.cell_data["cell_tags"] = ct
    mesh.cell_tags = {}
    if k == "tags3":
        mesh.point_tags = {-3: ["neg"], 2**31 - 1: ["big", "BIG"], 4: ["a_b"], 5: ["a", "b"]}
        mesh.cell_tags = {-6: ["a"], 6: ["a"], -60: ["a"], -(2**31): ["m"], 7: ["pos", "two  blanks", "a_b", "a", "A"]}
    elif k == "ptags":
        mesh.point_tags = {2: ["only points"]}
    elif k == "longnames":
        mesh.point_tags = {2: ["p" * 80, "q" * 79, "r" * 64]}
        mesh.cell_tags = {-6: ["c" * 80, "x"], -7: ["d" * 65]}
    elif k == "manytags":
        mesh.point_tags = {i: [f"n{i}"] for i in range(1, 13)}
        mesh.cell_tags = {-i: [f"n{j}" for j in range(1, 13)] for i in range(1, 13)}
    elif k == "tags2":
        mesh.point_tags = {2: ["P"], 3: ["A", "B side"]}
        mesh.cell_tags = {-6: ["Top circle"], -7: ["Top", "Top and down"], -12: ["x"]}
    else:
        mesh.cell_tags = {-6: ["a"]}
    exp_p, exp_c = dict(getattr(mesh, "point_tags", {})), dict(mesh.cell_tags)
    g = roundtrip_mesh(h, sc, dict(ext=".med", pad2d=False, order="type"), mesh, e)
    h.check({int(k): list(v) for k, v in g.point_tags.items()} == exp_p, "point_tags")
    h.check({int(k): list(v) for k, v in g.cell_tags.items()} == exp_c, "cell_tags")


def medhand(h, sc):
    """files of other producers: modified after writing with the h5py stand-in / h5py"""
    np = h.np
    k = sc["id"].split("-")[1]
    h5py = __import__("engine.stubs", fromlist=["MODULES"]).MODULES.get("h5py") if h.symbolic else __import__("h5py")
    pts = h.floats("x", (4, 3))
    c0 = h.ints("c0", (2, 3), 0, 3)
    c1 = h.ints("c1", (3, 2), 0, 3)
    p = h.path("a.med")
    f = h5py.File(p, "w")
    m = f.create_group("ENS_MAA").create_group("maillage")
    m.attrs.create("DIM", 2 if k == "surface" else 3)
    m.attrs.create("ESP", 3)
    g = m if k == "flat" else m.create_group("-0000000000000000001-0000000000000000001")
    noe = g.create_group("NOE")
    coo = noe.create_dataset("COO", data=pts.flatten(order="F"))
    coo.attrs.create("NBR", 4)
    mai = g.create_group("MAI")
    for t, c in ((("SE2", c1), ("TR3", c0)) if k == "order" else (("TR3", c0), ("SE2", c1))):
        d = mai.create_group(t).create_dataset("NOD", data=c.flatten(order="F") + 1)
        d.attrs.create("NBR", len(c))
    (f.create_group("FAS").create_group("maillage") if k != "flat" else m.create_group("FAS"))
    cha = f.create_group("CHA")
    exp_p, exp_c = {}, {}
    prof = "MED_NO_PROFILE_INTERNAL"
    steps = {"steps": 2, "flat": 1, "profile": 1, "eleven": 11, "pdt": 3}.get(k, 1)
    fld = cha.create_group("temp")
    for s in range(steps):
        st = fld.create_group(f"{s + 1:020d}{s + 1:020d}")
        tm = 0.5 * (s + 1) if k != "pdt" else 3.0 - s
        st.attrs.create("PDT", tm)
        name = "temp" if steps == 1 else f"temp[{s}] - {tm:g}"
        noe_ = st.create_group("NOE")
        u = h.floats(f"u{s}", (4, 2))
        if k == "profile":
            noe_.attrs.create("PFL", _np.bytes_("P1"))
            pr = noe_.create_group("P1")
            pr.attrs.create("NBR", 4)
            pr.create_dataset("CO", data=u[:2].flatten(order="F"))
            nan = h.array(_np.full((4, 2), _np.nan))
            nan[3] = u[0]
            nan[1] = u[1]
            exp_p[name] = nan
        else:
            noe_.attrs.create("PFL", _np.bytes_(prof))
            pr = noe_.create_group(prof)
            pr.attrs.create("NBR", 4)
            pr.create_dataset("CO", data=u.flatten(order="F"))
            exp_p[name] = u
    q = cha.create_group("flux")
    st = q.create_group("0000000000000000000100000000000000000001")
    st.attrs.create("PDT", 0.0)
    qs = {}
    for t, n in (("TR3", 2), ("SE2", 3)):
        ng = 1 if k == "ga1" else 2
        a = h.floats("q" + t, (n, ng, 3))
        gq = st.create_group("MAI." + t)
        if k == "profile" and t == "SE2":
            gq.attrs.create("PFL", _np.bytes_("P2"))
            pr = gq.create_group("P2")
            pr.attrs.create("NBR", 3)
            pr.attrs.create("NGA", 2)
            pr.create_dataset("CO", data=a[:1].flatten(order="F"))
            nan = h.array(_np.full((3, 2, 3), _np.nan))
            nan[2] = a[0]
            qs[t] = nan
        else:
            gq.attrs.create("PFL", _np.bytes_(prof))
            pr = gq.create_group(prof)
            pr.attrs.create("NBR", n)
            pr.attrs.create("NGA", ng)
            pr.create_dataset("CO", data=a.flatten(order="F"))
            qs[t] = a if ng > 1 else a[:, 0, :]
    if k == "profile":
        pf = f.create_group("PROFILS")
        p1 = pf.create_group("P1")
        p1.attrs.create("NBR", 2)
        p1.create_dataset("PFL", data=_np.array([4, 2]))
        p2 = pf.create_group("P2")
        p2.attrs.create("NBR", 1)
        p2.create_dataset("PFL", data=_np.array([3]))
    f.close()
    g = h.meshio.read(p)
    h.same(g.points, pts, "points")
    h.check(sorted(b.type for b in g.cells) == ["line", "triangle"], "cell types")
    for i, b in enumerate(g.cells):
        h.same(b.data, {"triangle": c0, "line": c1}[b.type], "cells " + b.type)
        h.same(g.cell_data["flux"][i], {"triangle": qs["TR3"], "line": qs["SE2"]}[b.type], "flux " + b.type)
    h.check(set(g.point_data) == set(exp_p), f"point data names {sorted(g.point_data)}")
    for n, a in exp_p.items():
        h.same(g.point_data.get(n), a, "point_data " + n)
