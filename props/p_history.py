"""What is read and written does not depend on what was read or written before."""

import numpy as _np

from .common import NN, data
from .p_nomut import F as FORMATS, FIX, PARTS, copy_of, outline, same

BOUNDS = "two meshes per format of 4..9 points and 1..4 blocks of <= 2 cells, symbolic coordinates, connectivity and data (coordinates fixed for FLAC3D, STL, WKT, Nastran); histories of up to 40 reads and writes: the same format and options again, over existing files, other options, all other formats, refused writes and failed reads, results and inputs changed in place after use; the reference is the package imported anew"
OUTSIDE = "longer histories, several threads or processes; data files next to a DOLFIN XML file that a shorter data set leaves behind"

# types of the larger mesh where the list of the writers is not what the reader can take
TYPES = {"flac3d": ["tetra", "triangle", "hexahedron", "tetra"], "su2": ["triangle", "line", "quad"], "ugrid": ["triangle", "quad", "tetra", "pyramid"], "ugridb": ["triangle", "quad", "tetra", "pyramid"],
         "stl": ["triangle"], "off": ["triangle"], "dolfin-xml": ["triangle"], "tetgen": ["tetra", "tetra"], "tecplot": ["triangle", "quad"], "ansys": ["triangle", "tetra"],
         "h5m": ["triangle", "line"], "nastran": ["triangle", "hexahedron20", "line", "triangle"], "vtk": ["triangle", "hexahedron20", "quad", "triangle"],
         "vtk51": ["triangle", "hexahedron20", "quad", "triangle"], "vtk42": ["triangle", "wedge15", "quad", "triangle"], "vtu": ["triangle", "hexahedron20", "quad", "triangle"],
         "gmsh": ["triangle", "line"], "gmsh22": ["triangle", "tetra10", "hexahedron20", "triangle"], "netgen": ["tetra", "triangle", "line", "tetra"],
         "abaqus": ["triangle", "hexahedron20", "line", "triangle"], "avsucd": ["triangle", "tetra", "hexahedron", "triangle"], "med": ["triangle", "line", "hexahedron20"],
         "xdmf": ["triangle", "hexahedron27", "line", "triangle"], "exodus": ["triangle", "hexahedron20", "line", "triangle"], "hmf": ["triangle", "quad", "triangle"]}
# integer data the format keeps
LABEL = {"medit": "medit:ref", "meditb": "medit:ref", "nastran": "nastran:ref", "avsucd": "avsucd:material", "ugrid": "ugrid:ref", "ugridb": "ugrid:ref", "su2": "su2:tag", "netgen": "netgen:index"}
PTLABEL = ("medit", "meditb", "nastran")
NODATA = ("ugrid", "ugridb", "su2", "netgen", "stl", "ply", "nastran", "medit", "meditb")
GARBAGE = ("vtk", "vtk42", "vtk51", "vtu", "gmsh", "gmsh22", "wkt", "off", "xdmf")
FMTS = [f for f in FORMATS if f != "svg"]


def scenarios(tier):
    out = []

    def add(id, **k):
        out.append(dict(id=id, max_paths=30, **k))
    for f in FMTS:
        opts = FORMATS[f][2]
        for n, kw in enumerate(opts):
            s = f"-{n}" if n else ""
            add(f"again-{f}{s}", k="again", f=f, kw=kw)
            add(f"lent-{f}{s}", k="lent", f=f, kw=kw)
            add(f"failed-{f}{s}", k="failed", f=f, kw=kw)
        if len(opts) > 1:
            add(f"options-{f}", k="options", f=f, kw=opts[0])
            add(f"options2-{f}", k="options", f=f, kw=opts[-1])
        add(f"others-{f}", k="others", f=f, kw=opts[0])
        if f not in ("ansys", "gmsh", "gmsh22", "vtk42", "vtk51", "neuroglancer"):
            add(f"name-{f}", k="name", f=f, kw={})
    for df in ("XML", "HDF", "Binary"):
        add(f"series-{df}", k="series", f="xdmf", df=df, kw={})
    add("defaults", k="defaults", f="vtk", kw={})
    for f, o in (("vtk42", {"binary": False}), ("vtk51", {"binary": False}), ("vtu", {"compression": None}), ("vtu", {}), ("gmsh", {}), ("gmsh", {"binary": False})):
        add(f"dialect-{f}-{len(out)}", k="dialect", f=f, kw=o)
    return out


def name(h, f):
    """formats by extension, again and again"""
    h.fresh()
    ref = parts(h, get(h, f, put(h, f, "r", mesh(h, f, "A"), {})))
    h.fresh()
    known = {k: list(v) for k, v in h.meshio.extension_to_filetypes.items()}
    for n in range(4):
        p = h.path(f"a{n}" + (ext(f).upper() if n == 2 and f in ("vtk", "vtu", "ply", "stl", "off", "obj", "abaqus", "h5m", "med", "xdmf") else ext(f)))
        if n % 2:
            h.meshio.write(p, mesh(h, f, "A"))
        else:
            mesh(h, f, "A").write(p)
        compare(h, h.meshio.read(p), ref, f"by name, {n} times before")
        h.check({k: list(v) for k, v in h.meshio.extension_to_filetypes.items()} == known, "the table of extensions changed")
        try:
            h.meshio.read(h.path("missing" + ext(f)))
            h.fail("a missing file was read")
        except h.meshio.ReadError:
            pass
        for bad in ("x.unknown", "x"):
            try:
                h.meshio.write(h.path(bad), mesh(h, f, "A"))
                h.fail("an unknown extension was written")
            except (h.meshio.WriteError, h.meshio.ReadError):
                pass


def defaults(h):
    """what one mesh is given is not seen in another"""
    h.fresh()
    M = h.meshio
    x, c, s = h.floats("x", (3, 2)), h.ints("c", (2, 3), 0, 2), h.floats("s", (3,))
    for n in range(3):
        m = M.Mesh(x, [("triangle", c), M.CellBlock("triangle", c)])
        for a in ("point_data", "cell_data", "field_data", "point_sets", "cell_sets"):
            h.check(getattr(m, a) == {}, f"{a} of a new mesh: {getattr(m, a)}")
        h.check(len(m.cells) == 2, f"{len(m.cells)} blocks")
        for b in m.cells:
            h.check(list(b.tags) == [], f"tags of a new block: {b.tags}")
            b.tags.append("t")
        h.check(m.gmsh_periodic is None and m.info is None, "periodic data or info of a new mesh")
        m.point_data["s"] = s
        m.cell_data["q"] = [s[:2], s[1:]]
        m.field_data["f"] = s
        m.point_sets["p"] = h.const([0], dtype="i8")
        m.cell_sets["S"] = [h.const([1], dtype="i8"), h.const([0], dtype="i8")]
        h.same(m.cells_dict["triangle"], h.np.concatenate([c, c]), "cells per type")
        h.same(m.cell_data_dict["q"]["triangle"], h.np.concatenate([s[:2], s[1:]]), "data per type")
        h.same(m.cell_sets_dict["S"]["triangle"], h.const([1, 2], dtype="i8"), "sets per type", kind="iu")
        m.cells.append(M.CellBlock("line", c[:, :2]))
        h.same(m.cells_dict["line"], c[:, :2], "cells of an appended block")
        m.cells.pop()
        h.check(list(m.cells_dict) == ["triangle"], "cells per type after a block was removed")


GRID = """# vtk DataFile Version %s
t
ASCII
DATASET STRUCTURED_POINTS
DIMENSIONS 2 2 1
ORIGIN 0 0 0
SPACING 1 2 1
POINT_DATA 4
SCALARS grid double 1
LOOKUP_TABLE default
1 2 3 4
"""


def dialect(h, f, kw):
    """files with sections that others do not have, in turn"""
    if f == "gmsh":
        def go(v, w, n, fresh):
            if fresh:
                h.fresh()
            p = h.path(f"{n}.msh")
            m = mesh(h, "gmsh", w)
            if v != "4.1":
                m.point_data.pop("gmsh:dim_tags", None)
            h.meshio.gmsh.write(p, m, fmt_version=v, **kw)
            h.check(h.read_bytes(p).startswith(f"$MeshFormat\n{v} ".encode()), f"version {v} after {n} others")
            return get(h, f, p)
        vs = ["4.1", "4.0", "2.2"]
        ref = {(v, w): parts(h, go(v, w, f"r{v}{w}", True)) for v in vs for w in "AB"}
        for vs in (vs, vs[::-1], vs[1:] + vs[:1]):
            h.fresh()
            for n, (v, w) in enumerate((v, w) for w in "BA" for v in vs):
                compare(h, go(v, w, n, False), ref[v, w], f"version {v} after {n} others")
        return
    files = {w: put(h, f, w, mesh(h, f, w), dict(kw, header_type="UInt32") if f == "vtu" else kw) for w in "AB"}
    if f == "vtu":
        files["64"] = put(h, f, "64", mesh(h, f, "A"), dict(kw, header_type="UInt64"))
        files["ascii"] = put(h, f, "ascii", mesh(h, f, "B"), {"binary": False})
        files["lzma"] = put(h, f, "lzma", mesh(h, f, "B"), {"compression": "lzma"})
        files["none"] = put(h, f, "none", mesh(h, f, "B"), {"compression": None})
        # the attribute may be left out
        for w in "AB":
            b = h.read_bytes(files[w])
            h.check(b' header_type="UInt32"' in b, "type of the headers")
            files["no" + w] = h.write_bytes(f"no{w}.vtu", b.replace(b' header_type="UInt32"', b""))
    else:
        t = h.read_text(files["A"])
        files["fields"] = h.write_text("f.vtk", t.replace("DATASET UNSTRUCTURED_GRID\n", "DATASET UNSTRUCTURED_GRID\nFIELD FieldData 2\ntime 1 1 double\n1.5\ncycle 1 2 int\n3 4\n", 1))
        files["grid"] = h.write_text("g.vtk", GRID % {"vtk42": "4.2", "vtk51": "5.1"}[f])
    ref = {}
    for k, p in files.items():
        h.fresh()
        ref[k] = parts(h, get(h, f, p))
    h.fresh()
    for a in files:
        for b in files:
            compare(h, get(h, f, files[a]), ref[a], f"{a} before {b}")
            compare(h, get(h, f, files[b]), ref[b], f"{b} after {a}")


def steps(h, w):
    return [(0.5 + k + (10 if w == "B" else 0), data(h, f"t{w}{k}", (3 + (w == "B"),), "f8"), data(h, f"u{w}{k}", (2,), "f8")) for k in range(2)]


def one(h, w):
    n = 3 + (w == "B")
    return data(h, "x" + w, (n, 2 + (w == "B")), "f8"), [("triangle" if w == "A" else "quad", h.ints("c" + w, (2, 3 + (w == "B")), 0, n - 1))]


def back(h, p, note, w):
    x, cells = one(h, w)
    with h.meshio.xdmf.TimeSeriesReader(p) as r:
        px, cc = r.read_points_cells()
        h.same(px, x, f"{note}: points")
        h.check(len(cc) == 1 and cc[0].type == cells[0][0], f"{note}: blocks {cc}")
        h.same(cc[0].data, cells[0][1], f"{note}: cells", kind="iu")
        st = steps(h, w)
        h.check(r.num_steps == len(st), f"{note}: {r.num_steps} steps")
        for k in (1, 0, 1):
            t, pd, cd = r.read_data(k)
            h.check(t == st[k][0], f"{note}: time {t} of step {k}")
            h.check(list(pd) == ["s" + w] and list(cd) == ["q" + w], f"{note}: names {list(pd)} {list(cd)}")
            h.same(pd["s" + w], st[k][1], f"{note}: point data of step {k}")
            h.same(cd["q" + w][0], st[k][2], f"{note}: cell data of step {k}")


def series(h, sc):
    """two series written side by side, then again one after the other over the old files"""
    h.fresh()
    W = h.meshio.xdmf.TimeSeriesWriter
    pa, pb = h.path("a.xdmf"), h.path("b.xdmf")
    with W(pa, data_format=sc["df"]) as wa, W(pb, data_format=sc["df"]) as wb:
        wa.write_points_cells(*one(h, "A"))
        wb.write_points_cells(*one(h, "B"))
        for (t, s, q), (t2, s2, q2) in zip(steps(h, "A"), steps(h, "B")):
            wa.write_data(t, point_data={"sA": s}, cell_data={"qA": [q]})
            wb.write_data(t2, point_data={"sB": s2}, cell_data={"qB": [q2]})
    back(h, pa, "side by side", "A")
    back(h, pb, "side by side", "B")
    for p, w in ((pa, "B"), (pb, "A"), (pa, "A")):
        with W(p, data_format=sc["df"]) as wr:
            wr.write_points_cells(*one(h, w))
            for t, s, q in steps(h, w):
                wr.write_data(t, point_data={"s" + w: s}, cell_data={"q" + w: [q]})
        back(h, p, "over an older series", w)


def mesh(h, f, which):
    """which: "A", the larger one, or "B"; the arrays of one name are the same inputs each time"""
    types = TYPES.get(f) or FORMATS[f][1]
    small = which == "B"
    dim = 2 if f == "su2" or (small and f in ("vtu", "xdmf", "medit", "meditb", "gmsh", "netgen", "dolfin-xml", "med", "exodus", "tecplot", "obj")) else 3
    npts = 9 if f in FIX else 3 if small else 4
    if f in FIX:
        x = outline(h, f, npts, dim)
        if small:
            x = x[::-1].copy()
    else:
        x = data(h, "x" + which, (npts, dim), "f8")
    cdt = "i4" if small else "i8"
    if small:
        types = types[-1:]
    cells = []
    for b, t in enumerate(types):
        m = 1 if small or b % 2 else 2
        if f in FIX:
            cells.append((t, h.const([[(i + j + b + small) % npts for i in range(NN[t])] for j in range(m)], dtype=cdt)))
        else:
            cells.append((t, h.ints(f"c{which}{b}", (m, NN[t]), 0, npts - 1, cdt)))
    n = [len(c) for _, c in cells]
    pd, cd, kw = {}, {}, {}
    if f in LABEL:
        rng = (1, 1) if f in ("netgen",) else (1, 2)
        cd[LABEL[f]] = [h.const([1 + j % rng[1] for j in range(m)], dtype="i8") if f in ("su2", "netgen", "nastran") else h.ints(f"l{which}{b}", (m,), *rng) for b, m in enumerate(n)]
        if f in PTLABEL:
            pd[LABEL[f]] = h.const([1 + j % 2 for j in range(npts)], dtype="i8")
    if f not in NODATA:
        q = data(h, "s" + which, (npts,), "f8")
        pd["s" if not small else "other"] = q
        if f not in ("h5m", "obj"):
            cd["q" if not small else "r"] = [data(h, f"q{which}{b}", (m,), "f8") for b, m in enumerate(n)]
    if f == "gmsh" and not small:
        pd["gmsh:dim_tags"] = h.const([[2, 1], [2, 1], [1, 2], [1, 2]], dtype="i4")
    if f in ("gmsh", "gmsh22"):
        cd["gmsh:physical"] = [h.const([1 + b] * m, dtype="i4") for b, m in enumerate(n)]
        cd["gmsh:geometrical"] = [h.const([1 + b] * m, dtype="i4") for b, m in enumerate(n)]
        kw["field_data"] = {"reg" + which: h.const([1, 2], dtype="i8")}
    if f in ("abaqus", "flac3d", "exodus"):
        kw["point_sets"] = {"P" + which: h.const([0, 2], dtype="i8")}
        kw["cell_sets"] = {"S" + which: [h.const([0], dtype="i8") for m in n]}
    return h.meshio.Mesh(x, cells, point_data=pd, cell_data=cd, **kw)


def ext(f):
    return FORMATS[f][0]


def put(h, f, name, m, kw):
    p = h.path(name + ext(f))
    h.meshio.write(p, m, file_format=f.rstrip("b") if f in ("meditb", "ugridb") else f, **kw)
    return p


READAS = {"vtk42": "vtk", "vtk51": "vtk", "gmsh22": "gmsh", "meditb": "medit", "ugridb": "ugrid"}


def get(h, f, p):
    return h.meshio.read(p, file_format=READAS.get(f, f))


def parts(h, g):
    return {a: copy_of(h, getattr(g, a)) for a in PARTS if hasattr(g, a)}


def compare(h, g, ref, note):
    for a in ref:
        h.check(hasattr(g, a), f"{note}: no {a}")
        same(h, getattr(g, a), ref[a], f"{note}: {a}")


def spoil(g):
    """change what a caller holds"""
    def clear(v):
        if isinstance(v, dict):
            for x in v.values():
                clear(x)
            v.clear()
        elif isinstance(v, list):
            for x in v:
                clear(x)
            del v[:]
        elif hasattr(v, "type") and hasattr(v, "data") and not hasattr(v, "dtype"):
            clear(v.data)
        elif hasattr(v, "dtype") and getattr(v, "ndim", 0) > 0 and v.flags.writeable:
            v[...] = 0
    for a in PARTS:
        if hasattr(g, a):
            clear(getattr(g, a))


def harness(h, sc):
    try:
        run(h, sc)
    finally:
        h.restore()


def run(h, sc):
    f, kw, k = sc["f"], sc["kw"], sc["k"]
    if k == "name":
        return name(h, f)
    if k == "defaults":
        return defaults(h)
    if k == "series":
        return series(h, sc)
    if k == "dialect":
        return dialect(h, f, kw)
    ref = {}
    for w in "AB":
        h.fresh()
        ref[w] = parts(h, get(h, f, put(h, f, "r" + w, mesh(h, f, w), kw)))
    h.fresh()
    if k == "again":
        # dolfin keeps data in files of their own beside the mesh
        over = f != "dolfin-xml"
        p = put(h, f, "a", mesh(h, f, "A"), kw)
        compare(h, get(h, f, p), ref["A"], "first")
        p = put(h, f, "a" if over else "b", mesh(h, f, "B"), kw)
        compare(h, get(h, f, p), ref["B"], "other mesh after the first")
        p = put(h, f, "a" if over else "c", mesh(h, f, "A"), kw)
        compare(h, get(h, f, p), ref["A"], "first mesh again")
        compare(h, get(h, f, p), ref["A"], "read again")
        q = put(h, f, "d", mesh(h, f, "B"), kw)
        compare(h, get(h, f, p), ref["A"], "first file after another was written")
        compare(h, get(h, f, q), ref["B"], "other file")
        h.fresh()
        p = put(h, f, "e", mesh(h, f, "B"), kw)
        compare(h, get(h, f, p), ref["B"], "other mesh first")
        p = put(h, f, "e" if over else "g", mesh(h, f, "A"), kw)
        compare(h, get(h, f, p), ref["A"], "first mesh over the other")
    elif k == "lent":
        m = mesh(h, f, "A")
        p = put(h, f, "a", m, kw)
        spoil(m)
        g = get(h, f, p)
        compare(h, g, ref["A"], "file after the mesh was changed")
        spoil(g)
        compare(h, get(h, f, p), ref["A"], "file after the mesh read was changed")
        q = put(h, f, "b", mesh(h, f, "B"), kw)
        compare(h, get(h, f, q), ref["B"], "other mesh after the mesh read was changed")
    elif k == "options":
        for n, o in enumerate(FORMATS[f][2]):
            if o == kw:
                continue
            p = put(h, f, f"a{n}", mesh(h, f, "B"), o)
            get(h, f, p)
            p = put(h, f, f"b{n}", mesh(h, f, "A"), kw)
            compare(h, get(h, f, p), ref["A"], f"after writing with {o}")
            p = put(h, f, f"b{n}" if f != "dolfin-xml" else f"c{n}", mesh(h, f, "B"), kw)
            compare(h, get(h, f, p), ref["B"], f"other mesh after writing with {o}")
    elif k == "others":
        for o in FMTS:
            if o != f:
                get(h, o, put(h, o, "o_" + o, mesh(h, o, "B"), FORMATS[o][2][-1]))
        compare(h, get(h, f, put(h, f, "a", mesh(h, f, "A"), kw)), ref["A"], "after other formats")
        compare(h, get(h, f, put(h, f, "b", mesh(h, f, "B"), kw)), ref["B"], "other mesh after other formats")
    elif k == "failed":
        M = h.meshio
        for bad in (M.Mesh(h.const([[0.0, 0, 0]], dtype="f8"), [("triangle", h.const([[0, 0]], dtype="i8"))]),
                    M.Mesh(h.const([[0.0, 0, 0]], dtype="f8"), [("VTK_BEZIER_WEDGE", h.const([[0, 0]], dtype="i8"))], cell_data={"q": [h.const([1.0], dtype="f8")]})):
            try:
                put(h, f, "bad", bad, kw)
            except (M.WriteError, KeyError, ValueError, AssertionError, TypeError, IndexError):
                pass
        # several readers never end on files of another kind
        for n, text in enumerate((None, b"no mesh at all\n1 2 3\n")[: 2 if f in GARBAGE else 1]):
            try:
                get(h, f, h.path("missing" + ext(f)) if text is None else h.write_bytes(f"bad{n}" + ext(f), text))
            except (M.ReadError, KeyError, ValueError, AssertionError, TypeError, IndexError, OSError, SystemExit, RuntimeError, AttributeError, UnboundLocalError, SyntaxError, MemoryError):
                pass
            except Exception as e:  # struct.error, ParseError, zlib.error
                if type(e).__name__ not in ("error", "ParseError", "StopIteration", "UnboundLocalError"):
                    raise
        for w in "ABA":
            p = put(h, f, "n" + w + str(len(w)), mesh(h, f, w), kw)
            compare(h, get(h, f, p), ref[w], "after refused writes and failed reads")
