"""meshio.read / meshio.write: which format a file name or format name stands for."""

import io
import os
import pathlib
import struct

from .common import NN
from .p_nomut import F as OUT

BOUNDS = "every registered extension and format name; names with several dots, upper case, other formats' suffixes; formats registered by the user, links, relative and Path names, buffers; 3..8 points, 1..2 cells, symbolic coordinates and connectivity"
OUTSIDE = "buffers of the formats whose libraries need a file (HDF5, netCDF, XML, gmsh, vtk); file systems without case"

# extensions that stand for a format (documentation: list of formats)
EXT = {
    "abaqus": [".inp"], "ansys": [".msh"], "avsucd": [".avs"], "cgns": [".cgns"], "dolfin-xml": [".xml"], "exodus": [".e", ".exo", ".ex2"],
    "flac3d": [".f3grid"], "h5m": [".h5m"], "hmf": [".hmf"], "mdpa": [".mdpa"], "med": [".med"], "medit": [".mesh", ".meshb"],
    "nastran": [".bdf", ".fem", ".nas"], "netgen": [".vol", ".vol.gz"], "obj": [".obj"], "off": [".off"],
    "permas": [".post", ".dato", ".post.gz", ".dato.gz"], "ply": [".ply"], "stl": [".stl"],
    "su2": [".su2"], "svg": [".svg"], "tecplot": [".dat", ".tec"], "tetgen": [".ele", ".node"], "ugrid": [".ugrid", ".b8.ugrid", ".lr4.ugrid"], "vtk": [".vtk"],
    "vtu": [".vtu"], "wkt": [".wkt"], "xdmf": [".xdmf", ".xmf"],
}
MOD = {"dolfin-xml": "dolfin"}
VERSIONS = {"vtk42": ("vtk", b"# vtk DataFile Version 4.2"), "vtk51": ("vtk", b"# vtk DataFile Version 5.1"), "vtk": ("vtk", b"# vtk DataFile Version 5.1"),
            "gmsh22": ("gmsh", b"$MeshFormat\n2.2 "), "gmsh": ("gmsh", b"$MeshFormat\n4.1 ")}
NAMES = ["a{}", "A.B-1.5 c{}", "a.vtk.stl{}", "d.vtu/a{}", ".a{}", "ä{}"]
BUF = {"abaqus": io.StringIO, "avsucd": io.StringIO, "nastran": io.StringIO, "netgen": io.StringIO, "obj": io.StringIO, "permas": io.StringIO, "tecplot": io.StringIO,
       "wkt": io.StringIO, "neuroglancer": io.BytesIO, "ply": io.BytesIO}


def scenarios(tier):
    out = []

    def add(i, k, **sc):
        out.append(dict(id=i, k=k, **sc))

    for f, exts in EXT.items():
        for e in exts:
            for n in range(len(NAMES)):
                add(f"ext-{f}{e}-{n}", "ext", f=f, e=e, n=n)
            if f not in ("tetgen", "ugrid"):
                add(f"ext-{f}{e}-upper", "ext", f=f, e=e.upper(), n=0)
                add(f"ext-{f}{e}-mixed", "ext", f=f, e=e.title(), n=2)
        if f not in ("tetgen", "medit", "ugrid", "svg"):
            add(f"fmt-{f}", "fmt", f=f)
    for v, (f, head) in VERSIONS.items():
        for b in (True, False):
            add(f"version-{v}-{'b' if b else 'a'}", "version", v=v, binary=b)
    for v in ("ansys", "gmsh22", "gmsh"):
        for b in (True, False):
            add(f"msh-{v}-{'b' if b else 'a'}", "msh", v=v, binary=b)
    for t in sorted(NN):
        if NN[t] > 1:
            add(f"nodes-{t}", "nodes", t=t)
    for f in sorted(OUT):
        if f not in ("meditb", "ugridb"):
            add(f"nodesf-{f}", "nodesf", f=f)
    for f in BUF:
        add(f"buf-{f}", "buf", f=f)
    for k in ("unknown", "missing", "register", "order", "deregister", "points_cells", "noformat", "link", "onepart"):
        add(k, k)
    return out


def harness(h, sc):
    globals()[sc["k"]](h, sc)


def mesh_of(h, f):
    t = (OUT[f][1] or ["tetra"])[0]
    if f in ("tetgen", "flac3d", "cgns", "nastran"):
        t = "tetra"
    x = h.floats("x", (4, 3))
    if f in ("flac3d", "svg"):
        x = h.const([[0, 0, 0], [2, 0, 0], [0, 1, 0], [0, 0, 0 if f == "svg" else 1]], dtype="f8")
    elif f in ("nastran", "tetgen", "stl", "wkt"):
        x = h.const([[0.5, -2, 3], [1.25, 4, -7], [3, 1, 6], [0, 0, 1]], dtype="f8")
    if f in ("stl", "wkt", "flac3d"):
        c = h.const([list(range(NN[t])), list(range(NN[t]))[::-1]][:1 if f == "flac3d" else 2], dtype="i8")
    else:
        c = h.ints("c", (2, NN[t]), 0, 3)
    return h.meshio.Mesh(x, [(t, c)])


def eqmesh(h, a, b, label):
    h.same(a.points, b.points, label + ": points", dtype=b.points.dtype)
    h.check([(c.type, tuple(c.data.shape)) for c in a.cells] == [(c.type, tuple(c.data.shape)) for c in b.cells], label + ": blocks")
    for x, y in zip(a.cells, b.cells):
        h.same(x.data, y.data, label + ": cells")
    h.check(set(a.point_data) == set(b.point_data) and set(a.cell_data) == set(b.cell_data), label + ": data")


def module(h, f):
    return getattr(h.meshio, MOD.get(f, f))


def reference(h, f, ext, m, **kw):
    """the mesh as the functions of the format's own module give it back"""
    os.makedirs(h.path("ref"), exist_ok=True)
    p = h.path("ref/r" + ext)
    module(h, f).write(p, m, **kw)
    return module(h, f).read(p) if f != "svg" else None


def ext(h, sc):
    f = sc["f"]
    m = mesh_of(h, f)
    p = h.path(NAMES[sc["n"]].format(sc["e"]))
    os.makedirs(os.path.dirname(p), exist_ok=True)
    how = h.choice("how", [0, 1, 2])
    if how == 1:
        p = pathlib.Path(p)
    if how == 2:
        m.write(p)
    else:
        h.meshio.write(p, m)
    if f == "svg":
        h.check(h.read_bytes(p)[:4] == b"<svg", "an SVG file")
        try:
            h.meshio.read(p)
        except h.meshio.ReadError:
            return
        return h.fail("SVG cannot be read")
    g = h.meshio.Mesh.read(p) if how == 2 else h.meshio.read(p)
    eqmesh(h, g, reference(h, f, sc["e"].lower(), m), f"{f} by extension")
    eqmesh(h, h.meshio.read(p, file_format=f), g, f"read as {f}")


def fmt(h, sc):
    """the format given by name wins over the extension"""
    f = sc["f"]
    m = mesh_of(h, f)
    ref = reference(h, f, EXT[f][0], m)
    for n in ("a.vtk", "a.stl", "a", "a.unknown"):
        if n.endswith(EXT[f][0]):
            continue
        p = h.path(n)
        h.meshio.write(p, m, file_format=f)
        eqmesh(h, h.meshio.read(p, file_format=f), ref, f"{f} in {n}")


def version(h, sc):
    f, head = VERSIONS[sc["v"]]
    m = mesh_of(h, f)
    p = h.path("a.x")
    h.meshio.write(p, m, file_format=sc["v"], binary=sc["binary"])
    h.check(h.read_bytes(p)[: len(head)] == head, "version of the file")
    first = h.read_bytes(p)[:300]
    if f == "vtk":
        h.check((b"BINARY" in first) == sc["binary"] and (b"ASCII" in first) != sc["binary"], "binary or ASCII")
    else:
        h.check(first[len(head):].split()[0] == (b"1" if sc["binary"] else b"0"), "binary or ASCII")
    g = h.meshio.read(p, file_format=f)
    h.same(g.points, m.points, "points")
    h.check(len(g.cells) == 1 and g.cells[0].type == m.cells[0].type, "type")
    h.same(g.cells[0].data, m.cells[0].data, "cells")


def msh(h, sc):
    """.msh: ANSYS or Gmsh, found out from the content"""
    m = mesh_of(h, sc["v"])
    p = h.path("a.msh")
    h.meshio.write(p, m, file_format=sc["v"], binary=sc["binary"])
    g = h.meshio.read(p)
    h.same(g.points, m.points, "points", digits=16 if not sc["binary"] else None)
    h.check(len(g.cells) == 1 and g.cells[0].type == m.cells[0].type, "type")
    h.same(g.cells[0].data, m.cells[0].data, "cells")
    h.check(("gmsh:dim_tags" in g.point_data) == (sc["v"] == "gmsh"), "read as the right format")


def refused(h, p, m, f, label, had):
    try:
        h.meshio.write(p, m, file_format=f)
    except h.meshio.WriteError:
        h.check(h.read_bytes(p) == b"keep" if had else not os.path.exists(p), label + ": refused, but something was written")
        return
    h.fail(label + ": accepted")


def nodes(h, sc):
    """a block with the wrong number of nodes per cell is refused, wherever it is"""
    t = sc["t"]
    old = tables(h)
    try:
        w = Fmt(h, "w")
        h.meshio.register_format("w", [".w"], w.read, {"w": w.write})
        good = h.ints("good", (2, NN[t]), 0, 3) if NN[t] < 30 else h.const([[k % 4 for k in range(NN[t])]], dtype="i8")
        m = h.meshio.Mesh(h.floats("x", (4, 3)), [("line", h.ints("l", (1, 2), 0, 3))] * 11 + [(t, good)])
        h.meshio.write(h.path("a.w"), m)
        h.check(len(w.log) == 1, f"{t} with {NN[t]} nodes is refused")
        m = h.meshio.Mesh(h.floats("x", (4, 3)), [("line", h.ints("l", (1, 2), 0, 3))] * 11 + [(t, h.const([[0] * (NN[t] + 1)], dtype="i8"))])
        refused(h, h.path("a.w"), m, None, f"{t} with {NN[t] + 1} nodes after many blocks", False)
    finally:
        restore(old)
    for n in (NN[t] - 1, NN[t] + 1):
        c = h.ints(f"c{n}", (2, n), 0, 3) if n < 30 else h.const([[k % 4 for k in range(n)]], dtype="i8")
        for i, cells in enumerate(([(t, c)], [("line", h.ints(f"l{n}", (1, 2), 0, 3)), (t, c)])):
            for f in ("vtu", "gmsh", "xdmf", "medit"):
                had = h.bool(f"had{n}_{i}_{f}") if f == "vtu" else False
                p = h.path(f"a{n}{i}.{f}")
                if had:
                    h.write_bytes(f"a{n}{i}.{f}", b"keep")
                m = h.meshio.Mesh(h.floats("x", (4, 3)), cells)
                refused(h, p, m, f, f"{t} with {n} nodes in {f}", had)


def nodesf(h, sc):
    for t, n in (("triangle", 4), ("tetra", 3), ("quad", 3)):
        m = h.meshio.Mesh(h.floats("x", (4, 3)), [(t, h.ints("c" + t, (2, n), 0, 3))])
        refused(h, h.path("a.x"), m, sc["f"], f"{t} with {n} nodes", False)


def link(h, sc):
    """the name that was given counts, not the one a link stands for; relative names"""
    m = mesh_of(h, "vtu")
    for n, (f, e) in enumerate((("vtu", ".vtu"), ("vtk", ".vtk"), ("gmsh22", ".msh"), ("abaqus", ".inp"))):
        h.meshio.write(h.path(f"blob{n}.stl"), m, file_format=f)
        os.symlink(h.path(f"blob{n}.stl"), h.path(f"s{n}{e}"))
        g = h.meshio.read(h.path(f"s{n}{e}"))
        h.same(g.points, m.points, f + " through a link")
        h.same(g.cells[0].data, m.cells[0].data, f + " through a link")
        rel = os.path.relpath(h.path(f"s{n}{e}"))
        h.same(h.meshio.read(rel).points, m.points, f + " by a relative name")
        h.same(h.meshio.read(pathlib.Path(rel)).points, m.points, f + " by a relative path")


def onepart(h, sc):
    """write_points_cells: each part on its own"""
    io_ = h.meshio
    x = h.floats("x", (3, 3))
    cells = [("line", h.ints("l", (2, 2), 0, 2))]
    parts = dict(point_data={"p": h.floats("p", (3,))}, cell_data={"c": [h.floats("c", (2,))]}, field_data={"f": h.const([1, 1], dtype="i8")},
                 point_sets={"P": h.const([1], dtype="i8")}, cell_sets={"S": [h.const([1], dtype="i8")]})
    t = tables(h)
    try:
        a = Fmt(h, "fa")
        io_.register_format("fa", [".fa"], a.read, {"fa": a.write})
        for use in [[k] for k in parts] + [[k for k in parts if k != q] for q in parts] + [list(parts), []]:
            a.log.clear()
            io_.write_points_cells(h.path("x.fa"), x, cells, opt=1, **{k: dict(parts[k]) for k in use})
            m = a.log[0][2]
            h.check(a.log[0][3] == {"opt": 1}, "options")
            h.same(m.points, x, "points")
            h.same(m.cells[0].data, cells[0][1], "cells")
            for k in parts:
                d = getattr(m, k)
                h.check(set(d) == (set(parts[k]) if k in use else set()), f"{k} of {use}")
                for nm in d:
                    u, v = d[nm], parts[k][nm]
                    h.same(u[0] if isinstance(u, list) else u, v[0] if isinstance(v, list) else v, f"{k} of {use}")
    finally:
        restore(t)


def buf(h, sc):
    f = sc["f"]
    m = mesh_of(h, f)
    b = BUF[f]()
    h.meshio.write(b, m, file_format=f)
    b.seek(0)
    g = h.meshio.read(b, file_format=f)
    eqmesh(h, g, reference(h, f, ".x", m), f"{f} in memory")


def raises(h, exc, fn, label):
    try:
        fn()
    except exc:
        return h.check(True, label)
    except Exception as e:
        return h.fail(f"{label}: {type(e).__name__}")
    h.fail(label + ": accepted")


def unknown(h, sc):
    io_ = h.meshio
    m = mesh_of(h, "vtu")
    for n in ("a", "a.", "a.unknown", "vtk", ".vtk", "a.vt", "a.vtkk", "a.gz", "vtk.d/a", "a.vtk.gz"):
        raises(h, io_.ReadError, lambda: io_.write(h.path(n), m), f"write {n}")
        h.check(not os.path.exists(h.path(n)), f"{n} was written")
        p = h.path("b" + n) if n not in ("vtk.d/a", ".vtk") else h.path("c" + n.replace("/", "")[0])
        h.write_bytes(os.path.basename(p), b"data")
        raises(h, io_.ReadError, lambda: io_.read(p), f"read {n}")
    for f in ("unknown", "VTK", "svg", "xml", "vtk 5.1"):
        if f != "svg":
            raises(h, io_.WriteError, lambda: io_.write(h.path("x.vtk"), m, file_format=f), f"write as {f}")
            h.check(not os.path.exists(h.path("x.vtk")), "x.vtk was written")
        h.write_bytes("y.vtk", b"data")
        raises(h, io_.ReadError, lambda: io_.read(h.path("y.vtk"), file_format=f), f"read as {f}")


def missing(h, sc):
    io_ = h.meshio
    for f, exts in EXT.items():
        for e in exts:
            raises(h, io_.ReadError, lambda: io_.read(h.path("no" + e)), f"missing {e}")
            raises(h, io_.ReadError, lambda: io_.read(h.path("no" + e), file_format=f), f"missing {e} as {f}")


def noformat(h, sc):
    io_ = h.meshio
    m = mesh_of(h, "vtu")
    for B in (io.StringIO, io.BytesIO):
        for f in (None, "unknown", "tetgen"):
            b = B()
            raises(h, io_.ReadError, lambda: io_.read(b, file_format=f), f"read buffer as {f}")
            raises(h, io_.WriteError, lambda: io_.write(b, m, file_format=f), f"write buffer as {f}")
            h.check(not b.getvalue(), "something was written")


class Fmt:
    """a format of the user; keeps what it is asked to do"""

    def __init__(self, h, name, ok=True):
        self.h, self.name, self.ok, self.log = h, name, ok, []

    def read(self, filename):
        self.log.append(("r", os.path.basename(str(filename))))
        if not self.ok:
            raise self.h.meshio.ReadError("not this one")
        return ("mesh of", self.name)

    def write(self, filename, mesh, **kw):
        self.log.append(("w", os.path.basename(str(filename)), mesh, kw))


def tables(h):
    from copy import deepcopy

    hp = __import__("sys").modules["meshio._helpers"]
    return [(d, deepcopy(d)) for d in vars(hp).values() if type(d) is dict and "__name__" not in d]


def restore(t):
    for d, o in t:
        d.clear()
        d.update(o)


def register(h, sc):
    io_ = h.meshio
    t = tables(h)
    try:
        a = Fmt(h, "fa")
        io_.register_format("fa", [".fa", ".f.gz", ".p.q.r"], a.read, {"fa": a.write, "fa2": a.write})
        m = mesh_of(h, "vtu")
        for n in ("x.fa", "x.f.gz", "X.FA", "y.z.f.gz", "x.p.q.r", "a.b.P.q.R"):
            io_.write(h.path(n), m, opt=n)
            h.check(len(a.log) == 1 and a.log[0][:2] == ("w", n) and a.log[0][2] is m and a.log[0][3] == {"opt": n}, f"writer of {n}")
            a.log.clear()
            h.write_bytes(n, b"")
            h.check(io_.read(h.path(n)) == ("mesh of", "fa") and a.log == [("r", n)], f"reader of {n}")
            a.log.clear()
        io_.write(h.path("x.vtk"), m, file_format="fa2")
        h.check([r[:2] for r in a.log] == [("w", "x.vtk")], "second writer")
        b = io.BytesIO()
        io_.write(b, m, file_format="fa")
        h.check(len(a.log) == 2 and a.log[1][2] is m, "buffer")
        # the others are still there
        io_.write(h.path("x.vtu"), m)
        h.same(io_.read(h.path("x.vtu")).points, m.points, "vtu")
    finally:
        restore(t)


def order(h, sc):
    """several formats for one extension: the first that can read the file; written as the first"""
    io_ = h.meshio
    t = tables(h)
    try:
        fs = [Fmt(h, f"f{k}", h.bool(f"ok{k}")) for k in range(3)]
        for f in fs:
            io_.register_format(f.name, [".zz"], f.read, {f.name: f.write})
        m = mesh_of(h, "vtu")
        io_.write(h.path("x.zz"), m)
        h.check([len(f.log) for f in fs] == [1, 0, 0], "written as the first")
        fs[0].log.clear()
        h.write_bytes("x.zz", b"")
        good = [k for k in range(3) if fs[k].ok]
        # asked for by name: this one and no other
        for k, f in enumerate(fs):
            try:
                r = io_.read(h.path("x.zz"), file_format=f.name)
            except (SystemExit, io_.ReadError):
                r = None
            h.check(r == (("mesh of", f.name) if f.ok else None), f"read as {f.name}")
            h.check([len(g.log) for g in fs] == [1 if g is f else 0 for g in fs], f"only {f.name} reads the file")
            f.log.clear()
        try:
            r = io_.read(h.path("x.zz"))
        except (SystemExit, io_.ReadError):
            return h.check(not good, "a format that can read the file was not used")
        h.check(bool(good) and r == ("mesh of", f"f{good[0]}"), "the first that can read the file")
        h.check([len(f.log) for f in fs] == [1 if k <= good[0] else 0 for k in range(3)], "each is tried once")
    finally:
        restore(t)


def deregister(h, sc):
    io_ = h.meshio
    t = tables(h)
    try:
        fs = [Fmt(h, f"f{k}") for k in range(3)]
        for f in fs:
            io_.register_format(f.name, [".zz", ".z" + f.name], f.read, {f.name: f.write})
        m = mesh_of(h, "vtu")
        gone = [h.bool(f"gone{k}") for k in range(3)]
        for f, g in zip(fs, gone):
            if g:
                io_.deregister_format(f.name)
        h.write_bytes("x.zz", b"")
        left = [f for f, g in zip(fs, gone) if not g]
        for f, g in zip(fs, gone):
            p = h.path("x.z" + f.name)
            if g:
                raises(h, io_.WriteError, lambda: io_.write(p, m, file_format=f.name), "deregistered writer")
                raises(h, io_.ReadError, lambda: io_.write(p, m), "deregistered extension")
                raises(h, io_.ReadError, lambda: io_.read(h.path("x.zz"), file_format=f.name), "deregistered reader")
            else:
                io_.write(p, m)
                h.check(len(f.log) == 1, "still registered")
                f.log.clear()
        if left:
            h.check(io_.read(h.path("x.zz")) == ("mesh of", left[0].name), "remaining format")
            if len(left) > 1:
                left[0].ok = False
                h.check(io_.read(h.path("x.zz")) == ("mesh of", left[1].name), "second remaining format")
        else:
            raises(h, io_.ReadError, lambda: io_.read(h.path("x.zz")), "no format left")
        io_.write(h.path("x.vtu"), m)
        h.same(io_.read(h.path("x.vtu")).points, m.points, "vtu")
    finally:
        restore(t)


def points_cells(h, sc):
    """write_points_cells with every part and option writes what Mesh.write does"""
    io_ = h.meshio
    x = h.floats("x", (4, 3))
    tri, ln = h.ints("t", (2, 3), 0, 3), h.ints("l", (1, 2), 0, 3)
    pd, cd = {"p": h.floats("p", (4,))}, {"c": [h.floats("c0", (2,)), h.floats("c1", (1,))]}
    ps, cs = {"fixed": h.const([1, 3], dtype="i8")}, {"S": [h.const([1], dtype="i8"), h.const([0], dtype="i8")]}
    for cells in ([("triangle", tri), ("line", ln)], [io_.CellBlock("triangle", tri), io_.CellBlock("line", ln)], {"triangle": tri, "line": ln}):
        for f, e in (("vtu", ".vtu"), (None, ".vtu"), ("vtk42", ".vtu")):
            io_.write_points_cells(h.path("a" + e), x, cells, point_data=pd, cell_data=cd, file_format=f, binary=False)
            g = io_.read(h.path("a" + e), file_format="vtk" if f == "vtk42" else None)
            h.same(g.points, x, "points", digits=11)
            h.check([c.type for c in g.cells] == ["triangle", "line"], "blocks")
            h.same(g.cells[0].data, tri, "triangles")
            h.same(g.cells[1].data, ln, "lines")
            h.same(g.point_data["p"], pd["p"], "point data", digits=11)
            for k in range(2):
                h.same(g.cell_data["c"][k], cd["c"][k], "cell data", digits=11)
        io_.write_points_cells(h.path("b.inp"), x, cells, point_sets=ps, cell_sets=cs)
        g = io_.read(h.path("b.inp"))
        h.check(set(g.point_sets) == {"fixed"} and set(g.cell_sets) == {"S"}, "sets")
        h.same(g.point_sets["fixed"], ps["fixed"], "point set")
        for k in range(2):
            h.same(g.cell_sets["S"][k], cs["S"][k], "cell set")
        io_.write_points_cells(h.path("c.msh"), x, cells, field_data={"r": h.const([3, 2], dtype="i8")}, file_format="gmsh22")
        g = io_.read(h.path("c.msh"), file_format="gmsh")
        h.same(g.field_data["r"], h.const([3, 2], dtype="i8"), "field data")
