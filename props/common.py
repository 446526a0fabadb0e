"""Shared building blocks of the harnesses (work in symbolic and concrete mode)."""

from __future__ import annotations

import numpy as _np

# nodes per cell: independent of meshio's own table
NN = {
    "vertex": 1, "line": 2, "line3": 3, "line4": 4, "line5": 5, "line6": 6,
    "line7": 7, "line8": 8, "line9": 9, "line10": 10, "line11": 11,
    "triangle": 3, "triangle6": 6, "triangle7": 7, "triangle10": 10, "triangle15": 15, "triangle21": 21,
    "triangle28": 28, "triangle36": 36, "triangle45": 45, "triangle55": 55, "triangle66": 66,
    "quad": 4, "quad6": 6, "quad8": 8, "quad9": 9, "quad16": 16, "quad25": 25, "quad36": 36,
    "quad49": 49, "quad64": 64, "quad81": 81, "quad100": 100, "quad121": 121,
    "tetra": 4, "tetra10": 10, "tetra14": 14, "tetra20": 20, "tetra35": 35, "tetra56": 56,
    "tetra84": 84, "tetra120": 120, "tetra165": 165, "tetra220": 220, "tetra286": 286,
    "hexahedron": 8, "hexahedron20": 20, "hexahedron24": 24, "hexahedron27": 27,
    "hexahedron64": 64, "hexahedron125": 125, "hexahedron216": 216, "hexahedron343": 343,
    "hexahedron512": 512, "hexahedron729": 729, "hexahedron1000": 1000,
    "wedge": 6, "wedge12": 12, "wedge15": 15, "wedge18": 18, "wedge40": 40, "wedge75": 75,
    "wedge126": 126, "wedge196": 196, "wedge288": 288, "wedge405": 405, "wedge550": 550,
    "pyramid": 5, "pyramid13": 13, "pyramid14": 14, "penta_prism": 10, "hexa_prism": 12, "pixel": 4,
}

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71]


def tinfo(dt):
    return _np.dtype(dt)


def data(h, name, shape, dtype, lo=None, hi=None):
    """a data array: symbolic over the full range of its dtype (one-byte types: fixed
    distinct values, their byte images cannot carry a term)"""
    dt = _np.dtype(dtype)
    shape = tuple(shape)
    if dt.kind == "f":
        return h.floats(name, shape, dt)
    ii = _np.iinfo(dt)
    if dt.itemsize == 1:
        n = int(_np.prod(shape, dtype=int))
        v = [(int(ii.min) if k % 3 == 1 else int(ii.max) if k % 3 == 2 else PRIMES[k % 20]) for k in range(n)]
        return h.const(_np.array(v, dtype=dt).reshape(shape), dtype=dt)
    return h.ints(name, shape, int(ii.min) if lo is None else lo, int(ii.max) if hi is None else hi, dt)


def spread(h, name, shape, dtype, nsym=3, lo=None, hi=None, seed=0):
    """an array of many distinct fixed values of all magnitudes with nsym symbolic entries
    (first, last and evenly spread)"""
    dt = _np.dtype(dtype)
    n = int(_np.prod(shape, dtype=int))
    if dt.kind == "f":
        k = _np.arange(n) + seed
        base = ((k * 7919 % 1009) - 504.5) * 10.0 ** (k % 13 - 6) / 3
    else:
        ii = _np.iinfo(dt)
        a, b = (int(ii.min) if lo is None else lo), (int(ii.max) if hi is None else hi)
        base = _np.array([a + (7919 * (k + seed) + (k * k) // 7) % (b - a + 1) for k in range(n)], dtype=object)
    out = h.array(base.astype(dt.newbyteorder("=")), dtype=dt)
    if nsym and not (dt.kind != "f" and dt.itemsize == 1):
        pos = sorted({0, n - 1, *[(2 * j + 1) * n // (2 * nsym) for j in range(max(0, nsym - 2))]})
        s = data(h, name, (len(pos),), dtype, lo, hi)
        for j, q in enumerate(pos):
            out[q] = s[j]
    return out.reshape(shape)


def _arr(h, sc, name, shape, dt, *rng, nsym=None):
    if sc.get("medium") is not None and (nsym == 0 or int(_np.prod(shape, dtype=int)) > 12):
        return spread(h, name, shape, dt, sc["medium"] if nsym is None else nsym, *rng, seed=sum(map(ord, name)))
    return data(h, name, shape, dt, *rng)


class Exp:
    """expected content"""

    def __init__(self):
        self.points = None
        self.cells = []  # (type, array)
        self.point_data = {}
        self.cell_data = {}
        self.field_data = {}
        self.point_sets = {}
        self.cell_sets = {}


def nn(block):
    return block[2] if len(block) > 2 else NN[block[0]]


def build(h, sc):
    """-> (Mesh, Exp).  sc keys: dim, npts, pdt, cdt, blocks, pdata, cdata, psets, csets, layout,
    medium (number of symbolic entries per array: for large meshes of otherwise fixed values)"""
    np = h.np
    dim = sc.get("dim", 3)
    npts = sc.get("npts", 4)
    pts = _arr(h, sc, "x", (npts, dim), sc.get("pdt", "f8"))
    e = Exp()
    e.points = pts
    cells = []
    for b, blk in enumerate(sc["blocks"]):
        t, n = blk[0], blk[1]
        k = nn(blk)
        if sc.get("cdts"):  # a dtype and largest index per block
            dt, mx = sc["cdts"][b]
            c = h.ints(f"c{b}", (n, k), 0, mx, dt)
            cells.append((t, c))
            e.cells.append((t, c))
            continue
        c = (_arr(h, sc, f"c{b}", (n, k), sc.get("cdt", "i8"), 0, npts - 1, nsym=sc.get("medc")) if sc.get("medium") is not None
             else h.ints(f"c{b}", (n, k), 0, sc.get("cmax", npts - 1), sc.get("cdt", "i8")))
        cells.append((t, c))
        e.cells.append((t, c))
    pd, cd = {}, {}
    for k, (name, tail, dt) in enumerate(sc.get("pdata", [])):
        a = _arr(h, sc, f"pd{k}", (npts, *tail), dt, *sc.get("prange", ()))
        pd[name] = a
        e.point_data[name] = a
    for k, (name, tail, dt) in enumerate(sc.get("cdata", [])):
        lst = [_arr(h, sc, f"cd{k}_{b}", (blk[1], *tail), dt, *sc.get("crange", ())) for b, blk in enumerate(sc["blocks"])]
        cd[name] = lst
        e.cell_data[name] = list(lst)
    kw = {}
    if sc.get("psets"):
        # sets given by concrete membership (lists of indices)
        kw["point_sets"] = {n: h.const(v, dtype="i8") for n, v in sc["psets"]}
        e.point_sets = {n: h.const(v, dtype="i8") for n, v in sc["psets"]}
    if sc.get("csets"):
        kw["cell_sets"] = {n: [None if v is None else h.const(v, dtype="i8") for v in vs] for n, vs in sc["csets"]}
        e.cell_sets = {n: [None if v is None else h.const(v, dtype="i8") for v in vs] for n, vs in sc["csets"]}
    lay = sc.get("layout")
    pin = pts
    if lay == "F":
        pin = np.asfortranarray(pts)
        cells = [(t, np.asfortranarray(c)) for t, c in cells]
        pd = {k: np.asfortranarray(v) for k, v in pd.items()}
        cd = {k: [np.asfortranarray(x) for x in v] for k, v in cd.items()}
    elif lay == "strided":
        pin = np.concatenate([pts, pts], axis=1)[:, :dim]
        cells = [(t, np.concatenate([c, c])[: len(c)]) for t, c in cells]
        cells = [(t, np.repeat(c, 2, axis=0)[::2]) for t, c in cells]
        pd = {k: np.repeat(v, 2, axis=0)[::2] for k, v in pd.items()}
        cd = {k: [np.repeat(x, 2, axis=0)[::2] for x in v] for k, v in cd.items()}
    mesh = h.meshio.Mesh(pin, cells, point_data=pd, cell_data=cd, **kw)
    return mesh, e


def pad3(h, pts):
    np = h.np
    if pts.shape[1] == 2:
        return np.column_stack([pts, np.zeros_like(pts[:, 0])])
    return pts


def runs(cells):
    """maximal runs of consecutive equal (type, nodes-per-cell): list of (key, [block idx])"""
    out = []
    for i, (t, c) in enumerate(cells):
        key = (t, c.shape[1])
        if len(c) == 0:
            continue
        if out and out[-1][0] == key:
            out[-1][1].append(i)
        else:
            out.append((key, [i]))
    return out


def by_type(cells):
    d = {}
    for i, (t, c) in enumerate(cells):
        if len(c) == 0:
            continue
        d.setdefault((t, c.shape[1]), []).append(i)
    return list(d.items())


def got_cells(mesh):
    return [(b.type, b.data) for b in mesh.cells]


def cat(h, arrs):
    return arrs[0] if len(arrs) == 1 else h.np.concatenate(arrs)


def check_cells(h, mesh, exp_cells, label="cells", order="runs", kind="iu"):
    """same cell types in the same order with the same connectivity (blocks of equal type
    that are adjacent may be merged or split)"""
    got = got_cells(mesh)
    for t, c in got:
        if not hasattr(c, "shape") or len(c.shape) != 2:
            h.fail(f"{label}: malformed block {t}")
            return None
    f = runs if order == "runs" else by_type
    g, e = f(got), f(exp_cells)
    if order != "runs":
        g, e = sorted(g, key=lambda x: str(x[0])), sorted(e, key=lambda x: str(x[0]))
    if [k for k, _ in g] != [k for k, _ in e]:
        h.fail(f"{label}: blocks {[k for k, _ in g]} instead of {[k for k, _ in e]}")
        return None
    for (k, gi), (_, ei) in zip(g, e):
        h.same(cat(h, [got[i][1] for i in gi]), cat(h, [exp_cells[i][1] for i in ei]), f"{label} {k[0]}", kind=kind)
    return g, e


def check_cell_data(h, mesh, exp_cells, exp_data, match, digits=None, dtype=True, ignore=(), label="cell_data"):
    if match is None:
        return
    g, e = match
    names = [n for n in mesh.cell_data if n not in ignore]
    if set(names) != set(exp_data):
        h.fail(f"{label} names {sorted(names)} instead of {sorted(exp_data)}")
        return
    for n, lst in exp_data.items():
        gl = mesh.cell_data[n]
        if len(gl) != len(mesh.cells):
            h.fail(f"{label} {n}: {len(gl)} blocks for {len(mesh.cells)} cell blocks")
            continue
        for (k, gi), (_, ei) in zip(g, e):
            ex = cat(h, [lst[i] for i in ei])
            h.same(cat(h, [gl[i] for i in gi]), ex, f"{label} {n} ({k[0]})", digits=digits,
                   dtype=(_np.dtype(ex.dtype).newbyteorder("=") if dtype else None))


def check_point_data(h, mesh, exp_data, digits=None, dtype=True, ignore=(), label="point_data"):
    names = [n for n in mesh.point_data if n not in ignore]
    if set(names) != set(exp_data):
        h.fail(f"{label} names {sorted(names)} instead of {sorted(exp_data)}")
        return
    for n, ex in exp_data.items():
        h.same(mesh.point_data[n], ex, f"{label} {n}", digits=digits,
               dtype=(_np.dtype(ex.dtype).newbyteorder("=") if dtype else None))


def snapshot(h, mesh):
    """copy of everything reachable from the mesh (to check that writing leaves it alone)"""
    return {
        "points": mesh.points.copy(),
        "cells": [(b.type, b.data.copy() if hasattr(b.data, "copy") and not isinstance(b.data, list) else b.data) for b in mesh.cells],
    }


def unchanged(h, mesh, snap, label="input mesh"):
    h.same(mesh.points, snap["points"], f"{label}: points", dtype=_np.dtype(snap["points"].dtype).newbyteorder("="))
    if len(mesh.cells) != len(snap["cells"]):
        h.fail(f"{label}: number of cell blocks changed")
        return
    for b, (t, d) in zip(mesh.cells, snap["cells"]):
        if b.type != t:
            h.fail(f"{label}: cell type {t} became {b.type}")
        elif not isinstance(d, list):
            h.same(b.data, d, f"{label}: connectivity of {t}", dtype=_np.dtype(d.dtype).newbyteorder("="))
