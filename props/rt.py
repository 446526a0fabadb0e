"""Generic write/read round trip."""

from __future__ import annotations

import numpy as _np

from .common import (build, check_cell_data, check_cells, check_point_data, pad3, snapshot,
                     unchanged)

DEFAULT = dict(
    ext=".x", file_format=None, read_format=None, kw={}, pad2d=True, vecpad=False,
    order="runs", digits=None, ddigits=None, pdtype=True, ddtype=True,
    ignore_pdata=(), ignore_cdata=(), pdata=True, cdata=True, check_input=True, post=None, name="m",
    wconv=None, read_kw={},
)


def vec3(h, a):
    if len(a.shape) == 2 and a.shape[1] == 2:
        np = h.np
        return np.column_stack([a, np.zeros_like(a[:, 0])])
    return a


def roundtrip(h, sc, spec):
    s = {**DEFAULT, **spec}
    mesh, e = build(h, sc)
    return roundtrip_mesh(h, sc, s, mesh, e)


def roundtrip_mesh(h, sc, s, mesh, e):
    s = {**DEFAULT, **s}
    np = h.np
    snap = snapshot(h, mesh)
    p = h.path(s["name"] + s["ext"])
    kw = {**s["kw"], **sc.get("kw", {})}
    h.meshio.write(p, mesh, file_format=s["file_format"], **kw)
    if s["check_input"]:
        unchanged(h, mesh, snap)
    got = h.meshio.read(p, file_format=s["read_format"])
    compare(h, sc, s, got, e)
    return got


def compare(h, sc, s, got, e):
    s = {**DEFAULT, **s}
    pts = pad3(h, e.points) if s["pad2d"] else e.points
    h.same(got.points, pts, "points", digits=s["digits"],
           dtype=_np.dtype(e.points.dtype).newbyteorder("=") if s["pdtype"] is True else (s["pdtype"] or None))
    match = check_cells(h, got, e.cells, order=s["order"])
    pd = {k: (vec3(h, v) if s["vecpad"] else v) for k, v in e.point_data.items()}
    cd = {k: [(vec3(h, x) if s["vecpad"] else x) for x in v] for k, v in e.cell_data.items()}
    if s["pdata"]:
        check_point_data(h, got, pd, digits=s["ddigits"], dtype=s["ddtype"], ignore=s["ignore_pdata"])
    if s["cdata"]:
        check_cell_data(h, got, e.cells, cd, match, digits=s["ddigits"], dtype=s["ddtype"], ignore=s["ignore_cdata"])
    if s["post"]:
        s["post"](h, got, e, sc)
