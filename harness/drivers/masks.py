"""Masks of land and water in files, and the staggered grids that have them."""

import os
import tempfile
from datetime import datetime

import netCDF4
import numpy as np

from obs import guard, rat

MISSING = -99


def put(nc, name, dims, m):
    """a mask variable: m = dict(style, flags, vals (rows), dtype, flagdtype, text, ...)"""
    a = np.array(m["vals"])
    for d, k in zip(dims, a.shape):
        if d not in nc.dimensions:
            nc.createDimension(d, k)
    fill = m["fill"]
    attr = m.get("miss") == "missing_value"
    v = nc.createVariable(name, m["dtype"], dims, fill_value=None if attr else fill)
    if attr:
        v.missing_value = np.array(fill, m["dtype"])
    v[:] = np.ma.masked_equal(a, MISSING)
    if m["style"] == "flags":
        vals = [f["v"] for f in m["flags"]]
        v.flag_meanings = m["text"] if m["aslist"] else " ".join(m["text"])
        if m["flagdtype"] == "str":
            v.flag_values = " ".join(str(x) for x in vals)
        else:
            v.flag_values = np.array(vals, m["flagdtype"])
    elif m["style"] == "options":
        v.option_0 = "land"
        v.option_1 = "water"
    if m.get("extra"):
        v.long_name = "mask on RHO-points"
    return v


def run(scn, log):
    {"convert": convert, "cells": cells, "asks": cells}[scn["kind"]](scn, log)


def convert(scn, log):
    from gridded.utilities import convert_mask_to_numpy_mask

    m = scn["m"]
    fn = tempfile.mktemp(suffix=".nc", dir=os.getcwd())
    try:
        with netCDF4.Dataset(fn, "w", format=scn["fmt"]) as nc:
            put(nc, "mask", ["y", "x"][: np.ndim(m["vals"])], m)
        with netCDF4.Dataset(fn) as nc:
            v = nc["mask"]
            arg = v
            if scn["how"] == "array":
                arg = np.asarray(v[:])
            elif scn["how"] == "bool":
                arg = np.asarray(v[:]).astype(bool)
            out, r = guard(convert_mask_to_numpy_mask, arg)
            got, shp, b = [], [], False
            if out == "ok":
                r = np.ma.getdata(r) if isinstance(r, np.ma.MaskedArray) and not np.ma.is_masked(r) else r
                b = bool(getattr(r, "dtype", None) == np.bool_ and not isinstance(r, np.ma.MaskedArray))
                shp = [int(x) for x in np.shape(r)]
                got = [bool(x) for x in np.ravel(r)] if b else []
        a = np.array(m["vals"])
        log(
            "convert",
            m=dict(style=m["style"], flags=m["flags"]),
            vals=[int(x) for x in a.ravel()],
            shape=list(a.shape),
            gotshape=shp,
            boolean=b,
            out=out,
            got=got,
        )
    finally:
        if os.path.exists(fn):
            os.unlink(fn)


def cells(scn, log):
    from gridded import Variable
    from gridded.grids import Grid, Grid_S

    ny, nx = scn["n"]
    pad = scn["pad"]
    fn = tempfile.mktemp(suffix=".nc", dir=os.getcwd())
    opened = []
    try:
        X, Y = np.meshgrid(np.arange(nx) * 1.0, np.arange(ny) * 1.0)
        with netCDF4.Dataset(fn, "w", format=scn["fmt"]) as nc:

            def var(n, dims, a):
                for d, k in zip(dims, a.shape):
                    if d not in nc.dimensions:
                        nc.createDimension(d, k)
                nc.createVariable(n, "f8", dims)[:] = a

            P, R = ["eta_psi", "xi_psi"], ["eta_rho", "xi_rho"]
            var("lon_psi", P, X)
            var("lat_psi", P, Y)
            c = np.arange(ny - 1 + 2 * pad) + 0.5 - pad, np.arange(nx - 1 + 2 * pad) + 0.5 - pad
            Xc, Yc = np.meshgrid(c[1], c[0])
            var("lon_rho", R, Xc)
            var("lat_rho", R, Yc)
            var("temp", P, 10 * Y + X)
            if scn["center"]:
                put(nc, "mask_rho", R, scn["center"])
            if scn["node"]:
                put(nc, "mask_psi", P, scn["node"])

        pts = np.array([(i + 0.5, j + 0.5) for j in range(ny - 1) for i in range(nx - 1)])

        def mk():
            if scn["entry"] == "file":
                return Grid.from_netCDF(fn)
            d = netCDF4.Dataset(fn)
            opened.append(d)
            if scn["entry"] == "dataset":
                return Grid.from_netCDF(dataset=d)
            kw = {}
            if scn["center"]:
                kw["center_mask"] = d["mask_rho"]
            if scn["node"]:
                kw["node_mask"] = d["mask_psi"]
            return Grid_S(node_lon=X, node_lat=Y, center_lon=Xc, center_lat=Yc, **kw)

        no = dict(style="none", flags=[], vals=[])
        cut = lambda m: dict(style=m["style"], flags=m["flags"], vals=m["vals"]) if m else no
        if scn["kind"] == "asks":
            out, g = guard(mk)
            built = []
            for op in scn["ops"]:
                if op["op"] == "build":
                    if out == "ok":
                        out, _ = guard(lambda: g.build_celltree(use_mask=op["with"]) if op["kw"] else g.build_celltree(op["with"]))
                    built.append(op["with"])
                    continue
                where = [[-1, -1] if p == [-1, -1] else p for p in scn["pts"][op["q"] - 1]]
                at = np.array([(50.0, 50.0) if p == [-1, -1] else (p[1] + 0.5, p[0] + 0.5) for p in where])
                keep = at.copy()
                kw = dict(default={}, **{"with": dict(use_mask=True)}, without=dict(use_mask=False))[op["u"]]
                if op["memo"]:
                    kw.update(_memo=True, _copy=op["copy"])

                def ask():
                    f = g.index_of if op["index"] else g.locate_faces
                    r = [f(p, **kw) for p in at] if op["single"] else f(at, **kw)
                    return [[int(x) for x in np.ma.filled(q, -1)] for q in r]

                o2, f = (out, []) if out != "ok" else guard(ask)
                log(
                    "ask",
                    n=scn["n"],
                    pad=pad,
                    center=cut(scn["center"]),
                    node=cut(scn["node"]),
                    built=list(built),
                    u=op["u"],
                    pts=where,
                    out=o2,
                    found=f or [],
                    same=bool(np.array_equal(at, keep)),
                )
            return

        use = scn["use"]

        def look():
            g = mk()
            r = g.locate_faces(pts) if use else g.locate_faces(pts, use_mask=False)
            r = np.ma.filled(r, -1)
            f = [[int(x) for x in q] for q in r]
            at = []
            if use:
                v = Variable(name="t", data=10 * Y + X, grid=g, location="node")
                q = np.ma.asarray(v.at(pts, datetime(2020, 1, 1))).ravel()
                at = [rat(np.ma.masked if mm else 4 * x) for x, mm in zip(np.ma.getdata(q), np.ma.getmaskarray(q))]
            return f, at

        out, r = guard(look)
        f, at = r if r else ([], [])
        log("cells", n=scn["n"], pad=pad, center=cut(scn["center"]), node=cut(scn["node"]), use=use, out=out, found=f, at=at)
    finally:
        for d in opened:
            guard(d.close)
        if os.path.exists(fn):
            os.unlink(fn)
