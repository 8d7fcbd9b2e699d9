"""Vectors on staggered grids brought to the centers of the cells, and the functions used for it."""

import math
import os
import tempfile

import netCDF4
import numpy as np

from obs import guard, rat, rats

EXTRA = dict(none=0, low=1, high=1, both=2)


def arr(q, shape, dt="f8", lay="C"):
    """quarters (None: masked) -> an array"""
    m = np.array([x is None for x in q], dtype=bool).reshape(shape)
    a = np.array([0 if x is None else x for x in q], dtype=float).reshape(shape) / 4.0
    a = a.astype(dt)
    if m.any() or lay == "ma":
        a = np.ma.array(a, mask=m)
        a.data[m] = 77 if dt == "i1" else 7777
    if lay == "F":
        a = a.copy(order="F")
    elif lay == "strided":
        big = np.zeros(tuple(2 * k for k in a.shape), dtype=a.dtype)
        big = np.ma.array(big) if isinstance(a, np.ma.MaskedArray) else big
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        a = big[tuple(slice(None, None, 2) for _ in a.shape)]
    elif lay == "readonly" and not isinstance(a, np.ma.MaskedArray):
        a.setflags(write=False)
    return a


def given(q):
    return [[1, 0] if x is None else rat(x / 4.0) for x in q]


def copies(*a):
    return [x.copy() for x in a]


def alike(old, new):
    for a, b in zip(old, new):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)) or not np.array_equal(np.ma.getdata(a), np.ma.getdata(b)):
            return False
    return True


def radians(a):
    return [math.atan2(s[0] / s[1], c[0] / c[1]) for c, s in a]


def table(a, bad):
    """2-D array -> rows of rationals"""
    a = np.ma.asarray(a)
    return [rats(r) for r in a] if a.ndim == 2 else bad


def write(fn, s):
    n = s["n"]
    e1, e2 = EXTRA[s["p1"]], EXTRA[s["p2"]]
    # the names of the dimensions: of nodes, faces and the two kinds of edges, along x and along y
    nx, ny, fx, fy, ux, uy, vx, vy = s["names"]
    size = {nx: n[1] + 1, ny: n[0] + 1, fx: n[1] + e1, fy: n[0] + e2, ux: n[1] + 1, uy: n[0] + e2, vx: n[1] + e1, vy: n[0] + 1}
    with netCDF4.Dataset(fn, "w") as nc:
        for d, k in size.items():
            nc.createDimension(d, k)
        T = len(s["u"])
        lead = ()
        if s["t"]:
            nc.createDimension("ocean_time", T)
            lead = ("ocean_time",)
        g = nc.createVariable("grid", "i4", ())
        g.cf_role = "grid_topology"
        g.topology_dimension = 2
        g.node_dimensions = f"{nx} {ny}"
        g.face_dimensions = f"{fx}: {nx} (padding: {s['p1']}) {fy}: {ny} (padding: {s['p2']})"
        if s["edges"]:
            a, b = (nx if ux == nx else f"{ux}: {nx}"), (ny if vy == ny else f"{vy}: {ny}")
            g.edge1_dimensions = f"{a} {uy}: {ny} (padding: {s['p2']})"
            g.edge2_dimensions = f"{vx}: {nx} (padding: {s['p1']}) {b}"
        g.node_coordinates = "lon_psi lat_psi"
        X, Y = np.meshgrid(np.arange(n[1] + 1.0), np.arange(n[0] + 1.0))
        for nm, a in (("lon_psi", X), ("lat_psi", Y)):
            nc.createVariable(nm, "f8", (ny, nx))[:] = a
        for nm, d in (("u", (uy, ux)), ("v", (vy, vx))):
            v = nc.createVariable(nm, s["dt"], lead + d, fill_value=-999.0)
            v.grid = "grid"
            a = np.ma.array([arr([x for r in t for x in r], (size[d[0]], size[d[1]]), s["dt"], "ma") for t in s[nm]])
            v[:] = a if s["t"] else a[0]
        v = nc.createVariable("angle", "f8", (fy, fx))
        v.standard_name = "angle_of_rotation_from_east_to_x"
        v[:] = np.array([radians(r) for r in s["ang"]])


def run(scn, log):
    from gridded.pysgrid.processing_2d import avg_to_cell_center, rotate_vectors, vector_sum
    from gridded.pysgrid.sgrid import SGrid
    from gridded.pysgrid.utils import calculate_angle_from_true_east, calculate_bearing, pair_arrays, points_in_polys

    for s in scn["ops"]:
        k = s["k"]
        if k in ("turn", "sum", "pair"):
            x, y = arr(s["x"], s["shape"], s["dt"], s["lay"]), arr(s["y"], s["shape"], s.get("dty", s["dt"]), s["lay"])
            a = np.array(radians(s["a"])).reshape(s["shape"]) if k == "turn" else x
            old = copies(x, y, a)
            fn = dict(turn=lambda: rotate_vectors(x, y, a), sum=lambda: vector_sum(x, y), pair=lambda: pair_arrays(x, y))[k]
            out, r = guard(fn)
            same = alike(old, [x, y, a])
            kw = dict(x=given(s["x"]), y=given(s["y"]), out=out, same=same, shape=False)
            sh = tuple(s["shape"])
            if k == "turn":
                kw.update(xr=[], yr=[], a=s["a"])

                def see():
                    kw.update(xr=rats(r[0]), yr=rats(r[1]), shape=len(r) == 2 and np.shape(r[0]) == sh and np.shape(r[1]) == sh)
            elif k == "sum":
                kw.update(pos=[], r2=[])

                def see():
                    kw.update(pos=[bool(q) for q in np.ma.filled(np.ma.asarray(r) >= 0, True).ravel()], r2=rats(np.ma.asarray(r).astype(float) ** 2), shape=np.shape(r) == sh)
            else:
                kw.update(res=[])

                def see():
                    f = rats(r)
                    kw.update(res=[f[i : i + 2] for i in range(0, len(f), 2)], shape=np.shape(r) == sh + (2,))

            if out == "ok":
                kw["out"], _ = guard(see)
            log(k, **kw)
        elif k == "avg":
            t = arr([x for r in s["t"] for x in r], (len(s["t"]), len(s["t"][0])), s["dt"], s["lay"])
            old = copies(t)
            out, r = guard(lambda: avg_to_cell_center(t, s["ax"]))
            res = [[[0, 0]]]
            if out == "ok":
                out, res = guard(lambda: table(r, res))
            log("avg", t=[given(r) for r in s["t"]], ax=s["ax"], out=out, res=res, same=alike(old, [t]))
        elif k == "bear":
            p, q = np.array(s["p"], dtype=s["dt"]), np.array(s["q"], dtype=s["dt"])
            old = copies(p, q)

            def ask():
                b = calculate_bearing(p, q)
                a = np.degrees(calculate_angle_from_true_east(p, q))
                if s["rows"]:
                    a2 = np.degrees(calculate_angle_from_true_east(np.array([p, p]), np.array([q, q])))
                    if a2.shape != (2,) + a.shape or not np.allclose(a2, a):
                        return [], []
                return [rat(round(float(x), 9)) for x in b], [rat(round(float(x), 9)) for x in a]

            out, r = guard(ask)
            log("bear", p=s["p"], q=s["q"], out=out, b=r[0] if r else [], ang=r[1] if r else [], same=alike(old, [p, q]))
        elif k == "poly":
            sc, b = 2.0 ** s["sc"], s["far"]
            pts = np.array(s["pts"], dtype=float).reshape(-1, 2) * sc + b
            pol = np.array(s["polys"], dtype=float) * sc + b
            if s["lay"] == "ma":
                pts, pol = np.ma.array(pts), np.ma.array(pol)
            elif s["lay"] == "F":
                pts, pol = np.asfortranarray(pts), np.asfortranarray(pol)
            old = copies(pts, pol)
            if s["two"]:
                out, r = guard(lambda: points_in_polys(pts, pol[..., 0].copy(), pol[..., 1].copy()))
            else:
                out, r = guard(lambda: points_in_polys(pts, pol))
            res = []
            if out == "ok":
                out, res = guard(lambda: [bool(x) for x in np.asarray(r).ravel()])
            log("poly", pts=s["pts"], polys=s["polys"], out=out, **{"in": res or []}, same=alike(old, [pts, pol]))
        else:
            fn = tempfile.mktemp(suffix=".nc", dir=os.getcwd())
            try:
                write(fn, s)

                def ask():
                    g = SGrid.load_grid(fn)
                    with netCDF4.Dataset(fn) as nc:
                        u, v = nc.variables["u"][g.u.center_slicing], nc.variables["v"][g.v.center_slicing]
                        ang = nc.variables["angle"][g.angle.center_slicing]
                    if not s["t"]:
                        u, v = u[None], v[None]
                    x, y, z = [], [], []
                    for i in range(len(u)):
                        uc, vc = avg_to_cell_center(u[i], g.u.center_axis), avg_to_cell_center(v[i], g.v.center_axis)
                        xr, yr = rotate_vectors(uc, vc, ang)
                        sp = vector_sum(xr, yr)
                        x.append(table(xr, []))
                        y.append(table(yr, []))
                        z.append(table(np.ma.asarray(sp) ** 2, []))
                    return x, y, z

                out, r = guard(ask)
                x, y, z = r or ([], [], [])
                log(
                    "field",
                    n=s["n"],
                    p1=s["p1"],
                    p2=s["p2"],
                    u=[[given(r) for r in t] for t in s["u"]],
                    v=[[given(r) for r in t] for t in s["v"]],
                    ang=s["ang"],
                    out=out,
                    x=x,
                    y=y,
                    s2=z,
                    same=True,
                )
            finally:
                if os.path.exists(fn):
                    os.unlink(fn)
