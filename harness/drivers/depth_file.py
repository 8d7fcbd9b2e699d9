"""Depth systems found in files, and variables found by their names."""

import os
import tempfile
from datetime import timedelta

import netCDF4
import numpy as np

from obs import BASE, guard

TERMS = ("depth_levels", "Cs_r", "Cs_w", "s_rho", "s_w", "hc", "siglay", "siglev")
# six nodes, four triangles
XY = [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)]
TRIS = [(1, 2, 5), (1, 5, 4), (2, 3, 6), (2, 6, 5)]
BADINT = -(10**8)


def ints(a, k=1):
    r = []
    for x in np.ravel(np.ma.filled(np.ma.asarray(a, float) * k, np.nan)):
        r.append(int(round(x)) if np.isfinite(x) and abs(x - round(x)) < 1e-6 and abs(x) < 10**8 else BADINT)
    return r


def hours(t):
    r = []
    for x in t.data:
        s = (x - BASE).total_seconds() / 3600
        r.append(int(s) if s == int(s) else BADINT)
    return r


def shape_grid(nc, scn):
    g = scn["grid"]
    ny, nx = scn["n"]

    def var(n, dims, data):
        for d, k in zip(dims, np.shape(data)):
            if d not in nc.dimensions:
                nc.createDimension(d, k)
        nc.createVariable(n, np.asarray(data).dtype, dims)[:] = data

    if g == "u":
        var("lon", ["node"], np.array([p[0] for p in XY], float))
        var("lat", ["node"], np.array([p[1] for p in XY], float))
        var("nv", ["three", "nele"], np.array(TRIS, "i4").T)
    elif g == "r":
        var("lon", ["xi_psi"], np.arange(nx) * 1.0)
        var("lat", ["eta_psi"], np.arange(ny) * 1.0)
    else:
        X, Y = np.meshgrid(np.arange(nx) * 1.0, np.arange(ny) * 1.0)
        var("lon_psi", ["eta_psi", "xi_psi"], X)
        var("lat_psi", ["eta_psi", "xi_psi"], Y)
        X, Y = np.meshgrid(np.arange(nx + 1) - 0.5, np.arange(ny + 1) - 0.5)
        var("lon_rho", ["eta_rho", "xi_rho"], X)
        var("lat_rho", ["eta_rho", "xi_rho"], Y)


def write(fn, scn, vs, hrs, grid=True):
    with netCDF4.Dataset(fn, "w", format=scn["fmt"]) as nc:
        if grid:
            shape_grid(nc, scn)
        if hrs:
            nc.createDimension(scn["time"], len(hrs))
            v = nc.createVariable(scn["time"], "f8", (scn["time"],))
            v[:] = np.array(hrs, float)
            v.units = "hours since 2020-01-01 00:00:00"
        for d in vs:
            for n, k in zip(d["dims"], d["shape"]):
                if n not in nc.dimensions:
                    nc.createDimension(n, k)
            v = nc.createVariable(d["name"], d.get("dt", "f8"), d["dims"])
            v[...] = np.array(d["vals"], float).reshape(d["shape"])
            if d["long"]:
                v.long_name = d["long"]
            if d["std"]:
                v.standard_name = d["std"]


def passed_grid(scn):
    from gridded.grids import Grid_R, Grid_S, Grid_U

    ny, nx = scn["n"]
    X, Y = np.meshgrid(np.arange(nx) * 1.0, np.arange(ny) * 1.0)
    if scn["grid"] == "u":
        return Grid_U(nodes=np.array(XY, float), faces=np.array(TRIS) - 1)
    if scn["grid"] == "r":
        return Grid_R(node_lon=X[0], node_lat=Y[:, 0])
    Xc, Yc = np.meshgrid(np.arange(nx + 1) - 0.5, np.arange(ny + 1) - 0.5)
    return Grid_S(node_lon=X, node_lat=Y, center_lon=Xc, center_lat=Yc)


def observe(d):
    o = dict(cls=type(d).__name__, terms={t: [] for t in TERMS}, bathy=[], zeta=[], times=[])
    for t in TERMS:
        x = getattr(d, t, None)
        if x is not None:
            o["terms"][t] = ints(x)
    if hasattr(d, "bathymetry"):
        o["bathy"] = ints(d.bathymetry.data[:], 4)
        o["zeta"] = ints(d.zeta.data[:], 4)
        o["times"] = hours(d.time)
    for a, n in (("surf", "surface_index"), ("bot", "bottom_index"), ("nlev", "num_levels"), ("nlay", "num_layers")):
        o[a] = int(getattr(d, n))
    if hasattr(d, "bathymetry"):
        # as it stands the depth object answers on its grid
        o["same"] = d.bathymetry.grid is d.grid
    else:
        o["same"] = True
    return o


def nothing():
    return dict(cls="", terms={t: [] for t in TERMS}, bathy=[], zeta=[], times=[], surf=0, bot=0, nlev=0, nlay=0, same=True)


def run(scn, log):
    {"depth": depth, "names": names}[scn["kind"]](scn, log)


def depth(scn, log):
    from gridded import Variable
    from gridded.depth import Depth, FVCOM_Depth, L_Depth, ROMS_Depth
    from gridded.time import Time

    fd = tempfile.mktemp(suffix=".nc", dir=os.getcwd())
    fg, fx = fd[:-3] + "_g.nc", fd[:-3] + "_x.nc"
    opened = []

    def nc(f):
        d = netCDF4.Dataset(f)
        opened.append(d)
        return d

    try:
        write(fd, scn, scn["ds"], scn["dt"])
        two = scn["two"]
        if two:
            write(fg, scn, scn["dg"], scn["gt"])
        # a file of something else
        with netCDF4.Dataset(fx, "w") as d:
            d.createDimension("n", 3)
            d.createVariable("depth", "f8", ("n",))[:] = [5, 6, 7]
            d.createVariable("h", "f8", ("n",))[:] = [5, 6, 7]
            for n, v in (("lon", [50, 51, 52]), ("lat", [60, 61, 62])):
                d.createVariable(n, "f8", ("n",))[:] = v
        kw = {}
        e = scn["entry"]
        if not two:
            if e == "filename":
                kw["filename"] = fd
            elif e == "dataset":
                kw["dataset"] = nc(fd)
            elif e == "files":
                kw.update(data_file=fd, grid_file=fd)
            elif e == "both":
                kw.update(filename=fx, dataset=nc(fd))
        else:
            if e == "filename":
                kw.update(filename=fx, data_file=fd, grid_file=fg)
            elif e == "dataset":
                kw.update(dataset=nc(fd), grid_file=fg)
            elif e == "files":
                kw.update(data_file=fd, grid_file=fg)
            elif e == "both":
                kw.update(filename=fd, grid_file=nc(fg))
        if scn["passgrid"]:
            kw["grid"] = passed_grid(scn)
        if scn["timearg"]:
            kw["time"] = Time([BASE + timedelta(hours=h) for h in scn["timearg"]])
        if scn["si"] != -1:
            kw["surface_index"] = scn["si"]
        call = Depth.from_netCDF
        if scn["via"] == "class":
            call = dict(L=L_Depth, R=ROMS_Depth, F=FVCOM_Depth)[scn["t"]].from_netCDF
            if scn["terms"]:
                kw["terms"] = {t["term"]: t["label"] if t["how"] == "name" else np.array(t["vals"], float).reshape(t["shape"]) for t in scn["terms"]}
            if scn["given"]:
                kw.setdefault("grid", passed_grid(scn))
            for g in scn["given"]:
                kw[g["term"]] = Variable(
                    name="own",
                    grid=kw["grid"],
                    data=np.array(g["vals"], float).reshape(g["shape"]),
                    time=Time([BASE + timedelta(hours=h) for h in g["times"]]) if g["times"] else None,
                )
        elif scn["via"] == "var":

            def call(**k):
                return Variable.from_netCDF(varname="temp", **k).depth

        out, d = guard(call, **kw)
        o = nothing()
        if out == "ok":
            out, o = guard(observe, d)
            o = o or nothing()
        log(
            "depth",
            ds=[dict(name=v["name"], long=v["long"], std=v["std"], shape=v["shape"], vals=v["vals"], times=scn["dt"]) for v in scn["ds"]],
            dg=[dict(name=v["name"], long=v["long"], std=v["std"], shape=v["shape"], vals=v["vals"], times=scn["gt"]) for v in scn["dg"]],
            n=[6] if scn["grid"] == "u" else scn["n"],
            via=scn["via"],
            t=scn["t"],
            si=scn["si"],
            terms=scn["terms"],
            given=scn["given"],
            timearg=scn["timearg"],
            out=out,
            o=o,
        )
    finally:
        for d in opened:
            guard(d.close)
        for f in (fd, fg, fx):
            if os.path.exists(f):
                os.unlink(f)


def names(scn, log):
    from gridded.variable import Variable, VectorVariable

    fd = tempfile.mktemp(suffix=".nc", dir=os.getcwd())
    fg, fx = fd[:-3] + "_g.nc", fd[:-3] + "_x.nc"
    opened = []

    def nc(f):
        d = netCDF4.Dataset(f)
        opened.append(d)
        return d

    try:
        two = scn["two"]
        write(fd, scn, scn["vars"], [0, 1], grid=not two)
        # other values under the same names, elsewhere
        other = [dict(v, vals=[x + 1000 for x in v["vals"]]) for v in scn["vars"]]
        if two:
            write(fg, scn, other, [5, 6])
        write(fx, dict(scn, n=[x + 1 for x in scn["n"]]), [], [])
        e = scn["entry"]
        kw = {}
        if not two:
            if e == "both":
                kw.update(filename=fx, dataset=nc(fd))
            elif e == "dataset":
                kw["dataset"] = nc(fd)
            elif e == "files":
                kw.update(data_file=fd, grid_file=fd)
            else:
                kw["filename"] = fd
        else:
            if e == "both":
                kw.update(filename=fd, grid_file=fg)
            elif e == "dataset":
                kw.update(dataset=nc(fd), grid_file=nc(fg))
            elif e == "files":
                kw.update(data_file=fd, grid_file=fg)
            else:
                kw.update(filename=fx, data_file=nc(fd), grid_file=fg)
        comps = scn["comps"]
        if scn["vector"]:
            cls = type(
                "MyVector",
                (VectorVariable,),
                dict(
                    comp_order=[c["comp"] for c in comps],
                    default_names={c["comp"]: c["names"] for c in comps if c["names"] or not c["bare"]},
                    cf_names={c["comp"]: c["cf"] for c in comps if c["cf"] or not c["bare"]},
                ),
            )
        else:
            cls = type("MyVar", (Variable,), dict(default_names=comps[0]["names"], cf_names=comps[0]["cf"]))
        out, v = guard(cls.from_netCDF, **kw)
        found, vals, times, gridok = [], [], [], True
        if out == "ok":

            def look():
                vs = [getattr(v, c["comp"]) for c in comps] if scn["vector"] else [v]
                ny, nx = scn["n"]
                g = v.grid
                ok = g.node_lon is not None and len(np.ravel(g.node_lon)) == (nx if scn["grid"] == "r" else 6 if scn["grid"] == "u" else nx * ny)
                return [str(x.varname) for x in vs], [ints(x.data[:]) for x in vs], hours(v.time), bool(ok)

            out, r = guard(look)
            if r:
                found, vals, times, gridok = r
        log(
            "names",
            file=[dict(name=x["name"], long=x["long"], std=x["std"], vals=x["vals"]) for x in scn["vars"]],
            comps=[dict(names=c["names"], cf=c["cf"]) for c in comps],
            out=out,
            found=found,
            vals=vals,
            times=times,
            gridok=gridok,
        )
    finally:
        for d in opened:
            guard(d.close)
        for f in (fd, fg, fx):
            if os.path.exists(f):
                os.unlink(f)
