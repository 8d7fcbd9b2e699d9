"""Variables read from the files the driver wrote: one or several, in every way of naming or opening them."""

import os
import tempfile
from pathlib import Path

import netCDF4
import numpy as np

from drivers.depth import MD, cell, fr, lin, make_points
from drivers.time_file import fmt as reftime
from drivers.time_obj import NONE, hours, off, td
from drivers.var_hist import NX, NY, make_grid
from obs import dt, guard, rats, secs

NAMES = ("u", "v", "w")


TOPO = dict(
    R=dict(node_lon="gx", node_lat="gy", grid_type="rectangular"),
    S=dict(node_lon="gx", node_lat="gy", center_lon="cx", center_lat="cy"),
    U=dict(node_lon="gx", node_lat="gy", faces="tri"),
)
USUAL = dict(
    R=dict(lon="gx", lat="gy"),
    S=dict(lon_psi="gx", lat_psi="gy", lon_rho="cx", lat_rho="cy"),
    U=dict(lon="gx", lat="gy", nv="tri"),
)


def grid_vars(nc, kind, topo):
    """the grid under its usual names, or under others, the usual ones being absent or something else"""

    def var(n, dims, a, **atts):
        if topo != "usual":
            if topo == "decoy":
                put(n, dims, a[..., ::-1] if n == "nv" else a + 100.0, **atts)
            n = USUAL[kind][n]
        put(n, dims, a, **atts)

    def put(n, dims, a, **atts):
        for d, k in zip(dims, np.shape(a)):
            if d not in nc.dimensions:
                nc.createDimension(d, k)
        v = nc.createVariable(n, np.asarray(a).dtype, dims)
        v.setncatts(atts)
        v[:] = a

    X, Y = np.meshgrid(np.arange(NX) * 1.0, np.arange(NY) * 1.0)
    if kind == "R":
        var("lon", ["lon"], X[0])
        var("lat", ["lat"], Y[:, 0])
    elif kind == "S":
        var("lon_psi", ["eta_psi", "xi_psi"], X)
        var("lat_psi", ["eta_psi", "xi_psi"], Y)
        var("lon_rho", ["eta_rho", "xi_rho"], X[1:, 1:] - 0.5)
        var("lat_rho", ["eta_rho", "xi_rho"], Y[1:, 1:] - 0.5)
    else:
        g = make_grid("U", 0)
        var("lon", ["node"], X.ravel())
        var("lat", ["node"], Y.ravel())
        f = np.asarray(g.faces)
        var("nv", ["three", "nele"], (f + 1).T.astype("i4").copy())


def space(kind, loc):
    if kind == "R":
        return ("lat", "lon")
    if kind == "S":
        return ("eta_rho", "xi_rho") if loc == "center" else ("eta_psi", "xi_psi")
    return ("nele",) if loc == "center" else ("node",)


def one(c, kind, loc):
    if loc == "center":
        return cell(c, kind, None)
    return lin(c, kind)


def depth_vars(nc, scn, k0, k1, which):
    """the terms of the vertical; those that change in time for the times k0..k1"""
    d, kind = scn["d"], scn["kind"]

    def var(n, dims, a):
        if which != "all" and (n == "zeta") != (which == "moving"):
            return
        for x, k in zip(dims, np.shape(a)):
            if x not in nc.dimensions:
                nc.createDimension(x, k)
        nc.createVariable(n, "f8", dims)[...] = a

    if d["kind"] == "L":
        if scn["dgiven"]:
            if scn["style"]:
                var("depth", ("level",), [fr(x) * 3 + 1 for x in d["levels"]])
            return
        var(["depth", "depth_levels", "Depth"][scn["dn"]], ("level",), [fr(x) for x in d["levels"]])
        return
    if d["kind"] not in ("roms", "fvcom"):
        return
    var("h", space(kind, "node"), one(d["h"], kind, "node"))
    if not d.get("noz"):
        var("zeta", (scn["tname"],) + space(kind, "node"), np.array([one(c, kind, "node") for c in d["zeta"][k0:k1]]))
    if d["kind"] == "roms":
        var("s_w", ("s_w",), [fr(x) for x in d["s"]])
        var("Cs_w", ("s_w",), [fr(x) for x in d["cs"]])
        var("s_rho", ("s_rho",), [fr(x) for x in d["sr"]])
        var("Cs_r", ("s_rho",), [fr(x) for x in d["csr"]])
        var("hc", (), float(d["hc"]))
    else:
        var("siglev", ("siglev",) + space(kind, "node"), np.array([lin(c, "U") for c in d["sig"]]) / 8.0)
        var("siglay", ("siglay",) + space(kind, "node"), np.array([lin(c, "U") for c in d["sigr"]]) / 8.0)


def write(fn, scn, part, k0, k1, grid, data, terms):
    """one file: the grid, the data of the times k0..k1, the terms of the vertical"""
    with netCDF4.Dataset(fn, "w", format=scn["fmt"]) as nc:
        tdim = scn["tname"] if scn["parts"] else None
        if tdim and data:
            nc.createDimension(tdim, None)
        if grid:
            grid_vars(nc, scn["kind"], scn["topo"])
        if data:
            if tdim:
                v = nc.createVariable(tdim, "f8", (tdim,))
                v.units = f"{part['unit']} since {reftime(part['ref'], NONE, scn['style'])}"
                v[:] = [a / b for a, b in part["vals"]]
        if terms:
            depth_vars(nc, scn, k0, k1, terms)
        if not data:
            return
        zdim = () if scn["d"]["kind"] == "none" else (scn["zdim"],)
        sp = space(scn["kind"], scn["loc"])
        nz = len(scn["fs"][0]["v"][0])
        if zdim and zdim[0] not in nc.dimensions:
            nc.createDimension(zdim[0], nz)
        for s, k in zip(sp, np.shape(one([0, 0, 0], scn["kind"], scn["loc"]))):
            if s not in nc.dimensions:
                nc.createDimension(s, k)
        for i, f in enumerate(scn["fs"]):
            a = np.array([[one(c, scn["kind"], scn["loc"]) for c in lev] for lev in f["v"][k0 : max(k1, k0 + 1)]])
            if not zdim:
                a = a[:, 0]
            if not tdim:
                a = a[0]
            dt_ = scn["dt"]
            kw = {}
            if dt_ in ("be", "le") and scn["fmt"].startswith("NETCDF4"):
                kw = dict(endian=dict(be="big", le="little")[dt_])
            v = nc.createVariable(NAMES[i], "i2" if dt_ == "packed" else "f4" if dt_ == "f4" else "f8", ((tdim,) if tdim else ()) + zdim + sp, **kw)
            if dt_ == "packed":
                v.scale_factor = 0.25
                v.add_offset = 2.0
            v.setncatts(scn["atts"][i])
            v[:] = a
        if scn["extra"]:
            v = nc.createVariable("aa_extra", "f8", ())
            v.setncatts(scn["extra"])


def run(scn, log):
    from gridded import Dataset, Variable, VectorVariable
    from gridded.depth import DepthBase as Depth
    from gridded.depth import L_Depth
    from gridded.grids import Grid
    from gridded.time import Time

    n = len(scn["parts"])
    base = tempfile.mktemp(dir=os.getcwd())
    files = [f"{base}_{i}.nc" for i in scn["perm"]]
    fg, fx = base + "_grid.nc", base + "_other.nc"
    how = scn["how"]
    split = how in ("two", "twofn", "wrong", "listtwo")
    opened = []

    def nc(f):
        d = netCDF4.Dataset(f) if not isinstance(f, list) else netCDF4.MFDataset(f)
        opened.append(d)
        return d

    class Vec(VectorVariable):
        comp_order = list(NAMES[: len(scn["fs"])])
        default_names = {x: [f"{x}_missing", x] if scn["find"] == "default" else [f"{x}_missing"] for x in comp_order}
        cf_names = {x: ["no such name", f"name of {x}", "name of the extra"] for x in comp_order}

    class One(Variable):
        default_names = ["q", "u"] if scn["find"] == "default" else ["q"]
        cf_names = ["no such name", "name of u", "name of the extra"]

    try:
        k = 0
        for i, f in enumerate(files):
            p = scn["parts"][i] if n else None
            m = len(p["vals"]) if p else 0
            write(f, scn, p, k, k + m, not split, True, "moving" if split and scn["din"] else "all")
            k += m
        if split:
            write(fg, scn, None, 0, 0, True, False, "still" if scn["din"] else "")
        with netCDF4.Dataset(fx, "w") as d:
            d.createDimension("time", 2)
            v = d.createVariable("time", "f8", ("time",))
            v.units = "hours since 1990-01-01"
            v[:] = [1, 2]
            for q in NAMES:
                d.createVariable(q, "f8", ("time",))[:] = [-5, -6]
        f0 = files[0]
        vec = len(scn["fs"]) > 1
        kw = dict(fill_value=scn["fill"]) if not vec else {}
        kw.update(load_all=scn["load"])
        g = scn["give"]
        if g["name"]:
            kw["name"] = g["name"]
        if g["units"]:
            kw["units"] = g["units"]
        if g["loc"] and not vec:
            kw["location"] = g["loc"]
        if scn["origin"] != NONE:
            kw["time_origin"] = dt(scn["origin"])
        if scn["disp"] != NONE:
            kw["displacement"] = td(scn["disp"])
        if scn["given"]:
            t = [dt(x) for x in scn["given"]]
            kw["time"] = t if scn["style"] else Time(np.array(t))
        if scn["tz"] != NONE:
            kw["tz_offset"] = hours(scn["tz"])
        if scn["topo"] != "usual":
            kw["grid_topology"] = dict(TOPO[scn["kind"]])
        if scn["dgiven"]:
            kw["depth"] = L_Depth(name="given", terms=dict(depth_levels=np.array([fr(x) for x in scn["d"]["levels"]]))) if scn["d"]["kind"] == "L" else Depth(scn["d"]["si"])
        if scn["bc"]:
            kw.update(surface_boundary_condition=scn["sbc"], bottom_boundary_condition=scn["bbc"])
        cls = Vec if vec else One
        if scn["find"] == "no":
            kw["varnames" if vec else "varname"] = list(NAMES[: len(scn["fs"])]) if vec else "u"

        def read():
            if how == "path":
                return cls.from_netCDF(f0, **kw)
            if how == "Path":
                return cls.from_netCDF(filename=Path(f0), **kw)
            if how == "list1":
                return cls.from_netCDF(filename=[f0], **kw)
            if how == "ds":
                return cls.from_netCDF(dataset=nc(f0), **kw)
            if how == "dsgrid":
                return cls.from_netCDF(dataset=nc(f0), grid_file=f0, **kw)
            if how == "two":
                if scn["din"] and scn["style"]:
                    return cls.from_netCDF(data_file=Path(f0), grid_file=Path(fg), **kw)
                return cls.from_netCDF(data_file=f0, grid_file=fg, **kw)
            if how == "twofn":
                return cls.from_netCDF(filename=f0, grid_file=fg, **kw)
            if how == "wrong":
                if scn["style"]:
                    return cls.from_netCDF(filename=fx, data_file=f0, grid_file=fg, **kw)
                return cls.from_netCDF(filename=fx, dataset=nc(f0), grid_file=fg, **kw)
            if how == "gridobj":
                return cls.from_netCDF(filename=f0, grid=make_grid(scn["kind"], 0), **kw)
            if how == "gridds":
                return cls.from_netCDF(dataset=nc(f0), grid=Grid.from_netCDF(f0), **kw)
            if how == "list":
                return cls.from_netCDF(filename=files, **kw)
            if how == "listtwo":
                return cls.from_netCDF(data_file=files, grid_file=fg, **kw)
            if how == "mf":
                return cls.from_netCDF(dataset=nc(files), **kw)
            if how == "listgrid":
                return cls.from_netCDF(filename=files, grid=make_grid(scn["kind"], 0), **kw)
            src = files if n > 1 else f0
            if how == "all":
                d = Dataset.from_netCDF(src)
            elif how == "allPath":
                d = Dataset.from_netCDF(Path(f0))
            elif how in ("allds", "allmf"):
                d = Dataset.from_netCDF(nc(src))
            else:
                d = Dataset(src)
            v = d.variables["u"]
            v.fill_value = scn["fill"]
            return v

        out, v = guard(read)
        o = {}
        if out == "ok":

            def look():
                vs = v.variables if vec else [v]
                u = v.units
                o = dict(name=str(v.name), units=["" if u is None else str(u)] if not isinstance(u, list) else ["" if x is None else str(x) for x in u])
                o["loc"] = [str(x) for x in v.location] if vec else [str(v.location)]
                o["var"] = [str(x.varname) for x in vs]
                o["attrs"] = [sorted([a, str(b)] for a, b in x.attributes.items() if a not in ("scale_factor", "add_offset", "_FillValue")) for x in vs]
                o["times"] = [secs(t) for t in v.time.data]
                o["tz"] = off(v.time.tz_offset)
                o["depth"] = "none" if v.depth is None else type(v.depth).__name__
                return o

            out, o = guard(look)
        st = {a: scn[a] for a in ("d", "parts", "given", "origin", "disp", "loc", "fill", "sbc", "bbc", "tz")}
        nf = len(scn["fs"])
        st.update(
            grid=scn["kind"],
            fs=scn["fs"],
            gname=g["name"],
            gunits=g["units"],
            funits=[a.get("units", "") for a in scn["atts"]],
            where={"S": "center", "U": "face"}[scn["kind"]] if scn["loc"] == "center" else "node",
            vars=list(NAMES[:nf]),
            attrs=[sorted([a, b] for a, b in x.items()) for x in scn["atts"]],
        )
        log("make", out=out, st=st, o=o or dict(name=""), how=how)
        if out != "ok":
            return
        for op in scn["ops"]:
            used = op["pts"][:1] if op["form"] == "single" else op["pts"]
            if op["form"] in ("two", "lonlat"):
                used = [[p[0], p[1], [0, 1]] for p in used]
            kw = make_points(op["pts"], op["form"])
            out, res = guard(lambda: v.at(time=None if op["nt"] else dt(op["t"]), extrapolate=op["ex"], unmask=op["um"], **kw))
            m, c = len(used), nf
            shape, vals = [0, 0], []
            if out == "ok":
                o2, shape = guard(lambda: [int(x) for x in np.shape(res)])
                if o2 != "ok" or len(shape) != 2:
                    shape = [0, 0]
                elif shape == [m, c]:
                    flat = rats(res, maxden=MD)
                    vals = [flat[i * c : (i + 1) * c] for i in range(m)]
            log("at", out=out, t=op["t"], ex=op["ex"], um=op["um"], pts=used, shape=shape, vals=vals)
    finally:
        for d in opened:
            guard(d.close)
        for f in [*files, fg, fx]:
            if os.path.exists(f):
                os.unlink(f)
