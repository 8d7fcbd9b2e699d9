"""Grids of any kind made from files: which kind, which variables are its arrays; Datasets of conventional files."""

import itertools
import os
import tempfile
from datetime import datetime

import netCDF4
import numpy as np

from obs import guard

ALL = ("node_lon", "node_lat", "center_lon", "center_lat", "edge1_lon", "edge1_lat", "edge2_lon", "edge2_lat")
MASKS = ("node_mask", "center_mask", "edge1_mask", "edge2_mask")
# six nodes, four triangles
XY = [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)]
TRIS = [(0, 1, 4), (0, 4, 3), (1, 2, 5), (1, 5, 4)]
PERMS = list(itertools.permutations(TRIS))
TURNS = list(itertools.permutations(range(3)))
MASKOF = {"mask_psi": "node_mask", "mask_rho": "center_mask", "mask_u": "edge1_mask", "mask_v": "edge2_mask"}


def own_types():
    from gridded.grids import Grid_R, Grid_S, Grid_U

    return {k: type("My" + k.upper(), (b,), {}) for k, b in (("u", Grid_U), ("s", Grid_S), ("r", Grid_R))}


def write(fn, scn):
    """-> {label: array}"""
    arr = {}
    shp = scn["shapes"]
    with netCDF4.Dataset(fn, "w", format=scn["fmt"]) as nc:

        def var(label, dims, data, dtype="f8", **attrs):
            for d, n in zip(dims, np.shape(data)):
                if d not in nc.dimensions:
                    nc.createDimension(d, n)
            v = nc.createVariable(scn["spell"].get(label, label), dtype, dims)
            v[:] = data
            for a, b in attrs.items():
                setattr(v, a, b)
            arr[label] = np.asarray(data)
            return v

        if scn["c"]["attr"]:
            nc.grid_type = scn["attrtext"]
        k = turn = 0

        for d in scn["vars"]:
            if d["what"] == "coord":
                k += 1
                x = d["axis"] == "x"
                s = shp[d["loc"]]
                if scn["flat"]:
                    a = np.array([p[0 if x else 1] for p in XY], float)
                elif len(d["dims"]) == 1:
                    a = 2.0 * np.arange(s[1 if x else 0])
                else:
                    a = 2.0 * (np.arange(s[1]) + 0 * np.arange(s[0])[:, None] if x else np.arange(s[0])[:, None] + 0 * np.arange(s[1]))
                if not (scn["exact"] and d["real"]):
                    a = a + 0.0625 * k + (0 if d["real"] else 1000 * k)
                var(d["label"], d["dims"], a)
            elif d["what"] == "comp":
                k += 1
                a = np.array(XY, float) + (0 if d["real"] else 1000 * k)
                var(d["label"], ["nnode", "two"], a)
            elif d["what"] == "faces":
                k += 1
                f = np.array(scn["tris"], int)
                if not d["real"]:
                    turn += 1
                    f = f[:, TURNS[turn]]
                arr[d["label"]] = f
                g = f + scn["start"]
                dims, g = (["three", "nele"], g.T) if scn["fortran"] else (["nele", "three"], g)
                for dd, n in zip(dims, g.shape):
                    if dd not in nc.dimensions:
                        nc.createDimension(dd, n)
                v = nc.createVariable(scn["spell"].get(d["label"], d["label"]), "i4", dims)
                v[:] = g
            elif d["what"] == "mask":
                s = [6] if scn["flat"] else shp[d["loc"]]
                var(d["label"], d["dims"], np.arange(int(np.prod(s))).reshape(s) % 2 + 2 * MASKS.index(MASKOF[d["canon"]]), "i4")
        t = scn["c"]["tvar"]
        if t == "u":
            v = nc.createVariable("Mesh", "i4")
            v.cf_role = "mesh_topology"
            v.topology_dimension = 2
            v.node_coordinates = "conv_x conv_y"
            v.face_node_connectivity = "conv_f"
            var("conv_x", ["cn"], np.array([p[0] for p in XY], float) + 0.3, standard_name="longitude")
            var("conv_y", ["cn"], np.array([p[1] for p in XY], float) + 0.7, standard_name="latitude")
            v = var("conv_f", ["cf", "c3"], np.array(PERMS[23]), "i4", cf_role="face_node_connectivity", start_index=0)
        elif t == "s":
            v = nc.createVariable("grid", "i4")
            v.cf_role = "grid_topology"
            v.topology_dimension = 2
            v.node_dimensions = "cxi ceta"
            v.face_dimensions = "cxc: cxi (padding: both) cyc: ceta (padding: both)"
            v.node_coordinates = "conv_x conv_y"
            nc.createDimension("cxc", 5)
            nc.createDimension("cyc", 4)
            var("conv_x", ["ceta", "cxi"], np.arange(12.0).reshape(3, 4) + 0.3, standard_name="longitude")
            var("conv_y", ["ceta", "cxi"], np.arange(12.0).reshape(3, 4) + 0.7, standard_name="latitude")
        for d in scn["data"]:
            a = (np.arange(int(np.prod(d["sizes"] or [1])), dtype=float) * d["mul"]).reshape(d["sizes"])
            at = {}
            if d["locattr"]:
                at["location"] = d["locattr"]
            if d["long"]:
                at["long_name"] = d["long"]
            var(d["label"], d["dims"], a, **at)
        if scn["time"]:
            v = var("time", ["time"], np.arange(2.0), units="hours since 2020-01-01 00:00:00")
    return arr


def match(a, arr):
    """the label of the array"""
    if a is None:
        return ""
    try:
        a = np.asarray(a[:])
    except Exception:
        return "?"
    for k, b in arr.items():
        if a.shape == b.shape and np.array_equal(a, b):
            return k
    return "?"


def nothing():
    return dict(node_lon="", cls="", gt=dict(node_lon=""), role="")


def observe(g, scn, arr):
    def col(a, i):
        if a is None:
            return ""
        a = np.asarray(a)
        for n, b in arr.items():
            if b.ndim == 2 and b.shape == (6, 2) and np.array_equal(a, b[:, i]):
                return n
        return match(a, arr)

    o = dict(cls=type(g).__name__)
    for n in ALL:
        o[n] = col(getattr(g, n, None), 0 if n.endswith("lon") else 1)
    for n in MASKS:
        o[n] = match(getattr(g, n, None), arr)
    o["faces"] = match(getattr(g, "faces", None), arr)
    back = {v: k for k, v in scn["spell"].items()}
    gt = dict(getattr(g, "grid_topology", None) or {})

    def meant(x):
        """the variable that the topology names; a name no variable of the file has is none"""
        return back.get(x, "?" + x if x in scn["spell"] else x)

    o["gt"] = {n: meant(str(gt.get(n, ""))) for n in ALL + MASKS + ("faces", "node_coordinates")}
    o["role"] = str(gt.get("cf_role", ""))
    return o


def run(scn, log):
    {"grid": grid, "dataset": dataset}[scn["kind"]](scn, log)


def grid(scn, log):
    from gridded.grids import Grid, Grid_R, Grid_S, Grid_U

    fn = tempfile.mktemp(suffix=".nc", dir=os.getcwd())
    fn2 = fn[:-3] + "_2.nc"
    opened = []

    def nc(f):
        d = netCDF4.Dataset(f)
        opened.append(d)
        return d

    try:
        arr = write(fn, scn)
        with netCDF4.Dataset(fn2, "w") as d:
            d.grid_type = "ugrid"
            d.createDimension("x", 3)
            for i, n in enumerate(("lon", "lat")):
                d.createVariable(n, "f8", ("x",))[:] = [70 + i, 80 + i * i, 90]
        base = {"u": Grid_U, "s": Grid_S, "r": Grid_R}
        own = own_types()
        kw = {}
        a = scn["c"]["arg"]
        call = Grid.from_netCDF
        if a:
            if scn["argstyle"] == "class" and a != "bad":
                kw["grid_type"] = base[a]
            elif scn["argstyle"] == "sub" and a != "bad":
                kw["grid_type"] = own[a]
            elif scn["argstyle"] == "method" and a != "bad":
                call = base[a].from_netCDF
            elif scn["argstyle"] == "submethod" and a != "bad":
                call = own[a].from_netCDF
            else:
                kw["grid_type"] = scn["argtext"]
        if scn["own"]:
            kw["_default_types"] = (("ugrid", own["u"]), ("sgrid", own["s"]), ("rgrid", own["r"]))
        if scn["c"]["topo"] != "none":
            kw["grid_topology"] = dict(scn["topo"])
        e = scn["entry"]
        if e == "filename":
            kw["filename"] = fn
        elif e == "dataset":
            kw["dataset"] = nc(fn)
        elif e == "both":
            kw.update(filename=fn2, dataset=nc(fn))
        elif e == "default":
            kw.update(filename=fn2, grid_file=fn)
        elif e == "grid_file":
            kw.update(grid_file=fn, data_file=fn2)
        elif e == "grid_nc":
            kw.update(grid_file=nc(fn), dataset=nc(fn2))
        if e in ("of_dataset", "of_init"):
            from gridded import Dataset

            d = Dataset.from_netCDF if e == "of_dataset" else Dataset
            out, g = guard(lambda: d(fn, grid_topology=kw.get("grid_topology")).grid)
        else:
            out, g = guard(call, **kw)
        o = nothing()
        if out == "ok":
            out, o = guard(observe, g, scn, arr)
            o = o or nothing()
        log(
            "grid",
            c=scn["c"],
            have=[d["canon"] for d in scn["vars"] if d["canon"]],
            want=("My" if scn["own"] and not (a and scn["argstyle"] in ("class", "method")) or (a and scn["argstyle"] in ("sub", "submethod")) else "Grid_"),
            topo=scn["topo"] or dict(node_lon=""),
            out=out,
            o=o,
            same=bool(out != "ok" or scn["c"]["topo"] == "none" or dict(g.grid_topology) == dict(scn["topo"])),
        )
    finally:
        for d in opened:
            guard(d.close)
        for f in (fn, fn2):
            if os.path.exists(f):
                os.unlink(f)


def dataset(scn, log):
    from gridded import Dataset

    fn = tempfile.mktemp(suffix=".nc", dir=os.getcwd())
    try:
        arr = write(fn, scn)
        out, ds = guard(Dataset.from_netCDF, fn)
        res = []
        if out == "ok":
            back = {v: k for k, v in scn["spell"].items()}

            def look():
                r = []
                for key, v in ds.variables.items():
                    b = arr.get(back.get(key, key))
                    d = dict(key=str(key), loc=str(v.location), name=str(v.name), varname=str(v.varname))
                    got = np.asarray(v.data[:])
                    d["data"] = bool(b is not None and got.shape == b.shape and np.array_equal(got, b)) or back.get(key, key) in scn["facelabels"]
                    d["grid"] = v.grid is ds.grid
                    r.append(d)
                return r

            out, res = guard(look)
            res = res or []
        vals = []
        if out == "ok" and scn["c"]["nodes"] == "1d" and not scn["c"]["faces"]:
            # cell centers: four times the mean of the corners
            ny, nx = scn["shapes"]["node"]
            pts = np.array([(2 * i + 1, 2 * j + 1) for j in range(ny - 1) for i in range(nx - 1)], float)
            for d in scn["data"]:
                if d["label"] in ds.variables and ds.variables[d["label"]].location == "node" and d["dims"][:-2] in ([], ["time"]) and not d["locattr"]:
                    q, r = guard(lambda: ds[d["label"]].at(pts, datetime(2020, 1, 1, scn["hour"] if scn["time"] else 0)))
                    v = []
                    if q == "ok":
                        r = np.ma.filled(np.ma.asarray(r, float), -77).ravel()
                        v = [int(round(4 * float(x))) if abs(4 * x - round(4 * float(x))) < 1e-6 else -(10**8) for x in r]
                    vals.append(dict(out=q, v=v, mul=d["mul"], sizes=d["sizes"], rev=d["reversed"]))
        log(
            "dataset",
            c=scn["c"],
            n=scn["n"],
            have=[d["canon"] for d in scn["vars"] if d["canon"]],
            vars=[
                dict(key=scn["spell"].get(d["label"], d["label"]), canon=d["canon"], sizes=d["sizes"], locattr=d.get("locattr", ""), long=d.get("long", ""), reversed=d.get("reversed", False))
                for d in scn["vars"] + scn["data"] + ([dict(label="time", canon="", sizes=[2])] if scn["time"] else [])
            ],
            out=out,
            res=res,
            vals=vals,
            hour=scn["hour"] if scn["time"] else 0,
        )
        if out == "ok":
            guard(ds.nc_dataset.close)
    finally:
        if os.path.exists(fn):
            os.unlink(fn)
