"""Histories of Datasets: built, changed, saved to files and loaded from them."""

import os
import tempfile

import netCDF4
import numpy as np

from drivers.ugrid_file import ATTR, ROLES, Coords, observe, quiet
from obs import guard

FVALS = [0.0, 0.1, 1 / 3, -2.5, 1e30, -7e-12, 123456.789, 5.0, -0.75, 2.0**-40, 99.0, -1.0, 3.25, 1e-30, 17.0, 8.125]
IVALS = [0, 1, -1, 7, 120, -99, 32000, -32000, 3, 4, 5, 6, 10, 11, 12, 13]


def vals(dt):
    return np.array(FVALS if dt.startswith("f") else IVALS, dtype=dt)


def make_data(dt, ids):
    t = vals(dt)
    a = np.array([t[0 if i < 0 else i] for i in ids], dtype=dt)
    if any(i < 0 for i in ids):
        return np.ma.masked_array(a, mask=[i < 0 for i in ids])
    return a


def ids_of(a, scale=None):
    a = np.ma.asarray(a)
    t = vals(a.dtype.str[1:]) if a.dtype.kind in "fi" else []
    inv = {x.item(): i for i, x in enumerate(t)}
    if scale:
        inv = {x * scale[0] + scale[1]: i for i, x in enumerate(IVALS)}
    m = np.ma.getmaskarray(a).ravel()
    return [-998 if mm else inv.get(x, -999) for x, mm in zip(np.ma.getdata(a).ravel().tolist(), m)]


def word(v):
    """an attribute value as a string that also tells its type"""
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, (list, tuple, np.ndarray)) and np.size(v) != 1:
        return "a:" + ",".join(word(x.item() if hasattr(x, "item") else x) for x in np.asarray(v).ravel())
    x = np.asarray(v).ravel()[0]
    if isinstance(x, (np.integer, int)):
        return f"i:{int(x)}"
    if isinstance(x, (np.floating, float)):
        return f"f:{float(x)!r}"
    return f"?:{type(v).__name__}"


def unword(w):
    k, v = w.split(":", 1)
    if k == "s":
        return v
    if k == "i":
        return int(v)
    if k == "f":
        return float(v)
    return np.array([int(x.split(":")[1]) for x in v.split(",")], dtype=np.int32)


def classic(ds):
    """whether a netCDF3 file can hold all of it"""
    ok = lambda a: np.asarray(a).dtype.str[1:] in ("i1", "i2", "i4", "f4", "f8")  # noqa: E731
    attr = lambda a: isinstance(a, str) or ok(a)  # noqa: E731
    vs = list(ds.variables.values())
    return all(np.dtype(v.data.dtype).str[1:] in ("i1", "i2", "i4", "f4", "f8") for v in vs) and all(
        attr(a) for x in vs + [ds] for a in x.attributes.values()
    )


def model(fn):
    with netCDF4.Dataset(fn) as nc:
        return nc.data_model.lower()[:7]


RESERVED = {"location", "mesh", "coordinates", "units"}


def run(scn, log):
    from gridded import Dataset, Grid_U, Variable

    co = Coords(scn["seed"], 200 if all(len(o["mesh"]["nodes"]) < 99 for o in scn["ops"] if "mesh" in o) else 4000)
    mem, scale = {}, {}
    path = {}
    made = []
    log("start")

    def fresh():
        made.append(tempfile.mktemp(suffix=".nc", dir=os.getcwd()))
        return made[-1]

    def grid_of(m):
        kw = {ATTR[r]: np.array(m[r], dtype="i4") for r in ROLES if m[r]}
        for r, a in (("fc", "face_coordinates"), ("ec", "edge_coordinates"), ("bc", "boundary_coordinates")):
            if m[r]:
                kw[a] = co.arr(m[r])
        return Grid_U(nodes=co.arr(m["nodes"]), mesh_name=m["name"], **kw)

    def see(d):
        ds = mem[d]
        out, mesh = observe(ds.grid, co)
        mesh.pop("n", None)
        vs = []
        for nm in sorted(ds.variables):
            v = ds.variables[nm]

            def one():
                a = v.data[:]
                loc = v.attributes.get("location")
                return dict(
                    name=str(nm),
                    label=word(v.name),
                    loc=str(v.location) if loc in (None, v.location) else f"{v.location}/{loc}",
                    units="" if v.units is None else str(v.units),
                    dt=a.dtype.str[1:],
                    data=ids_of(a, scale.get((d, nm))),
                    attrs=sorted([str(k), word(x)] for k, x in v.attributes.items() if k not in RESERVED),
                )

            out, r = guard(one)
            vs.append(r if out == "ok" else dict(name=str(nm), label="?", loc=out, units="", dt="", data=[], attrs=[]))
        return dict(d=d, mesh=mesh, vars=vs, attrs=sorted([str(k), word(x)] for k, x in ds.attributes.items()))

    def write_import(op, fn):
        """a file some other program might have written"""
        with netCDF4.Dataset(fn, "w") as nc, quiet():
            g = grid_of(op["mesh"])
            g.save(nc)
            nm = op["mesh"]["name"]
            for v in op["vars"]:
                kw = {}
                at = dict((k, unword(x)) for k, x in v["attrs"])
                if "_FillValue" in at:
                    kw["fill_value"] = at.pop("_FillValue")
                stored = "i2" if v["packed"] else v["dt"]
                nv = nc.createVariable(v["name"], stored, (f"{nm}_num_{v['loc']}",), **kw)
                nv.location = v["loc"]
                nv.mesh = nm
                if v["units"]:
                    nv.units = v["units"]
                nv.setncatts(at)
                nv.set_auto_maskandscale(False)
                fill = kw.get("fill_value", -32767)
                if v["packed"]:
                    nv[:] = np.array([fill if i < 0 else IVALS[i] for i in v["data"]], dtype="i2")
                else:
                    t = vals(v["dt"])
                    nv[:] = np.array([fill if i < 0 else t[i] for i in v["data"]], dtype=v["dt"])
            nc.setncatts(dict((k, unword(x)) for k, x in op["attrs"]))

    try:
        for op in scn["ops"]:
            k, d = op["op"], op["d"]
            if k == "find":
                out, got = guard(lambda: mem[d].get_variables_by_attribute(op["k"], unword(op["val"])))
                if out == "ok":
                    out, got = guard(lambda: [nm for nm, v in mem[d].variables.items() if any(v is g for g in got)] + ["?"] * (len(got) - sum(any(v is g for g in got) for v in mem[d].variables.values())))
                log("find", d=d, k=op["k"], val=op["val"], out=out, got=got or [])
                continue
            if k == "load" and op["f"] not in path:
                continue
            if k not in ("new", "import", "load") and d not in mem:
                continue
            if k in ("delvar", "varattr", "units") and op["name"] not in mem[d].variables:
                continue

            def do():
                if k == "new":
                    a = dict((x, unword(y)) for x, y in op["attrs"])
                    mem[d] = Dataset(grid=grid_of(op["mesh"]), variables={}, attributes=a)
                elif k == "import":
                    fn = fresh()
                    write_import(op, fn)
                    mem[d] = Dataset.from_netCDF(fn)
                elif k == "setvar":
                    v = op["v"]
                    at = dict((x, unword(y)) for x, y in v["attrs"])
                    if v.get("inattrs") and v["units"]:
                        at["units"] = v["units"]
                    mem[d].variables[v["name"]] = Variable(
                        name=unword(v["label"]),
                        units=v["units"] or None,
                        data=make_data(v["dt"], v["data"]),
                        grid=mem[d].grid,
                        location=v["loc"],
                        attributes=at,
                    )
                elif k == "delvar":
                    del mem[d].variables[op["name"]]
                elif k == "setattr":
                    mem[d].attributes[op["k"]] = unword(op["val"])
                elif k == "varattr":
                    mem[d].variables[op["name"]].attributes[op["k"]] = unword(op["val"])
                elif k == "units":
                    mem[d].variables[op["name"]].units = op["val"]
                elif k == "save":
                    # always a new path: a loaded Dataset keeps its file open
                    fn = fresh()
                    no = guard(mem[d].save, fn, format="netcdf5")[0]
                    kept["refused"] = "written" if os.path.exists(fn) else no
                    kw = {}
                    if op.get("fmt") == "netcdf4" or op.get("fmt") == "netcdf3" and classic(mem[d]):
                        kw["format"] = op["fmt"]
                    mem[d].save(fn, **kw)
                    kept["fmt"], kept["got"] = kw.get("format", "netcdf4"), model(fn)
                    path[op["f"]] = fn
                    for key in [x for x in scale if x[0] == op["f"]]:
                        del scale[key]
                    for key in [x for x in scale if x[0] == d]:
                        scale[(op["f"], key[1])] = scale[key]
                else:
                    mem[d] = Dataset.from_netCDF(path[op["f"]])

            kept = dict(fmt="", got="", refused="err:ValueError")
            with quiet():
                out, _r = guard(do)
            if out == "ok":
                if k in ("new", "import", "load"):
                    for key in [x for x in scale if x[0] == d]:
                        del scale[key]
                if k == "import":
                    for v in op["vars"]:
                        if v["packed"]:
                            scale[(d, v["name"])] = v["packed"]
                if k == "load":
                    for key in [x for x in scale if x[0] == op["f"]]:
                        scale[(d, key[1])] = scale[key]
                if k in ("setvar", "delvar"):
                    scale.pop((d, op["v"]["name"] if k == "setvar" else op["name"]), None)
            o = []
            if out == "ok":
                for x in sorted(mem):
                    out2, s = guard(see, x)
                    if out2 != "ok":
                        out = out2
                        break
                    o.append(s)
            if k in ("import", "setvar"):
                op = dict(op)
                if k == "setvar":
                    op["v"] = {x: y for x, y in op["v"].items() if x != "inattrs"}
                else:
                    op["vars"] = [{x: y for x, y in v.items() if x != "packed"} for v in op["vars"]]
            log("op", op=op, out=out, o=o, kept=kept)
            if out != "ok":
                break
    finally:
        for ds in mem.values():
            guard(lambda: ds.nc_dataset.close())
        for f in made:
            if os.path.exists(f):
                os.unlink(f)
