"""Meshes in netCDF files: read what the driver wrote, save and read back."""

import contextlib
import io
import os
import random
import tempfile

import netCDF4
import numpy as np

from drivers.mesh import ints
from obs import guard

ROLES = ("faces", "edges", "bounds", "ff", "fe")
ATTR = dict(faces="faces", edges="edges", bounds="boundaries", ff="face_face_connectivity", fe="face_edge_connectivity")
NCROLE = dict(
    faces="face_node_connectivity",
    edges="edge_node_connectivity",
    bounds="boundary_node_connectivity",
    ff="face_face_connectivity",
    fe="face_edge_connectivity",
)
NOFLAG = 99999
HOLE = -998


def array(a, dtype):
    """whole numbers, those that are missing masked"""
    a = np.array(a, dtype="i8")
    m = a == HOLE
    b = np.where(m, 0, a).astype(dtype)
    return np.ma.MaskedArray(b, m) if m.any() else b




def table(seed, n):
    """n distinct doubles: awkward ones, and ones single precision cannot hold"""
    rng = random.Random(seed)
    base = [0.1, 1 / 3, -179.99999999999997, 1e-300, 5e-324, -0.30000000000000004, 123456789.123456789, 2.0, -90.0]
    vals = []
    seen = set()
    while len(vals) < n:
        x = base.pop() if base and rng.random() < 0.3 else rng.uniform(-180, 180)
        if x not in seen:
            seen.add(x)
            vals.append(x)
    return vals


class Coords:
    def __init__(self, seed, n):
        self.t = table(seed, n)
        self.inv = {x: i for i, x in enumerate(self.t)}

    def arr(self, ids):
        return np.array([[self.t[a], self.t[b]] for a, b in ids], dtype=np.float64).reshape(-1, 2)

    def single(self, ids):
        """keep these numbers in single precision, if they can still be told apart"""
        x = {i: float(np.float32(self.t[i])) for i in ids}
        if len(set(x.values())) < len(x) or any(self.inv.get(v, i) != i for i, v in x.items()):
            return False
        for i, v in x.items():
            self.inv.pop(self.t[i])
            self.t[i] = v
            self.inv[v] = i
        return True

    def ids(self, a):
        if a is None:
            return []
        a = np.ma.asarray(a)
        m = np.ma.getmaskarray(a)
        return [[-998 if mm else self.inv.get(float(x), -999) for x, mm in zip(r, rm)] for r, rm in zip(np.ma.getdata(a), m)]


def conn(a):
    return [] if a is None else ints(a)


def observe(g, co):
    def do():
        o = {r: conn(getattr(g, ATTR[r])) for r in ROLES}
        o["nodes"] = co.ids(g.nodes)
        o["n"] = len(g.nodes)
        o["fc"] = co.ids(g.face_coordinates)
        o["ec"] = co.ids(g.edge_coordinates)
        o["bc"] = co.ids(g.boundary_coordinates)
        o["name"] = str(g.mesh_name)
        return o

    out, o = guard(do)
    return out, o or {}


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


UNITS = {"degrees_east", "degree_east", "degree_E", "degrees_E", "degreeE", "degreesE"} | {
    "degrees_north",
    "degree_north",
    "degree_N",
    "degrees_N",
    "degreeN",
    "degreesN",
}


def tell(v, word, extra):
    """say which coordinate a variable holds: by standard name, or by the units alone"""
    if word in UNITS or word in ("m", "meters"):
        v.units = word
    elif word:
        v.standard_name = word
        if extra:
            v.units = "m" if word.startswith("proj") else "degrees"


def write_mesh(ds, name, n, scn, co, prefix=""):
    p = prefix
    ds.createDimension(p + "nNodes", n)
    words = scn["tells"]
    first = 0 if scn["order"] == "lonlat" else 1
    names = []
    for k in range(2):
        axis = first if k == 0 else 1 - first
        nm = p + ["node_x", "node_y"][axis]
        short = scn.get("cdts", ["f8", "f8"])[k] == "f4" and co.single([2 * i + axis for i in range(n)])
        v = ds.createVariable(nm, "f4" if short else "f8", (p + "nNodes",))
        v[:] = [co.t[2 * i + axis] for i in range(n)]
        tell(v, words[axis], scn.get("extra", 0))
        names.append(nm)
    mesh = ds.createVariable(name, "i4", ())
    mesh.cf_role = scn.get("cf_role", "mesh_topology")
    mesh.topology_dimension = 2
    if scn.get("lost") != "node_coordinates":
        sep = scn.get("sep", " ")
        mesh.node_coordinates = sep.join(names)
        if scn.get("lost") == "variable":
            mesh.node_coordinates = names[0] + " nosuchvariable"
    return mesh


def run(scn, log):
    from gridded import Grid, Grid_U
    from gridded.pyugrid.ugrid import UGrid

    k = scn["kind"]
    fn = tempfile.mktemp(suffix=".nc", dir=os.getcwd())
    made = []

    def load(how, mesh_name=None):
        kw = {"mesh_name": mesh_name} if mesh_name else {}
        if how == "ufile":
            return UGrid.from_ncfile(fn, **kw)
        if how == "gufile":
            return Grid_U.from_ncfile(filename=fn, **kw)
        if how == "ds":
            with netCDF4.Dataset(fn) as nc:
                return UGrid.from_nc_dataset(nc, **kw)
        if how == "fds":
            with netCDF4.Dataset(fn) as nc:
                return Grid_U.from_ncfile(dataset=nc, **kw)
        if how == "grid":
            return Grid.from_netCDF(fn)
        if how == "gu":
            return Grid_U.from_netCDF(filename=fn)
        if how == "gds":
            with netCDF4.Dataset(fn) as nc:
                return Grid.from_netCDF(dataset=nc)
        raise AssertionError(how)

    try:
        if k == "read":
            n = scn["n"]
            co = Coords(scn["seed"], 2 * n + (60 if n < 99 else 3000))
            with netCDF4.Dataset(fn, "w") as ds:
                mesh = write_mesh(ds, scn["name"], n, scn, co)
                if scn["fdim"]:
                    mesh.face_dimension = "nFaces"
                if scn["edim"]:
                    mesh.edge_dimension = "nEdges"
                dims = {}

                def dim(name, size):
                    if name not in dims:
                        ds.createDimension(name, size)
                        dims[name] = size
                    return name

                for r in ROLES:
                    s = scn["conns"][r]
                    if not s["a"]:
                        continue
                    a = array(s["a"], scn.get("idt", "i4"))
                    rows = {"faces": "nFaces", "ff": "nFaces", "fe": "nFaces", "edges": "nEdges", "bounds": "nBounds"}[r]
                    cols = "two" if r in ("edges", "bounds") else "nCorners"
                    if s["layout"] == "C":
                        d = (dim(rows, a.shape[0]), dim(cols, a.shape[1]))
                    else:
                        d = (dim(cols, a.shape[0]), dim(rows, a.shape[1]))
                    kw = dict(fill_value=scn["fill"]) if scn.get("fill") and HOLE in [x for row in s["a"] for x in row] else {}
                    v = ds.createVariable("conn_" + r, a.dtype, d, **kw)
                    v[:] = a
                    if s["start"] != "none":
                        v.start_index = np.int32(int(s["start"])) if scn["seed"] % 2 else int(s["start"])
                    if s["flag"] != NOFLAG:
                        v.flag_values = np.int32(s["flag"])
                    mesh.setncattr(NCROLE[r], "conn_" + r)
                for r, role, dname in (("fc", "face", "nFaces"), ("ec", "edge", "nEdges"), ("bc", "boundary", "nBounds")):
                    ids = scn[r]
                    if not ids:
                        continue
                    d = dim(dname, len(ids))
                    nms = []
                    for ax in (0, 1) if scn["order"] == "lonlat" else (1, 0):
                        nm = f"{role}_{'xy'[ax]}"
                        v = ds.createVariable(nm, "f8", (d,))
                        v[:] = [co.t[i[ax]] for i in ids]
                        v.standard_name = ["longitude", "latitude"][ax]
                        nms.append(nm)
                    mesh.setncattr(role + "_coordinates", " ".join(nms))
                if scn.get("gone"):
                    # a connectivity that is named but not there
                    mesh.setncattr(NCROLE[scn["gone"]], "not_in_the_file")
            with quiet():
                out, g = guard(load, scn["how"], scn["name"] if scn["ask"] and scn["how"] in ("ufile", "gufile", "ds", "fds") else None)
                o = {}
                if out == "ok":
                    out, o = observe(g, co)
            log(
                "read",
                n=n,
                tells=[scn["tells"][0], scn["tells"][1]],
                lost=scn.get("lost", ""),
                conns={r: {x: scn["conns"][r][x] for x in ("a", "start", "flag", "dim")} for r in ROLES},
                fc=scn["fc"],
                ec=scn["ec"],
                bc=scn["bc"],
                out=out,
                o=o,
                how=scn["how"],
            )
        elif k == "pick":
            co = Coords(scn["seed"], 100)
            s = dict(tells=["longitude", "latitude"], order="lonlat")
            with netCDF4.Dataset(fn, "w") as ds:
                for i, (nm, kind, n) in enumerate(scn["meshes"]):
                    if kind == "mesh":
                        write_mesh(ds, nm, n, s, co, prefix=f"m{i}_")
                    elif kind == "other":
                        v = ds.createVariable(nm, "i4", ())
                        v.cf_role = "timeseries_id"
                    elif kind == "three":
                        m = write_mesh(ds, nm, n, s, co, prefix=f"m{i}_")
                        m.topology_dimension = 3
                    else:
                        v = ds.createVariable(nm, "f8", ())
            with quiet():
                out, g = guard(load, scn["how"], scn["asked"] or None)
                o = {}
                if out == "ok":
                    out, o = observe(g, co)
            log(
                "pick",
                vars=[m[0] for m in scn["meshes"] if m[1] == "mesh"],
                sizes={m[0]: m[2] for m in scn["meshes"] if m[1] == "mesh"},
                asked=scn["asked"],
                out=out,
                o=dict(name=o.get("name", ""), n=o.get("n", -1)),
            )
        elif k == "trip":
            m, fmt, refused = scn["m"], "", ""
            co = Coords(scn["seed"], scn["ncoord"])
            kw = {}
            for r in ROLES:
                if m[r]:
                    kw[ATTR[r]] = array(m[r], scn["idt"])
            for r, a in (("fc", "face_coordinates"), ("ec", "edge_coordinates"), ("bc", "boundary_coordinates")):
                if m[r]:
                    kw[a] = co.arr(m[r])
            nodes = co.arr(m["nodes"])
            if scn["lonlat"]:
                kw.update(node_lon=nodes[:, 0], node_lat=nodes[:, 1])
            else:
                kw["nodes"] = nodes
            cls = Grid_U if scn["cls"] == "Grid_U" else UGrid
            with quiet():
                out, g = guard(lambda: cls(mesh_name=m["name"], **kw))
                same = True
                o = {}
                if out == "ok":
                    if scn["old"]:
                        # something else is there already
                        with netCDF4.Dataset(fn, "w") as ds:
                            ds.createDimension("junk", 3)
                            ds.createVariable(m["name"] + "_face_nodes", "f8", ("junk",))
                    for rnd in range(scn["times"]):
                        b, before = observe(g, co)
                        if rnd:
                            # the grid may still hold the file it was read from
                            made.append(fn)
                            fn = tempfile.mktemp(suffix=".nc", dir=os.getcwd())

                        no = tempfile.mktemp(suffix=".nc", dir=os.getcwd())
                        made.append(no)
                        refused = guard(g.save_as_netcdf if scn["save"] == "as" else g.save, no, format="netcdf5")[0]
                        refused = "written" if os.path.exists(no) else refused

                        def save():
                            kw = dict(format=scn["fmt"]) if scn["fmt"] else {}
                            if scn["save"] == "save":
                                g.save(fn, **kw)
                            elif scn["save"] == "as":
                                g.save_as_netcdf(fn, **kw)
                            else:
                                with netCDF4.Dataset(fn, "w") as ds:
                                    g.save(ds)

                        out, _r = guard(save)
                        if out != "ok":
                            break
                        with netCDF4.Dataset(fn) as ds:
                            fmt = ds.data_model.lower()[:7]
                        b2, after = observe(g, co)
                        same = same and (b, before) == (b2, after)
                        out, g = guard(load, scn["how"])
                        if out != "ok":
                            break
                    eqs = []
                    if out == "ok":
                        out, o = observe(g, co)
                        for c in scn.get("eqs", []):
                            d = {**m, **c["m"]}
                            kind = Grid_U if c["kind"] == "Grid_U" else UGrid
                            kk = {ATTR[r]: array(d[r], "i4") for r in ROLES if d[r] and r in c["has"]}
                            o2, r = guard(lambda: kind(nodes=co.arr(d["nodes"]), **kk) == g)
                            eqs.append(dict(kind=c["kind"], nodes=d["nodes"], faces=d["faces"], bounds=d["bounds"], got=bool(r) if o2 == "ok" else o2))
                        m = {**m, "kind": type(g).__name__}
            log("trip", m=m, fmt=(scn["fmt"] if scn["save"] != "ds" else "") or "netcdf4", got=fmt, refused=refused, out=out, o=o, same=bool(same), eqs=eqs if out == "ok" else [])
        elif k == "mapped":
            from gridded.pyugrid.grid_io import load_from_varnames

            n = scn["n"]
            co = Coords(scn["seed"], 2 * n + 2 * len(scn["fc"]))
            names = scn["names"]
            cdt = scn["cdt"]
            if cdt == "f4" and len({float(np.float32(x)) for x in co.t[: 2 * n : 2]}) < n:
                cdt = "f8"  # not told apart in single precision
            with netCDF4.Dataset(fn, "w") as ds:
                dims = {}

                def put(role, a, d, dtype="f8"):
                    a = np.asarray(a, dtype=dtype)
                    for nm, size in zip(d, a.shape):
                        if nm not in dims:
                            ds.createDimension(nm, size)
                            dims[nm] = size
                    v = ds.createVariable(names[role], dtype, d)
                    v[:] = a

                put("nodes_lon", [co.t[2 * i] for i in range(n)], ("node",), cdt)
                put("nodes_lat", [co.t[2 * i + 1] for i in range(n)], ("node",))
                d = ("three", "nele") if scn["turned"] else ("nele", "three")
                if scn["faces"]:
                    put("faces", scn["faces"], d, scn["idt"])
                if scn["ff"]:
                    put("face_face_connectivity", scn["ff"], d, scn["idt"])
                if scn["fc"]:
                    put("face_coordinates_lon", [co.t[a] for a, b in scn["fc"]], ("nele",))
                    put("face_coordinates_lat", [co.t[b] for a, b in scn["fc"]], ("nele",))
                if scn["bounds"]:
                    put("boundaries", scn["bounds"], ("nbnd", "nbi"), scn["idt"])
                if scn["attr"] in ("match", "differs"):
                    ds.grid_type = "Triangular" if scn["attr"] == "match" else "curvilinear"
            called = []
            kw = {}
            if scn["attr"] != "none":
                kw["attribute_check"] = [("grid_type", "triangular")]
            if scn["post"]:

                def post(nc, ug):
                    called.append("lon" if names["nodes_lon"] in nc.variables else "other file")
                    ug.mesh_name = "posted"

                kw["post_process"] = post
            mapping = {r: v for r, v in names.items() if r in scn["map"]}
            with quiet():
                if scn["how"] == "path":
                    out, g = guard(lambda: load_from_varnames(fn, mapping, **kw))
                else:
                    with netCDF4.Dataset(fn) as nc:
                        out, g = guard(lambda: load_from_varnames(nc, mapping, **kw))
                o = {}
                if out == "ok":
                    if cdt == "f4":
                        for i in range(n):
                            x = float(np.float32(co.t[2 * i]))
                            if co.inv.get(x, 2 * i) == 2 * i:
                                co.inv[x] = 2 * i
                    out, o = observe(g, co)
            log(
                "mapped",
                n=n,
                attr=scn["attr"],
                out=out,
                o={r: o.get(r, []) for r in ("nodes", "faces", "ff", "bounds", "fc")},
                faces=scn["faces"],
                ff=scn["ff"],
                bounds=scn["bounds"],
                fc=scn["fc"],
                posted=["lon", "posted"] if scn["post"] else [],
                post=(called + [o.get("name", "")]) if scn["post"] else called,
            )
        elif k == "named":
            n = scn["n"]
            co = Coords(scn["seed"], 2 * n)
            a = np.array(scn["faces"], dtype=scn["idt"])
            xy = co.arr([[2 * i, 2 * i + 1] for i in range(n)])
            with netCDF4.Dataset(fn, "w") as ds:
                ds.createDimension("n", n)
                ds.createDimension("a", a.shape[0])
                ds.createDimension("b", a.shape[1])
                nx, ny = scn["xy"]
                if ny:
                    for nm, col in ((nx, 0), (ny, 1)):
                        v = ds.createVariable(nm, "f8", ("n",))
                        v[:] = xy[:, col]
                else:
                    ds.createDimension("two", 2)
                    v = ds.createVariable(nx, "f8", ("n", "two"))
                    v[:] = xy
                v = ds.createVariable(scn["fname"], a.dtype, ("a", "b"))
                v[:] = a
            gt = None
            if scn["topo"]:
                gt = {"faces": scn["fname"]}
                if ny:
                    gt.update(node_lon=nx, node_lat=ny)
                else:
                    gt["nodes"] = nx
            kw = {} if gt is None else {"grid_topology": gt}
            with quiet():
                if scn["how"] == "gu":
                    out, g = guard(lambda: Grid_U.from_netCDF(filename=fn, **kw))
                elif scn["how"] == "grid":
                    out, g = guard(lambda: Grid.from_netCDF(fn, **kw))
                else:
                    with netCDF4.Dataset(fn) as nc:
                        out, g = guard(lambda: Grid.from_netCDF(dataset=nc, **kw))
                o = {}
                if out == "ok":
                    out, o = observe(g, co)
            log("named", n=n, faces=scn["faces"], out=out, o=dict(nodes=o.get("nodes", []), faces=o.get("faces", [])), how=scn["how"], xy=scn["xy"], topo=scn["topo"])
    finally:
        for f in made + [fn]:
            if os.path.exists(f):
                os.unlink(f)
