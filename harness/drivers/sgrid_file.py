"""Staggered grids in netCDF files (SGRID): read what the driver wrote, save, read back; parsing; index histories."""

import math
import os
import tempfile

import netCDF4
import numpy as np

from obs import guard

LOCS = ("node", "face", "edge1", "edge2")


def fill(shape, k):
    """distinct values for array number k"""
    return (np.arange(int(np.prod(shape)), dtype=float) + 1000 * k + 0.25).reshape(shape)


def dims_of(scn, loc):
    c, d = scn["c"], scn["dims"]
    pa = 0 if (loc == "edge1") == (c["ord"] == "f") else 1
    out = []
    for a in (0, 1):
        if loc == "node" or (loc != "face" and c["es"] != "own" and a != pa):
            out.append(d["n"][a])
        elif loc == "face" or c["es"] != "own":
            out.append(d["f"][a])
        else:
            out.append(d[loc][a])
    return tuple(out)


def mask_dims(scn, m):
    d = dims_of(scn, m["loc"])
    return d[::-1] if m["swap"] else d


def size_of(scn, loc, a):
    c = scn["c"]
    extra = dict(none=0, low=1, high=1, both=2)
    if loc == "node":
        return c["n"][a]
    if loc == "face":
        return c["n"][a] - 1 + extra[c["pad"][a]]
    pa = 0 if (loc == "edge1") == (c["ord"] == "f") else 1
    if a != pa:
        return c["n"][a]
    return c["n"][a] - 1 + extra[c["epad"] if c["es"] == "own" else c["pad"][a]]


def order(c, pair):
    return list(pair) if c["ord"] == "c" else list(pair)[::-1]


def write(fn, scn):
    """-> the arrays in the file, by label"""
    c = scn["c"]
    arrays = {}
    with netCDF4.Dataset(fn, "w", format=scn["fmt"]) as nc:
        made = set()
        for loc in LOCS:
            for a, d in enumerate(dims_of(scn, loc)):
                if d not in made:
                    made.add(d)
                    nc.createDimension(d, size_of(scn, loc, a))
        for d, n in (("t", 2), (scn["dims"]["ku"], 3), (scn["dims"]["kw"], 4)):
            nc.createDimension(d, n)
        k = 0

        def topology(name, tdim):
            g = nc.createVariable(name, "i4")
            g.cf_role = "grid_topology"
            if tdim:
                g.topology_dimension = tdim
            n = scn["dims"]["n"]
            g.node_dimensions = " ".join(order(c, n))
            f = scn["dims"]["f"]
            p = [f"{f[a]}: {n[a]} (padding: {c['pad'][a]})" for a in (0, 1)]
            if scn["bad"] == "padding":
                p = [f"{f[a]}: {n[a]}" for a in (0, 1)]
            g.face_dimensions = " ".join(order(c, p))
            for loc in ("edge1", "edge2"):
                pa = 0 if (loc == "edge1") == (c["ord"] == "f") else 1
                if c["es"] == "own":
                    e = scn["dims"][loc]
                    w = [f"{e[a]}: {n[a]}" + (f" (padding: {c['epad']})" if a == pa else "") for a in (0, 1)]
                elif c["es"] == "shared":
                    w = [p[a] if a == pa else n[a] for a in (0, 1)]
                else:
                    continue
                setattr(g, f"{loc}_dimensions", " ".join(order(c, w)))
            if c["vert"] != "absent":
                g.vertical_dimensions = f"{scn['dims']['ku']}: {scn['dims']['kw']} (padding: {c['vert']})"
            for loc, how in (("node", c["nodec"]), ("face", c["facec"]), ("edge1", c["edgec"]), ("edge2", c["edgec"])):
                if how == "attr":
                    setattr(g, f"{loc}_coordinates", " ".join(x[0] for x in scn["names"][loc]))
            return g

        def decoys():
            """a variable over time and the node dimensions which is named like a coordinate and is none"""
            for nm, sn in scn["decoys"]:
                v = nc.createVariable(nm, "f8", ("t",) + dims_of(scn, "node"))
                if sn:
                    v.standard_name = sn
                v[:] = 7777.5

        def coords():
            nonlocal k
            for loc, how in (("node", c["nodec"]), ("face", c["facec"]), ("edge1", c["edgec"]), ("edge2", c["edgec"])):
                for axis in order(dict(ord="c" if scn["xy"] else "f"), (0, 1)):
                    if how == "none":
                        continue
                    nm, sn, de = scn["names"][loc][axis]
                    dm = dims_of(scn, loc)
                    packed = scn["dt"] == "packed"
                    v = nc.createVariable(nm, "i4" if packed else scn["dt"], dm)
                    if packed:
                        v.scale_factor = 0.25
                    if sn:
                        v.standard_name = sn
                    if de:
                        v.description = de
                    k += 1
                    a = fill(v.shape, k)
                    v[:] = a
                    arrays[f"{loc}_{'xy'[axis]}"] = a
            if c["facec"] != "none" and scn["angle"]:
                v = nc.createVariable("angle", "f8", dims_of(scn, "face"))
                k += 1
                a = fill(v.shape, k)
                v[:] = a
                arrays["angle"] = a

        def masks():
            for i, m in enumerate(scn["masks"]):
                v = nc.createVariable(m["name"], "i4", mask_dims(scn, m))
                v[:] = (np.arange(v.size) * (i + 2) % 3).reshape(v.shape)
                if m["long"]:
                    v.long_name = m["long"]
                v.flag_values = np.array([0, 1, 2], dtype="i4")
                v.flag_meanings = f"land water m{i}"

        def variables():
            for v in scn["vars"]:
                dm = tuple(scn["dims"].get(x, x) for x in v["lead"]) + dims_of(scn, v["loc"])
                w = nc.createVariable(v["name"], "f8", dm)
                if v["grid"]:
                    w.grid = "grid"
                if v["locattr"]:
                    w.location = v["locattr"]
                if v["coords"]:
                    w.coordinates = v["coords"]
                if v["std"]:
                    w.standard_name = v["std"]
                if v["axes"]:
                    w.axes = " ".join(f"{x}: {y}" for x, y in zip("XYZ", v["axes"]) if y)
                s = w.shape[-2:]
                w[:] = np.broadcast_to(10 * np.arange(s[0])[:, None] + np.arange(s[1])[None, :], w.shape)

        tops = {"": [("grid", 2)], "none": [], "two": [("grid", 2), ("grid2", 2)], "dim3": [("grid", 3)], "nodim": [("grid", 0)], "padding": [("grid", 2)]}
        steps = [lambda: [topology(*t) for t in tops[scn["bad"]]], decoys, coords, masks, variables]
        if scn["first"]:
            steps = steps[1:] + steps[:1]
        for s in steps:
            s()
    return arrays


def label(arrays, a):
    if a is None:
        return "none"
    b = np.ma.asarray(a[:])
    if np.ma.getmaskarray(b).any():
        return "masked"
    for k, v in arrays.items():
        if b.shape == v.shape and np.array_equal(np.ma.getdata(b), v):
            return k
    return "?"


def cut(sl):
    return [[s.start or 0, s.stop or 0] if isinstance(s, slice) and s.step is None else [-99, -99] for s in sl]


def observe(g, scn, arrays, filled):
    from gridded.pysgrid.processing_2d import avg_to_cell_center

    def do():
        o = {}
        byname = {x[0]: f"{loc}_{'xy'[i]}" for loc in LOCS for i, x in enumerate(scn["names"][loc])}
        for loc, a in (("node", "node"), ("face", "center"), ("edge1", "edge1"), ("edge2", "edge2")):
            o[loc] = [label(arrays, getattr(g, a + "_lon")), label(arrays, getattr(g, a + "_lat"))]
            nm = getattr(g, loc + "_coordinates")
            o[loc + "N"] = ["none", "none"] if nm is None else [byname.get(x, "?") for x in nm]
            m = getattr(g, a + "_mask")
            j = 0
            if m is not None:
                j = -1
                for i, mm in enumerate(scn["masks"]):
                    if m.name == mm["name"]:
                        want = (np.arange(m.size) * (i + 2) % 3).reshape(m.shape)
                        got = np.ma.asarray(m[:])
                        good = not np.ma.getmaskarray(got).any() and np.array_equal(got, want)
                        good = good and m.flag_meanings == f"land water m{i}" and m.dimensions == mask_dims(scn, mm)
                        j = i + 1 if good else -1
            o[loc + "M"] = j
        o["pad"] = [str(x) for x in g.face_padding]
        o["e1pad"] = ["no" if x is None else str(x) for x in g.edge1_padding]
        o["e2pad"] = ["no" if x is None else str(x) for x in g.edge2_padding]
        o["angle"] = label(arrays, g.angles)
        o["top"] = str(g.grid_topology_var)
        o["nd"] = str(g.node_dimensions)
        o["dims"] = sorted([str(n), int(s)] for n, s in g.dimensions)
        o["gridvars"] = sorted(g.grid_variables)
        vs = []
        for v in scn["vars"]:
            s = getattr(g, v["name"])
            r = dict(
                cut=cut(s.center_slicing),
                loc="" if s.location is None else str(s.location),
                ax=[-1 if x is None else int(x) for x in (s.center_axis, s.node_axis)],
                axes=["" if x is None else str(x) for x in (s.x_axis, s.y_axis, s.z_axis)],
                vec="" if s.vector_axis is None else str(s.vector_axis),
                std="" if s.standard_name is None else str(s.standard_name),
                coords="" if s.coordinates is None else " ".join(s.coordinates),
                dims=[str(x) for x in s.dimensions] == [scn["dims"].get(x, x) for x in v["lead"]] + list(dims_of(scn, v["loc"])),
                means=[],
            )
            if filled and v["loc"].startswith("edge") and v["grid"]:
                a = np.asarray(s[s.center_slicing])
                a = a[(0,) * len(v["lead"])]
                r["means"] = [[int(2 * x) for x in row] for row in avg_to_cell_center(a, s.center_axis)]
            vs.append(r)
        o["vars"] = vs
        return o

    return guard(do)


def compare(g, h, again, scn):
    """is the grid equal to the one saved and loaded, to one loaded again, to those with one thing changed?"""
    import copy

    out = []

    def ask(what, other):
        o, r = guard(lambda: [bool(g == other), bool(other == g)])
        out.append([what, *(r if o == "ok" else [o, o])])

    ask("same", h)
    ask("same", again)
    ask("same", g)
    for a in ("node_lon", "node_lat", "center_lon", "center_lat"):
        x = getattr(g, a)
        if x is None:
            continue
        k = copy.copy(g)
        y = np.ma.array(x[:], copy=True)
        y[tuple(c % n for c, n in zip(scn["change"], y.shape))] += 1
        setattr(k, a, y)
        ask("changed " + a, k)
        k = copy.copy(g)
        setattr(k, a, x[:][1:])
        ask("fewer " + a, k)
    k = copy.copy(g)
    k.face_padding = tuple("both" if p != "both" else "low" for p in g.face_padding)
    ask("changed padding", k)
    return out


def files(scn, log):
    from gridded.grids import Grid_S
    from gridded.pysgrid.sgrid import SGrid, load_grid

    fn = tempfile.mktemp(suffix=".nc", dir=os.getcwd())
    fn2 = fn[:-3] + "_2.nc"
    how = scn["how"]
    opened = []

    def load(f):
        if how == "path":
            return load_grid(f)
        nc = netCDF4.Dataset(f)
        opened.append(nc)
        return {"ds": load_grid, "cls": SGrid.load_grid, "grid_s": Grid_S.load_grid}[how](nc)

    try:
        arrays = write(fn, scn)
        wdims = sorted([d, n] for d, n in _dims(fn))
        out, g = guard(load, fn)
        o, o2, sout, lout, eqs = {}, {}, "", "", []
        if out == "ok":
            out, o = observe(g, scn, arrays, True)
        if out == "ok":
            sout, _r = guard(g.save_as_netcdf, fn2)
            if sout == "ok":
                lout, h = guard(load, fn2)
                if lout == "ok":
                    lout, o2 = observe(h, scn, arrays, False)
            if lout == "ok":
                eqs = compare(g, h, guard(load, fn)[1], scn)
            out, o = observe(g, scn, arrays, True)  # saving does not change the grid
        log(
            "file",
            c=scn["c"],
            bad=scn["bad"],
            masks=[dict(loc=m["loc"], swap=m["swap"]) for m in scn["masks"]],
            vars=[dict(v, std=v["std"]) for v in scn["vars"]],
            angle=bool("angle" in arrays),
            wdims=wdims,
            nd=" ".join(order(scn["c"], scn["dims"]["n"])),
            out=out,
            o=o or dict(node=""),
            sout=sout,
            lout=lout,
            o2=o2 or dict(node=""),
            eqs=eqs,
        )
    finally:
        for nc in opened:
            guard(nc.close)
        for f in (fn, fn2):
            if os.path.exists(f):
                os.unlink(f)


def _dims(fn):
    with netCDF4.Dataset(fn) as nc:
        return [(d, len(nc.dimensions[d])) for d in nc.dimensions]


def index(scn, log):
    """indexing a variable of a grid: values are their own positions"""
    from gridded.pysgrid.variables import SGridVariable

    n = scn["n"]
    fn = tempfile.mktemp(suffix=".nc", dir=os.getcwd())
    nc = netCDF4.Dataset(fn, "w")
    try:
        nc.createDimension("d", n)
        w = nc.createVariable("v", "f8", ("d",))
        w[:] = np.arange(n)
        src = w if scn["src"] == "nc" else np.arange(n, dtype=float)
        v = SGridVariable(data=src)
        res = []
        for op in scn["ops"]:
            k = op["k"]
            key = (
                slice(op["a"], op["b"], op["s"])
                if k == "slice"
                else np.array(op["idx"])
                if k == "array"
                else list(op["idx"])
                if k == "list"
                else op["a"]
            )
            out, r = guard(lambda: v[key])
            got = []
            if out == "ok":
                got = [int(x) for x in np.ma.filled(np.ma.atleast_1d(np.ma.asarray(r)).astype(float), -7).ravel()]
                if op["mut"]:
                    guard(lambda: r.__setitem__(Ellipsis, -5))
            res.append(dict(out=out, got=got, want=op["idx"] if k in ("array", "list") else [], k=k, a=op["a"], b=op["b"], s=op["s"]))
        log("index", n=n, res=res)
    finally:
        nc.close()
        os.unlink(fn)


def parse(scn, log):
    from gridded.pysgrid.processing_2d import rotate_vectors, vector_sum
    from gridded.pysgrid.read_netcdf import parse_axes, parse_padding, parse_vector_axis

    k = scn["what"]
    if k == "padding":
        out, r = guard(lambda: parse_padding(scn["text"], "top"))
        log("padding", out=out, want=scn["want"], got=[[str(x.mesh_topology_var), str(x.face_dim), str(x.node_dim), str(x.padding)] for x in r] if out == "ok" else [])
    elif k == "axes":
        out, r = guard(lambda: ["" if x is None else str(x) for x in parse_axes(scn["text"])])
        log("axes", out=out, want=scn["want"], got=r or [])
    elif k == "vec":
        out, r = guard(lambda: parse_vector_axis(scn["text"]))
        log("vec", out=out, want=scn["want"], got="" if r is None else str(r))
    else:
        xs, ys = (np.ma.array([float(p[i]) for p in scn["xy"]], mask=scn["m"]) if any(scn["m"]) else np.array([float(p[i]) for p in scn["xy"]]) for i in (0, 1))
        a, b, h = scn["tri"]
        ang = np.full(len(scn["xy"]), math.atan2(b, a))

        def ints(q):
            d = np.ma.getdata(np.ma.asarray(q)) * h
            m = np.ma.getmaskarray(np.ma.asarray(q))
            return [-(10**8) if mm else (int(round(x)) if abs(x - round(x)) < 1e-6 else 10**8) for x, mm in zip(d, m)]

        out, r = guard(lambda: [ints(q) for q in rotate_vectors(xs, ys, ang)])
        sout, s = guard(lambda: [-(10**8) if q is np.ma.masked else int(round(float(q) ** 2 * 1000)) for q in vector_sum(xs, ys)])
        log("rotate", out=out, rx=r[0] if r else [], ry=r[1] if r else [], sout=sout, s=s or [], xy=scn["xy"], m=scn["m"], tri=scn["tri"])


def run(scn, log):
    {"file": files, "index": index, "parse": parse}[scn["kind"]](scn, log)
