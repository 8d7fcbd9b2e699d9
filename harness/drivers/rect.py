"""Queries of real rectangular grids (gridded.Grid_R) and of variables on them."""

import numpy as np

from obs import World, dress, dt, guard, rat, rats


class Named(np.ndarray):
    """an array with names for its dimensions, as a netCDF variable has"""

    dimensions = ()


class NamedMA(np.ma.MaskedArray):
    dimensions = ()


def named(a, dims):
    n = np.ma.array(a).view(NamedMA) if np.ma.isMA(a) else np.array(a).view(Named)
    n.dimensions = tuple(dims)
    return n


def shape_of(r):
    o, s = guard(lambda: [int(x) for x in np.shape(r)])
    return s if o == "ok" else [-1]


def run(scn, log):
    from gridded import Grid_R, Time, Variable

    lons, lats = scn["lons"], scn["lats"]
    world = World(scn.get("world"))
    if world.plain:
        alon = np.array(lons, dtype=scn.get("dtype", "f8"))
        alon = dress(alon, scn.get("rep", "f8"))
        alat = alon if (scn.get("share") and lons == lats) else dress(np.array(lats, dtype=scn.get("dtype", "f8")), scn.get("rep", "f8"))
    else:
        alon, alat = world.axis(lons, 0), world.axis(lats, 1)
    keep = [alon.copy(), alat.copy()]
    kw = {}
    names = ["lat", "lon"]
    if scn.get("topo"):
        kw["grid_topology"] = {"node_lat": "yy", "node_lon": "xx"}
        names = ["yy", "xx"]
    out, grid = guard(lambda: Grid_R(node_lon=alon, node_lat=alat, **kw))
    g = dict(lons=lons, lats=lats)
    if out != "ok":
        log("interp", g=g, out=out, order="latlon", dims="none", shape2=[len(lats), len(lons)], data=[], pts=[], vals=[], shape=[], wantshape=[], same=True)
        return

    def same(*pairs):
        return bool(
            np.array_equal(alon, keep[0]) and np.array_equal(alat, keep[1]) and all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in pairs)
        )

    for op in scn["ops"]:
        k = op["op"]
        if k == "centers":

            def get():
                nd = world.back(grid.nodes)
                cc = world.back(grid.centers)
                cl, ct = world.back(grid.center_lon, 0), world.back(grid.center_lat, 1)
                nodes = [[[rat(nd[j, i, 0]), rat(nd[j, i, 1])] for i in range(len(lons))] for j in range(len(lats))]
                # the 2-D centers agree with the vectors
                a = [[rat(cc[j, i, 0]) for i in range(len(cl))] for j in range(len(ct))]
                b = [[rat(cc[j, i, 1]) for i in range(len(cl))] for j in range(len(ct))]
                ok = all(r == rats(cl) for r in a) and [r[0] for r in b] == rats(ct)
                return nodes, rats(cl) if ok else [], rats(ct)

            out, r = guard(get)
            log("centers", g=g, out=out, nodes=r[0] if out == "ok" else [], clon=r[1] if out == "ok" else [], clat=r[2] if out == "ok" else [], same=same())
            continue
        if k == "infer":
            a = np.zeros(op["lead"] + op["shape"])
            out, loc = guard(lambda: grid.infer_location(a))
            log("infer", g=g, shape2=op["shape"], out=out, loc="none" if loc is None else str(loc), same=same())
            continue
        pts = world.of(np.array(op["pts"], dtype=float).reshape(-1, 2) / 4.0)
        npt = len(pts)
        single = op["form"] == "single"
        if single:
            arg = pts[0]
            npt = 1
        elif op["form"] == "list":
            arg = pts.tolist()
        else:
            arg = pts
        used = op["pts"][:npt]
        before = np.array(arg, copy=True)
        if k == "locate":
            out, r = guard(lambda: grid.locate_faces(arg))
            want = [2] if single else [npt, 2]
            sh = shape_of(r) if out == "ok" else []
            idx = []
            if out == "ok" and sh == want:
                o2, idx = guard(lambda: [[int(x) for x in row] for row in np.asarray(r).reshape(-1, 2)])
                if o2 != "ok":
                    idx = [[-9, -9]] * npt
            log("locate", g=g, pts=used, out=out, shape=sh, wantshape=want, idx=idx, same=same((before, arg)))
            continue
        # interpolation
        data = np.array(op["data"], dtype=op.get("ddtype", "f8"))
        if op.get("dm"):
            # what lies under the mask is not to be used
            m = np.array(op["dm"], dtype=bool)
            data = np.ma.array(np.where(m, 555, data).astype(data.dtype), mask=m)
        elif op.get("rep"):
            data = dress(data, op["rep"])
        full = data
        slices = None
        if op["lead"]:
            full = (np.ma if op.get("dm") else np).stack([data if i == op["k"] else data * 0 - 99 for i in range(op["lead"])])
            slices = (op["k"],)
        elif op.get("noslice") is False:
            slices = ()
        dims = op["dims"]
        if dims != "none":
            two = {"latlon": names, "lonlat": names[::-1], "other": ["q1", "q2"]}[dims]
            var = named(full, (["time"] if op["lead"] else []) + list(two))
        else:
            var = full
        vkeep = np.array(var, copy=True)
        if op["via"] == "grid":
            kw = {} if slices is None else {"slices": slices}
            out, r = guard(lambda: grid.interpolate_var_to_points(arg, var, **kw))
            want = [] if single else [npt]
        else:

            def ask():
                v = Variable(
                    name="v",
                    data=var,
                    grid=grid,
                    location="node",
                    time=Time(np.array([dt(3600 * i) for i in range(op["lead"])])) if op["lead"] else None,
                )
                return v.at(arg, dt(3600 * op["k"]))

            out, r = guard(ask)
            want = [npt, 1]
        sh = shape_of(r) if out == "ok" else []
        vals = rats(r) if out == "ok" and sh == want else []
        log(
            "interp",
            g=g,
            order=op["order"],
            dims=dims,
            shape2=list(data.shape),
            data=[[0 if x else v for v, x in zip(row, mr)] for row, mr in zip(op["data"], op["dm"])] if op.get("dm") else op["data"],
            pts=used,
            out=out,
            shape=sh,
            wantshape=want,
            vals=vals,
            same=same((before, arg), (vkeep, var)),
        )
