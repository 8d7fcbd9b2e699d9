"""Queries of real Variables / VectorVariables interleaved with changes."""

import numpy as np

import obs
from obs import dt, guard, rats

NX, NY = 4, 3


def number(a, perm):
    """values at the nodes of a mesh, in the order the nodes are numbered in"""
    return a[perm] if perm else a


def make_grid(kind, gx, world=None, perm=None):
    from gridded import Grid_R, Grid_S, Grid_U

    lon = np.arange(NX) + gx / 4.0
    lat = np.arange(NY) * 1.0
    half = 0.5
    if world is not None:
        lon, lat, half = world.axis(lon, 0), world.axis(lat, 1), half * world.sc
    if kind == "R":
        return Grid_R(node_lon=lon, node_lat=lat)
    lon2, lat2 = np.meshgrid(lon, lat)
    if kind in ("S", "Sc"):
        return Grid_S(
            node_lon=lon2, node_lat=lat2, center_lon=lon2[1:, 1:] - half, center_lat=lat2[1:, 1:] - half
        )
    nodes = np.column_stack((lon2.ravel(), lat2.ravel()))
    faces = []
    for j in range(NY - 1):
        for i in range(NX - 1):
            a = j * NX + i
            faces += [(a, a + 1, a + NX), (a + 1, a + NX + 1, a + NX)]
    faces = np.array(faces)
    if perm:
        faces = np.roll(np.argsort(perm)[faces], perm[0] % 3, axis=1)
        if perm[1] % 2:
            faces = faces[::-1].copy()
    return Grid_U(nodes=number(nodes, perm), faces=faces)


def field_data(kind, f, times, perm=None, rep="f8"):
    lon, lat = np.arange(NX) * 1.0, np.arange(NY) * 1.0
    X, Y = np.meshgrid(lon, lat)
    n = max(1, len(times))
    out = []
    for k in range(n):
        A, B, C = f["A"][k], f["B"][k], f["C"][k]
        if k + 1 in f["gaps"]:
            A = np.nan
        if kind == "Sc":
            out.append(np.full((NY - 1, NX - 1), float(A)))
        elif kind == "Uf":
            out.append(np.full(((NY - 1) * (NX - 1) * 2,), float(A)))
        else:
            v = A + B * X + C * Y
            out.append(number(v.ravel(), perm) if kind == "U" else v)
    a = np.array(out)
    return obs.dress(a if len(times) else a[0], rep)


LOC = {"R": "node", "S": "node", "U": "node", "Sc": "center", "Uf": "face"}


def mk_time(times, how):
    from gridded import Time

    if not times:
        # constant: no axis, or the axis of constant fields
        return Time() if how == 3 else Time.constant_time() if how == 4 else None
    t = [dt(x) for x in times]
    return Time(np.array(t), tz_offset=0) if how == 0 else t


def make_points(pts, form, world):
    a = world.of(np.array(pts, dtype=float).reshape(-1, 2) / 4.0)
    if form == "f4" and not world.plain:
        form = "arr"
    if form == "list":
        return dict(points=[tuple(p) for p in a.tolist()])
    if form == "lonlat":
        return dict(lons=a[:, 0].tolist(), lats=a[:, 1].tolist())
    if form == "arr3":
        return dict(points=np.column_stack((a, np.zeros(len(a)))))
    if form == "single":
        return dict(points=a[0])
    if form == "cols":
        return dict(points=np.ascontiguousarray(a.T))
    if form == "f4":
        return dict(points=a.astype("f4"))
    return dict(points=a)


def run(scn, log):
    from gridded import Variable, VectorVariable

    obs.set_unit(scn.get("unit", 1000000))
    fs = scn["fs"]
    kind = scn["kind"]
    world = obs.World(scn.get("world"))
    perm = scn.get("perm")
    rep = scn.get("rep", "f8")
    grid = make_grid(kind, fs[0]["gx"], world, perm)
    how = scn.get("how", 0)

    class Vec(VectorVariable):
        comp_order = ["u", "v", "w"][: len(fs)]

    def mk():
        t = mk_time(fs[0]["times"], 0 if len(fs) > 1 and how < 3 else how)
        vs = [
            Variable(
                name=f"c{i}",
                units="m",
                data=field_data(kind, f, f["times"], perm, rep),
                grid=grid,
                location=None if scn.get("infer") else LOC[kind],
                time=t,
                fill_value=f["fill"],
            )
            for i, f in enumerate(fs)
        ]
        return vs, (Vec(name="vec", variables=vs) if len(fs) > 1 else None)

    out, r = guard(mk)
    log("make", out=out, fs=[dict(f, grid=kind[0], gx=f["gx"]) for f in fs])
    if out != "ok":
        return
    vs, vec = r
    last = None
    cur_times = list(fs[0]["times"])
    for op in scn["ops"]:
        k = op["op"]
        if k == "at":
            kw = make_points(op["pts"], op["form"], world)
            keep = {a: np.array(b, copy=True) for a, b in kw.items()}
            tgt = vec if op["comp"] == 0 else vs[op["comp"] - 1]
            if op["comp"] and vec is not None and op.get("byname"):
                tgt = getattr(vec, Vec.comp_order[op["comp"] - 1])
            before = [np.array(v.data, copy=True) for v in vs]
            out, res = guard(
                lambda: tgt.at(time=dt(op["t"]), extrapolate=op["ex"], unmask=op["um"], **kw)
            )
            cols = list(range(1, len(fs) + 1)) if op["comp"] == 0 else [op["comp"]]
            npts = 1 if op["form"] == "single" else len(op["pts"])
            shape, vals = [0, 0], []
            if out == "ok":
                o2, shape = guard(lambda: [int(x) for x in np.shape(res)])
                if o2 != "ok" or len(shape) != 2:
                    shape = [0, 0]
                elif shape == [npts, len(cols)]:
                    flat = rats(res, maxden=40000)
                    vals = [flat[i * len(cols) : (i + 1) * len(cols)] for i in range(npts)]
                last = res
            same = all(np.array_equal(keep[a], np.asarray(kw[a])) and np.shape(keep[a]) == np.shape(kw[a]) for a in kw)
            same = same and all(np.array_equal(b, np.asarray(v.data), equal_nan=True) for b, v in zip(before, vs))
            log(
                "at",
                out=out,
                t=op["t"],
                ex=op["ex"],
                um=op["um"],
                form=op["form"],
                cols=cols,
                pts=op["pts"][:npts],
                shape=shape,
                vals=vals,
                same=bool(same),
            )
        elif k == "scribble":
            if last is not None:

                def scrib():
                    last[...] = -77.0
                    if isinstance(last, np.ma.MaskedArray):
                        last.mask = True

                guard(scrib)
            log("scribble", out="ok")
        elif k == "units":

            def units():
                if op["set"]:
                    vec.units = op["unit"]
                return [str(vec.units)] + [str(v.units) for v in vs]

            out, r = guard(units)
            log("units", out=out, set=op["set"], unit=op["unit"], got=r or [])
        elif k == "misfit":
            # times or data of another number than the slices: refused, nothing changes
            def misfit():
                if op["what"] == "time":
                    t = mk_time(op["times"], op["how"])
                    if op["comp"] == 0 and vec is not None:
                        vec.time = t
                    else:
                        vs[max(0, op["comp"] - 1)].time = t
                else:
                    vs[max(0, op["comp"] - 1)].data = field_data(kind, op["f"], op["times"], perm, rep)

            out, _r = guard(misfit)
            log("misfit", out=out, what=op["what"], slices=len(op["times"]))
        elif k == "change":
            c = op["comp"]
            tg = vs if c == 0 else [vs[c - 1]]
            w = op["what"]

            def change():
                if w == "data":
                    for v in tg:
                        v.data = field_data(kind, op["f"], cur_times, perm, rep)
                elif w == "time":
                    if op["how"] == 2:
                        # the times of the axis the variable already has
                        ax = vec.time if (c == 0 and vec is not None) else tg[0].time
                        ax.data = np.array([dt(x) for x in op["times"]])
                        return
                    t = mk_time(op["times"], op["how"])
                    if c == 0 and vec is not None:
                        vec.time = t
                    else:
                        for v in tg:
                            v.time = t
                elif w == "shift":
                    # through the axis itself: offset from UTC, or displacement
                    t = vec.time if (c == 0 and vec is not None) else tg[0].time
                    t.tz_offset = t.tz_offset + op["by"] * obs.UNIT / 3600e6
                elif w == "fill":
                    for v in tg:
                        v.fill_value = op["fill"]
                elif w == "grid":
                    g = make_grid(kind, op["gx"], world, perm)
                    if op.get("edit"):
                        # the grids the variables have get the nodes of that one
                        for x in {id(v.grid): v.grid for v in tg}.values():
                            if kind == "R":
                                x.node_lon = g.node_lon
                            else:
                                x.nodes = g.nodes
                        return
                    for v in tg:
                        v.grid = g

            out, _r = guard(change)
            if w == "time" and out == "ok":
                cur_times = op["times"]
            log("change", **{k2: v2 for k2, v2 in op.items() if k2 not in ("op",)}, out=out)

