"""Queries of real depth objects and of variables with a vertical dimension."""

import numpy as np

from drivers.var_hist import NX, NY, make_grid, mk_time, number
from obs import dress, dt, guard, rat, rats

MD = 40000


def fr(q):
    return q[0] / q[1]


def lin(c, kind, perm=None):
    X, Y = np.meshgrid(np.arange(NX) * 1.0, np.arange(NY) * 1.0)
    v = c[0] + c[1] * X + c[2] * Y
    return number(v.ravel(), perm) if kind == "U" else v


def cell(c, kind, perm):
    X, Y = np.meshgrid(np.arange(NX - 1) * 1.0, np.arange(NY - 1) * 1.0)
    v = c[0] + c[1] * X + c[2] * Y
    if kind != "U":
        return v
    # two triangles to a cell
    v = np.repeat(v.ravel(), 2)
    return v[::-1].copy() if perm and perm[1] % 2 else v


def field(f, kind, loc, order, perm, rep="f8"):
    one = lambda c: (cell if loc == "center" else lin)(c, kind, perm)  # noqa: E731
    a = np.array([[one(c) for c in lev] for lev in f["v"]])  # time, level, space
    for j in f.get("holes", ()):
        a[:, j - 1] = np.nan
    if not f["times"]:
        return dress(a[0], rep)
    return dress(np.moveaxis(a, 0, 1).copy() if order == "depth_first" else a, rep)


def make_depth(d, kind, grid, scn):
    from gridded import Variable
    from gridded.depth import Depth, DepthBase, FVCOM_Depth, L_Depth, ROMS_Depth

    k = d["kind"]
    perm = scn.get("perm")
    if k == "surf":
        return DepthBase(surface_index=d["si"]) if scn.get("how") else Depth.surface_only(surface_index=d["si"])
    kw = {}
    if k == "L":
        lv = np.array([fr(x) for x in d["levels"]])
        if scn.get("how") and all(x[1] == 1 for x in d["levels"]):
            lv = lv.astype(int)
        if scn.get("dsbc"):
            kw = dict(default_surface_boundary_condition=scn["dsbc"], default_bottom_boundary_conditon=scn["dbbc"])
        return L_Depth(name="d", terms={"depth_levels": lv}, **kw)
    if scn.get("dsbc"):
        kw = dict(surface_boundary_condition=scn["dsbc"], bottom_boundary_condition=scn["dbbc"])
    bathy = Variable(name="h", data=dress(lin(d["h"], kind, perm), scn.get("rep2", "f8")), grid=grid, location="node", fill_value=-7)
    z = [lin(c, kind, perm) for c in d["zeta"]]
    zt = mk_time(d["zt"], 0)
    zeta = Variable(name="zeta", data=dress(np.array(z) if d["zt"] else z[0], scn.get("rep2", "f8")), grid=grid, location="node", time=zt)
    if d.get("noz"):
        zeta = Variable.constant(0)
    if k == "roms":
        terms = {
            "s_w": np.array([fr(x) for x in d["s"]]),
            "Cs_w": np.array([fr(x) for x in d["cs"]]),
            "s_rho": np.array([fr(x) for x in d["sr"]]),
            "Cs_r": np.array([fr(x) for x in d["csr"]]),
            "hc": np.array([float(d["hc"])]) if scn.get("how") else np.array(float(d["hc"])),
        }
        return ROMS_Depth(name="d", time=zt, grid=grid, bathymetry=bathy, zeta=zeta, terms=terms, vtransform=d["vt"], **kw)
    terms = {
        "siglev": np.array([lin(c, "U", perm) for c in d["sig"]]) / 8.0,
        "siglay": np.array([lin(c, "U", perm) for c in d["sigr"]]) / 8.0,
    }
    return FVCOM_Depth(name="d", time=zt, grid=grid, bathymetry=bathy, zeta=zeta, terms=terms, **kw)


def make_points(pts, form):
    a = np.array([[p[0] / 4.0, p[1] / 4.0, fr(p[2])] for p in pts])
    if form == "list":
        return dict(points=[tuple(p) for p in a.tolist()])
    if form == "single":
        return dict(points=a[0])
    if form == "two":  # no depth given: at the surface
        return dict(points=a[:, :2].copy())
    if form == "lonlat":
        return dict(lons=a[:, 0].tolist(), lats=a[:, 1].tolist())
    if form == "cols":
        return dict(points=np.ascontiguousarray(a.T))
    return dict(points=a)


def run(scn, log):
    from gridded import Variable, VectorVariable

    kind, d, fs, loc = scn["kind"], scn["d"], scn["fs"], scn["loc"]
    gkind = kind
    perm = scn.get("perm")

    class Vec(VectorVariable):
        comp_order = ["u", "v", "w"][: len(fs)]

    def mk():
        grid = make_grid(gkind, 0, perm=perm)
        dep = make_depth(d, kind, grid, scn)
        bc = {}
        if scn["sbc"] != "default":
            bc = dict(surface_boundary_condition=scn["sbc"], bottom_boundary_condition=scn["bbc"])
        if scn.get("bcnone"):
            bc = dict(surface_boundary_condition=None, bottom_boundary_condition=None)
        t = mk_time(fs[0]["times"], 0)
        vs = []
        for i, f in enumerate(fs):
            v = Variable(
                name=f"c{i}",
                units="m",
                data=field(f, kind, loc, scn["order"], perm, scn.get("rep", "f8")),
                grid=grid,
                depth=dep,
                location="face" if (kind, loc) == ("U", "center") else loc,
                time=t,
                fill_value=scn["fill"],
                **bc,
            )
            if scn["order"] == "depth_first":
                v.dimension_ordering = ["depth", "time"] + (["ele"] if kind == "U" else ["lon", "lat"])
            vs.append(v)
        vec = Vec(name="vec", variables=vs) if len(fs) > 1 else None
        return grid, dep, vs, vec

    out, r = guard(mk)
    sbc = "extrapolate" if scn["sbc"] == "default" else scn["sbc"]
    bbc = "mask" if scn["sbc"] == "default" else scn["bbc"]
    if scn.get("bcnone"):
        sbc, bbc = (scn["dsbc"], scn["dbbc"]) if scn.get("dsbc") else ("extrapolate", "mask")
    dsbc, dbbc = (scn["dsbc"], scn["dbbc"]) if scn.get("dsbc") else ("extrapolate", "mask")
    log("make", out=out, st=dict(d=d, fs=fs, loc=loc, grid=kind, sbc=sbc, bbc=bbc, fill=scn["fill"], order=scn["order"]))
    if out != "ok":
        return
    grid, dep, vs, vec = r
    cur = d

    def kept():
        a = [np.array(v.data, copy=True) for v in vs]
        if cur["kind"] == "L":
            a.append(np.array(dep.depth_levels, copy=True))
        if cur["kind"] in ("roms", "fvcom"):
            a += [np.array(dep.bathymetry.data, copy=True), np.array(dep.zeta.data, copy=True)]
            a += [np.array(x, copy=True) for x in dep.terms.values()]
        return a

    for op in scn["ops"]:
        k = op["op"]
        if k == "at":
            used = op["pts"][:1] if op["form"] == "single" else op["pts"]
            if op["form"] in ("two", "lonlat"):
                used = [[p[0], p[1], [0, 1]] for p in used]
            kw = make_points(op["pts"], op["form"])
            keep = {a: np.array(b, copy=True) for a, b in kw.items()}
            before = kept()
            if op["sbc"]:
                kw["surface_boundary_condition"] = op["sbc"]
            if op["bbc"]:
                kw["bottom_boundary_condition"] = op["bbc"]
            tgt = vec if vec is not None else vs[0]
            out, res = guard(lambda: tgt.at(time=dt(op["t"]), extrapolate=op["ex"], unmask=op["um"], **kw))
            n, c = len(used), len(fs)
            shape, vals = [0, 0], []
            if out == "ok":
                o2, shape = guard(lambda: [int(x) for x in np.shape(res)])
                if o2 != "ok" or len(shape) != 2:
                    shape = [0, 0]
                elif shape == [n, c]:
                    flat = rats(res, maxden=MD)
                    vals = [flat[i * c : (i + 1) * c] for i in range(n)]
            same = all(np.array_equal(keep[a], np.asarray(kw[a])) for a in keep)
            same = same and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(before, kept()))
            log("at", out=out, t=op["t"], ex=op["ex"], um=op["um"], sbc=op["sbc"], bbc=op["bbc"], pts=used, shape=shape, vals=vals, same=bool(same))
        elif k == "alphas":
            a = make_points(op["pts"], "arr")["points"]
            keep = a.copy()
            before = kept()
            n = len(cur["levels"]) if cur["kind"] == "L" else len(cur.get("s", cur.get("sig", [])))
            kw = {}
            if op["sbc"]:
                kw = dict(surface_boundary_condition=op["sbc"], bottom_boundary_condition=op["bbc"])

            def ask():
                i, al = dep.interpolation_alphas(a, dt(op["t"]), (n,), extrapolate=op["ex"], **kw)
                i, al = np.ma.asarray(i), np.ma.asarray(al)
                mi, ma = np.ma.getmaskarray(i), np.ma.getmaskarray(al)
                res = []
                for j in range(len(a)):
                    if mi[j] != ma[j]:
                        res.append([0, 0])
                    elif mi[j]:
                        res.append([1, 0])
                    else:
                        res.append(rat(float(i.data[j]) + float(al.data[j]), maxden=MD))
                return res

            out, pos = guard(ask)
            same = np.array_equal(a, keep) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(before, kept()))
            log("alphas", out=out, t=op["t"], ex=op["ex"], sbc=op["sbc"] or dsbc, bbc=op["bbc"] or dbbc, pts=op["pts"], pos=pos if out == "ok" else [], same=bool(same))
        elif k == "profile":
            a = make_points(op["pts"], "arr")["points"]
            lev = len(cur.get("s", cur.get("sig", [])))
            kw = dict(data_shape=(lev - 1,)) if op["lay"] else ({} if op.get("nos") else dict(data_shape=(lev,)))

            def ask2():
                p = np.ma.asarray(dep.get_depth_profile(a, dt(op["t"]), extrapolate=op["ex"], **kw))
                s = np.ma.asarray(dep.get_s_coordinate(a, dt(op["t"]), extrapolate=op["ex"], **kw))
                return [rats(row, maxden=MD) for row in p], [rats(row, maxden=MD) for row in s]

            out, res = guard(ask2)
            log("profile", out=out, t=op["t"], ex=op["ex"], lay=op["lay"], pts=op["pts"], prof=res[0] if out == "ok" else [], sc=res[1] if out == "ok" else [])
        elif k == "info":

            def ask3():
                return [int(dep.num_levels), int(dep.num_layers), int(dep.surface_index), int(dep.bottom_index)]

            out, res = guard(ask3)
            res = res if out == "ok" else [-9] * 4
            log("info", out=out, t=0, nlev=res[0], nlay=res[1], si=res[2], bi=res[3])
        elif k == "change":
            w = op["what"]
            box = {}

            def change():
                for i, v in enumerate(vs):
                    if w == "data":
                        v.data = field(op["fs"][i], kind, loc, scn["order"], perm, scn.get("rep", "f8"))
                    elif w == "bc":
                        v.surface_boundary_condition = op["sbc"]
                        v.bottom_boundary_condition = op["bbc"]
                    elif w == "fill":
                        v.fill_value = op["fill"]
                    elif w == "depth" and op.get("edit"):
                        # the depth the variables have gets the levels, bathymetry and free surface of the new one
                        n = make_depth(op["d"], kind, grid, scn)
                        if op["d"]["kind"] == "L":
                            dep.depth_levels = n.depth_levels
                        elif op["edit"] == 1:
                            dep.bathymetry, dep.zeta = n.bathymetry, n.zeta
                        else:
                            dep.bathymetry.data = n.bathymetry.data
                            if not op["d"].get("noz"):
                                dep.zeta.data = n.zeta.data
                        box["d"] = dep
                    elif w == "depth":
                        box.setdefault("d", make_depth(op["d"], kind, grid, scn))
                        v.depth = box["d"]

            out, _r = guard(change)
            if "d" in box:
                dep, cur = box["d"], op["d"]
            log("change", **{a: b for a, b in op.items() if a != "op"}, out=out)
