"""Queries of real variables and grids with points in every layout and number."""

from datetime import timedelta

import numpy as np

from drivers.var_hist import NX, NY, make_grid
from obs import BASE, dress, guard, rat

MUL = 8


def data(kind, fs, deep, rep="f8"):
    X, Y = np.meshgrid(np.arange(NX) * 1.0, np.arange(NY) * 1.0)
    out = []
    for f in fs:
        v = f[0] + f[1] * X + f[2] * Y
        if kind == "U":
            v = v.ravel()
        out.append(np.array([v + f[3] * z for z in (0, 1, 2)]) if deep else v)
    return dress(np.array(out) if len(fs) > 1 else out[0], rep)


def container(how, shape, flat):
    a = np.array(flat, float).reshape(shape) / 4.0
    if how == "list":
        return a.tolist()
    if how == "tuple":
        return tup(a.tolist())
    if how == "listofarr":
        return list(a) if a.ndim > 1 else a.tolist()
    if how == "int":
        return a.astype(int)
    if how == "f4":
        return a.astype("f4")
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.full([2 * x for x in a.shape], 77.0)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "readonly":
        a.setflags(write=False)
        return a
    if how == "ma":
        return np.ma.array(a)
    return a


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, list) else x


def eight(x):
    if isinstance(x, (float, np.floating, int, np.integer)) and np.isfinite(x):
        x = x * MUL
        r = int(round(x))
        return [r, 1] if abs(x - r) < 1e-5 * max(1, abs(r)) else [0, 0]
    return rat(x)


def run(scn, log):
    from gridded import Variable, VectorVariable
    from gridded.depth import L_Depth
    from gridded.time import Time

    kind, deep, fs = scn["grid"], scn["deep"], scn["fs"]

    class Vec(VectorVariable):
        comp_order = ["u", "v", "w"][: len(fs)]

    def mk():
        g = make_grid(kind, 0)
        t = Time([BASE, BASE + timedelta(hours=2)]) if len(fs[0]) > 1 else None
        d = L_Depth(name="d", terms=dict(depth_levels=np.array([0.0, 1, 2]))) if deep else None
        vs = [Variable(name=f"c{i}", data=data(kind, f, deep, scn.get("rep", "f8")), grid=g, time=t, depth=d, location="node", fill_value=-999) for i, f in enumerate(fs)]
        return g, Vec(name="v", variables=vs) if len(fs) > 1 else vs[0]

    out, r = guard(mk)
    log("make", out=out)
    if out != "ok":
        return
    g, var = r
    # what a fresh one answers outside the grid
    refs = {}
    for op in scn["ops"]:
        if op["op"] == "at":
            key = (op["t"], op["um"])
            if key not in refs:
                o, q = guard(mk)
                o, q = guard(lambda: q[1].at([[20.0, 20.0, 1.0]], BASE + timedelta(hours=op["t"]), unmask=op["um"]))
                refs[key] = [eight(x) for x in np.ma.asarray(q).ravel()] if o == "ok" else []
            if op["how"] in ("lonlat", "lonlat0", "lonlatarr", "lonlattuple"):
                a = np.array(op["flat"], float).reshape(op["shape"]) / 4.0
                x, y = a[:, 0], a[:, 1]
                if op["how"] == "lonlat":
                    x, y = x.tolist(), y.tolist()
                elif op["how"] == "lonlat0":
                    x, y = float(x[0]), float(y[0])
                elif op["how"] == "lonlattuple":
                    x, y = tuple(x.tolist()), tuple(y.tolist())
                kw = dict(lons=x, lats=y)
            else:
                kw = dict(points=container(op["how"], op["shape"], op["flat"]))
            keep = {k: np.array(v, copy=True) for k, v in kw.items()}
            out, res = guard(lambda: var.at(time=BASE + timedelta(hours=op["t"]), unmask=op["um"], **kw))
            got, vals = [0, 0], []
            if out == "ok":
                o, got = guard(lambda: [int(x) for x in res.shape])
                got = got if o == "ok" and len(got) == 2 else [-1, -1]
                m = np.ma.getmaskarray(np.ma.asarray(res))
                d = np.ma.getdata(np.ma.asarray(res))
                vals = [[eight(np.ma.masked if m[i, j] else d[i, j]) for j in range(got[1])] for i in range(got[0])] if got[0] >= 0 else []
            log(
                "at",
                shape=op["shape"],
                flat=op["flat"],
                t=op["t"],
                fs=fs,
                deep=deep,
                out=out,
                got=got,
                vals=vals,
                ref=refs[key],
                same=all(np.array_equal(keep[k], np.asarray(kw[k])) and np.shape(keep[k]) == np.shape(kw[k]) for k in kw),
            )
        else:
            pts = [[x / 4.0 for x in p] for p in op["pts"]]

            def ask(p):
                p = container(op["how"], [len(op["pts"]), 2] if p is None else [2], [x for q in op["pts"] for x in q] if p is None else [4 * x for x in p])
                if op["what"] == "locate":
                    r = g.locate_faces(p)
                else:
                    r = g.interpolate_var_to_points(p, data(kind, [fs[0][0]], False, scn.get("rep", "f8")), location="node")
                return r

            def rows(r, n):
                r = np.ma.asarray(r)
                r = r.reshape(n, -1) if n else r.reshape(0, 1) if r.size == 0 else r.reshape(-1, 1)
                m, d = np.ma.getmaskarray(r), np.ma.getdata(r)
                return [[eight(np.ma.masked if m[i, j] else d[i, j].item()) for j in range(r.shape[1])] for i in range(len(r))]

            def both():
                # a grid may answer a single point outside with numbers where it masks many
                n = len(pts)
                a = rows(ask(None), n)
                one = [rows(ask(p), 1)[0] for p in pts]
                if op["what"] == "locate":
                    f = lambda q: [x if x != [1, 0] else [-8, 1] for x in q]
                    a, one = [f(q) for q in a], [f(q) for q in one]
                return a, one

            out, r = guard(both)
            log("each", n=len(pts), out=out, all=r[0] if r else [], one=r[1] if r else [])
