"""Indexing real UVar, UMVar and SGridVariable objects whose data change in between."""

import copy
import os
import tempfile

import netCDF4
import numpy as np

from obs import guard

HOLE = -998


def one(x):
    if x is np.ma.masked:
        return HOLE
    try:
        f = float(x)
    except Exception:
        return -999
    return int(f) if f == int(f) and abs(f) < 10**6 else -999


def flat(a):
    m = np.ma.getmaskarray(np.ma.asarray(a)).ravel()
    return [HOLE if mm else one(x) for x, mm in zip(np.ma.getdata(np.ma.asarray(a)).ravel(), m)]


def run(scn, log):
    from gridded.pysgrid.variables import SGridVariable
    from gridded.pyugrid.uvar import UMVar, UVar

    objs, how, dts = [], [], []
    group = [None]
    want = []
    last = [None, False]
    dicts = []
    given = []  # arrays and dicts of the caller, with copies; arrays that back a variable change with it
    fd, path = tempfile.mkstemp(dir=os.environ.get("VERIF_SCRATCH"), suffix=".nc")
    os.close(fd)
    nc = netCDF4.Dataset(path, "w")
    count = [0]
    log("start", same=True)

    def array(vals, dt):
        a = np.ma.array([0 if x == HOLE else x for x in vals], mask=[x == HOLE for x in vals], dtype=dt)
        return a if a.mask.any() else np.array(vals, dtype=dt)

    def back(vals, way, dt, attrs=()):
        """the data, kept as asked"""
        if way == "list":
            return list(vals)
        a = array(vals, dt)
        if way != "nc":
            return a
        n = f"v{count[0]}"
        count[0] += 1
        d = f"n{len(vals)}"
        if d not in nc.dimensions:
            nc.createDimension(d, len(vals))
        v = nc.createVariable(n, dt, (d,), fill_value=9999 if count[0] % 2 else -9999)
        for x, y in attrs:
            v.setncattr(x, y)
        v[:] = a
        return v

    def item(it, form):
        k, a = it["k"], it["a"]
        if k == "int":
            return int(a[0]) if form % 2 else np.int64(a[0])
        if k == "slice":
            return slice(a[0], a[1], a[2])
        if k == "rev":
            return slice(None, None, -1)
        if k == "list":
            return list(a) if form % 2 else np.array(a, dtype="i4" if form % 3 else "i8")
        if k == "mask":
            return np.array(a, dtype=bool)
        return Ellipsis if form % 2 else slice(None)

    def untouched():
        return all(x == y for x, y in dicts) and all(np.array_equal(x, y) for x, y in given)

    def names():
        o, r = guard(lambda: [str(x) for x in group[0].variables])
        return r if o == "ok" else ["?"]

    try:
        for op in scn["ops"]:
            k = op["op"]
            if k == "var":
                d = back(op["data"], op["back"], op["dt"], op["ncattrs"])
                attrs = None if op["attrs"] is None else dict(op["attrs"])
                keep = copy.deepcopy(attrs)

                def do():
                    if op["cls"] == "SGrid":
                        return SGridVariable(data=d)
                    return UVar(op["name"], op["loc"], data=d, attributes=attrs)

                out, u = guard(do)
                r = dict(gotattrs=[], gotloc="", gotname="")
                if out == "ok" and op["cls"] == "SGrid":
                    r = dict(gotattrs=None, gotloc=op["loc"], gotname=op["name"])
                elif out == "ok":
                    o, r2 = guard(lambda: dict(gotattrs=sorted([str(x), str(y)] for x, y in u.attributes.items() if x != "_FillValue"), gotloc=str(u.location), gotname=str(u.name)))
                    r = r2 if o == "ok" else r
                whole = sorted([x, str(y)] for x, y in {**dict(op["attrs"] or ()), **(dict(op["ncattrs"]) if op["back"] == "nc" else {})}.items())
                if r["gotattrs"] is None:
                    r["gotattrs"] = whole
                if attrs is not None:
                    dicts.append((attrs, keep))
                log("var", cls=op["cls"], name=op["name"], loc=op["loc"], data=op["data"], attrs=whole, out=out, same=bool(untouched()), **r)
                if out != "ok":
                    if op["loc"] in ("node", "edge", "face", "boundary"):
                        return
                    continue
                objs.append(u)
                how.append(op["back"])
                dts.append(op["dt"])
            elif k == "group":
                ms = [objs[v - 1] for v in op["members"]]
                out, g = guard(lambda: UMVar("g", op["loc"], ms) if op["loc"] != "none" else UMVar("g", data=ms))
                if out == "ok":
                    group[0] = g
                    want[:] = op["names"]
                log("group", members=op["members"], loc=op["loc"], out=out, want=op["names"], names=names() if out == "ok" else [], same=bool(untouched()))
                if out != "ok" and op["good"]:
                    return
            elif k == "add":
                if group[0] is None:
                    continue
                w = list(want)
                out, _ = guard(lambda: group[0].add_var(objs[op["v"] - 1]))
                if out == "ok":
                    want.append(op["name"])
                log("add", v=op["v"], name=op["name"], want=w, out=out, names=names(), same=bool(untouched()))
                if out == "ok" and not op["good"]:
                    return
            elif k == "ask":
                who = op["who"]
                if who == 0 and group[0] is None:
                    continue
                o = group[0] if who == 0 else objs[who - 1]
                it = item(op["it"], op["form"])
                kept = copy.deepcopy(it)
                out, r = guard(lambda: o[it])
                got, nd = [], -1
                if out == "ok":
                    oo, got = guard(lambda: [[x] for x in flat(r)] if who else [flat(row) for row in r])
                    nd = int(np.ndim(r))
                    got = got if oo == "ok" else []
                # what was returned is a copy unless it looks into an array
                free = who == 0 or how[who - 1] == "nc" or op["it"]["k"] in ("list", "mask")
                last[:] = [r, out == "ok" and free]
                ok = type(it) is type(kept) and np.array_equal(np.asarray(it, dtype=object), np.asarray(kept, dtype=object))
                log("ask", who=who, it=op["it"], out=out, got=got, nd=nd, same=bool(ok and untouched()))
            elif k == "scribble":
                if last[1]:

                    def scrib():
                        last[0][...] = -5

                    guard(scrib)
            elif k == "change":
                u = objs[op["who"] - 1]

                def do():
                    if op["how"] == "set":
                        u.data = back(op["data"], op["back"], op["dt"])
                    elif op["how"] == "del":
                        del u.data
                    else:
                        u.data[op["at"]] = op["x"]

                if op["how"] == "write" and how[op["who"] - 1] == "nc":
                    continue
                out, _ = guard(do)
                if op["how"] != "write":
                    how[op["who"] - 1] = op["back"] if op["how"] == "set" else "arr"
                log("change", who=op["who"], how=op["how"], data=op.get("data", []), at=op.get("at", 0), x=op.get("x", 0), out=out, same=bool(untouched()))
                if out != "ok":
                    return
            elif k == "info":
                u = objs[op["who"] - 1]

                def do():
                    n = int(u.shape[0])
                    return dict(
                        shape=[int(x) for x in u.shape],
                        len=int(len(u)) if hasattr(u, "__len__") else n,
                        ndim=int(u.ndim),
                        all=flat(u.data[:]),
                        max=one(u.max) if n else HOLE,
                        min=one(u.min) if n else HOLE,
                    )

                out, r = guard(do)
                log("info", who=op["who"], out=out, same=bool(untouched()), **(r if out == "ok" else dict(shape=[], len=-1, ndim=-1, all=[], max=0, min=0)))
    finally:
        nc.close()
        os.unlink(path)
