"""Verdat files: ordering of boundaries, saving, loading."""

import os
import random
import tempfile

import numpy as np

from drivers.ugrid_file import quiet
from obs import guard


def coords(seed, n):
    """n distinct points with six decimals, in the units of the last decimal"""
    rng = random.Random(seed)
    out, seen = [], set()
    big = rng.random() < 0.3
    while len(out) < n:
        p = (rng.randint(-180000000, 180000000), rng.randint(-90000000, 90000000))
        if not big:
            p = (rng.randint(-50, 50) + 10**6 * rng.choice([0, -89]), rng.randint(-50, 50) + 10**6 * rng.choice([0, 29]))
        if p not in seen and p != (0, 0):
            seen.add(p)
            out.append(p)
    if rng.random() < 0.3:
        # a point like any other
        out[rng.randrange(n)] = (0, 0)
    return out


def parse(fn, pid, did):
    """what is in the file, in the terms of the specification"""
    with open(fn) as f:
        lines = [ln.strip() for ln in f.read().splitlines()]
    h = lines[0].split()
    if not h or h[0] != "DOGS":
        return None
    pts, deps, idx = [], [], []
    k = 1
    while k < len(lines):
        w = [x.strip() for x in lines[k].split(",")]
        k += 1
        if len(w) != 4:
            return None
        if float(w[0]) == 0 and float(w[1]) == 0 and float(w[2]) == 0 and float(w[3]) == 0:
            break
        idx.append(int(w[0]))
        pts.append(pid.get((round(float(w[1]) * 10**6), round(float(w[2]) * 10**6)), -1))
        deps.append(did.get(round(float(w[3]) * 1000), -1))
    rest = [int(x) for x in lines[k:] if x]
    return dict(units=h[1] if len(h) > 1 else "", idx=idx, pts=pts, deps=deps, nb=rest[0] if rest else 0, ends=rest[1:])


def observe(ds, pid, did):
    def do():
        v = ds["depth"]
        b = ds.grid.boundaries
        return dict(
            pts=[pid.get((round(float(x) * 10**6), round(float(y) * 10**6)), -1) for x, y in ds.grid.nodes],
            deps=[did.get(round(float(x) * 1000), -1) for x in np.asarray(v.data)],
            bounds=[] if b is None else [[int(x), int(y)] for x, y in b],
            units=str(v.units),
            loc=str(v.location),
        )

    return guard(do)


def run(scn, log):
    from gridded import Dataset, Grid_U, Variable
    from gridded.io import load_verdat, save_verdat
    from gridded.io.verdat import order_boundary_segments

    k = scn["kind"]
    if k == "order":
        a = np.array(scn["segs"], dtype=scn["idt"]).reshape(-1, 2)
        keep = a.copy()
        out, r = guard(lambda: [[[int(x) for x in b] for b in part] for part in order_boundary_segments(a)])
        log(
            "order",
            segs=scn["segs"],
            out=out,
            closed=r[0] if out == "ok" else [],
            open=r[1] if out == "ok" else [],
            same=bool(np.array_equal(a, keep)),
        )
        return
    n = scn["n"]
    co = coords(scn["seed"], n)
    pid = {p: i for i, p in enumerate(co)}
    # depths in thousandths
    deps = scn["depths"]
    did = {d: i for i, d in enumerate(deps)}
    fn = tempfile.mktemp(suffix=".dat", dir=os.getcwd())
    try:
        if k == "save":
            nodes = np.array(co, dtype=float) / 10**6
            kw = {}
            if scn["faces"]:
                w = max(len(f) for f in scn["faces"])
                kw["faces"] = np.array([f + [-1] * (w - len(f)) for f in scn["faces"]], dtype="i4")
                if kw["faces"].min() < 0:
                    kw["faces"] = np.ma.masked_less(kw["faces"], 0)
            if scn["given"]:
                kw["boundaries"] = np.array(scn["segs"], dtype="i4").reshape(-1, 2)
            g = Grid_U(nodes=nodes, **kw)
            dep = np.array([deps[i] / 1000 for i in scn["dep"]])
            v = Variable(name="bathy", units=scn["unit"] or scn["nounit"], data=dep, grid=g, location="node")
            ds = Dataset(grid=g, variables={scn["key"]: v})
            keep = (g.nodes.copy(), dep.copy(), None if g.boundaries is None else g.boundaries.copy())
            args = {} if scn["key"] == "depth" and not scn["nodepth"] else {"depth_var": None if scn["nodepth"] else scn["key"]}
            with quiet():
                out, _r = guard(lambda: save_verdat(ds, fn, **args))
            same = np.array_equal(g.nodes, keep[0]) and np.array_equal(v.data, keep[1])
            if keep[2] is not None:
                same = same and np.array_equal(g.boundaries, keep[2])
            f = dict(units="", idx=[], pts=[], deps=[], nb=0, ends=[], runits="")
            rout, o, again = "", {}, True
            if out == "ok":
                p2, f2 = guard(parse, fn, pid, did)
                if f2:
                    f = dict(f2, runits=f2["units"].lower())
                rout, d2 = guard(load_verdat, fn)
                if rout == "ok":
                    rout, o = observe(d2, pid, did)
                    fn2 = fn + "2"
                    with quiet():
                        o2, _r = guard(lambda: save_verdat(d2, fn2))
                    again = False
                    if o2 == "ok":
                        p3, f3 = guard(parse, fn2, pid, did)
                        if f3 and f2:
                            loops = lambda q: sorted(sorted(q["pts"][a:b]) for a, b in zip([0] + q["ends"], q["ends"]))  # noqa: E731
                            again = (
                                f3["units"] == f2["units"]
                                and sorted(zip(f3["pts"], f3["deps"])) == sorted(zip(f2["pts"], f2["deps"]))
                                and loops(f3) == loops(f2)
                            )
                        os.unlink(fn2)
            log(
                "save",
                n=n,
                segs=scn["segs"],
                dep=scn["dep"],
                unit="" if scn["nodepth"] else scn["unit"].strip().lower(),
                nodepth=scn["nodepth"],
                out=out,
                f=f,
                rout=rout,
                o=o or {},
                same=bool(same),
                again=bool(again),
            )
        else:
            f = scn["f"]
            w = scn["wide"]
            lines = ["DOGS" + (scn["gap"] + f["units"] if f["units"] else "")]
            for i, (p, d) in enumerate(zip(f["pts"], f["deps"])):
                x, y, z = co[p][0] / 10**6, co[p][1] / 10**6, deps[d] / 1000
                lines.append([f"{i + 1:4d}, {x:10.6f}, {y:10.6f}, {z:8.3f}", f"{i + 1},{x:.6f},{y:.6f},{z:.3f}", f"{i + 1} , {x!r} , {y!r} , {z!r}"][w])
            if scn["bad"] != "noend":
                lines.append(["   0,   0.000000,   0.000000,    0.000", "0,0,0,0", "0 , 0.0, 0.0, 0.0"][w])
            if scn["bad"] == "count":
                lines.append("not a number")
            elif scn["bad"] == "point":
                lines.insert(2, "1, 2, 3")
            if scn["bad"] == "" and (f["ends"] or scn["zero"]):
                lines.append(str(len(f["ends"])))
                lines += [str(x) for x in f["ends"]]
            with open(fn, "w") as fl:
                fl.write("\n".join(lines) + ("\n" if scn["eol"] else ""))
            out, ds = guard(load_verdat, fn)
            o = {}
            if out == "ok":
                out, o = observe(ds, pid, did)
            log("load", f=dict(pts=f["pts"], deps=f["deps"], ends=f["ends"], runits=f["units"].lower()), out=out, o=o or {}, bad=scn["bad"])
    finally:
        if os.path.exists(fn):
            os.unlink(fn)
