from obs import REPS
from vlib import Check, world


def axis(rng, n, desc):
    a = [rng.randint(-9, 9)]
    for _ in range(n - 1):
        a.append(a[-1] + rng.choice([1, 1, 2, 3, 5]))
    return a[::-1] if desc else a


class C07(Check):
    id = "C07"
    driver = "rect"
    trace = "RectTrace"
    rule = (
        "one call per line on a rectangular grid: cell lookup, interpolation (through the grid and through a variable, with "
        "and without leading time dimension, data stored lat-lon or lon-lat, with or without dimension names), centers, "
        "location; axes, orientations and the lattice of points around every node from TLC, data values at random, plus "
        "random grids, some with hundreds of nodes and points; non-trivial = lookup or interpolation"
    )

    def models_for(self, tier):
        return (("RectGen", "RectGen" if tier == "quick" else "RectGenDeep", "g"),)

    def interp(self, rng, lons, lats, order, dims, pts):
        sh = (len(lats), len(lons)) if order == "latlon" else (len(lons), len(lats))
        dm = [[int(rng.random() < 0.3) for _ in range(sh[1])] for _ in range(sh[0])] if rng.random() < 0.15 else None
        return dict(
            op="interp",
            dm=dm,
            order=order,
            dims=dims,
            data=[[rng.randint(-9, 9) for _ in range(sh[1])] for _ in range(sh[0])],
            ddtype=rng.choice(["f8", "f8", "f4", "i4"]),
            rep=rng.choice(REPS),
            pts=pts,
            form=rng.choice(["arr", "arr", "list", "single"]),
            lead=(lead := rng.choice([0, 0, 1, 3])),
            k=rng.randrange(max(1, lead)),
            noslice=rng.choice([True, False]),
            via=rng.choice(["grid", "grid", "var"]),
        )

    def misfits(self, rng, lons, lats, pts):
        ny, nx = len(lats), len(lons)
        ops = [dict(self.interp(rng, lons, lats, "latlon", "other", pts), via="grid")]
        bad = dict(self.interp(rng, lons, lats, "latlon", rng.choice(["none", "latlon"]), pts), via="grid", lead=0, dm=None)
        bad["data"] = [[1] * (nx + ny + 1) for _ in range(ny)]
        ops.append(bad)
        for dy in (-1, 0, 1):
            for dx in (-1, 0, 1):
                ops.append(dict(op="infer", shape=[ny + dy, nx + dx], lead=rng.choice([[], [3]])))
        ops.append(dict(op="infer", shape=[ny + 3, nx - 1], lead=[]))
        return ops

    def scenarios(self, cases, rng, tier):
        scns = []
        for c in cases["g"]:
            g = c["case"]
            lons, lats = g["lons"], g["lats"]
            pts = c["pts"]
            rng.shuffle(pts)
            dims = g["order"] if g["dn"] == "named" else "none"
            ops = [self.interp(rng, lons, lats, g["order"], dims, pts) for _ in range(2)]
            ops[0].update(form="arr", via="grid")
            ops.append(dict(op="locate", pts=pts, form="arr"))
            ops += [dict(op="locate", pts=[p], form="single") for p in pts[:3]]
            ops += [dict(self.interp(rng, lons, lats, g["order"], dims, [p]), form="single") for p in pts[:3]]
            ops.append(dict(op="centers"))
            if rng.random() < 0.3:
                ops += self.misfits(rng, lons, lats, pts[:3])
            scns.append(
                dict(src="tlc", lons=lons, lats=lats, ops=ops, share=rng.random() < 0.5, topo=rng.random() < 0.3, dtype=rng.choice(["f8", "f8", "f4", "i4"]), rep=rng.choice(REPS), world=world(rng))
            )
        for i in range(204 if tier == "quick" else 4040):
            nx, ny = rng.randint(2, 7), rng.randint(2, 7)
            large = i >= (200 if tier == "quick" else 4000)
            if large:
                nx, ny = rng.choice([(70, 45), (260, 3), (12, 140), (4, 300)])
            lons, lats = axis(rng, nx, rng.random() < 0.3), axis(rng, ny, rng.random() < 0.4)
            if rng.random() < 0.15:
                lats = list(lons)
            ops = []
            for _ in range(6):
                pts = [
                    [rng.randint(4 * min(lons) - 3, 4 * max(lons) + 3), rng.randint(4 * min(lats) - 3, 4 * max(lats) + 3)]
                    for _ in range(rng.choice([20, 150, 300] if large else [1, 2, 3, 5, 9]))
                ]
                if rng.random() < 0.3:
                    ops.append(dict(op="locate", pts=pts, form=rng.choice(["arr", "list", "single"])))
                else:
                    order = rng.choice(["latlon", "lonlat"])
                    ops.append(self.interp(rng, lons, lats, order, rng.choice(["none", order]), pts))
            scns.append(dict(src="random", lons=lons, lats=lats, ops=ops, share=rng.random() < 0.5, topo=rng.random() < 0.3, dtype=rng.choice(["f8", "f4", "i4", "i8"]), rep=rng.choice(REPS), world=world(rng)))
        return scns

    def nontrivial(self, line):
        return line["ev"] in ("interp", "locate")


CHECK = C07()
