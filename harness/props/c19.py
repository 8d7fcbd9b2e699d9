from vlib import world

from props.common_var import KINDS, VarCheck, at, count, numbered, rand_axis, rand_field, rand_pts, rand_time, unit


class C19(VarCheck):
    id = "C19"
    models = (("FieldGen", None, "q"),)
    rule = (
        "queries of vector variables with two or three components and of the components (by index and by name), time "
        "axes and query times from TLC and at random, with replacements of the time axis of the vector and of the data "
        "of components, units, and times and data that do not fit (refused) in between; non-trivial = a query"
    )

    def scenarios(self, cases, rng, tier):
        scns = []
        by = {}
        for c in cases["q"]:
            if c["times"]:
                by.setdefault((c["grid"], tuple(c["times"])), []).append(c)
        for (kind, ax), qs in sorted(by.items()):
            nc = rng.choice([2, 3])
            fs = [rand_field(rng, len(ax), kind, ax, fill=rng.choice([0, 7])) for _ in range(nc)]
            ops = []
            for q in qs:
                ops.append(at(rng, 0, rand_pts(rng, rng.choice([1, 2, 4])), q["t"], q["ex"], q["um"]))
            scns.append(dict(src="tlc", unit=unit(rng), world=world(rng), kind=kind, fs=fs, ops=ops))
        for _ in range(150 if tier == "quick" else 3000):
            kind = rng.choice(KINDS)
            nc = rng.choice([2, 3])
            n = count(rng, [1, 2, 3, 5], (40, 130, 300))
            ax = rand_axis(rng, n)
            fs = [rand_field(rng, n, kind, ax, fill=rng.choice([0, 7])) for _ in range(nc)]
            ops = []
            cur = ax
            un = "m"
            asked = []
            for _ in range(10):
                x = rng.random()
                if x < 0.04:
                    un = rng.choice(["m", "m s-1", "cm/s"])
                    ops.append(dict(op="units", set=True, unit=un))
                elif x < 0.06:
                    ops.append(dict(op="units", set=False, unit=un))
                elif x < 0.1:
                    what = rng.choice(["time", "time", "data"]) if n > 1 else "time"
                    m = rng.choice([i for i in (2, 3, 4, n - 1, n + 1) if i not in (0, 1, n)] + ([1] if what == "data" else []))
                    ts = rand_axis(rng, m)
                    f = rand_field(rng, m, kind, ts)
                    ops.append(dict(op="misfit", what=what, comp=rng.randint(0, nc), times=ts, f={k: f[k] for k in ("A", "B", "C", "gaps")}, how=rng.randrange(2)))
                elif x < 0.28 and asked:
                    # the same question again
                    ops.append(dict(rng.choice(asked[-3:])))
                elif x < 0.75:
                    ops.append(
                        at(rng, rng.choice([0, 0, rng.randint(1, nc)]), rand_pts(rng, count(rng, [1, 2, 4, 7, 12], p=0.015)), rand_time(rng, cur), rng.random() < 0.6, rng.random() < 0.3)
                    )
                    asked.append(ops[-1])
                elif x < 0.85:
                    cur = rand_axis(rng, n)
                    ops.append(dict(op="change", what="time", comp=0, times=cur, how=rng.randrange(2)))
                else:
                    i = rng.randint(1, nc)
                    f = rand_field(rng, n, kind, cur)
                    ops.append(dict(op="change", what="data", comp=i, f={k: f[k] for k in ("A", "B", "C", "gaps")}))
            scns.append(dict(src="random", unit=unit(rng), world=world(rng), kind=kind, fs=fs, ops=ops))
        return numbered(rng, scns)


CHECK = C19()
