from vlib import Check

NONE = -1000000


class C04(Check):
    id = "C04"
    driver = "time_file"
    trace = "TimeFileTrace"
    models = (("TimeFileGen", None, "load"),)
    rule = (
        "one file per line: units, reference time, offset written in the units, stored values and arguments of "
        "Time.from_netCDF, enumerated by TLC and drawn at random, in memory and on disk; plus files with several "
        "time dimensions for the choice of the time variable; all lines are non-trivial"
    )

    def scenarios(self, cases, rng, tier):
        load = cases["load"]
        if tier == "quick" and len(load) > 2600:
            load = rng.sample(load, 2600)
        scns = [dict(src="tlc", kind="load", c=c, n=rng.randrange(48)) for c in load]
        for _ in range(150 if tier == "quick" else 3000):
            unit = rng.choice(["seconds", "minutes", "hours", "days"])
            k = rng.randint(1, 8)
            den = 1 if unit == "seconds" else rng.choice([1, 2, 4])
            x = rng.randint(-20, 20)
            vals = []
            for _ in range(k):
                vals.append([x, den])
                x += rng.choice([1, 1, 2, 3, 10])
            uoff = rng.choice([NONE, NONE, 0, -25200, 19800, -12600, 43200, -3600 * 11, 1200, -13800, 4020, 20700, -60])
            tzarg = "file" if uoff != NONE else rng.choice(["file", "naive", "num"])
            c = dict(
                unit=unit,
                ref=rng.choice([0, 3600 * 13, 86400 * 40, -86400 * 3 + 1800]),
                uoff=uoff,
                vals=vals,
                tzarg=tzarg,
                tz=rng.choice([0, 3600, -28800, 19800]) if tzarg == "num" else 0,
                newtz=rng.choice([NONE, NONE, 0, 3600, -34200]),
                origin=rng.choice([NONE, NONE, 7200]),
                disp=rng.choice([NONE, NONE, 5400, -86400]),
                name=rng.choice(["", "", "PST"]),
            )
            scns.append(dict(src="random", kind="load", c=c, n=rng.randrange(48)))
        names = ["time", "ocean_time", "time2", "t"]
        for _ in range(120 if tier == "quick" else 600):
            axes = {}
            for nm in rng.sample(names, rng.randint(1, 3)):
                ax = [rng.randint(0, 50)]
                for _ in range(rng.randint(0, 4)):
                    ax.append(ax[-1] + rng.randint(1, 500))
                axes[nm] = ax
            first = rng.choice(list(axes) + ["x", "depth"])
            attr = rng.choice(["", "", rng.choice(list(axes)), "nosuchdim"])
            dims = [first] + [d for d in ("depth", "x") if d != first and rng.random() < 0.6]
            scns.append(dict(src="random", kind="find", axes=axes, dims=dims, attr=attr))
        return scns


CHECK = C04()
