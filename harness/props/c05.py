from vlib import world

from props.common_var import KINDS, VarCheck, at, count, numbered, rand_axis, rand_field, rand_pts, rand_time, unit


class C05(VarCheck):
    id = "C05"
    models = (("FieldGen", None, "q"),)
    rule = (
        "one query per line: grid type, location, time axis, query time, options and points; axes, query times and "
        "options enumerated by TLC, field values and points drawn at random, further axes at random; non-trivial = a query"
    )

    def scenarios(self, cases, rng, tier):
        scns = []
        by = {}
        for c in cases["q"]:
            by.setdefault((c["grid"], tuple(c["times"])), []).append(c)
        for (kind, ax), qs in sorted(by.items()):
            f = rand_field(rng, len(ax), kind, ax, fill=rng.choice([0, -9]))
            ops = [at(rng, 1, rand_pts(rng, count(rng, [1, 3, 4, 5], p=0.005)), q["t"], q["ex"], q["um"]) for q in qs]
            scns.append(dict(src="tlc", unit=unit(rng), world=world(rng), kind=kind, fs=[f], ops=ops, how=rng.choice([0, 1] if len(ax) else [0, 3, 4])))
        for _ in range(150 if tier == "quick" else 3000):
            kind = rng.choice(KINDS)
            ax = rand_axis(rng, count(rng, [0, 1, 2, 3, 5, 9], (40, 130, 300)))
            f = rand_field(rng, len(ax), kind, ax, gx=rng.choice([0, 0, 7, -40]), fill=rng.choice([0, 999]))
            ops = [
                at(rng, 1, rand_pts(rng, count(rng, [1, 2, 4, 7], p=0.02), f["gx"]), rand_time(rng, ax), rng.random() < 0.5, rng.random() < 0.3)
                for _ in range(8)
            ]
            # location inferred from the shape only where it is unambiguous
            scns.append(dict(src="random", unit=unit(rng), world=world(rng), kind=kind, fs=[f], ops=ops, how=rng.choice([0, 1] if ax else [0, 3, 4]), infer=rng.random() < 0.3))
        return numbered(rng, scns)


CHECK = C05()
