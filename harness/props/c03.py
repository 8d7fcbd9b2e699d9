from props.common_time import NONE, TimeCheck


LOOKUP_UNITS = [1000000, 1000000, 1, 1000, 250000, 3600000000]


class C03(TimeCheck):
    id = "C03"
    models = (("TimeLookupGen", None, "lookup"),)
    rule = (
        "one call set per line: index, weight, bounds test and validation of one query time on one axis; "
        "axes and query times enumerated by TLC (every query before, on, between and after the times, with and "
        "without extrapolation) and drawn at random; every line is non-trivial (it has a query)"
    )

    def scenarios(self, cases, rng, tier):
        scns = []
        for c in cases["lookup"]:
            d = c["data"]
            ops = [dict(op="arrays", a=d, b=[0, 3600]), self.new(1, "arr", 1)]
            ops += [dict(op="lookup", slot=1, t=t, ex=ex) for t in c["times"] for ex in (False, True)]
            scns.append(dict(src="tlc", ops=ops, unit=rng.choice(LOOKUP_UNITS)))
        n = 300 if tier == "quick" else 4000
        for _ in range(n):
            k = rng.randint(1, 40) if rng.random() < 0.95 else rng.choice([130, 300, 1000])
            d = self.axis(rng, k)
            ops = [dict(op="arrays", a=d, b=[0, 3600]), self.new(1, rng.choice(["arr", "list"]), 1, data=d, tz=rng.choice([NONE, 0]))]
            cur = list(d)
            for _ in range(12):
                if rng.random() < 0.1:
                    v = rng.choice([NONE, 0, -28800, 19800])
                    ops.append(dict(op="settz", slot=1, v=v))
                j = rng.randrange(len(cur))
                t = rng.choice(
                    [cur[j], cur[j] + rng.choice([-1, 1, 600]), cur[0] - 500, cur[-1] + 500, rng.randint(cur[0], cur[-1])]
                )
                ops.append(dict(op="lookup", slot=1, t=t, ex=rng.random() < 0.4))
            scns.append(dict(src="random", ops=ops, unit=rng.choice([1000000, 250000, 3600000])))
        return scns

    def nontrivial(self, line):
        return line["ev"] == "lookup"


CHECK = C03()
