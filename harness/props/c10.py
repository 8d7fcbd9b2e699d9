from vlib import Check

from props.common_depth import random_levels, scenario


class C10(Check):
    id = "C10"
    driver = "depth"
    trace = "DepthTrace"
    rule = (
        "histories of queries (with repeats) of variables with a vertical and of their depth objects, interleaved with "
        "changes of data, boundary conditions, levels and fill value: every level set of TLC and random ones, rising and "
        "falling, level and layer data, with and without time, time- or depth-major, on rectangular, staggered (node, "
        "center) and triangular grids, scalar and vector; non-trivial = value or position queries"
    )

    def models_for(self, tier):
        return (("DepthGen", "DepthLGen" if tier == "quick" else "DepthLGenDeep", "d"),)

    def scenarios(self, cases, rng, tier):
        scns = []
        for c in cases["d"]:
            for kind in "RSU":
                for _ in range(4 if tier == "quick" else 20):
                    scns.append(scenario(rng, c["d"], "tlc", 8, kind))
        for _ in range(220 if tier == "quick" else 3500):
            d = random_levels(rng) if rng.random() < 0.85 else dict(kind="surf")
            scns.append(scenario(rng, d, "random", 8, rng.choice("RSU")))
        return scns

    def nontrivial(self, line):
        return line["ev"] in ("at", "alphas")


CHECK = C10()
