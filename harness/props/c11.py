from vlib import Check

from props.common_depth import scenario


class C11(Check):
    id = "C11"
    driver = "depth"
    trace = "DepthTrace"
    rule = (
        "histories of queries of terrain-following depth objects (depth profiles of levels and layers, positions in the "
        "column) and of variables on them: every stretching, critical depth, transform, bathymetry and free surface of TLC "
        "and variations of them, level and layer data, surface-first and bottom-first, free surface fixed or moving in "
        "time; non-trivial = value, position or profile queries"
    )

    def models_for(self, tier):
        return (("DepthGen", "DepthSGen" if tier == "quick" else "DepthSGenDeep", "d"),)

    def scenarios(self, cases, rng, tier):
        scns = []
        for c in cases["d"]:
            for _ in range(2 if tier == "quick" else 6):
                d = c["d"]
                if d["zeta"] == [[0, 0, 0]] and rng.random() < 0.5:
                    d = dict(d, noz=1)
                scns.append(scenario(rng, d, "tlc", 8, "S" if d["kind"] == "roms" else "U"))
        return scns

    def nontrivial(self, line):
        return line["ev"] in ("at", "alphas", "profile")


CHECK = C11()
