from vlib import Check

from props.common_sgrid import blend_scn, ensure_cell, random_grid, scenario


class C09(Check):
    id = "C09"
    driver = "sgrid"
    trace = "SGridTrace"
    rule = (
        "one call per line on a staggered grid: cell lookup (memoized or not, one or many points), interpolation of node, "
        "center and side data through the grid and through a variable, nearest location, interpolant; grids, masks, "
        "padding and the quarter lattice of every cell from TLC, plus random larger and graded grids in decimal degrees, some with hundreds of cells and points; "
        "non-trivial = lookup or interpolation with a point on the grid"
    )

    def models_for(self, tier):
        return (("SGridGen", "SGridGen" if tier == "quick" else "SGridGenDeep", "g"),)

    def scenarios(self, cases, rng, tier):
        scns = []
        for c in cases["g"]:
            g = ensure_cell(rng, c["g"])
            scns.append(scenario(rng, g, "tlc", nops=4, beyond=c["beyond"], lattice=True))
        for _ in range(250 if tier == "quick" else 5000):
            scns.append(scenario(rng, random_grid(rng), "random"))
        for _ in range(8 if tier == "quick" else 80):
            scns.append(scenario(rng, random_grid(rng, 24, 8), "large", nops=4, many=rng.choice([40, 150, 300])))
        scns += [blend_scn(rng, 8) for _ in range(30 if tier == "quick" else 600)]
        return scns

    def nontrivial(self, line):
        return line["ev"] in ("interp", "locate") and any(p[0] >= 0 for p in line["pts"])


CHECK = C09()
