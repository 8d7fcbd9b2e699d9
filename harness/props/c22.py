from vlib import Check

from props.common_sgrid import ALIAS, LOCS, PADS, interp_op, pad_of, points, random_grid, scenario, shape


class C22(Check):
    id = "C22"
    driver = "sgrid"
    trace = "SGridTrace"
    rule = (
        "one call per line on a staggered grid: padding of each location (given, inferred from the centers or default), "
        "trimming slices, index shift, location of data from its shape, interpolation of data padded in every combination; "
        "every pair of padding types and every shape difference, on TLC's grids and random ones; non-trivial = all but "
        "interpolation off the grid"
    )

    def models_for(self, tier):
        return (("SGridGen", "SGridGen" if tier == "quick" else "SGridGenDeep", "g"),)

    def static_ops(self, rng, g):
        R, C = len(g["nodes"]), len(g["nodes"][0])
        ops = [dict(op="pads", names=[rng.choice(ALIAS[x]) for x in LOCS])]
        none = [None, "none"]
        for a in PADS:
            for b in PADS:
                p = [rng.choice(none) if x == "none" else x for x in (a, b)]
                ops.append(dict(op="trim", n=[rng.choice([3, 4, 5, 6, 40, 300]), rng.choice([3, 4, 5, 6, 40, 300])], pad=p))
                ops.append(dict(op="shift", idx=[[rng.randint(0, m), rng.randint(0, m)] for m in (9, 9, 400) for _ in range(rng.randint(1, 3))], pad=p))
        for dr in (-2, -1, 0, 1, 2):
            for dc in (-2, -1, 0, 1, 2):
                if R + dr > 0 and C + dc > 0:
                    ops.append(dict(op="infer", shape=[R + dr, C + dc], lead=rng.choice([[], [2], [3, 2]])))
        return ops

    def scenarios(self, cases, rng, tier):
        scns = []
        grids = [c["g"] for c in cases["g"]]
        rng.shuffle(grids)
        n = 60 if tier == "quick" else 900
        for i in range(n):
            g = grids[i] if i < len(grids) else random_grid(rng)
            src = "tlc" if i < len(grids) else "random"
            g["hase1"], g["hase2"] = rng.random() < 0.5, rng.random() < 0.5
            s = scenario(rng, g, src, nops=0)
            s["ops"] = self.static_ops(rng, g)
            s["cls"] = rng.choice(["Grid_S", "SGrid"])
            scns.append(s)
        for a in PADS:
            for b in PADS:
                for loc in LOCS:
                    for _ in range(2 if tier == "quick" else 20):
                        g = random_grid(rng, rng.choice([5, 5, 5, 12]))
                        p = [a, b]
                        if loc == "edge1":
                            p[1] = "none"
                        if loc == "edge2":
                            p[0] = "none"
                        key = {"node": "npad", "center": "fpad", "edge1": "e1pad", "edge2": "e2pad"}[loc]
                        if key == "fpad":
                            g["cshape"], g["cmask"], g["nmask"] = [], [], []
                        if key == "npad":
                            g["nmask"] = []
                        g[key] = p
                        if not g["cshape"] and key == "fpad" and rng.random() < 0.5:
                            g["cshape"] = list(shape(g, "center", p))
                        s = scenario(rng, g, "random", nops=0)
                        beh = "zero" if s["beh"] == "default" else s["beh"]
                        for _ in range(3):
                            pts, at = points(rng, g, rng.choice([2, 5, 8, 8, 60]), False)
                            s["ops"].append(dict(interp_op(rng, g, pts, at, beh, loc=loc), pad=[]))
                            o = s["ops"][-1]
                            sh = shape(g, loc, pad_of(g, loc))
                            o["data"] = [[rng.randint(-9, 9) for _ in range(sh[1])] for _ in range(sh[0])]
                            o["dm"] = [[0] * sh[1] for _ in range(sh[0])]
                            o["loc_arg"] = loc
                        s["cls"] = "Grid_S"
                        scns.append(s)
        return scns

    def nontrivial(self, line):
        return line["ev"] != "interp" or any(p[0] >= 0 for p in line["pts"])


CHECK = C22()
