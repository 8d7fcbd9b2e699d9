from vlib import world

from props.common_mesh import LATTICE, MAPS, MeshCheck, big, halved, irregular, lattice_points, query, renumber, spread, tr, under


class C08(MeshCheck):
    id = "C08"
    rule = (
        "one query per line on an unstructured mesh: face lookup (tree search, simple search, index_of), nearest node, "
        "corner weights, interpolation of node and face data; meshes = every triangulation of a 3 x 3 lattice TLC emits "
        "(all diagonals, holes, separate parts), renumbered, turned over and mapped, quadrilateral meshes, and irregular and large ones; points on "
        "nodes, sides, inside and outside; non-trivial = every query"
    )

    def models_for(self, tier):
        d = "" if tier == "quick" else "Deep"
        return (("MeshGen", "MeshGen" + d, "m"), ("MeshGen", "MeshMixed" + d, "x"))

    def scn(self, rng, faces, src):
        m = rng.choice(MAPS)
        s = rng.choice([1, 1, 1, 40, 200])
        nodes, ff = renumber(rng, [tr(m, [s * p[0], s * p[1]]) for p in LATTICE], faces)
        used = sorted({v for f in ff for v in f})
        if rng.random() < 0.5:
            # drop the nodes no face uses
            nodes = [nodes[v] for v in used]
            ff = [[used.index(v) for v in f] for f in ff]
        quad = any(len(f) == 4 for f in ff)
        ops = [dict(op="make", nodes=nodes, faces=ff)]
        kinds = ["locate", "locate", "nearest", "face"] + ([] if quad else ["node", "node", "alphas"])
        pts = lattice_points(rng, m, rng.choice([1, 2, 3, 6, 12]), s)
        for i in range(7):
            if rng.random() < 0.5:
                pts = lattice_points(rng, m, rng.choice([1, 2, 3, 6, 12]), s)
            elif rng.random() < 0.5:
                pts = pts[::-1]
            ops.append(query(rng, rng.choice(kinds), len(nodes), len(ff), pts, quad))
        if rng.random() < 0.3:
            ops.append(dict(op="infer", size=rng.choice([len(nodes), len(ff), 77]), lead=rng.choice([[], [3], [2, 4]])))
        return dict(src=src, ops=ops, under=under(rng), form=rng.choice(["arr", "arr", "list"]), lonlat=rng.random() < 0.2, idt=rng.choice(["i4", "i8"]), world=world(rng) if s == 1 else None)

    def free(self, rng, nodes, faces, counts):
        """meshes that are no map of the lattice"""
        nodes, ff = renumber(rng, nodes, faces)
        ops = [dict(op="make", nodes=nodes, faces=ff)]
        for _ in range(6):
            pts = spread(rng, nodes, ff, rng.choice(counts))
            ops.append(query(rng, rng.choice(["locate", "locate", "nearest", "face", "node", "node", "alphas"]), len(nodes), len(ff), pts))
        return dict(src="random", ops=ops, form="arr", lonlat=rng.random() < 0.2, idt=rng.choice(["i4", "i8"]), world=None)

    def scenarios(self, cases, rng, tier):
        ms = [c["faces"] for c in cases["m"]]
        if tier != "quick" and len(ms) > 6000:
            ms = rng.sample(ms, 6000)
        scns = [self.scn(rng, f, "tlc") for f in ms for _ in range(2 if tier == "quick" else 1)]
        xs = [c["faces"] for c in cases["x"]]
        for f in rng.sample(xs, min(len(xs), 150 if tier == "quick" else 3000)):
            scns.append(self.scn(rng, f, "tlc"))
        for _ in range(120 if tier == "quick" else 1500):
            quads = [[0, 1, 4, 3], [1, 2, 5, 4], [3, 4, 7, 6], [4, 5, 8, 7]]
            s = rng.sample(quads, rng.randint(1, 4))
            scns.append(self.scn(rng, s, "random"))
        for _ in range(150 if tier == "quick" else 3000):
            scns.append(self.free(rng, *irregular(rng, rng.choice([3, 5, 9, 20, 40])), [1, 3, 9]))
        for _ in range(3 if tier == "quick" else 12):
            scns.append(self.free(rng, *big(rng, *rng.choice([(9, 13), (3, 40), (8, 14)])), [100]))
        return scns


CHECK = C08()
