from vlib import world

from props.common_mesh import LATTICE, MeshCheck, big, halved, irregular, renumber, under


class C12(MeshCheck):
    id = "C12"
    rule = (
        "derived arrays (edges, boundaries, neighbours, edges of faces, coordinates) of every mesh of up to 3 triangles or "
        "2 quadrilaterals on 6 nodes TLC enumerates (no side with more than two faces), of triangulations of a lattice, "
        "renumbered and turned over at random, zero- and one-based, irregular and large ones; acceptance of every numbering of two faces on five "
        "nodes; non-trivial = a line with derived arrays or an acceptance"
    )

    def models_for(self, tier):
        if tier == "quick":
            return (("TopoGen", None, "t"), ("TopoGen", "TopoGenQuad", "t"), ("TopoGen", "TopoGenMixed", "t"), ("NumberGen", None, "n"), ("MeshGen", None, "m"))
        return (("TopoGen", "TopoGenDeep", "t"), ("TopoGen", "TopoGenQuadDeep", "t"), ("TopoGen", "TopoGenMixedDeep", "t"), ("NumberGen", None, "n"), ("MeshGen", "MeshGenDeep", "m"))

    def scenarios(self, cases, rng, tier):
        scns = []
        ts = cases["t"]
        mixed = [c for c in ts if len({len(f) for f in c["faces"]}) > 1]
        if len(mixed) > (400 if tier == "quick" else 6000):
            ts = [c for c in ts if len({len(f) for f in c["faces"]}) == 1] + rng.sample(mixed, 400 if tier == "quick" else 6000)
        for c in ts:
            xs = rng.sample([[x, y] for x in range(-4, 5) for y in range(-4, 5)], c["n"])
            scns.append(self.topo(rng, xs, c["faces"], "tlc"))
        ms = [c["faces"] for c in cases["m"]]
        for f in rng.sample(ms, min(len(ms), 150 if tier == "quick" else 3000)):
            scns.append(self.topo(rng, LATTICE, f, "tlc"))
        for c in cases["n"]:
            nodes = [[i, i * i] for i in range(c["n"])]
            scns.append(dict(src="tlc", form=rng.choice(["arr", "list"]), ops=[dict(op="make", nodes=nodes, faces=c["faces"])]))
        # larger strips and fans
        for _ in range(20 if tier == "quick" else 200):
            n = rng.randint(3, 12)
            nodes = [[i, rng.randint(-3, 3)] for i in range(n + 2)]
            faces = [[i, i + 1, i + 2] for i in range(n)]
            if rng.random() < 0.4:
                faces = [[0, i + 1, (i + 1) % n + 1] for i in range(n)]
            scns.append(self.topo(rng, nodes, faces, "random"))
        for _ in range(60 if tier == "quick" else 1200):
            scns.append(self.topo(rng, *irregular(rng, rng.choice([5, 9, 20, 40])), "random"))
        for _ in range(3 if tier == "quick" else 20):
            scns.append(self.topo(rng, *big(rng, *rng.choice([(9, 13), (3, 40), (8, 17)])), "large"))
        for _ in range(3 if tier == "quick" else 20):
            nx, ny = rng.choice([(6, 9), (2, 40), (12, 12)])
            quads = [[j * (nx + 1) + i, j * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i] for i in range(nx) for j in range(ny)]
            quads = [q for q in quads if rng.random() < 0.9]
            if rng.random() < 0.5:
                quads = halved(rng, quads)
            scns.append(self.topo(rng, [[i, j] for j in range(ny + 1) for i in range(nx + 1)], quads, "large"))
        return scns

    def topo(self, rng, nodes, faces, src):
        nodes, ff = renumber(rng, [list(p) for p in nodes], [list(f) for f in faces])
        mx = max(v for f in ff for v in f)
        if rng.random() < 0.3:
            # one-based, when that can be told: the last node is used
            nodes = nodes[: mx + 1]
            ff = [[v + 1 for v in f] for f in ff]
        ops = [dict(op="make", nodes=nodes, faces=ff), dict(op="topo", order=rng.random() < 0.5, given=rng.choice([0, 0, rng.randint(1, 99)]))]
        while rng.random() < 0.4:
            ops.append(dict(op="edges", how=rng.choice(["set", "set", "list", "build"]), given=rng.randint(1, 99)))
        if rng.random() < 0.15:
            ops.append(dict(op="edges", how=rng.choice(["none", "del"]), given=0))
        if rng.random() < 0.1:
            ops.append(dict(op="topo", order=rng.random() < 0.5, given=0))
        for s in (len(nodes), len(ff), len(ff) + 2, 99):
            if rng.random() < 0.2:
                ops.append(dict(op="infer", size=s, lead=rng.choice([[], [2]])))
        return dict(src=src, ops=ops, under=under(rng), form=rng.choice(["arr", "list"]), idt=rng.choice(["i4", "i8"]), world=world(rng))

    def nontrivial(self, line):
        return line["ev"] in ("topo", "make", "edges")


CHECK = C12()
