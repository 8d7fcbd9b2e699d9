from vlib import world

from props.common_mesh import LATTICE, MAPS, MeshCheck, big, irregular, lattice_points, query, renumber, seams, spread, tr, under

STAY = [[0, 1, 4], [0, 4, 3], [1, 2, 4], [2, 5, 4], [3, 4, 6], [4, 7, 6], [4, 5, 7], [5, 8, 7]]


class C21(MeshCheck):
    id = "C21"
    rule = (
        "histories of searches, interpolations and derived arrays of a mesh whose nodes and faces are replaced or deleted "
        "in between and whose answers the caller overwrites; every transition of the cache model TLC emits, given concrete "
        "meshes, and random longer histories with more point sets than the caches hold, on small, irregular and large meshes; non-trivial = a query or derived arrays"
    )

    def models_for(self, tier):
        return (("MeshCache", "MeshCache" if tier == "quick" else "MeshCacheDeep", "h", {"heap": "6g"}),)

    def flexible(self, rng):
        """squares whole, or as two triangles, or left out"""
        out = []
        for k, q in enumerate(([0, 1, 4, 3], [1, 2, 5, 4], [3, 4, 7, 6], [4, 5, 8, 7])):
            out += rng.choice([[q], [q], STAY[2 * k : 2 * k + 2], STAY[2 * k : 2 * k + 1], []])
        return out or [[0, 1, 4, 3]]

    def variants(self, rng):
        ma, mb = MAPS[0], rng.choice(MAPS[1:])
        n1, f1 = renumber(rng, [tr(ma, p) for p in LATTICE], rng.sample(STAY, rng.choice([3, 5, 8])))
        n2 = [tr(mb, p) for p in n1]
        # the same nodes, other faces (a different number of them, too)
        pos = {tuple(p): i for i, p in enumerate(n1)}
        f2 = [[pos[tuple(LATTICE[v])] for v in f] for f in (self.flexible(rng) if rng.random() < 0.2 else rng.sample(STAY, rng.choice([2, 4, 8])))]
        return (n1, n2), (f1, f2), (ma, mb)

    def concrete(self, rng, hist, npools=1):
        ns, fs, ms = self.variants(rng)
        pools = [lattice_points(rng, ms[0], 4) + lattice_points(rng, ms[1], 4) for _ in range(npools)]
        return self.play(rng, hist, ns, fs, pools)

    def free(self, rng, hist, mesh, n, npools):
        """meshes that are no map of the lattice: irregular or large"""
        n1, f1 = renumber(rng, *mesh)
        m = rng.choice(MAPS[1:])
        ns = n1, [tr(m, p) for p in n1]
        fs = f1, rng.sample(f1, max(1, rng.choice([len(f1), len(f1) // 2, len(f1) - 1])))
        pools = [spread(rng, ns[0], f1, n) + spread(rng, ns[1], f1, n) for _ in range(npools)]
        return self.play(rng, hist, ns, fs, pools)

    def play(self, rng, hist, ns, fs, pools):
        iv = [0, 0]
        ops = [dict(op="make", nodes=ns[0], faces=fs[0])]
        for h in hist:
            k = h["op"]
            if k == "nodes":
                iv[0] = 1 - iv[0]
                ops.append(dict(op="setnodes", nodes=ns[iv[0]]))
            elif k in ("faces", "delfaces"):
                iv[1] = 1 - iv[1]
                if k == "delfaces" and rng.random() < 0.3:  # without nodes there is nothing
                    ops.append(dict(op="delnodes"))
                    ops.append(dict(op="setnodes", nodes=ns[iv[0]]))
                elif k == "delfaces":
                    ops.append(dict(op="delfaces"))
                ops.append(dict(op="setfaces", faces=fs[iv[1]]))
            elif k == "scribble":
                ops.append(dict(op="scribble"))
            elif h["q"] == "topo":
                ops.append(dict(op="topo", order=rng.random() < 0.5, given=rng.choice([0, 0, rng.randint(1, 99)])))
            else:
                p = rng.choice(pools)
                quad = any(len(f) > 3 for f in fs[iv[1]])
                kind = rng.choice(["locate", "face"]) if quad and h["q"] in ("node", "alphas") else h["q"]
                q = query(rng, kind, len(ns[0]), len(fs[iv[1]]), p, quad)
                q["infer"] = False
                if rng.random() < 0.7:
                    q["form"] = "arr"
                ops.append(q)
        return ops

    def scenarios(self, cases, rng, tier):
        hists = cases["h"]
        pref = {str(h[:i]) for h in hists for i in range(1, len(h))}
        hists = [h for h in hists if str(h) not in pref]
        cap = 1500 if tier == "quick" else 15000
        if len(hists) > cap:
            hists = rng.sample(hists, cap)
        scns = [dict(src="tlc", ops=self.concrete(rng, h), under=under(rng), world=world(rng)) for h in hists]
        kinds = ["locate", "node", "face", "alphas", "nearest", "topo"]

        def history(n):
            h = []
            for _ in range(n):
                x = rng.random()
                if x < 0.75:
                    h.append(dict(op="ask", q=rng.choice(kinds[:5] if x < 0.7 else kinds)))
                elif x < 0.9:
                    h.append(dict(op=rng.choice(["nodes", "faces", "delfaces"])))
                else:
                    h.append(dict(op="scribble"))
            return h

        for _ in range(40 if tier == "quick" else 800):
            scns.append(dict(src="random", ops=self.free(rng, history(12), irregular(rng, rng.choice([5, 12, 30])), rng.choice([1, 3]), rng.choice([1, 3]))))
        for _ in range(60 if tier == "quick" else 1000):
            # points between faces: two answers are right, but what is kept must be of one of them
            n1, f1 = renumber(rng, *rng.choice([irregular(rng, 8), ([tr(MAPS[0], p) for p in LATTICE], STAY)]))
            pools = [seams(rng, n1, f1, 12) for _ in range(rng.choice([1, 2]))]
            h = [dict(op="ask", q=rng.choice(["locate", "alphas", "node", "node", "face"])) for _ in range(8)]
            h[4] = dict(op=rng.choice(["faces", "delfaces", "nodes", "ask"]), q="locate")
            scns.append(dict(src="random", ops=self.play(rng, h, (n1, n1), (f1, f1[::-1]), pools)))
        for _ in range(3 if tier == "quick" else 20):
            scns.append(dict(src="large", ops=self.free(rng, history(8), big(rng, *rng.choice([(9, 13), (3, 40)])), 40, 1)))
        for _ in range(150 if tier == "quick" else 2500):
            h = history(rng.choice([12, 25]))
            scns.append(dict(src="random", ops=self.concrete(rng, h, rng.choice([1, 3, 10]))))
        return scns

    def nontrivial(self, line):
        return line["ev"] not in ("make", "gone")


CHECK = C21()
