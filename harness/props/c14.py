from vlib import Check

from props.common_mesh import renumber

UNITS = ["foot", "ft", "feet", "meter", "m", "meters", "metre", "FEET", " m ", "Meters", ""]


def messy(rng, segs, n, spread=0):
    """the same segments in any order and direction, between nodes of other numbers"""
    perm = list(range(n + spread))
    rng.shuffle(perm)
    out = [[perm[a], perm[b]] for a, b in segs]
    out = [s[::-1] if rng.random() < 0.5 else s for s in out]
    rng.shuffle(out)
    return out


def random_segs(rng, n):
    """disjoint loops and lines"""
    most = rng.choice([9, n])
    nodes = list(range(n))
    rng.shuffle(nodes)
    segs = []
    while len(nodes) > 2 and rng.random() < 0.85:
        k = rng.randint(2, min(most, len(nodes)))
        p, nodes = nodes[:k], nodes[k:]
        segs += [[a, b] for a, b in zip(p, p[1:])]
        if k > 2 and rng.random() < 0.65:
            segs.append([p[-1], p[0]])
    return segs


def depths(rng, n):
    """distinct depths in thousandths, and one of them per node"""
    d = rng.sample([0, 1, -1, 1500, 12345, -250, 999999, 10, 100000, 3001, 7, 42, 81, 777, 123, 4321], min(16, n + 2))
    if 0 not in d and rng.random() < 0.5:
        d[0] = 0
    return d, [rng.randrange(len(d)) if rng.random() < 0.9 or 0 not in d else d.index(0) for _ in range(n)]


def save(rng, n, segs, src, faces=None, given=True):
    d, dep = depths(rng, n)
    nodepth = rng.random() < 0.08
    if nodepth:
        # a depth of one everywhere
        d = [x for x in d if x != 1000]
        dep = [i % len(d) for i in dep]
    unit = rng.choice(UNITS)
    return dict(
        src=src,
        kind="save",
        n=n,
        segs=segs,
        faces=faces or [],
        given=given,
        seed=rng.randrange(10**6),
        depths=d,
        dep=dep,
        unit=unit,
        nounit=rng.choice(["", None]),
        key=rng.choice(["depth", "depth", "h"]),
        nodepth=nodepth,
    )


def simple_rim(faces):
    """the boundary segments, if no node is on more than two of them"""
    c = {}
    for f in faces:
        for a, b in zip(f, f[1:] + f[:1]):
            e = tuple(sorted((a, b)))
            c[e] = c.get(e, 0) + 1
    if any(v > 2 for v in c.values()):
        return None
    rim = [list(e) for e, v in c.items() if v == 1]
    deg = {}
    for a, b in rim:
        deg[a] = deg.get(a, 0) + 1
        deg[b] = deg.get(b, 0) + 1
    return rim if all(v == 2 for v in deg.values()) else None


def load(rng):
    n = rng.randint(1, 14) if rng.random() < 0.97 else rng.choice([120, 400])
    d, dep = depths(rng, n)
    pts = list(range(n))
    rng.shuffle(pts)
    ends, at = [], 0
    while rng.random() < 0.7 and n - at >= 3:
        at += rng.randint(3, min(6, n - at))
        ends.append(at)
    return dict(
        src="random",
        kind="load",
        n=n,
        seed=rng.randrange(10**6),
        depths=d,
        f=dict(units=rng.choice(["FEET", "METERS", "Feet", "", "meters"]), pts=pts, deps=dep, ends=ends),
        wide=rng.randrange(3),
        gap=rng.choice([" ", " ", "  ", "\t"]),
        zero=rng.random() < 0.5,
        eol=rng.random() < 0.8,
        bad=rng.choice([""] * 8 + ["count", "point"]),
    )


class C14(Check):
    id = "C14"
    driver = "verdat"
    trace = "VerdatTrace"
    rule = (
        "sets of boundary segments forming disjoint loops and lines (all small ones from TLC, larger random ones) in any "
        "order, direction and numbering, ordered alone and through saving with given or derived boundaries; every saved file "
        "is read back and saved again; files in several layouts, complete and malformed; non-trivial = with a boundary"
    )

    def models_for(self, tier):
        d = "" if tier == "quick" else "Deep"
        return (("VerdatOrder", "VerdatOrder" + d, "segs"), ("TopoGen", "TopoGen" + d, "topo"), ("TopoGen", "TopoGenMixed" + d, "mix"))

    def scenarios(self, cases, rng, tier):
        q = tier == "quick"
        scns = []
        for c in cases["segs"]:
            for _ in range(2 if q else 4):
                sp = rng.choice([0, 0, 3])
                segs = messy(rng, c["segs"], c["n"], sp)
                scns.append(dict(src="tlc", kind="order", segs=segs, idt=rng.choice(["i4", "i8"])))
                scns.append(save(rng, c["n"] + sp, segs, "tlc"))
        rims = [(c, simple_rim(c["faces"])) for c in cases["topo"]]
        rims = [(c, r) for c, r in rims if r is not None]
        for c, r in rng.sample(rims, min(len(rims), 200 if q else 2000)):
            nodes, faces = renumber(rng, list(range(c["n"])), c["faces"])
            scns.append(save(rng, c["n"], simple_rim(faces), "tlc", faces=faces, given=False))
        rims = [c for c in cases["mix"] if simple_rim(c["faces"]) is not None]
        for c in rng.sample(rims, min(len(rims), 80 if q else 800)):
            nodes, faces = renumber(rng, list(range(c["n"])), c["faces"])
            scns.append(save(rng, c["n"], simple_rim(faces), "tlc", faces=faces, given=False))
        for _ in range(300 if q else 4000):
            n = rng.randint(3, 40) if rng.random() < 0.98 else rng.choice([150, 300])
            segs = messy(rng, random_segs(rng, n), n)
            scns.append(dict(src="random", kind="order", segs=segs, idt=rng.choice(["i4", "i8"])))
            scns.append(save(rng, n, segs, "random"))
        for _ in range(200 if q else 2000):
            scns.append(load(rng))
        rng.shuffle(scns)
        return scns

    def nontrivial(self, line):
        return bool(line.get("segs") or line.get("f", {}).get("ends"))


CHECK = C14()
