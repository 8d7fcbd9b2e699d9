from vlib import Check

from .common_mesh import LATTICE, MAPS, lattice_points, renumber, tr

OFFS = [0, 0, -60, -150, 100, 150, 176, 190, 240, 300, 340]


def places(nodes):
    """shifts of longitude that keep the mesh on one side of the seam"""
    x = [p[0] for p in nodes]
    return [o for o in OFFS if min(x) + o >= -180 and max(x) + o <= 360 and not (min(x) + o <= 180 < max(x) + o)]


def mesh(rng, c):
    m = rng.choice(MAPS)
    nodes, faces = renumber(rng, [tr(m, p) for p in LATTICE], c["faces"])
    return m, nodes, faces


def small(rng, nodes, faces):
    """only the nodes that are used, so that few triangles make a small mesh"""
    used = sorted({v for f in faces for v in f})
    return [nodes[i] for i in used], [[used.index(v) for v in f] for f in faces]


def ugrid(rng, c):
    m, nodes, faces = mesh(rng, c)
    if rng.random() < 0.5:
        nodes, faces = small(rng, nodes, faces)
    n = len(nodes)
    k = rng.choice([0, 0, 1, 4])
    return dict(
        kind="ugrid",
        nodes=nodes,
        faces=faces,
        bounds=[rng.sample(range(n), 2) for _ in range(k)],
        fcoord=[[rng.randint(-40, 40), rng.randint(-40, 40)] for _ in faces] if rng.random() < 0.4 else [],
        dots=rng.random() < 0.5,
        nnum=rng.random() < 0.5,
        fnum=rng.random() < 0.5,
        built=rng.random() < 0.3,
    )


def table(rng, m, n):
    return [[rng.randint(-30, 30) for _ in range(n)] for _ in range(m)]


def sgrid(rng):
    m, n = rng.randint(2, 5), rng.randint(2, 5)
    s = dict(kind="sgrid", masked=rng.random() < 0.3)
    for k, a, b in (("lon lat", m, n), ("clon clat", m - 1, n - 1), ("alon alat", m, n - 1), ("blon blat", m - 1, n)):
        has = k == "lon lat" or rng.random() < 0.7
        for x in k.split():
            s[x] = table(rng, a + (k[0] == "c") * 2, b + (k[0] == "c") * 2) if has else []
    for k in ("dots", "rho", "edge"):
        s[k] = rng.random() < 0.6
    return s


def moved(o, p):
    x = p[0] + 4 * o
    return [x - 1440 if x > 720 else x, p[1]]


def ffile(rng, nodes, faces):
    return dict(
        nodes=nodes,
        faces=faces,
        off=rng.choice(places(nodes)),
        base=1,
        tr=True,
        dt=rng.choice(["f8", "f8", "f4"]),
        fmt=rng.choice(["NETCDF4", "NETCDF3_CLASSIC"]),
    )


def geo(rng, c):
    m, nodes, faces = mesh(rng, c)
    nodes, faces = small(rng, nodes, faces)
    s = ffile(rng, nodes, faces)
    if rng.random() < 0.25:
        # across the seam
        s["off"] = 180 - rng.choice(nodes)[0]
        if min(p[0] for p in nodes) + s["off"] < 0:
            s["off"] = 0
    s.update(
        kind="geo",
        m=rng.choice([5, 5, 0, 10, 25, 100]),
        style=rng.random() < 0.3,
        pts=[moved(s["off"], p) for p in lattice_points(rng, m, 12)],
    )
    return s


def inside(rng, nodes, f, w):
    w = list(w)
    rng.shuffle(w)
    return [sum(k * nodes[v][d] for k, v in zip(w, f)) for d in (0, 1)]


def viewer(rng, c, hist):
    m, nodes, faces = mesh(rng, c)
    nodes, faces = small(rng, nodes, faces)
    s = ffile(rng, nodes, faces)
    a, b = rng.choice(faces), rng.choice(faces)
    clicks = []
    for e in hist:
        if e["at"] in ("a", "b"):
            p = inside(rng, nodes, a if e["at"] == "a" else b, (2, 1, 1))
        elif e["at"] in ("side", "rim"):
            p = inside(rng, nodes, rng.choice(faces), rng.choice([(2, 2, 0), (4, 0, 0), (3, 1, 0)]))
        elif rng.random() < 0.5:
            p = lattice_points(rng, m, 1)[0]
        else:
            p = [4 * max(x for x, y in nodes) + rng.randint(1, 40), rng.randint(-40, 40)]
        clicks.append(dict(k=e["k"], button=e["button"], p=moved(s["off"], p), through=rng.random() < 0.3))
    s.update(
        kind="viewer",
        clicks=clicks,
        name=rng.choice(["mesh.nc", "a.b.nc", "fvcom grid.nc"]),
        spill=moved(s["off"], rng.choice(nodes) and [4 * rng.choice(nodes)[0], rng.randint(-9, 9)]) if rng.random() < 0.2 else [],
        inspector=rng.random() < 0.1,
    )
    return s


class C26(Check):
    id = "C26"
    driver = "plot"
    trace = "PlotTrace"
    models = (("PlotGen", "PlotGen", "h"), ("MeshGen", "MeshGen", "m"))
    rule = (
        "histories of clicks from TLC on meshes from TLC, put at longitudes on either side of the seam; drawings of meshes and of "
        "curvilinear grids with every choice of what is drawn; non-trivial = something was drawn or picked"
    )

    def models_for(self, tier):
        return self.models if tier == "quick" else (("PlotGen", "PlotGenDeep", "h"), ("MeshGen", "MeshGenDeep", "m"))

    def scenarios(self, cases, rng, tier):
        q = tier == "quick"
        H, M = cases["h"], cases["m"]
        one = [h for i, h in enumerate(H) if h not in H[:i]] if q else [h for h in H if rng.random() < 0.5]
        one = rng.sample(one, min(len(one), 260 if q else 4000))
        three = [c for c in M if len(c["faces"]) in (1, 2, 3)]
        pick = lambda: rng.choice(three if rng.random() < 0.3 and three else M)  # noqa: E731
        s = [dict(src="tlc", **viewer(rng, pick(), h)) for h in one]
        s += [dict(src="tlc", **geo(rng, pick())) for _ in range(150 if q else 3000)]
        s += [dict(src="tlc", **ugrid(rng, pick())) for _ in range(250 if q else 4000)]
        s += [dict(src="tlc", **sgrid(rng)) for _ in range(100 if q else 1500)]
        rng.shuffle(s)
        return s

    def nontrivial(self, line):
        return line["out"] == "ok"


CHECK = C26()
