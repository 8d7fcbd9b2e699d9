from vlib import Check

from props.common_mesh import renumber, rotate

NOFLAG = 99999
HOLE = -998
FILLS = {"i2": [None, -1, -999, 32767], "i4": [None, -1, -999, 999999], "i8": [None, -1, -999, 999999]}
ROLES = ("faces", "edges", "bounds", "ff", "fe")
LON = ["longitude", "projection_x_coordinate", "degrees_east", "degree_east", "degree_E", "degrees_E", "degreeE", "degreesE"]
LAT = ["latitude", "projection_y_coordinate", "degrees_north", "degree_north", "degree_N", "degrees_N", "degreeN", "degreesN"]
BAD = ["", "m", "altitude"]
HOW = ["ufile", "gufile", "ds", "fds", "grid", "gu", "gds"]
NONE = dict(a=[], start="none", flag=NOFLAG, dim="none", layout="C")
XY = [("node_lon", "node_lat"), ("lon", "lat"), ("lon_psi", "lat_psi"), ("longitude", "latitude"), ("nodes", ""), ("node", "")]


def turn(a):
    return [list(x) for x in zip(*a)]


def rows(rng, m, w, n, last=True):
    """m rows of w distinct numbers below n, the last number among them"""
    out = [rng.sample(range(n), w) for _ in range(m)]
    if last and not any(n - 1 in r for r in out):
        out[rng.randrange(m)][rng.randrange(w)] = n - 1
        out = [r if len(set(r)) == w else rng.sample([x for x in range(n - 1)], w - 1) + [n - 1] for r in out]
    return out


def links(rng, m, w, n, flag):
    return [[flag if rng.random() < 0.3 else rng.randrange(n) for _ in range(w)] for _ in range(m)]


def store(rng, role, a, base, layout, start, flag, dim):
    b = [[x if x == HOLE or (flag != NOFLAG and x == flag) else x + base for x in r] for r in a]
    return dict(a=turn(b) if layout == "F" else b, start=start, flag=flag, dim=dim, layout=layout)


def shorter(rng, a):
    """some of the rows, never all, with fewer entries"""
    k = rng.randrange(len(a))
    return [r if i == k or rng.random() < 0.5 else r[:-1] + [HOLE] for i, r in enumerate(a)]


def words(rng, bad=False):
    w = [rng.choice(LON), rng.choice(LAT)]
    if bad:
        w[rng.randrange(2)] = rng.choice(BAD)
    return w


def file(rng, n, conns, fdim, edim, **kw):
    s = dict(
        kind="read",
        n=n,
        seed=rng.randrange(10**6),
        name=rng.choice(["mesh", "Mesh2", "fvcom_mesh", "m"]),
        tells=words(rng),
        order=rng.choice(["lonlat", "latlon"]),
        extra=rng.randrange(2),
        sep=rng.choice([" ", "  "]),
        cf_role=rng.choice(["mesh_topology", "mesh_topology", "mesh_topology "]),
        conns={r: conns.get(r, NONE) for r in ROLES},
        fdim=fdim,
        edim=edim,
        fc=[],
        ec=[],
        bc=[],
        how=rng.choice(HOW),
        ask=rng.random() < 0.4,
        idt=rng.choice(["i4", "i4", "i8", "i2"]),
        cdts=[rng.choice(["f8", "f8", "f4"]) for _ in range(2)],
        src="random",
    )
    s["fill"] = rng.choice(FILLS[s["idt"]])
    s.update(kw)
    return s


def from_case(rng, c):
    """a TLC case is one connectivity; links between faces come with the faces they link"""
    role = c["role"]
    conns = {role: dict(c["s"], layout=c["layout"])}
    m = len(c["want"])
    if role in ("ff", "fe"):
        a = rows(rng, m, c["w"], c["n"], False)
        dim = c["dim"]
        conns["faces"] = store(rng, "faces", a, 0, c["layout"], "0", NOFLAG, dim)
    fdim = role in ("faces", "ff", "fe") and c["dim"] != "none"
    edim = role == "edges" and c["dim"] != "none"
    return file(rng, c["n"], conns, fdim, edim, src="tlc")


def random_file(rng):
    n = rng.randint(4, 14)
    w = rng.choice([3, 3, 3, 4])
    nf, ne, nb = rng.randint(1, 9), rng.randint(1, 9), rng.randint(1, 6)
    if rng.random() < 0.01:
        # numbers beyond a byte
        n, nf, ne, nb = rng.choice([150, 300]), rng.randint(100, 300), rng.randint(100, 300), rng.randint(100, 300)
    fdim, edim = rng.random() < 0.6, rng.random() < 0.5
    conns = {}

    def layout(role, m, width, declared):
        if declared:
            lay = rng.choice("CF")
            return lay, ("first" if lay == "C" else "last")
        ind = 2 if role in ("edges", "bounds") else 3
        ok = []
        if not (m == ind and width != ind):
            ok.append("C")
        if width == ind and m != ind:
            ok.append("F")
        return (rng.choice(ok), "none") if ok else (None, None)

    for role, m, width, declared in (
        ("faces", nf, w, fdim),
        ("edges", ne, 2, edim),
        ("bounds", nb, 2, False),
        ("ff", nf, w, fdim),
        ("fe", nf, w, fdim),
    ):
        if role != "faces" and rng.random() < 0.4:
            continue
        if role in ("ff", "fe") and "faces" not in conns:
            continue
        if role == "faces" and rng.random() < 0.1:
            continue
        lay, dim = layout(role, m, width, declared)
        if lay is None:
            continue
        if role in ("ff", "fe"):
            base = rng.choice([0, 0, 1, 1, 3, 5])
            flag = rng.choice([NOFLAG, -1, -999, 999999]) if role == "ff" else NOFLAG
            a = links(rng, m, width, 9, flag) if flag != NOFLAG else rows(rng, m, width, 9, False)
            conns[role] = store(rng, role, a, base, lay, str(base), flag, dim)
        else:
            a = rows(rng, m, width, n)
            if role == "faces" and width == 4 and m > 1 and rng.random() < 0.5:
                a = shorter(rng, a)
            base = rng.choice([0, 0, 0, 1, 1, 1, 3, 5])
            start = rng.choice([str(base), str(base), "none" if base < 2 else str(base)])
            conns[role] = store(rng, role, a, base, lay, start, NOFLAG, dim)
    s = file(rng, n, conns, fdim, edim)
    if conns.get("ff", NONE)["flag"] == 999999 and s["idt"] == "i2":
        s["idt"] = "i4"
    k = 2 * n
    for r, role, m in (("fc", "faces", nf), ("ec", "edges", ne), ("bc", "bounds", nb)):
        if role in conns and rng.random() < 0.4:
            s[r] = [[k + 2 * i, k + 2 * i + 1] for i in range(m)]
            k += 2 * m
    x = rng.random()
    if x < 0.06:
        s["lost"] = rng.choice(["node_coordinates", "variable"])
    elif x < 0.14:
        s["tells"] = words(rng, True)
    elif x < 0.2:
        gone = [r for r in ROLES if r not in conns]
        if gone:
            s["gone"] = rng.choice(gone)
    if s.get("lost") and s["how"] in ("grid", "gds", "gu"):
        s["how"] = "ufile"
    return s


def pick(rng):
    names = rng.sample(["mesh", "Mesh1", "coarse", "fine", "a"], rng.randint(0, 4))
    meshes = [[nm, rng.choice(["mesh", "mesh", "mesh", "other", "plain", "three"]), rng.randint(3, 9)] for nm in names]
    return dict(
        src="random",
        kind="pick",
        seed=rng.randrange(10**6),
        meshes=meshes,
        asked=rng.choice(["", "", "nosuchmesh"] + names + names),
        how=rng.choice(["ufile", "gufile", "ds", "fds"]),
    )


def trip(rng, n, faces, src):
    w = len(faces[0]) if faces else 3
    m = dict(nodes=[[2 * i, 2 * i + 1] for i in range(n)], faces=faces, edges=[], bounds=[], ff=[], fe=[], fc=[], ec=[], bc=[])
    nf, ne, nb = len(faces), rng.randint(1, 7), rng.randint(1, 5)
    if n > 99:
        ne, nb = rng.randint(100, 300), rng.randint(100, 300)
    if w == 4 and nf > 1 and rng.random() < 0.4:
        m["faces"] = shorter(rng, faces)
    k = [2 * n]

    def coords(num):
        c = [[k[0] + 2 * i, k[0] + 2 * i + 1] for i in range(num)]
        k[0] += 2 * num
        return c

    if rng.random() < 0.6:
        m["edges"] = [rng.sample(range(n), 2) for _ in range(ne)]
        if rng.random() < 0.5:
            m["ec"] = coords(ne)
    if rng.random() < 0.6:
        m["bounds"] = [rng.sample(range(n), 2) for _ in range(nb)]
        if rng.random() < 0.5:
            m["bc"] = coords(nb)
    if nf:
        if rng.random() < 0.5:
            m["fc"] = coords(nf)
        if rng.random() < 0.5:
            m["ff"] = [[rng.randint(-1, nf - 1) for _ in range(w)] for _ in range(nf)]
        if rng.random() < 0.5:
            m["fe"] = [[rng.randrange(9) for _ in range(w)] for _ in range(nf)]
        for r in ("ff", "fe"):
            # what a shorter face lacks has no neighbour and no edge
            m[r] = [[HOLE if v == HOLE else x for x, v in zip(a, f)] for a, f in zip(m[r], m["faces"])]
    m["name"] = rng.choice(["mesh", "Mesh2", "fvcom_mesh", "m"])
    return dict(
        src=src,
        kind="trip",
        m=m,
        seed=rng.randrange(10**6),
        ncoord=k[0],
        idt=rng.choice(["i4", "i8", "i2", "u1" if n < 99 else "u2"]) if not m["ff"] else rng.choice(["i4", "i8"]),
        lonlat=rng.random() < 0.3,
        cls=rng.choice(["Grid_U", "UGrid"]),
        save=rng.choice(["save", "as", "ds"]),
        fmt=rng.choice(["", "netcdf4", "netcdf3"]),
        old=rng.random() < 0.2,
        times=rng.choice([1, 1, 2]),
        how=rng.choice(HOW),
        eqs=others(rng, m),
    )


def named(rng):
    n = rng.randint(4, 12)
    w = rng.choice([3, 3, 4])
    nf = rng.choice([1, 2, 4, 5, 8])
    a = rows(rng, nf, w, n)
    if rng.random() < 0.5:
        a = [[x + 1 for x in r] for r in a]
    if w == 3 and rng.random() < 0.5:
        a = turn(a)
    nx, ny = rng.choice(XY)
    topo = rng.random() < 0.4
    fname = rng.choice(["faces", "tris", "nv", "ele", "nele"])
    if topo:
        fname = rng.choice(["conn", "Elements", "nv"])
        nx, ny = rng.choice([("x_of_node", "y_of_node"), ("Lon", "Lat"), ("points", ""), ("X", "Y"), ("lon", "lat")])
    elif rng.random() < 0.3:
        nx, ny, fname = nx.upper(), ny.upper(), fname.upper()
    return dict(
        src="random",
        kind="named",
        n=n,
        seed=rng.randrange(10**6),
        faces=a,
        xy=[nx, ny],
        fname=fname,
        topo=topo,
        idt=rng.choice(["i4", "i8", "i2"]),
        how=rng.choice(["gu", "grid", "gds"]),
    )


def mapped(rng):
    n = rng.randint(6, 14)
    nf = rng.randint(4, 9)
    a = [rng.sample(range(n), 3) for _ in range(nf)]
    if not any(0 in r for r in a):
        a[0][rng.randrange(3)] = 0
    base = rng.randrange(2)
    turned = rng.random() < 0.6

    def put(rows, b=base):
        b = [[x + b for x in r] for r in rows]
        return turn(b) if turned else b

    faces = rng.random() < 0.92
    ff = faces and rng.random() < 0.5
    fc = faces and rng.random() < 0.5
    bounds = rng.random() < 0.5
    nb = rng.randint(1, 6)
    width = rng.choice([2, 2, 3, 4])
    names = dict(
        nodes_lon=rng.choice(["lon", "x"]),
        nodes_lat=rng.choice(["lat", "y"]),
        faces=rng.choice(["nv", "ele"]),
        face_face_connectivity="nbe",
        face_coordinates_lon="lonc",
        face_coordinates_lat="latc",
        boundaries="bnd",
    )
    have = ["nodes_lon", "nodes_lat"]
    have += ["faces"] * faces + ["face_face_connectivity"] * ff + ["face_coordinates_lon", "face_coordinates_lat"] * fc + ["boundaries"] * bounds
    return dict(
        src="random",
        kind="mapped",
        n=n,
        seed=rng.randrange(10**6),
        faces=put(a) if faces else [],
        ff=put([[rng.randint(-1, nf - 1) for _ in range(3)] for _ in range(nf)]) if ff else [],
        fc=[[2 * n + 2 * i, 2 * n + 2 * i + 1] for i in range(nf)] if fc else [],
        bounds=[[x + base * faces for x in rng.sample(range(n), 2)] + [rng.randrange(5) for _ in range(width - 2)] for _ in range(nb)] if bounds else [],
        turned=turned,
        names=names,
        map=have,
        attr=rng.choice(["none", "none", "match", "match", "differs", "gone"]),
        post=rng.random() < 0.4,
        cdt=rng.choice(["f8", "f8", "f4"]),
        idt=rng.choice(["i4", "i4", "i8", "i2"]),
        how=rng.choice(["path", "ds"]),
    )


def others(rng, m):
    """meshes to compare with the one read back: the same, or with one part changed"""
    out = []
    every = ["faces", "edges", "bounds"]
    for _ in range(rng.choice([1, 2, 3])):
        c = dict(kind=rng.choice(["Grid_U", "UGrid"]), m={}, has=rng.choice([every, ["faces", "bounds"]]))
        what = rng.choice(["", "", "nodes", "more", "faces", "bounds", "order", "holes"])
        if what == "nodes":
            ns = [list(p) for p in m["nodes"]]
            ns[rng.randrange(len(ns))][rng.randrange(2)] = 0 if rng.random() < 0.5 else 1
            c["m"]["nodes"] = ns
        elif what == "more":
            c["m"]["nodes"] = m["nodes"] + [[0, 1]]
        elif what == "faces" and m["faces"]:
            c["m"]["faces"] = m["faces"][::-1] if rng.random() < 0.5 else m["faces"] + [m["faces"][0]]
        elif what == "bounds":
            c["m"]["bounds"] = (m["bounds"][:-1] if m["bounds"] and rng.random() < 0.5 else m["bounds"] + [[0, 1]])
        elif what == "holes" and any(HOLE in f for f in m["faces"]):
            c["m"]["faces"] = [[0 if v == HOLE else v for v in f] for f in m["faces"]]
        elif what == "order" and m["faces"]:
            c["m"]["faces"] = [m["faces"][0][1:] + m["faces"][0][:1]] + m["faces"][1:]
        if c["m"].get("bounds", m["bounds"]) == [] or c["m"].get("faces", m["faces"]) == []:
            if c["m"]:
                c["m"] = {}
        out.append(c)
    return out


class C13(Check):
    id = "C13"
    driver = "ugrid_file"
    trace = "UGridFileTrace"
    rule = (
        "one file per line: every connectivity of TLC in every encoding that can be told apart (layout, base, start_index, "
        "flags, declared dimension), random files with all of them and coordinates, files with several meshes, files with "
        "conventional variable names or names mapped by the caller, and meshes (those of TLC, and random ones) saved and read back once or twice"
    )

    def models_for(self, tier):
        d = "" if tier == "quick" else "Deep"
        return (
            ("UGridFileGen", "UGridFileGen" + d, "file"),
            ("TopoGen", "TopoGen", "topo"),
            ("TopoGen", "TopoGenQuad", "topo"),
        )

    def scenarios(self, cases, rng, tier):
        q = tier == "quick"
        fc = cases["file"]
        if q and len(fc) > 1500:
            fc = rng.sample(fc, 1500)
        elif len(fc) > 12000:
            fc = rng.sample(fc, 12000)
        scns = [from_case(rng, c) for c in fc]
        for _ in range(700 if q else 6000):
            scns.append(random_file(rng))
        for _ in range(150 if q else 1000):
            scns.append(pick(rng))
        topo = cases["topo"]
        for c in rng.sample(topo, min(len(topo), 350 if q else 2500)):
            nodes, faces = renumber(rng, list(range(c["n"])), c["faces"])
            scns.append(trip(rng, c["n"], faces, "tlc"))
        for _ in range(150 if q else 1500):
            n = rng.randint(4, 14)
            w = rng.choice([3, 3, 4])
            nf = rng.randint(0, 8)
            if rng.random() < 0.03:
                n, nf = rng.choice([150, 300]), rng.choice([3, 140, 300])
            scns.append(trip(rng, n, [rotate(rng, rng.sample(range(n), w)) for _ in range(nf)], "random"))
        for _ in range(200 if q else 1500):
            scns.append(named(rng))
        for _ in range(200 if q else 1500):
            scns.append(mapped(rng))
        rng.shuffle(scns)
        return scns


CHECK = C13()
