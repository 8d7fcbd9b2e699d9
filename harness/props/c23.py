from vlib import Check

SCHEMES = [
    dict(n=["eta_psi", "xi_psi"], f=["eta_rho", "xi_rho"], edge1=["eta_u", "xi_u"], edge2=["eta_v", "xi_v"], ku="s_rho", kw="s_w"),
    dict(n=["MMAX", "NMAX"], f=["MMAXZ", "NMAXZ"], edge1=["MU", "NU"], edge2=["MV", "NV"], ku="KMAX", kw="KMAX1"),
    dict(n=["n1", "n2"], f=["c1", "c2"], edge1=["u1", "u2"], edge2=["v1", "v2"], ku="k1", kw="k2"),
    dict(n=["row", "col"], f=["row_c", "col_c"], edge1=["row_e1", "col_e1"], edge2=["row_e2", "col_e2"], ku="lev", kw="ilev"),
]
SUF = dict(node="psi", face="rho", edge1="u", edge2="v")
TRI = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (3, 4, 5), (-4, 3, 5), (5, -12, 13), (-8, -15, 17)]


def names(rng, loc, how):
    """[name, standard_name, description] of the x and the y coordinate"""
    s = SUF[loc]
    if how in ("attr", "none"):
        g = dict(node="node", face="center").get(loc, loc)
        return rng.choice(
            [
                [[f"{g}_lon", "", ""], [f"{g}_lat", "", ""]],
                [[f"lon_{s}", "", ""], [f"lat_{s}", "", ""]],
                [[f"XC{s}", "projection_x_coordinate", ""], [f"YC{s}", "", ""]],
                [[f"q1{s}", "", ""], [f"q2{s}", "", ""]],
                [[f"a_{s}", "latitude", ""], [f"b_{s}", "longitude", ""]],
            ]
        )
    if how == "loc":
        return rng.choice(
            [
                [[f"lon_{s}", "", ""], [f"lat_{s}", "", ""]],
                [[f"p_{s}", "longitude", ""], [f"q_{s}", "latitude", ""]],
                [[f"p_{s}", "", "Longitude of points"], [f"q_{s}", "", "latitude of points"]],
                [[f"GLON{s}", "", ""], [f"q_{s}", "Latitude", ""]],
            ]
        )
    if how == "std":
        return rng.choice(
            [
                [[f"p_{s}", "longitude", ""], [f"q_{s}", "latitude", ""]],
                [[f"p_{s}", "projection_x_coordinate", ""], [f"q_{s}", "projection_y_coordinate", ""]],
            ]
        )
    # by name
    g = dict(node="node", face="center").get(loc, loc)
    return rng.choice(
        [
            [[f"{g}_lon", "", ""], [f"{g}_lat", "", ""]],
            [[f"lon_{s}", "", ""], [f"lat_{s}", "", ""]],
            [[f"XC{s}", "", ""], [f"YC{s}", "", ""]],
            [[f"Lon_{s}", "", ""], [f"p_{s}", "latitude", ""]],
        ]
    )


def spell(v, loc, how, scn, rng):
    """the coordinates attribute a variable needs for its location's coordinates to be found through it"""
    v["coords"] = " ".join(x[0] for x in (scn["names"][loc] if rng.random() < 0.7 else scn["names"][loc][::-1]))
    v["locattr"] = loc


def file(rng, c, bad=""):
    dims = dict(rng.choice(SCHEMES))
    s = dict(kind="file", c=c, dims=dims, bad=bad, change=[rng.randrange(9), rng.randrange(9)], fmt=rng.choice(["NETCDF4", "NETCDF4", "NETCDF3_64BIT_OFFSET", "NETCDF4_CLASSIC"]))
    s["names"] = {
        loc: names(rng, loc, how)
        for loc, how in (("node", c["nodec"]), ("face", c["facec"]), ("edge1", c["edgec"]), ("edge2", c["edgec"]))
    }
    s.update(
        angle=rng.random() < 0.4,
        dt=rng.choice(["f8", "f8", "f8", "f4", "packed"]),
        xy=rng.random() < 0.7,
        first=rng.random() < 0.3,
        how=rng.choice(["path", "ds", "cls", "grid_s"]),
    )
    # variables over time and the nodes named like coordinates of nodes
    s["decoys"] = []
    if c["nodec"] in ("name", "std") and rng.random() < 0.5:
        by = c["nodec"] == "std"
        for w, long in (("lon", "longitude"), ("lat", "latitude")):
            if rng.random() < 0.6:
                s["decoys"].append([f"{w}_of_drifters", long if by or rng.random() < 0.3 else ""])
    ms = []
    for i in range(rng.choice([0, 1, 2, 4, 5])):
        loc = rng.choice(["node", "face", "face", "edge1", "edge2"])
        m = rng.randrange(3)
        ms.append(
            dict(
                loc=loc,
                name=[f"mask_{SUF[loc]}{i}", rng.choice([f"wet_mask{i}", "node_mask", "center_mask", "edge1_mask"]), f"flag{i}"][m],
                long=["", "mask on points", "the mask of cells"][m] if m else rng.choice(["", "wet"]),
            )
        )
    for m in ms:
        # a variable called mask on the same dimensions the other way around
        m["swap"] = rng.random() < 0.15
    for i, m in enumerate(ms):
        if any(x["name"] == m["name"] for x in ms[:i]):
            m["name"] = f"wet_mask{i}"
    s["masks"] = ms
    vs = []
    for i in range(rng.randint(1, 6)):
        loc = rng.choice(["node", "face", "edge1", "edge2"])
        lead = rng.choice([[], ["t"], ["t", "ku"], ["ku"], ["t", "kw"]])
        v = dict(name=f"dat{i}", loc=loc, lead=lead, grid=rng.random() < 0.75, locattr="", std="", vec="", axes=[], coords="")
        if rng.random() < 0.25:
            v["locattr"] = loc
        picky = (loc == "node" and c["nodec"] != "attr") or c["facec"] == "dims"
        if not picky and rng.random() < 0.5:
            w = rng.choice("xyz")
            v["std"], v["vec"] = rng.choice([(f"sea_water_{w}_velocity", w.upper()), ("sea_water_salinity", ""), (f"barotropic_{w}_flow", w.upper())])
        if rng.random() < 0.4:
            v["axes"] = [dims["f"][1], dims["n"][0], rng.choice(["", dims["ku"], dims["kw"]])]
        how = c["nodec"] if loc == "node" else c["facec"] if loc == "face" else c["edgec"]
        if how == "attr" and c["facec"] != "dims" and rng.random() < 0.4:
            v["coords"] = " ".join(x[0] for x in s["names"][loc])
        vs.append(v)

    def need(loc, coords):
        v = next((x for x in vs if x["loc"] == loc), None)
        if v is None:
            v = dict(name=f"loc_{loc}", loc=loc, lead=["t"], grid=True, locattr="", std="", vec="", axes=[], coords="")
            vs.append(v)
        v["locattr"] = loc
        if coords:
            spell(v, loc, "loc", s, rng)

    if c["facec"] in ("loc", "dims"):
        need("face", c["facec"] == "loc")
    if c["edgec"] == "loc":
        need("edge1", True)
        need("edge2", True)
    # a location without coordinates: nothing may lead to some
    for v in vs:
        if (v["loc"] == "face" and c["facec"] == "none") or (v["loc"].startswith("edge") and c["edgec"] == "none"):
            v["locattr"] = ""
            if rng.random() < 0.3:
                # half of a pair of coordinates is none
                v["locattr"], v["coords"] = v["loc"], s["names"]["node"][rng.randrange(2)][0]
    s["vars"] = vs
    return s


def index(rng):
    n = rng.choice([7, 30, 2500])
    ops = []
    keys = []
    for _ in range(rng.randint(2, 9)):
        k = rng.choice(["slice", "array", "list", "int"])
        if n > 1000 and rng.random() < 0.7:
            k = "array"
        a = rng.randrange(n)
        op = dict(k=k, a=a, b=rng.randint(a, min(n, a + 30)), s=rng.choice([1, 1, 2]), idx=[0], mut=rng.random() < 0.4)
        if k in ("array", "list"):
            if n > 1000 and k == "array":
                base = list(range(1200))
                base[600] = 2000 + rng.randrange(100)
                op["idx"] = sorted(base)
                op["idx"] = op["idx"][:600] + [rng.randrange(1100)] + op["idx"][601:]
                op["idx"] = sorted(set(op["idx"]))
            else:
                op["idx"] = sorted(rng.sample(range(n), rng.randint(1, min(n, 6))))
        if keys and rng.random() < 0.35:
            op = dict(rng.choice(keys), mut=op["mut"])
        keys.append(op)
        ops.append(op)
    return dict(kind="index", n=n, src=rng.choice(["nc", "nc", "np"]) if not any(o["mut"] for o in ops) else "nc", ops=ops)


WORDS = ["xi_rho", "eta_psi", "MMAX1", "n2", "west_east_stag", "A", "K", "x", "lev_2"]


def parse(rng):
    w = rng.choice(["padding", "axes", "vec", "rotate"])
    s = dict(kind="parse", what=w)
    if w == "padding":
        parts, want = [], []
        for _ in range(rng.randint(1, 4)):
            a, b = rng.choice(WORDS), rng.choice(WORDS)
            p = rng.choice(["none", "low", "high", "both"])
            r = rng.random()
            if r < 0.65:
                parts.append(f"{a}: {b} (padding: {p})")
                want.append(["top", a, b, p])
            elif r < 0.85:
                parts.append(f"{a}: {b}")
            else:
                parts.append(a)
        s.update(text=" ".join(parts), want=want)
    elif w == "axes":
        d = {k: rng.choice(WORDS) for k in "XYZ" if rng.random() < 0.75}
        ks = list(d)
        rng.shuffle(ks)
        s.update(text=" ".join(f"{k if rng.random() < 0.8 else k.lower()}: {d[k]}" for k in ks), want=[d.get(k, "") for k in "XYZ"])
    elif w == "vec":
        k = rng.choice(["x", "y", "z", ""])
        t = rng.choice(["sea_water_{}_velocity", "barotropic_sea_water_{}_velocity", "a_{}_b", "wind_{}_stress_at_top"])
        s.update(text=t.format(k) if k else rng.choice(["sea_water_salinity", "x_velocity", "eastward_wind", "depth_y", ""]), want=k.upper())
    else:
        m = rng.randint(1, 5)
        s.update(
            xy=[[rng.randint(-40, 40), rng.randint(-40, 40)] for _ in range(m)],
            m=[rng.random() < 0.2 for _ in range(m)],
            tri=list(rng.choice(TRI)),
        )
    return s


class C23(Check):
    id = "C23"
    driver = "sgrid_file"
    trace = "SGridFileTrace"
    rule = (
        "every padding of faces and edges, order and style of the declared dimensions and way of finding the coordinates (from "
        "TLC), with random names, masks and variables on all locations; each grid is read, saved and read back; files without "
        "a usable topology; random texts; histories of indexing a variable; non-trivial = a file with variables on edges"
    )

    def models_for(self, tier):
        d = "" if tier == "quick" else "Deep"
        return (("SGridFileGen", "SGridFileGen" + d, "file"),)

    def scenarios(self, cases, rng, tier):
        q = tier == "quick"
        cs = cases["file"]
        scns = [file(rng, c) for c in rng.sample(cs, min(len(cs), 900 if q else 12000))]
        for _ in range(40 if q else 400):
            scns.append(file(rng, rng.choice(cs), rng.choice(["none", "two", "dim3", "nodim", "padding"])))
        scns += [index(rng) for _ in range(60 if q else 600)]
        scns += [parse(rng) for _ in range(300 if q else 4000)]
        rng.shuffle(scns)
        return scns

    def nontrivial(self, line):
        return any(v["loc"].startswith("edge") for v in line.get("vars", []))


CHECK = C23()
