from vlib import Check

CF = dict(
    depth_levels=["depth"],
    Cs_r=["S-coordinate stretching curves at RHO-points"],
    Cs_w=["S-coordinate stretching curves at W-points"],
    s_rho=["S-coordinate at RHO-points"],
    s_w=["S-coordinate at W-points"],
    hc=["S-coordinate parameter, critical depth"],
    rcf_h=["bathymetry at RHO-points", "Final bathymetry at RHO-points"],
    fcf_h=["sea_floor_depth_below_geoid"],
    rcf_z=["free-surface"],
    fcf_z=["sea_surface_height_above_geoid"],
    sig=["ocean_sigma/general_coordinate"],
)
RT = ("Cs_r", "Cs_w", "s_rho", "s_w", "hc")
FT = ("siglay", "siglev")


class Maker:
    """variables of files, each with values of its own"""

    def __init__(self, rng, grid, n, nt, k):
        self.rng, self.grid, self.n, self.nt, self.k = rng, grid, n, nt, k
        self.base = 0
        self.locs = {}

    def shape(self, role):
        rng = self.rng
        if role in ("h", "zeta", "temp"):
            if self.grid == "u":
                d, s = ["node"], [6]
            else:
                # on the centers or on the nodes
                c = self.locs.setdefault(role, self.grid == "s" and rng.random() < 0.6) if role != "temp" else False
                d = ["eta_rho", "xi_rho"] if c else ["eta_psi", "xi_psi"]
                s = [x + (1 if c else 0) for x in self.n]
            if role == "zeta":
                return ["@time"] + d, [self.nt] + s
            if role == "temp":
                return ["@time", "levels"] + d, [self.nt, 3] + s
            return d, s
        if role == "hc":
            return [], []
        if role in ("siglay", "siglev"):
            return [role, "node"], [self.k + (role == "siglev"), 6]
        if role == "levels":
            k = rng.randint(1, 5)
            return [f"depth{k}"], [k]
        k = self.k + (role in ("Cs_w", "s_w"))
        return ["s_rho" if k == self.k else "s_w"], [k]

    def var(self, role, name, long="", std=""):
        rng = self.rng
        d, s = self.shape(role)
        m = 1
        for x in s:
            m *= x
        self.base += rng.randint(1, 3)
        if role == "levels":
            v, x = [], self.base
            for _ in range(m):
                v.append(x)
                x += rng.randint(1, 9)
            if rng.random() < 0.5:
                v.reverse()
        elif role in ("s_w", "s_rho", "Cs_r", "Cs_w", "siglay", "siglev"):
            w = m // s[0]
            up = rng.random() < 0.5
            v = [(-5 * (j if up else s[0] - 1 - j) - self.base % 5 * (role[:2] == "Cs") - self.base // 5) * 1 for j in range(s[0]) for _ in range(w)]
            if role[:3] == "sig":
                # every node has levels of its own
                v = [x * (1 + i % 6) for i, x in enumerate(v)]
            v = [x - self.base for x in v]
        else:
            a = rng.choice([1, 3, 7])
            v = [self.base + a * i + (i * i) % 5 for i in range(m)]
        return dict(name=name, long=long, std=std, dims=d, shape=s, vals=v, dt=rng.choice(["f8", "f8", "f8", "i4", "f4"]))


def common(rng, grid):
    return dict(
        grid=grid,
        n=rng.choice([[3, 4], [4, 3], [4, 5], [3, 3]]),
        fmt=rng.choice(["NETCDF4", "NETCDF4", "NETCDF3_64BIT_OFFSET", "NETCDF4_CLASSIC"]),
        time=rng.choice(["time", "ocean_time"]),
        entry=rng.choice(["filename", "dataset", "files", "both"]),
        two=rng.random() < 0.5,
    )


def settime(s, vs):
    for v in vs:
        v["dims"] = [s["time"] if d == "@time" else d for d in v["dims"]]


def depth(rng, c):
    R = c["r"] == "all" and c["h"] in ("name", "rcf")
    F = c["f"] == "all" and c["h"] in ("name", "fcf")
    grid = "u" if F and not R else rng.choice(["s", "s", "r"]) if not F else rng.choice(["u", "s", "r"])
    s = common(rng, grid)
    nt = rng.choice([1, 2, 3])
    m = Maker(rng, grid, s["n"], nt, rng.choice([1, 2, 3]))
    vs = []
    if c["l"] == "name":
        alts = sorted(rng.sample(["depth", "depth_levels", "Depth"], rng.choice([1, 1, 2, 3])))
        vs += [m.var("levels", a) for a in alts]
    elif c["l"] == "cf":
        long = rng.random() < 0.5
        vs.append(m.var("levels", "z", "depth" if long else "", "" if long else "depth"))
    if c["r"] != "no":
        for i, k in enumerate(RT):
            if c["r"] == k:
                vs.append(m.var(k, k.upper() + "x"))
            elif c["rstyle"] == "name" or c["rstyle"] == "mixed" and i % 2:
                vs.append(m.var(k, k, rng.choice(["", CF[k][0]])))
            else:
                st = rng.random() < 0.3
                vs.append(m.var(k, "x_" + k, "" if st else CF[k][0], CF[k][0] if st else ""))
    if c["f"] != "no":
        # as in real files: levels and layers share their standard name
        for k in FT:
            if c["f"] == k:
                vs.append(m.var(k, k.upper()))
            else:
                vs.append(m.var(k, k, "", rng.choice(CF["sig"] + [""]) if c["f"] == "all" else ""))
        if c["f"] == "all":
            for k in FT:
                if rng.random() < 0.4:
                    vs.append(m.var(k, k + "_center", "", CF["sig"][0]))
    for role, pat in (("h", c["h"]), ("zeta", c["z"])):
        if pat == "name":
            cf = CF["rcf_" + role[0]] + CF["fcf_" + role[0]] + [""]
            vs.append(m.var(role, role, rng.choice(cf), rng.choice(cf)))
            if rng.random() < 0.3:
                vs.append(m.var(role, role + "_center", "", rng.choice(cf)))
        elif pat != "no":
            q = rng.choice(CF[pat + "_" + role[0]])
            st = (pat == "fcf") != (rng.random() < 0.2)
            vs.append(m.var(role, "x_" + role, "" if st else q, q if st else ""))
            if q.startswith("Final") and rng.random() < 0.5:
                vs.append(m.var(role, "y_" + role, CF["rcf_h"][0]))
    for n in ("H", "Zeta", "cs_r", "S_w", "sigLay"):
        if rng.random() < 0.1 and n not in [v["name"] for v in vs]:
            vs.append(m.var(dict(H="h", Zeta="zeta", cs_r="Cs_r", S_w="s_w", sigLay="siglay")[n], n, "something else"))
    s["dt"] = [rng.randint(0, 3) + 5 * i for i in range(nt)]
    s["gt"] = [rng.randint(0, 3) + 7 * i for i in range(nt)]
    s.update(kind="depth", via="Depth", t="", si=rng.choice([-1, -1, 0, 2]), terms=[], given=[], timearg=[], passgrid=rng.random() < 0.4)
    full = [t for t, b in (("L", c["l"] != "no"), ("R", R), ("F", F)) if b]
    q = rng.random()
    if full and q < 0.3:
        s["via"], s["t"] = "class", rng.choice(full)
        if s["t"] == "F":
            m.grid = s["grid"] = "u"
        elif s["t"] == "R" and s["grid"] == "u":
            s["grid"] = "s"
        if (s["t"] == "F") != (grid == "u"):
            # everything again, in shapes that fit
            return depth(rng, c)
    elif q < 0.55:
        s["via"] = "var"
        s["gt"] = s["dt"]
    if rng.random() < 0.15 and s["via"] == "Depth":
        s["timearg"] = [h + 100 for h in s["dt"]]
    if s["via"] != "Depth":
        s["si"] = -1
    rng.shuffle(vs)
    ds, dg = vs, []
    if s["two"]:
        how = rng.choice(["data", "grid", "split"])
        ds, dg = [], []
        for v in vs:
            w = how if how != "split" else rng.choice(["data", "grid", "both"])
            if w != "grid":
                ds.append(v)
            if w != "data":
                x = dict(v)
                if w == "both":
                    # the data file hides it
                    x["vals"] = [y + 50 for y in v["vals"]]
                dg.append(x)
    def place(v):
        w = rng.choice(["data", "grid", "both"]) if s["two"] else "data"
        if w != "grid":
            ds.append(v)
        if w != "data":
            # where both have it the data file hides it
            dg.append(dict(v, vals=[y + 50 for y in v["vals"]]) if w == "both" else v)

    if s["t"] in ("R", "F") and rng.random() < 0.5:
        k = rng.sample(RT if s["t"] == "R" else FT, rng.choice([1, 1, 2]))
        for t in k:
            v = m.var(t, "alt_" + t)
            how = rng.choice(["name", "array"])
            s["terms"].append(dict(term=t, how=how, label=v["name"], vals=v["vals"], shape=v["shape"]))
            if how == "name":
                place(v)
        if rng.random() < 0.4:
            v = m.var("h", "alt_h")
            s["terms"].append(dict(term="bathymetry", how="name", label="alt_h", vals=[], shape=[]))
            place(v)
        if rng.random() < 0.3:
            v = m.var("zeta", "alt_zeta")
            s["terms"].append(dict(term="zeta", how="name", label="alt_zeta", vals=[], shape=[]))
            place(v)
    if s["t"] in ("R", "F") and rng.random() < 0.35:
        # variables of one's own, on the nodes
        for role, term in rng.choice([(("h", "bathymetry"),), (("zeta", "zeta"),), (("h", "bathymetry"), ("zeta", "zeta"))]):
            k = rng.choice([1, 1, 2, 3])
            n = [6] if s["grid"] == "u" else s["n"]
            sh = n if role == "h" else [k] + n
            z = 1
            for x in sh:
                z *= x
            a = rng.randint(1, 9)
            s["given"].append(dict(term=term, shape=sh, vals=[a + 3 * i + i * i % 4 for i in range(z)], times=[900 + 3 * i for i in range(k)] if role == "zeta" else []))
    if s["via"] == "var":
        ds.append(m.var("temp", "temp"))
    settime(s, ds + dg)
    s["ds"], s["dg"] = ds, dg
    return s


POOL = ["U", "V", "u", "v", "water_u", "water_v", "wind", "temp"]
TEXT = ["eastward_sea_water_velocity", "northward_sea_water_velocity", "water temperature", "wind speed", "temp"]


def names(rng):
    s = common(rng, rng.choice(["s", "r", "r", "u"]))
    m = Maker(rng, s["grid"], s["n"], 2, 1)
    vs = []
    for n in rng.sample(POOL, rng.randint(1, 6)):
        m.locs["zeta"] = False
        v = m.var("zeta", n, rng.choice(TEXT + [""] * 3), rng.choice(TEXT + [""] * 3))
        vs.append(v)
    settime(s, vs)
    vector = rng.random() < 0.55
    s.update(kind="names", vars=vs, vector=vector)

    def comp(name, hit):
        while True:
            c = dict(comp=name, names=rng.sample(POOL, rng.choice([0, 1, 2, 3])), cf=rng.sample(TEXT, rng.choice([0, 1, 2, 3])), bare=rng.random() < 0.3)
            h = any(v["name"] in c["names"] or v["long"] in c["cf"] or v["std"] in c["cf"] for v in vs)
            if h == hit:
                return c

    hit = rng.random() < 0.85
    s["comps"] = [comp(x, hit) for x in (["a", "b", "cc"][: rng.choice([2, 2, 3])] if vector else ["a"])]
    return s


class C20(Check):
    id = "C20"
    driver = "depth_file"
    trace = "DepthFileTrace"
    models = (("DepthFileGen", "DepthFileGen", "depth"),)
    rule = (
        "every pattern of whole and partial depth systems (from TLC) in one or two files with random shapes, locations, decoys and "
        "entry points; random files searched for variables by name; non-trivial = a depth system or a variable was found"
    )

    def scenarios(self, cases, rng, tier):
        k = 1 if tier == "quick" else 10
        scns = [depth(rng, c) for c in cases["depth"] for _ in range(k)]
        one = [c for c in cases["depth"] if (c["l"] != "no") + (c["r"] == "all" and c["h"] in ("name", "rcf")) + (c["f"] == "all" and c["h"] in ("name", "fcf")) == 1]
        scns += [depth(rng, rng.choice(one)) for _ in range(500 * k)]
        scns += [names(rng) for _ in range(500 * k)]
        rng.shuffle(scns)
        return scns

    def nontrivial(self, line):
        return line.get("out") == "ok"


CHECK = C20()
