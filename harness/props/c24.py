from fractions import Fraction as F

from vlib import Check

from props.common_depth import bc_pair, fields, points, q

NONE = -1000000
UNITS = {"seconds": 1, "minutes": 60, "hours": 3600, "days": 86400}
LEVELS = [[0, 1, 3], [0, 2, 7, 9], [0, 5], [7, 4, 0], [0, 1, 2, 3, 4], [0]]


def vertical(rng, c, nt):
    # (one level and no time: whether the one is a level or a time cannot be told)
    k = c["dk"]
    if k == "none":
        return dict(kind="none"), 1
    if k == "surf":
        return dict(kind="surf", si=-1), rng.randint(1 if nt else 2, 4)
    if k == "L":
        lv = rng.choice([x for x in LEVELS if len(x) > (1 if c["lay"] else 0) + (0 if nt else 1)])
        return dict(kind="L", levels=[q(x) for x in lv]), len(lv) - (1 if c["lay"] else 0)
    z = [[rng.choice([0, 1, 2]), rng.choice([0, 0, 2]), 0] for _ in range(nt)]
    h = [rng.choice([12, 14, 16]), rng.choice([-2, 0, 2]), 0]
    noz = rng.random() < 0.25
    if noz:
        z = [[0, 0, 0]]
    if k == "roms":
        s = rng.choice([[F(0), F(-1, 2), F(-1)], [F(-1), F(-1, 2), F(0)], [F(-1), F(-1, 4), F(0)]])
        cs = [x * F(1, 2) if x not in (0, -1) else x for x in s]
        d = dict(kind="roms", s=[q(x) for x in s], cs=[q(x) for x in cs], hc=4, vt=2)
        mid = [(a + b) / 2 for a, b in zip(s, s[1:])]
        cm = [(a + b) / 2 for a, b in zip(cs, cs[1:])]
        d.update(sr=[q(x) for x in mid], csr=[q(x) for x in cm])
    else:
        s = rng.choice([[0, -4, -8], [-8, -4, 0], [0, -2, -8]])
        d = dict(kind="fvcom", sig=[[x, 0, 0] for x in s], sigr=[[(a + b) // 2, 0, 0] for a, b in zip(s, s[1:])])
    d.update(h=h, zeta=z, zt=[])
    if noz:
        d["noz"] = 1
    return d, len(s) - (1 if c["lay"] else 0)


def axis(rng, n):
    t = [rng.choice([0, 3600, -86400, 7200])]
    for _ in range(n - 1):
        t.append(t[-1] + rng.choice([3600, 7200, 10800, 86400]))
    return t


def parts(rng, ts, cut):
    out, i = [], 0
    for m in cut:
        ref = rng.choice([0, 3600, -86400, 86400, ts[i], ts[i] - 3600])
        u = rng.choice(list(UNITS))
        out.append(dict(ref=ref, unit=u, vals=[q(F(t - ref, UNITS[u])) for t in ts[i : i + m]]))
        i += m
    return out


def scenario(rng, c):
    n = sum(c["cut"])
    ts = axis(rng, n) if n else []
    d, nl = vertical(rng, c, n)
    even = d["kind"] in ("roms", "fvcom")
    how = c["how"]
    direct = not how.startswith("all") and how != "init"
    nc = rng.choice([1, 1, 2, 3]) if direct else 1
    many = len(c["cut"]) > 1
    where = "node" if c["loc"] == "node" else dict(S="center", U="face")[c["grid"]]
    u0 = rng.choice(["m", "mm", "m/s", "degC", ""])
    atts = []
    # twelve nodes and twelve faces: the place has to be said
    say = c["grid"] == "U" and c["loc"] == "center"
    for i in range(nc):
        a = {}
        u = u0 if rng.random() < 0.8 else rng.choice(["km", "kk", "s"])
        if u:
            a["units"] = u
        if say or rng.random() < 0.3:
            a["location"] = where
        if rng.random() < 0.5:
            a["long_name"] = rng.choice(["a field", "speed of something"])
        if rng.random() < 0.3:
            a["standard_name"] = "sea_water_x_velocity"
        atts.append(a)
    find = rng.choice(["no", "no", "default", "std", "long"]) if direct else "no"
    for i, a in enumerate(atts):
        if find in ("std", "long"):
            a[dict(std="standard_name", long="long_name")[find]] = f"name of {'uvw'[i]}"
    tname = rng.choice(["time", "time", "ocean_time", "tm"])
    if tname == "tm":
        for a in atts:
            a["time"] = "tm"
    give = dict(name="", units="", loc="")
    if direct:
        if rng.random() < 0.4:
            give["name"] = rng.choice(["current", "q"])
        if rng.random() < 0.3:
            give["units"] = rng.choice(["m", "mm", "knots", "zz"])
        if rng.random() < 0.2:
            give["loc"] = where
    s = dict(
        src="tlc",
        kind=c["grid"],
        loc=c["loc"],
        how=how,
        d=d,
        fs=[dict(f, holes=[]) for f in fields(rng, nc, ts, nl, even)],
        parts=parts(rng, ts, c["cut"]),
        tname=tname,
        zdim=rng.choice(["level", "lev", "z"]) if d["kind"] in ("L", "surf") else "",
        dn=rng.randrange(3),
        din=rng.random() < 0.4,
        style=rng.randrange(2),
        fmt=rng.choice(["NETCDF4_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_CLASSIC"] + ([] if many else ["NETCDF4"] * 3)),
        dt=rng.choice(["f8", "f8", "f4", "packed", "be", "le"]),
        atts=atts,
        give=give,
        load=rng.random() < 0.3,
        find=find,
        extra={},
        topo=c["topo"],
        dgiven=direct and d["kind"] in ("L", "surf") and rng.random() < 0.2,
        bc=False,
        tz=NONE,
        origin=NONE,
        disp=NONE,
        given=[],
        fill=rng.choice([0, -99]) if nc == 1 else 0,
        sbc="extrapolate",
        bbc="mask",
        perm=rng.sample(range(10), max(1, len(c["cut"]))),
    )
    if d["kind"] == "L":
        s["zdim"] = "level" if not c["lay"] else "layer"
    elif even:
        s["zdim"] = dict(roms="s_rho" if c["lay"] else "s_w", fvcom="siglay" if c["lay"] else "siglev")[d["kind"]]
    elif d["kind"] == "surf":
        s["zdim"] = rng.choice(["lev", "z"])
    if find != "no" and rng.random() < 0.5:
        s["extra"] = {rng.choice(["standard_name", "long_name"]): "name of the extra", "units": "zz"}
    if direct and d["kind"] in ("L", "roms", "fvcom") and rng.random() < 0.4:
        s["sbc"], s["bbc"] = bc_pair(rng)
        s["bc"] = True
    if n and direct and rng.random() < 0.3:
        s["tz"] = rng.choice([0, 3600 * 3, -19800, 3600 * 14])
    if n and direct:
        r = rng.random()
        if r < 0.15:
            s["disp"] = rng.choice([3600, -7200, 86400 * 30])
        elif r < 0.25:
            s["origin"] = rng.choice([0, 86400, 1800])
            if rng.random() < 0.3:
                s["disp"] = 3600
        elif r < 0.35:
            s["given"] = [t * 2 + 1800 for t in ts]
    now = s["given"] or [t + (0 if s["disp"] == NONE else s["disp"]) + (0 if s["origin"] == NONE else s["origin"] - ts[0]) for t in ts]
    for f in s["fs"]:
        del f["times"]
    pd = d if d["kind"] != "none" else dict(kind="surf")
    ops = []
    for _ in range(rng.randint(2, 5)):
        form = rng.choice(["arr", "arr", "list", "single", "two", "lonlat"])
        m = rng.choice([1, 2, 4, 6])
        pts = points(rng, pd, m, c["loc"] == "center", offgrid=False)
        if now:
            t = rng.choice(now + [(a + b) // 2 for a, b in zip(now, now[1:])] + [now[0] - 900, now[-1] + 900])
        else:
            t = rng.choice([0, 900, -86400 * 365])
        ops.append(dict(pts=pts, form=form, t=t, nt=not now and not even and rng.random() < 0.3, ex=rng.random() < 0.4, um=rng.random() < 0.3))
    if ops and rng.random() < 0.4:
        ops.append(dict(ops[0]))
    s["ops"] = ops
    return s


class C24(Check):
    id = "C24"
    driver = "load"
    trace = "LoadTrace"
    rule = (
        "every grid, place on it, split of the times over files, vertical and way of naming or opening the files (from TLC), "
        "with random times, units and reference times per file, formats, types, packing and attributes, scalars and vectors; "
        "histories of queries at, between and outside of the recorded times and levels; non-trivial = value queries"
    )

    def models_for(self, tier):
        return (("LoadGen", None, "c"),)

    def scenarios(self, cases, rng, tier):
        cs = cases["c"]
        quick = tier == "quick"
        scns = [scenario(rng, c) for c in rng.sample(cs, min(len(cs), 900))] if quick else []
        if not quick:
            for _ in range(6):
                scns += [scenario(rng, c) for c in cs]
        rng.shuffle(scns)
        return scns

    def nontrivial(self, line):
        return line["ev"] == "at"


CHECK = C24()
