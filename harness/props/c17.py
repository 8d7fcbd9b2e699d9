from vlib import Check

WORDS = dict(
    water=["water", "Water", "WATER", "sea_water", "open-water", "waterbody"],
    lake=["lake", "Lake", "great_lakes", "LAKE"],
    river=["river", "River", "rivers", "RIVER"],
    land=["land", "Land", "LAND", "dry"],
    other=["ice", "island", "shore", "unknown", "dam"],
)


def mask(rng, c, shape, missing=True):
    """how a file says it, with values for every place"""
    fmt4 = rng.random() < 0.5
    m = dict(style=c["style"], flags=[dict(f) for f in c["flags"]])
    m["text"] = [rng.choice(WORDS[f["kind"]]) for f in m["flags"]]
    m["dtype"] = rng.choice(["i1", "i2", "i4", "f4", "f8", "f8"])
    m["flagdtype"] = rng.choice(["i1", "i4", "f4", "f8", m["dtype"], "str"])
    m["aslist"] = fmt4 and rng.random() < 0.3 and len(m["flags"]) > 1
    m["extra"] = rng.random() < 0.3
    m["fill"] = None
    pool = [f["v"] for f in m["flags"]] or [0, 1]
    w = pool * 4 + [0, 1] + ([2, 5] if c["style"] != "plain" or rng.random() < 0.3 else [])
    if missing and c["style"] != "plain" and rng.random() < 0.4:
        w.append(-99)
        m["fill"] = rng.choice([9, 77, -5])
        if rng.random() < 0.4:
            # what is stored where there is nothing is one of the very values
            m["fill"] = rng.choice(pool)
        m["miss"] = rng.choice(["fill", "fill", "missing_value"])
    m["vals"] = [[rng.choice(w) for _ in range(shape[1])] for _ in range(shape[0])]
    m["vals"] = [[-99 if x == m["fill"] else x for x in r] for r in m["vals"]]
    return m, fmt4


def convert(rng, c):
    m, f4 = mask(rng, c, rng.choice([[3, 4], [2, 2], [1, 5], [4, 3]]))
    how = "var"
    if c["style"] == "plain":
        how = rng.choice(["var", "array", "bool"])
    if rng.random() < 0.15:
        # one-dimensional, as on a mesh
        m["vals"] = m["vals"][0]
    return dict(kind="convert", m=m, fmt="NETCDF4" if m["aslist"] else rng.choice(["NETCDF4", "NETCDF3_64BIT_OFFSET"]), how=how, src="tlc")


def cells(rng, say, nodes):
    """a grid with masks"""
    pad = rng.choice([0, 1, 1])
    n = rng.choice([[3, 4], [4, 3], [3, 3], [4, 5]])
    if nodes:
        n = [3, 3]
    s = dict(kind="cells", n=n, pad=pad, center=None, node=None, use=rng.random() < 0.85, src="tlc")
    f4 = True
    which = "node" if nodes else rng.choice(["center", "center", "both", "node"])
    if which != "node":
        s["center"], _ = mask(rng, rng.choice(say), [n[0] - 1 + 2 * pad, n[1] - 1 + 2 * pad])
    if which != "center":
        c = rng.choice(say)
        s["node"], _ = mask(rng, c, n)
        if nodes:
            # the very mask: values that mean land or water
            x = s["node"]
            x["fill"], x["miss"] = None, "fill"
            if c["style"] == "flags":
                wet = [f["v"] for f in c["flags"] if f["kind"] in ("water", "lake", "river")]
                dry = [f["v"] for f in c["flags"] if f["v"] not in wet] + [7]
            else:
                wet, dry = ([1], [0, 3]) if c["style"] == "options" else ([0], [1])
            if wet:
                x["vals"] = [[rng.choice(dry if b else wet) for b in row] for row in nodes["m"]]
            elif all(all(r) for r in nodes["m"]):
                x["vals"] = [[rng.choice(dry) for _ in r] for r in nodes["m"]]
    s["fmt"] = "NETCDF4"
    s["entry"] = rng.choice(["file", "dataset", "vars"])
    return s


def asks(rng, say, hist):
    """points located again and again, with and without the masks"""
    s = cells(rng, say, None)
    s["kind"] = "asks"
    ny, nx = s["n"][0] - 1, s["n"][1] - 1
    every = [[j, i] for j in range(ny) for i in range(nx)] + [[-1, -1]]
    a = rng.sample(every, len(every))
    s["pts"] = [a, rng.choice([a[::-1], a[:3], rng.sample(every, 4)])]
    s["ops"] = []
    for h in hist:
        o = dict(h)
        if h["op"] == "build":
            o["kw"] = rng.random() < 0.5
        else:
            o.update(index=rng.random() < 0.3, single=not h["memo"] and rng.random() < 0.2, copy=rng.random() < 0.3)
        s["ops"].append(o)
    return s


class C17(Check):
    id = "C17"
    driver = "masks"
    trace = "MasksTrace"

    def models_for(self, tier):
        return (("MasksGen", "MasksGen", "masks"), ("LandHist", "LandHist" if tier == "quick" else "LandHistDeep", "hist"))

    rule = (
        "every set of up to three flags, options and plain masks (from TLC) with random values, words, types and missing values; "
        "grids with every mask of nine nodes and random masks of centers; histories from TLC of points located with and without "
        "the masks, memoized, and of trees built anew; non-trivial = something is water"
    )

    def scenarios(self, cases, rng, tier):
        k = 1 if tier == "quick" else 12
        say = [c for c in cases["masks"] if c["what"] == "say"]
        nodes = [c for c in cases["masks"] if c["what"] == "nodes"]
        scns = [convert(rng, c) for c in say for _ in range(k)]
        scns += [convert(rng, c) for c in say if c["style"] != "flags" for _ in range(40 * k)]
        scns += [cells(rng, say, c) for c in nodes for _ in range(k)]
        scns += [cells(rng, say, None) for _ in range(700 * k)]
        hs = cases["hist"]
        short = {str(h[:i]) for h in hs for i in range(1, len(h))}
        hs = [h for h in hs if str(h) not in short]
        scns += [asks(rng, say, h) for h in (hs if len(hs) < 400 * k else rng.sample(hs, 400 * k))]
        for _ in range(100 * k):
            h = []
            for _ in range(rng.choice([6, 12])):
                if rng.random() < 0.2:
                    h.append(dict(op="build", **{"with": rng.random() < 0.5}))
                else:
                    h.append(dict(op="ask", q=rng.choice([1, 2]), u=rng.choice(["default", "with", "without"]), memo=rng.random() < 0.5))
            scns.append(dict(asks(rng, say, h), src="random"))
        rng.shuffle(scns)
        return scns

    def nontrivial(self, line):
        return line.get("out") == "ok" and (False in line["got"] if line["ev"] == "convert" else any(x != [-1, -1] for x in line["found"]))


CHECK = C17()
