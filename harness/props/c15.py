from vlib import Check

SIZES = dict(node="nodes", face="faces", edge="edges", boundary="bounds")
GLOBALS = ["title", "Conventions", "history", "count", "institution"]
KEYS = ["standard_name", "long_name", "comment", "grade", "levels", "k"]
VALS = ["s:a", "s:sea water", "i:3", "i:-1", "f:0.1", "f:1e-30", "a:i:1,i:2,i:3", "a:i:3,i:3", "s:sal\u00e9", "s:two\nlines"]
NAMES = ["p", "q", "temp", "Salt", "v_1", "depth", "u10"]


def mesh(rng):
    n = rng.randint(4, 7)
    w = rng.choice([3, 3, 4])
    nf = rng.choice([1, 2, 3, 3, 4, 5])
    if rng.random() < 0.015:
        n, nf = rng.choice([140, 300]), rng.choice([2, 130, 300])
    k = [2 * n]

    def coords(m):
        c = [[k[0] + 2 * i, k[0] + 2 * i + 1] for i in range(m)]
        k[0] += 2 * m
        return c

    m = dict(nodes=[[2 * i, 2 * i + 1] for i in range(n)], edges=[], bounds=[], ff=[], fe=[], fc=[], ec=[], bc=[])
    m["faces"] = [rng.sample(range(n), w) for _ in range(nf)]
    if rng.random() < 0.7:
        m["edges"] = [rng.sample(range(n), 2) for _ in range(rng.randint(1, 8))]
        if rng.random() < 0.5:
            m["ec"] = coords(len(m["edges"]))
    if rng.random() < 0.7:
        m["bounds"] = [rng.sample(range(n), 2) for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.5:
            m["bc"] = coords(len(m["bounds"]))
    if rng.random() < 0.5:
        m["fc"] = coords(nf)
    if rng.random() < 0.3:
        m["ff"] = [[rng.randint(-1, nf - 1) for _ in range(w)] for _ in range(nf)]
    m["name"] = rng.choice(["mesh", "Mesh2", "m"])
    return m


def word(rng):
    return rng.choice(VALS)


def attrs(rng, keys, longname=True):
    out = []
    for k in rng.sample(keys, rng.choice([0, 0, 1, 2, 3])):
        if k == "long_name":
            out.append([k, "s:" + rng.choice(["sea temperature", "p", "x"])])
        elif k == "standard_name":
            out.append([k, "s:" + rng.choice(["sea_water_temperature", "sea_water_salinity"])])
        else:
            out.append([k, word(rng)])
    return sorted(out)


def values(rng, n, dt, masked=True):
    ids = [rng.randrange(16) for _ in range(n)]
    if masked and rng.random() < 0.3:
        ids = [-998 if rng.random() < 0.4 else i for i in ids]
    return ids


def variable(rng, m, name):
    loc = rng.choice([x for x, y in SIZES.items() if m[y]])
    dt = rng.choice(["f8", "f8", "f4", "i4", "i8", "i2"])
    return dict(
        name=name,
        label="s:" + name,
        loc=loc,
        units=rng.choice(["", "m", "m/s", "degrees_C"]),
        dt=dt,
        data=values(rng, len(m[SIZES[loc]]), dt),
        attrs=attrs(rng, KEYS),
        inattrs=rng.random() < 0.4,
    )


def foreign(rng, m, name):
    v = variable(rng, m, name)
    v.pop("inattrs")
    v["packed"] = None
    at = dict(v["attrs"])
    if rng.random() < 0.4:
        v["packed"] = rng.choice([[0.5, 10.0], [0.25, 0.0], [2.0, -3.0]])
        v["dt"] = "f8"
        at["scale_factor"] = f"f:{v['packed'][0]!r}"
        at["add_offset"] = f"f:{v['packed'][1]!r}"
        at["_FillValue"] = "i:-32767"
        v["data"] = values(rng, len(v["data"]), "i2")
    elif rng.random() < 0.5:
        zero = rng.random() < 0.3
        at["_FillValue"] = ("f:0.0" if zero else "f:-9999.0") if v["dt"][0] == "f" else "i:0" if zero else "i:-9999"
        v["data"] = [1 if zero and x == 0 else x for x in values(rng, len(v["data"]), v["dt"])]
    else:
        v["data"] = [abs(x) % 16 for x in v["data"]]
    v["attrs"] = sorted([k, x] for k, x in at.items())
    return v


class Builder:
    """fills the operations of a history in; follows which grid and variables each slot has"""

    def __init__(self, rng):
        self.rng, self.mem, self.file, self.ops = rng, {}, {}, []

    def add(self, k, d, **kw):
        rng = self.rng
        op = dict(op=k, d=d, **kw)
        if k in ("new", "import"):
            m = mesh(rng)
            op["mesh"] = m
            op["attrs"] = attrs(rng, GLOBALS)
            self.mem[d] = (m, {})
            if k == "import":
                op["vars"] = [foreign(rng, m, nm) for nm in rng.sample(NAMES, rng.randint(1, 3))]
                self.mem[d][1].update({v["name"]: v["loc"] for v in op["vars"]})
        elif k == "setvar":
            if "v" not in op:
                op["v"] = variable(rng, self.mem[d][0], op.pop("name"))
            self.mem[d][1][op["v"]["name"]] = 1
        elif k == "delvar":
            self.mem[d][1].pop(op["name"], None)
        elif k == "setattr":
            op.update(k=rng.choice(GLOBALS), val=word(rng))
        elif k == "varattr":
            op.update(k=rng.choice(["comment", "k", "grade"]), val=word(rng))
        elif k == "units":
            op["val"] = rng.choice(["m", "cm", "knots"])
        elif k == "save":
            op["fmt"] = rng.choice(["", "", "netcdf4", "netcdf3"])
            self.file[op["f"]] = (self.mem[d][0], dict(self.mem[d][1]))
        elif k == "load":
            m, v = self.file[op["f"]]
            self.mem[d] = (m, dict(v))
        elif k == "find":
            op.update(k=rng.choice(["comment", "k", "standard_name"]), val=rng.choice([word(rng), "s:sea_water_temperature"]))
            seen = [x for o in self.ops if "v" in o and o["d"] == d for x in o["v"]["attrs"]] + [[o["k"], o["val"]] for o in self.ops if o["op"] == "varattr" and o["d"] == d]
            seen = [x for x in seen if x[1][0] != "?"]
            if seen and rng.random() < 0.7:
                # an attribute some variable has, or one number of it
                op["k"], op["val"] = rng.choice([x for x in seen if x[1][:2] == "a:"] or seen)
                if op["val"][:2] == "a:" and rng.random() < 0.6:
                    op["val"] = op["val"].split(",")[0][2:]
        self.ops.append(op)

    def random(self, n):
        rng = self.rng
        for _ in range(n):
            x = rng.random()
            d = rng.randint(1, 3)
            if d not in self.mem:
                self.add(rng.choice(["new", "import"]), d)
                continue
            names = list(self.mem[d][1])
            if x < 0.35 or not names:
                self.add("setvar", d, name=rng.choice(NAMES))
            elif x < 0.42:
                self.add("delvar", d, name=rng.choice(names))
            elif x < 0.5:
                self.add("setattr", d)
            elif x < 0.56:
                self.add("varattr", d, name=rng.choice(names))
            elif x < 0.6:
                self.add("units", d, name=rng.choice(names))
            elif x < 0.68:
                self.add("find", d)
            elif x < 0.82:
                self.add("save", d, f=rng.choice("ab"))
            elif self.file:
                self.add("load", d, f=rng.choice(sorted(self.file)))
        return self


class C15(Check):
    id = "C15"
    driver = "dataset_file"
    trace = "DatasetTrace"
    rule = (
        "histories of up to three datasets and two files: building, replacing and dropping variables, changing attributes "
        "and units, saving, loading, reading files of other programs (packed, with fill values); every dataset in use is "
        "observed after every operation; histories of TLC and random ones; non-trivial = saves, loads and imports"
    )

    def models_for(self, tier):
        return (("DatasetGen", "DatasetGen" if tier == "quick" else "DatasetGenDeep", "h"),)

    def scenarios(self, cases, rng, tier):
        q = tier == "quick"
        hs = cases["h"]
        hs = rng.sample(hs, min(len(hs), 260 if q else 4000))
        scns = []
        for h in hs:
            b = Builder(rng)
            for o in h:
                o = dict(o)
                k, d = o.pop("op"), o.pop("d")
                if k == "new" and rng.random() < 0.3:
                    k = "import"
                b.add(k, d, **o)
                if rng.random() < 0.1:
                    b.add("find", d)
            scns.append(dict(src="tlc", seed=rng.randrange(10**6), ops=b.ops))
        for _ in range(140 if q else 2500):
            b = Builder(rng).random(rng.randint(6, 14))
            scns.append(dict(src="random", seed=rng.randrange(10**6), ops=b.ops))
        rng.shuffle(scns)
        return scns

    def nontrivial(self, line):
        return line["ev"] == "op" and line["op"]["op"] in ("save", "load", "import")


CHECK = C15()
