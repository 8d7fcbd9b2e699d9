from vlib import Check

NODES = [("node_lon", "node_lat"), ("lon", "lat"), ("lon_psi", "lat_psi"), ("longitude", "latitude")]
OTHERS = dict(
    center=[("center_lon", "center_lat"), ("lon_rho", "lat_rho"), ("lonc", "latc")],
    edge1=[("edge1_lon", "edge1_lat"), ("lon_u", "lat_u")],
    edge2=[("edge2_lon", "edge2_lat"), ("lon_v", "lat_v")],
)
TRIS = [[0, 1, 4], [0, 4, 3], [1, 2, 5], [1, 5, 4]]
# a first node on no face, and few faces
MORE = [[[1, 4, 5], [1, 2, 5], [2, 4, 5], [1, 4, 2]], [[0, 5, 3]], [[1, 2, 5]], [[0, 1, 4], [1, 5, 4]], [[2, 5, 4], [1, 2, 4]]]
MASK = dict(node="mask_psi", center="mask_rho", edge1="mask_u", edge2="mask_v")
FACES = ["faces", "tris", "nv", "ele", "nele"]
WORDS = dict(
    s=["sgrid", "pygrid_s", "staggered", "curvilinear", "roms"],
    u=["ugrid", "pygrid_u", "triangular", "unstructured"],
    r=["rgrid", "regular", "rectangular", "rectilinear"],
    bad=["grid", "ugrids", "quad", "r", "none"],
    other=["grid", "ROMS grid", "hexagonal", "s"],
)


def case(rng, w):
    return rng.choice([w, w, w.upper(), w.capitalize(), "".join(rng.choice([x, x.upper()]) for x in w)])


def layout(rng, c, exact=False):
    """the variables of a file for the case c"""
    ny, nx = rng.choice([(3, 4), (4, 3), (3, 3), (4, 5)])
    w = rng.choice([1, 1, -1])
    dy, dx = rng.choice([("lat", "lon"), ("y", "x"), ("eta_psi", "xi_psi"), ("LAT", "LON")])
    s = dict(
        c=c,
        shapes=dict(node=[ny, nx], center=[ny + w, nx + w], edge1=[ny + 1, nx], edge2=[ny, nx + 1]),
        flat=c["faces"] or c["nodes"] == "comp",
        fmt=rng.choice(["NETCDF4", "NETCDF4", "NETCDF3_64BIT_OFFSET", "NETCDF4_CLASSIC"]),
        attrtext=case(rng, rng.choice(WORDS[c["attr"]])) if c["attr"] else "",
        spell={},
        exact=exact,
        start=rng.choice([0, 1]),
        fortran=rng.random() < 0.5,
        time=False,
        data=[],
        facelabels=[],
        tris=TRIS if exact or rng.random() < 0.5 else rng.choice(MORE),
        topo={},
        dims2=[dy, dx],
    )
    vs = []

    def coord(label, canon, loc, axis, real, two):
        if s["flat"]:
            dims = ["nnode"]
        elif loc == "node":
            dims = [dy, dx] if two else [dy if axis == "y" else dx]
        else:
            dims = [f"{loc}_y", f"{loc}_x"]
        vs.append(dict(what="coord", label=label, canon=canon, loc=loc, axis=axis, dims=dims, real=real, sizes=[6] if s["flat"] else [s["shapes"][loc]["yx".index(axis)]] if len(dims) == 1 else s["shapes"][loc]))

    def pair(names, loc, real, two, canon=True):
        for n, axis in zip(names, "xy"):
            coord(n, n if canon else "", loc, axis, real, two)

    two = c["nodes"] == "2d"
    bydict = c["topo"] != "none"
    # nodes
    ks = []
    if c["nodes"] in ("1d", "2d") and not bydict:
        ks = sorted(rng.sample(range(4), rng.choice([1, 1, 2, 4])))
    elif bydict and c["nodes"] != "none":
        ks = sorted(rng.sample(range(4), rng.choice([0, 1, 2])))
    for j, k in enumerate(ks):
        pair(NODES[k], "node", j == 0 and not bydict, two if j == 0 else rng.random() < 0.5)
    for k in set(range(4)) - set(ks):
        if rng.random() < 0.3:
            n = rng.choice([0, 1])
            coord(NODES[k][n], NODES[k][n], "node", "xy"[n], False, two)
    if c["nodes"] == "comp" and not bydict:
        m = rng.choice([["nodes"], ["node"], ["nodes", "node"]])
        for i, n in enumerate(m):
            vs.append(dict(what="comp", label=n, canon=n, real=i == 0, sizes=[6, 2]))
    elif c["nodes"] in ("1d", "2d") and rng.random() < 0.15 and not bydict:
        vs.append(dict(what="comp", label="nodes", canon="nodes", real=False, sizes=[6, 2]))
    # faces
    if c["faces"] and not bydict:
        m = sorted(rng.sample(range(5), rng.choice([1, 1, 2, 3])))
        for i, k in enumerate(m):
            vs.append(dict(what="faces", label=FACES[k], canon=FACES[k], real=i == 0, sizes=[3, 4] if s["fortran"] else [4, 3]))
            s["facelabels"].append(FACES[k])
    # the rest of a staggered grid
    if not s["flat"]:
        for loc, alts in OTHERS.items():
            if rng.random() < 0.6:
                for k in sorted(rng.sample(range(len(alts)), rng.choice([1, 1, 2]))):
                    pair(alts[k], loc, True, True)
            elif rng.random() < 0.3:
                coord(alts[0][0], alts[0][0], loc, "x", False, True)
        for loc, n in MASK.items():
            if rng.random() < 0.5:
                vs.append(dict(what="mask", label=n, canon=n, loc=loc, dims=[dy, dx] if loc == "node" else [f"{loc}_y", f"{loc}_x"], sizes=s["shapes"][loc]))
    if bydict:
        t = s["topo"]
        if c["nodes"] == "comp":
            vs.append(dict(what="comp", label="CC", canon="", real=True, sizes=[6, 2]))
            t["nodes"] = "CC"
        else:
            pair(("XA", "YA"), "node", True, two, False)
            t.update(node_lon="XA", node_lat="YA")
        if c["topo"] == "faces":
            vs.append(dict(what="faces", label="FF", canon="", real=True, sizes=[]))
            t["faces"] = "FF"
        elif c["topo"] in ("u", "r", "s"):
            t["grid_type"] = case(rng, rng.choice(WORDS[c["topo"]]))
        if not s["flat"] and c["topo"] in ("s", "plain"):
            for loc in OTHERS:
                if rng.random() < 0.6:
                    pair((loc + "XA", loc + "YA"), loc, True, True, False)
                    t.update({loc + "_lon": loc + "XA", loc + "_lat": loc + "YA"})
                if rng.random() < 0.5:
                    # any of the masks of the file
                    have = [v["canon"] for v in vs if v["what"] == "mask" and v["loc"] == loc]
                    if have:
                        t[loc + "_mask"] = have[0]
    # names of any case (but not two that differ only by it)
    how = rng.choice(["", "", "up", "cap", "mix"])
    for v in vs:
        n = v["canon"]
        if n and n not in t_values(s):
            v2 = {"": n, "up": n.upper(), "cap": n.capitalize(), "mix": rng.choice([n, n.upper(), n.title()])}[how]
            s["spell"][n] = v2
    rng.shuffle(vs)
    s["vars"] = vs
    return s


def t_values(s):
    return set(s["topo"].values())


def grid(rng, c):
    s = layout(rng, c)
    s.update(
        kind="grid",
        argstyle=rng.choice(["str", "str", "class", "sub", "method", "submethod"]) if c["arg"] not in ("", "bad") else "str",
        argtext=case(rng, rng.choice(WORDS[c["arg"]])) if c["arg"] else "",
        own=rng.random() < 0.2,
        entry=rng.choice(["filename", "filename", "dataset", "grid_file", "grid_nc", "both", "default"]),
    )
    if not c["arg"] and not s["own"] and rng.random() < 0.25:
        s["entry"] = rng.choice(["of_dataset", "of_init"])
    return s


def dataset(rng, nodes, faces):
    c = dict(arg="", topo="none", attr="", tvar="none", nodes=nodes, faces=faces)
    s = layout(rng, c, exact=True)
    s.update(kind="dataset", time=rng.random() < 0.7, hour=rng.choice([0, 1]), n=[6, 4] if s["flat"] else s["shapes"]["node"])
    dy, dx = s["dims2"]
    for i in range(rng.randint(1, 7)):
        if s["flat"]:
            base, sz = rng.choice([(["nnode"], [6]), (["nele"], [4]), (["other"], [5])])
        else:
            loc = rng.choice(["node", "node", "node", "center", "edge1", "edge2", "odd", "one"])
            sh = s["shapes"].get(loc, [s["n"][0] + 2, s["n"][1]])
            base, sz = ([dy, dx] if loc == "node" else [f"{loc}_y", f"{loc}_x"]), sh
            if loc == "one":
                base, sz = [dx], [s["n"][1]]
            elif nodes == "1d" and rng.random() < 0.35:
                base, sz = base[::-1], sz[::-1]
        lead, ls = rng.choice([([], []), (["time"], [2]), (["time", "lev"], [2, 3])] if s["time"] else [([], []), ([], []), (["lev"], [3])])
        la = rng.choice(["", "", "", "", "somewhere", "nodes", "true", "true"])
        if la == "true":
            la = {6: "node", 4: "face", 5: ""}[sz[0]] if s["flat"] else loc if loc in s["shapes"] and base[-1] in (dx, loc + "_x") else ""
        if len(base) == 1 and not s["flat"]:
            lead, ls = lead[:1], ls[:1]
            if lead == ["lev"] or s["n"][0] in (2, 3) and lead:
                lead, ls = [], []
        if rng.random() < 0.08:
            base, sz, lead, ls = [], [], [], []
        s["data"].append(
            dict(
                label=f"dat{i}",
                canon="",
                dims=list(lead) + list(base),
                sizes=list(ls) + list(sz),
                mul=rng.choice([1, 3, -7]),
                locattr=la if base else "",
                long=rng.choice(["", "water temperature", "flag"]),
                reversed=not s["flat"] and nodes == "1d" and list(base) == [dx, dy],
            )
        )
    return s


class C16(Check):
    id = "C16"
    driver = "grid_file"
    trace = "GridFileTrace"
    models = (("GridFileGen", "GridFileGen", "grid"),)
    rule = (
        "every combination of what the caller, a dictionary, the file's attribute, its topology variable and its names say (from "
        "TLC), in files with random further names, decoys, spellings and storage; Datasets of files with random variables; "
        "non-trivial = a grid was made"
    )

    def scenarios(self, cases, rng, tier):
        k = 1 if tier == "quick" else 12
        scns = [grid(rng, c) for c in cases["grid"] for _ in range(k)]
        named = [c for c in cases["grid"] if c["topo"] == "none" and c["tvar"] == "none" and c["arg"] in ("", "s", "u") and c["nodes"] != "none"]
        scns += [grid(rng, rng.choice(named)) for _ in range(400 * k)]
        for _ in range(500 * k):
            scns.append(dataset(rng, *rng.choice([("1d", False), ("1d", False), ("2d", False), ("1d", True), ("comp", True)])))
        rng.shuffle(scns)
        return scns

    def nontrivial(self, line):
        return line.get("out") == "ok"


CHECK = C16()
