"""Scenario building for the staggered grid checks."""

from obs import REPS

PADS = ["none", "low", "high", "both"]
LOCS = ["node", "center", "edge1", "edge2"]
ALIAS = {
    "node": ["node", "nodes", "psi", "vertex", "vertices", "point", "points"],
    "center": ["center", "centers", "face", "faces", "cell", "cells"],
    "edge1": ["edge1", "u"],
    "edge2": ["edge2", "v"],
}


def plen(p):
    return {"none": 0, "low": 1, "high": 1, "both": 2}[p]


def lo(p):
    return int(p in ("low", "both"))


def cpad(g):
    if g["fpad"]:
        return g["fpad"]
    if g["cshape"]:
        n = (len(g["nodes"]), len(g["nodes"][0]))
        return [{-1: "none", 0: "low"}.get(g["cshape"][d] - n[d], "both") for d in (0, 1)]
    return ["none", "none"]


def pad_of(g, loc):
    cp = cpad(g)
    return {
        "node": g["npad"] or ["none", "none"],
        "center": cp,
        "edge1": g["e1pad"] or [cp[0], "none"],
        "edge2": g["e2pad"] or ["none", cp[1]],
    }[loc]


def shape(g, loc, pad):
    R, C = len(g["nodes"]), len(g["nodes"][0])
    r = R if loc in ("node", "edge2") else R - 1
    c = C if loc in ("node", "edge1") else C - 1
    return r + plen(pad[0]), c + plen(pad[1])


def masked_cell(g, r, c):
    if g["cmask"]:
        p = cpad(g)
        return bool(g["cmask"][r + lo(p[0])][c + lo(p[1])])
    if g["nmask"]:
        m = g["nmask"]
        r, c = [x + lo(p) for x, p in zip((r, c), pad_of(g, "node"))]
        return bool(m[r][c] or m[r][c + 1] or m[r + 1][c + 1] or m[r + 1][c])
    return False


def location(g, sh):
    d = (sh[0] - len(g["nodes"]), sh[1] - len(g["nodes"][0]))
    if d in ((1, 1), (-1, -1)) and g["cshape"]:
        return "center"
    if d == (1, 0) and g["hase1"]:
        return "edge1"
    if d == (0, 1) and g["hase2"]:
        return "edge2"
    return "node" if d == (0, 0) else None


TURNS = [(1, 0, 0, 1), (0, 1, 1, 0), (-1, 0, 0, 1), (1, 1, -1, 1), (0, -1, 1, 0), (1, 0, 0, -1), (2, 1, 0, 1), (3, -1, 1, 3), (-1, 0, 0, -1), (5, 1, -1, 5)]


def steps(rng, n):
    """where the lines of a grid lie: evenly, or with wide and narrow cells"""
    if rng.random() < 0.7:
        return [8 * i for i in range(n)]
    res = [0]
    for _ in range(n - 1):
        res.append(res[-1] + rng.choice([6, 7, 8, 8, 19]))
    return res


def random_grid(rng, big=7, small=2):
    R, C = rng.randint(small, big), rng.randint(small, big)
    xs, ys = steps(rng, C), steps(rng, R)
    t = rng.choice(TURNS)
    amp = rng.choice([0, 0, 1, 1, 2])
    ox, oy = rng.randint(-9, 9), rng.randint(-9, 9)
    nodes = []
    for r in range(R):
        row = []
        for c in range(C):
            x, y = xs[c] + rng.randint(-amp, amp) + ox, ys[r] + rng.randint(-amp, amp) + oy
            row.append([t[0] * x + t[1] * y, t[2] * x + t[3] * y])
        nodes.append(row)
    g = dict(nodes=nodes, fpad=[], cshape=[], npad=[], e1pad=[], e2pad=[], hase1=False, hase2=False, cmask=[], nmask=[])
    kind = rng.choice(["plain", "centers", "centers", "fpad", "node"])
    if kind == "centers":
        g["cshape"] = [R + rng.choice([-1, 0, 1]), C + rng.choice([-1, 0, 1])]
    elif kind == "fpad":
        g["fpad"] = [rng.choice(PADS), rng.choice(PADS)]
        if rng.random() < 0.6:
            g["cshape"] = list(shape(g, "center", g["fpad"]))
    for k, other in (("e1pad", 0), ("e2pad", 1), ("npad", 2)):
        if rng.random() < 0.25:
            q = [rng.choice(PADS), rng.choice(PADS)]
            if k == "e1pad":
                q[1] = "none"
            if k == "e2pad":
                q[0] = "none"
            g[k] = q
    nsh = shape(g, "node", pad_of(g, "node"))
    if kind == "node":
        g["nmask"] = [[int(rng.random() < 0.12) for _ in range(nsh[1])] for _ in range(nsh[0])]
    if kind != "node" and rng.random() < 0.6:
        sh = shape(g, "center", cpad(g))
        p = rng.choice([0.1, 0.3, 0.5])
        g["cmask"] = [[int(rng.random() < p) for _ in range(sh[1])] for _ in range(sh[0])]
        if rng.random() < 0.2:  # both masks: the center mask decides
            g["nmask"] = [[int(rng.random() < 0.3) for _ in range(nsh[1])] for _ in range(nsh[0])]
    return ensure_cell(rng, g)


def ensure_cell(rng, g):
    """at least one cell is there"""
    R, C = len(g["nodes"]), len(g["nodes"][0])
    if all(masked_cell(g, r, c) for r in range(R - 1) for c in range(C - 1)):
        if g["cmask"]:
            p = cpad(g)
            g["cmask"][lo(p[0])][lo(p[1])] = 0
        else:
            for a in (0, 1):
                for b in (0, 1):
                    p = pad_of(g, "node")
                    g["nmask"][a + lo(p[0])][b + lo(p[1])] = 0
    return g


def coords(rng, g):
    """coordinates of the other locations: anywhere (only lookups of the nearest use them)"""
    res = {}

    def mat(sh):
        return [[[rng.randint(-20, 60), rng.randint(-20, 60)] for _ in range(sh[1])] for _ in range(sh[0])]

    if g["cshape"]:
        res["center"] = mat(g["cshape"])
    for loc, k in (("edge1", "hase1"), ("edge2", "hase2")):
        if g[k]:
            res[loc] = mat(shape(g, loc, pad_of(g, loc)))
    return res


def witnesses(rng, g, n, exact):
    R, C = len(g["nodes"]), len(g["nodes"][0])
    f = [0, 1, 2, 3, 4] if exact else [1, 2, 3]
    return [[rng.randrange(R - 1), rng.randrange(C - 1), rng.choice(f), rng.choice(f)] for _ in range(n)]


def bbox(g):
    xs = [p[0] for row in g["nodes"] for p in row]
    ys = [p[1] for row in g["nodes"] for p in row]
    return min(xs), max(xs), min(ys), max(ys)


def outside(rng, g):
    """16ths, beyond the bounding box"""
    x0, x1, y0, y1 = bbox(g)
    s = rng.randrange(4)
    x, y = rng.randint(16 * x0, 16 * x1), rng.randint(16 * y0, 16 * y1)
    d = rng.choice([8, 40, 400])
    return [[16 * x0 - d, y], [16 * x1 + d, y], [x, 16 * y0 - d], [x, 16 * y1 + d]][s]


def points(rng, g, n, exact, beyond=None):
    pts, at = [], []
    for w in witnesses(rng, g, n, exact):
        if rng.random() < 0.15:
            pts.append([-1, -1, 0, 0])
            at.append(rng.choice(beyond) if beyond and exact and rng.random() < 0.7 else outside(rng, g))
        else:
            pts.append(w)
            at.append([0, 0])
    return pts, at


def interp_op(rng, g, pts, at, beh, loc=None, lead=None):
    loc = loc or rng.choice(LOCS)
    via = rng.choice(["grid", "grid", "grid", "var"])
    pad = []
    if via == "grid" and rng.random() < 0.2:
        pad = [rng.choice(PADS), rng.choice(PADS)]
        if loc == "edge1":
            pad[1] = "none"
        if loc == "edge2":
            pad[0] = "none"
    eff = pad or pad_of(g, loc)
    sh = shape(g, loc, eff)
    pm = rng.choice([0, 0, 0.15, 0.4])
    if loc == "node" and beh != "zero":
        pm = 0
    dm = [[int(rng.random() < pm) for _ in range(sh[1])] for _ in range(sh[0])]
    la = rng.choice(ALIAS[loc]) if via == "grid" else rng.choice({"center": ["center", "face"]}.get(loc, [loc]))
    if not pad and location(g, sh) == loc and rng.random() < 0.4:
        la = "infer"
    lead = rng.choice([0, 0, 1, 3]) if lead is None else lead
    return dict(
        op="interp",
        loc=loc,
        loc_arg=la,
        via=via,
        pad=pad,
        data=[[rng.randint(-9, 9) for _ in range(sh[1])] for _ in range(sh[0])],
        dm=dm,
        ma=rng.random() < 0.3,
        ddtype=rng.choice(["f8", "f8", "f4", "i4"]),
        lead=lead,
        k=rng.randrange(max(1, lead)),
        sl=rng.random() < 0.5,
        unmask=rng.random() < 0.2,
        fill=rng.choice([0, 0, -50]),
        memo=rng.random() < 0.3,
        ind=rng.choice(["", "", "", "", "found", "plain", "al", "plainal"]),
        pts=pts,
        at16=at,
        form=rng.choice(["arr", "arr", "list", "single"]) if via == "var" else "arr",
    )


def scenario(rng, g, src, nops=6, beyond=None, lattice=False, many=0):
    exact = rng.random() < 0.6 or lattice
    scale, base = (1.0, [0.0, 0.0])
    if exact:
        scale, base = rng.choice([(1.0, [0.0, 0.0]), (0.125, [-76.0, 34.0]), (1.0, [180.0, -16.0]), (2.0**-20, [0.0, 0.0]), (1024.0, [524288.0, 4194304.0])])
    else:
        scale, base = rng.choice([(0.1, [-75.3, 33.7]), (1 / 3, [0.1, 0.7]), (0.001, [-123.4567, 48.7654])])
    beh = rng.choice(["default", "default", "zero", "mask", "mirror"])
    ops = []
    b = "zero" if beh == "default" else beh
    R, C = len(g["nodes"]), len(g["nodes"][0])
    if lattice:
        allw = [[r, c, fx, fy] for r in range(R - 1) for c in range(C - 1) for fx in range(5) for fy in range(5)]
        rng.shuffle(allw)
        pts = allw[:120] + [[-1, -1, 0, 0]] * len(beyond or [])
        at = [[0, 0]] * len(allw[:120]) + list(beyond or [])
        ops.append(dict(op="locate", pts=pts, at16=at, form="arr", memo=False))
        ops.append(interp_op(rng, g, pts, at, b))
    batches = [points(rng, g, many or rng.choice([1, 2, 3, 4, 5, 9]), exact, beyond) for _ in range(3)]
    for _ in range(nops):
        pts, at = rng.choice(batches) if rng.random() < 0.6 else points(rng, g, rng.choice([1, 2, 3, 5, 8]), exact, beyond)
        if rng.random() < 0.4:
            ops.append(
                dict(
                    op="locate",
                    pts=pts,
                    at16=at,
                    form=rng.choice(["arr", "arr", "list", "single"]),
                    memo=rng.random() < 0.6,
                    copy=rng.random() < 0.3,
                    index_of=rng.random() < 0.2,
                )
            )
        else:
            ops.append(interp_op(rng, g, pts, at, b))
    cs = coords(rng, g)
    if exact and rng.random() < 0.5:
        x0, x1, y0, y1 = bbox(g)
        for _ in range(2):
            at = [[rng.randint(16 * x0 - 99, 16 * x1 + 99), rng.randint(16 * y0 - 99, 16 * y1 + 99)] for _ in range(rng.choice([1, 3, 6]))]
            loc = rng.choice(["node"] + sorted(cs))
            ops.append(dict(op="nearest", loc=loc, at16=at))
            m = cs[loc] if loc in cs else g["nodes"]
            sh = len(m), len(m[0])
            infer = location(g, sh)
            if infer is None:  # (data whose shape fits no location is used as it is: give its location)
                continue
            lead = rng.choice([0, 0, 2])
            pm = rng.choice([0, 0, 0.3])
            ops.append(
                dict(
                    op="nearval",
                    loc=loc,
                    at16=at,
                    named=infer != loc or rng.random() < 0.5,
                    data=[[rng.randint(-9, 9) for _ in range(sh[1])] for _ in range(sh[0])],
                    dm=[[int(rng.random() < pm) for _ in range(sh[1])] for _ in range(sh[0])],
                    ma=rng.random() < 0.5,
                    ddtype=rng.choice(["f8", "i4"]),
                    lead=lead,
                    k=rng.randrange(max(1, lead)),
                )
            )
    return dict(
        src=src,
        g=g,
        coords=cs,
        scale=scale,
        base=base,
        beh=beh,
        cls=rng.choice(["Grid_S", "Grid_S", "SGrid"]) if not any(o.get("via") == "var" for o in ops) else "Grid_S",
        maskedcoord=rng.random() < 0.3,
        rep=rng.choice(REPS),
        mdtype=rng.choice(["bool", "bool", "i4", "f8"]),
        nonepad=rng.random() < 0.5,
        ops=ops,
    )


def blend_scn(rng, n):
    ops = []
    for _ in range(n):
        k = rng.choice([2, 2, 4])
        rows = rng.choice([1, 2, 3, 4, 5])
        ws = []
        for _ in range(rows):
            if k == 2:
                a = rng.randint(0, 16)
                ws.append([16 - a, a])
            else:
                x, y = rng.randint(0, 4), rng.randint(0, 4)
                ws.append([(4 - x) * (4 - y), x * (4 - y), x * y, (4 - x) * y])
        ops.append(
            dict(
                vs=[[rng.randint(-9, 9) for _ in range(k)] for _ in range(rows)],
                ms=[[int(rng.random() < 0.3) for _ in range(k)] for _ in range(rows)],
                ws=ws,
                beh=(beh := rng.choice(["zero", "mask", "mirror"])),
                how="none" if beh == "zero" and rng.random() < 0.4 else rng.choice(["attr", "arg"]),
                one=beh != "mirror" and rng.random() < 0.2,
            )
        )
    return dict(src="random", blends=ops)
