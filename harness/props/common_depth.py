from fractions import Fraction as F

from obs import DATA_REPS, REPS

BCS = ["mask", "extrapolate"]
# even quarters: keeps the rationals of the sigma columns small
XS = [1, 2, 3, 5, 6, 7, 9, 10, 11, 4, 8]
YS = [1, 2, 3, 5, 6, 7, 4]


def q(x):
    x = F(x)
    return [x.numerator, x.denominator]


def coef(rng, even, lo=-9, hi=9):
    if even:
        return [rng.randint(lo, hi), rng.choice([-2, 0, 2, 4]), rng.choice([-2, 0, 2])]
    return [rng.randint(lo, hi), rng.randint(-3, 3), rng.randint(-3, 3)]


def fields(rng, n, times, nlev, even=False):
    holes = sorted(rng.sample(range(1, nlev + 1), rng.randint(1, max(1, nlev // 2)))) if rng.random() < 0.12 else []
    # wide apart: differences no short integer holds
    lo, hi = rng.choice([(-9, 9)] * 4 + [(40, 210), (-85, 85)])
    return [
        dict(holes=holes, times=times, v=[[coef(rng, even, lo, hi) for _ in range(nlev)] for _ in range(max(1, len(times)))]) for _ in range(n)
    ]


def nlev(d):
    return {"L": "levels", "roms": "s", "fvcom": "sig"}.get(d["kind"]) and len(
        d[{"L": "levels", "roms": "s", "fvcom": "sig"}[d["kind"]]]
    )


def zs(rng, d, near=False):
    """depths worth asking for"""
    if d["kind"] == "L":
        lv = [F(*x) for x in d["levels"]]
        c = list(lv) + [min(lv) - 1, max(lv) + 1, max(lv) + 30, F(0)]
        # next to a level, on either side (only at places where the values are whole)
        if near:
            return [q(a + (b - a) * k) for a, b in zip(lv, lv[1:]) for k in (F(1, 1024), F(1023, 1024))] or [[0, 1]]
        for a, b in zip(lv, lv[1:]):
            c += [(a + b) / 2, a + (b - a) / 4]
        return [q(x) for x in c]
    if d["kind"] == "surf":
        return [[0, 1], [5, 1], [-3, 1]]
    return [[0, 1], [-1, 1], [40, 1], [1, 1], [2, 1], [3, 1], [5, 1], [7, 1], [9, 2], [12, 1], [14, 1], [16, 1], [20, 1]]


def off(rng):
    return rng.choice([[-3, 2], [14, 4], [6, 10], [2, -2]])


def bed(d, p, t=None):
    return None


def points(rng, d, n, center, offgrid=True):
    even = d["kind"] in ("roms", "fvcom")
    out = []
    Z = zs(rng, d)
    if d["kind"] == "L" and not center and rng.random() < 0.08:
        Z = zs(rng, d, near=True)
        return [[rng.choice([4, 8]), 4, rng.choice(Z)] for _ in range(n)]
    for _ in range(n):
        if offgrid and rng.random() < 0.1:
            x, y = off(rng)
        else:
            x, y = rng.choice(XS), rng.choice(YS)
            if even:
                x, y = rng.choice([2, 4, 6, 8, 10]), rng.choice([2, 4, 6])
            if center:
                x, y = (rng.choice([2, 6, 10]), rng.choice([2, 6])) if even else (rng.choice([1, 2, 3, 5, 6, 7, 9, 10, 11]), rng.choice([1, 2, 3, 5, 6, 7]))
        z = rng.choice(Z)
        if even and rng.random() < 0.15:
            # the bed itself, for a resting surface
            z = q(F(d["h"][0]) + F(d["h"][1] * x + d["h"][2] * y, 4))
        out.append([x, y, z])
    return out


def bc_pair(rng):
    return rng.choice(BCS), rng.choice(BCS)


def at_op(rng, d, times, center):
    n = rng.choice([1, 2, 3, 4, 6, 9]) if rng.random() < 0.97 else rng.choice([40, 150, 300])
    form = rng.choice(["arr", "arr", "arr", "list", "single", "two", "lonlat", "cols"])
    if form == "cols":
        n = rng.choice([4, 5, 6, 9])
    if form == "list" and n == 3:
        n = 4
    pts = points(rng, d, n, center)
    if times:
        T = list(times) + [(a + b) // 2 for a, b in zip(times, times[1:])] + [times[0] - 900, times[-1] + 900]
        t = rng.choice(T)
    else:
        t = rng.choice([0, 900])
    out_of = bool(times) and (t < times[0] or t > times[-1])
    s, b = ("", "")
    if rng.random() < 0.4:
        s, b = bc_pair(rng)
        if rng.random() < 0.3:
            s = ""
        elif rng.random() < 0.3:
            b = ""
    return dict(op="at", pts=pts, form=form, t=t, ex=rng.random() < (0.8 if out_of else 0.4), um=rng.random() < 0.3, sbc=s, bbc=b)


def scenario(rng, d, src, nops, kind, times=None):
    even = d["kind"] in ("roms", "fvcom")
    loc = "node"
    if kind in "SU" and rng.random() < 0.4:
        loc = "center"
    n = nlev(d) or rng.randint(1, 4)
    if d["kind"] == "surf":
        d = dict(d, si=rng.choice([-1, 0, rng.randrange(n)]))
        nl = n
    else:
        nl = n - 1 if (n > 1 and rng.random() < 0.4) else n
    if times is None:
        times = rng.choice([[], [0, 3600], [0, 3600, 7200], [0, 3600, 10800]])
    if even and d["zt"]:
        times = list(d["zt"])
    ncomp = rng.choice([1, 1, 1, 2])
    s = dict(
        src=src,
        d=d,
        kind=kind,
        loc=loc,
        fs=fields(rng, ncomp, times, nl, even),
        order="depth_first" if len(times) == nl and rng.random() < 0.5 else "time_first",
        sbc=rng.choice(["default", "set"]),
        bbc="",
        fill=rng.choice([-99, 7, 0]),
        how=rng.randrange(2),
    )
    if s["sbc"] == "set":
        s["sbc"], s["bbc"] = bc_pair(rng)
    if rng.random() < 0.3:
        s["dsbc"], s["dbbc"] = bc_pair(rng)
        s["bcnone"] = rng.random() < 0.5
    ops = [dict(op="info")]
    asked = []
    for _ in range(nops):
        r = rng.random()
        if r < 0.55 or not asked:
            o = at_op(rng, d, times, loc == "center")
            asked.append(o)
            ops.append(o)
        elif r < 0.65:
            ops.append(dict(rng.choice(asked)))
        elif r < 0.78 and d["kind"] != "surf" and n > 1:
            o = at_op(rng, d, times, False)
            o["pts"] = points(rng, d, len(o["pts"]), False, offgrid=d["kind"] == "L")
            sb, bb = bc_pair(rng) if rng.random() < 0.6 else ("", "")
            ops.append(dict(op="alphas", pts=o["pts"], t=o["t"], ex=o["ex"], sbc=sb, bbc=bb))
        elif r < 0.86 and even:
            o = at_op(rng, d, times, False)
            ops.append(dict(op="profile", pts=points(rng, d, len(o["pts"]), False), t=o["t"], ex=o["ex"], lay=rng.random() < 0.5, nos=rng.random() < 0.3))
        else:
            w = rng.choice(["data", "bc", "fill", "depth"])
            o = dict(op="change", what=w)
            if w == "data":
                o["fs"] = fields(rng, ncomp, times, nl, even)
            elif w == "bc":
                o["sbc"], o["bbc"] = bc_pair(rng)
            elif w == "fill":
                o["fill"] = rng.choice([-99, 7, 3])
            elif d["kind"] == "L":
                lv = [F(*x) + rng.randint(0, 2) for x in d["levels"]]
                if all(a != b for a, b in zip(lv, lv[1:])) and (lv == sorted(lv) or lv == sorted(lv)[::-1]) and len(set(lv)) == len(lv):
                    d = dict(d, levels=[q(x) for x in lv])
                    o["d"] = d
                else:
                    continue
            elif even:
                d = dict(d, h=[rng.choice([12, 14, 16]), rng.choice([-2, 0, 2]), 0])
                if not d.get("noz"):
                    d["zeta"] = [[(z[0] + 1) % 3, *z[1:]] if rng.random() < 0.5 else z for z in d["zeta"]]
                o["d"] = d
            else:
                continue
            if w == "depth":
                o["edit"] = rng.choice([0, 1, 2])
            ops.append(o)
            ops.append(dict(rng.choice(asked)))
    s["ops"] = ops
    s["rep"], s["rep2"] = rng.choice(DATA_REPS), rng.choice(REPS)
    if kind == "U" and rng.random() < 0.7:
        s["perm"] = rng.sample(range(12), 12)
    return s


def random_levels(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
    if rng.random() < 0.03:
        n = rng.choice([60, 140, 280])
    a = [F(rng.choice([0, 0, 0, 1, 2, -1]))]
    for _ in range(n - 1):
        a.append(a[-1] + rng.choice([1, 2, 3, F(1, 2), 5]))
    if rng.random() < 0.5:
        a = a[::-1]
    return dict(kind="L", levels=[q(x) for x in a])
