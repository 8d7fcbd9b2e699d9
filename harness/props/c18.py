from obs import DATA_REPS
from vlib import Check

ANY = ["list", "tuple", "listofarr", "arr", "arr", "f4", "fortran", "strided", "reversed", "readonly", "ma", "int"]


def point(rng, k, integer, outside):
    if outside:
        p = [80, rng.choice([80, -40])]
    elif integer:
        p = [rng.choice([4, 8]), 4]
    else:
        p = [rng.randint(1, 11), rng.randint(1, 7)]
    return p + ([rng.choice([0, 4]) if integer else rng.randint(0, 7)] if k == 3 else [])


def query(rng, c, deep):
    n, k, lay = c["n"], c["k"], c["lay"]
    if lay.startswith("cols") and n in (2, 3):
        # arrays of two or three by two or three are rows
        n, k, lay = k, n, lay.replace("cols", "rows")
    how = rng.choice(ANY)
    if k == 2 and lay == "rows" and rng.random() < 0.4:
        how = rng.choice(["lonlat", "lonlatarr", "lonlattuple"] + ["lonlat0"] * (n == 1))
    if n == 0 and how in ("list", "tuple", "listofarr"):
        # which lose the number of coordinates
        how = "arr"
    P = [point(rng, k, how == "int", rng.random() < 0.12) for _ in range(n)]
    if n > 1 and rng.random() < 0.3:
        P[-1] = P[0]
    cols = lay.startswith("cols")
    flat = [P[i][j] for j in range(k) for i in range(n)] if cols else [x for p in P for x in p]
    shape = dict(rows=[n, k], cols=[k, n], flat=[k], rows1=[1, n, k], cols1=[1, k, n], tail=[n, k, 1], mid=[n, 1, k])[lay]
    return dict(op="at", how=how, shape=shape, flat=flat, t=rng.choice([0, 1, 2]), um=rng.random() < 0.3)


def wrong(rng):
    shape = rng.choice([[4], [5], [1], [4, 4], [5, 4], [6, 5], [1, 1], [7, 1]])
    n = 1
    for x in shape:
        n *= x
    return dict(op="at", how=rng.choice(["list", "arr", "tuple"]), shape=shape, flat=[4] * n, t=0, um=False)


class C18(Check):
    id = "C18"
    driver = "points"
    trace = "PointsTrace"
    models = (("PointsGen", "PointsGen", "points"),)
    rule = "every layout of up to six points (from TLC) in random order, containers and numbers on every kind of grid; non-trivial = values were given"

    def scenarios(self, cases, rng, tier):
        scns = []
        m = 2 if tier == "quick" else 24
        big = [dict(lay=a, n=n, k=k) for a in ("rows", "cols", "rows1", "mid") for n in (7, 12, 40) for k in (2, 3)]
        big += [dict(lay="rows", n=300, k=3), dict(lay="cols", n=150, k=2)]
        for grid in "RSU":
            for deep in (False, True):
                for nt in (1, 2):
                    for vec in (1, 2, 3):
                        for _ in range(m):
                            # every layout once, on objects that keep answering
                            ok = [c for c in cases["points"] + big if (c["k"] == 3 if deep else True)]
                            ok = [c for c in ok if not (c["lay"].startswith("cols") and c["n"] == 2 and deep)]
                            rng.shuffle(ok)
                            for i in range(0, len(ok), 16):
                                fs = [[[rng.randint(-9, 9) for _ in range(4)] for _ in range(nt)] for _ in range(vec)]
                                ops = [query(rng, c, deep) for c in ok[i : i + 16]]
                                if rng.random() < 0.3:
                                    ops.insert(rng.randint(0, len(ops)), wrong(rng))
                                for what in ("locate", "interp"):
                                    n = rng.choice([0, 1, 2, 3, 5])
                                    how = rng.choice(["list", "tuple", "arr", "f4", "int", "strided", "readonly"]) if n else "arr"
                                    ops.insert(
                                        rng.randint(0, len(ops)),
                                        dict(op="each", what=what, how=how, pts=[point(rng, 2, how == "int", rng.random() < 0.2) for _ in range(n)]),
                                    )
                                # the same points in another layout
                                scns.append(dict(rep=rng.choice(DATA_REPS), grid=grid, deep=deep, fs=fs, ops=ops, src="tlc"))
        rng.shuffle(scns)
        return scns

    def nontrivial(self, line):
        return line.get("out") == "ok" and line["ev"] != "make"


CHECK = C18()
