from obs import DATA_REPS
from vlib import Check

KINDS = ["R", "S", "U", "Sc", "Uf"]


def rand_field(rng, n, kind, times, gx=0, fill=0):
    lin = kind in ("R", "S", "U")
    r = lambda: rng.randint(-9, 9)  # noqa: E731
    m = max(1, n)
    # wide apart: differences no short integer holds
    lo, hi = rng.choice([(-9, 9)] * 5 + [(0, 250), (-120, 120)])
    gaps = rng.sample(range(1, m + 1), rng.randint(1, max(1, m // 3))) if rng.random() < 0.15 else []
    return dict(
        gaps=sorted(gaps),
        grid=kind[0],
        gx=gx,
        times=list(times),
        A=[rng.randint(lo, hi) for _ in range(m)],
        B=[r() if lin else 0 for _ in range(m)],
        C=[r() if lin else 0 for _ in range(m)],
        fill=fill,
    )


def rand_axis(rng, n):
    if n == 0:
        return []
    d = [rng.choice([0, -300, 1000])]
    for _ in range(n - 1):
        d.append(d[-1] + rng.choice([1, 10, 100, 600, 750, 3600]))
    return d


def rand_pts(rng, n, gx=0, inside=None):
    out = []
    for _ in range(n):
        if inside or (inside is None and rng.random() < 0.8):
            out.append([gx + rng.choice([1, 2, 3, 5, 6, 7, 9, 10, 11]), rng.choice([1, 2, 3, 5, 6, 7])])
        else:
            out.append([gx + rng.choice([-2, 13, 5]), rng.choice([-1, 9])])
    return out


def count(rng, sizes, big=(130, 300, 1100), p=0.03):
    """how many: mostly few, at times very many"""
    return rng.choice(big) if rng.random() < p else rng.choice(sizes)


def rand_time(rng, ax):
    if not ax:
        return rng.choice([0, 500, -5])
    j = rng.randrange(len(ax))
    return rng.choice([ax[j], ax[j], ax[j] + 1, ax[j] - 1, ax[0] - 50, ax[-1] + 50, rng.randint(ax[0], ax[-1])])


def unit(rng):
    """microseconds per tick of the specification's clock"""
    return rng.choice([1000000, 1000000, 1000, 250000])


FORMS = ["arr", "arr", "list", "lonlat", "arr3", "single", "f4"]


def at(rng, comp, pts, t, ex, um, form=None):
    form = form or rng.choice(FORMS)
    return dict(op="at", comp=comp, pts=pts, t=t, ex=ex, um=um, form=form, byname=rng.random() < 0.5)


class VarCheck(Check):
    driver = "var_hist"
    trace = "VarTrace"

    def nontrivial(self, line):
        return line["ev"] == "at"


def numbered(rng, scns):
    """meshes whose nodes and faces are numbered in another order"""
    for s in scns:
        s["rep"] = rng.choice(DATA_REPS)
        if s["kind"] in ("U", "Uf") and rng.random() < 0.6:
            s["perm"] = rng.sample(range(12), 12)
    return scns
