from vlib import world

from props.common_var import KINDS, VarCheck, at, count, numbered, rand_axis, rand_field, rand_pts, rand_time, unit


class C06(VarCheck):
    id = "C06"
    rule = (
        "history of queries, replacements of data, time axis, grid and fill value, shifts of the axis, and writes into "
        "returned arrays; histories from TLC (every transition of the memo model) given concrete queries, plus random "
        "ones long enough to overflow the memo; non-trivial = a query"
    )

    def models_for(self, tier):
        return (("VarCache", "VarCache" if tier == "quick" else "VarCacheDeep", "hist", {"heap": "6g"}),)

    def concrete(self, rng, hist, kind, ncomp):
        n = rng.choice([2, 3, 2, 3, 2, 3, 0])
        ax = [rand_axis(rng, n), rand_axis(rng, n)]
        shared = rand_axis(rng, n)
        ax[0] = shared
        fs = [rand_field(rng, n, kind, ax[0]) for _ in range(ncomp)]
        alt = [rand_field(rng, n, kind, ax[0]) for _ in range(ncomp)]
        ver = dict(data=0, time=0, fill=0, grid=0, shift=0)
        # concrete queries: same points at two times, or two sets of points whose bytes coincide
        base = rand_pts(rng, count(rng, [4], p=0.01))
        if n == 0:
            # (the times of queries of a variable constant in time)
            hist = [h for h in hist if h["op"] != "change" or h["c"] not in ("time", "shift")]
        q0 = ax[0] or [0, 5000]
        lo, hi = max(q0[0], (ax[1] or q0)[0]), min(q0[-1], (ax[1] or q0)[-1])
        qs = {1: (base, rng.randint(lo, hi) if lo <= hi else q0[0], "arr")}
        qs[2] = rng.choice(
            [
                (base, rng.randint(q0[0], q0[-1]), "arr"),
                (base[:2], qs[1][1], "arr"),
                (base[::-1], qs[1][1], "arr"),
                (base, qs[1][1], "arr3"),
                # other points at the same time
                (rand_pts(rng, len(base)), qs[1][1], "arr"),
            ]
        )
        comp = 0 if ncomp > 1 else 1
        # grids whose nodes can be replaced
        edits = ("R", "U", "Uf")
        ops = []
        for h in hist:
            if h["op"] == "at":
                pts, t, form = qs[h["q"]]
                c = comp if rng.random() < 0.8 else rng.randint(1, ncomp)
                ops.append(at(rng, c, pts, t, h["o"] == "extrap", h["o"] == "unmask", form))
            elif h["op"] == "scribble":
                ops.append(dict(op="scribble"))
            else:
                c = h["c"]
                ver[c] = 1 - ver[c]
                d = dict(op="change", what=c, comp=comp)
                if c == "data":
                    d["comp"] = rng.randint(1, ncomp)
                    i = d["comp"] - 1
                    f = alt[i] if ver[c] else fs[i]
                    d["f"] = {k: f[k] for k in ("A", "B", "C", "gaps")}
                elif c == "time":
                    d["times"] = ax[ver[c]]
                    d["how"] = rng.choice([0, 0, 2])
                elif c == "shift":
                    # -1 h there and back, as an offset change
                    d["by"] = 3600 if ver[c] else -3600
                elif c == "fill":
                    d["fill"] = 5 * ver[c]
                elif c == "grid":
                    d["gx"] = 4 * ver[c]
                    d["edit"] = kind in edits and rng.random() < 0.4
                ops.append(d)
        return dict(kind=kind, fs=fs, ops=ops, world=world(rng), how=0 if n else rng.choice([0, 3, 4]))

    def scenarios(self, cases, rng, tier):
        hists = cases["hist"]
        cap = 1500 if tier == "quick" else 20000
        pref = {str(h[:i]) for h in hists for i in range(1, len(h))}
        hists = [h for h in hists if str(h) not in pref]
        if len(hists) > cap:
            hists = rng.sample(hists, cap)
        scns = []
        for h in hists:
            s = self.concrete(rng, h, rng.choice(KINDS), rng.choice([1, 1, 2]))
            scns.append(dict(s, src="tlc", unit=unit(rng)))
        for _ in range(250 if tier == "quick" else 4000):
            h = []
            for _ in range(rng.choice([10, 25])):
                x = rng.random()
                if x < 0.7:
                    h.append(dict(op="at", q=rng.choice([1, 2]), o=rng.choice(["plain", "extrap", "unmask"])))
                elif x < 0.85 or not h:
                    h.append(dict(op="change", c=rng.choice(["data", "time", "fill", "grid", "shift"])))
                else:
                    h.append(dict(op="scribble"))
            s = self.concrete(rng, h, rng.choice(KINDS), rng.choice([1, 2, 3]))
            # more distinct queries than the memo holds, then earlier ones again
            gx = 0
            extra = []
            pool = [(rand_pts(rng, rng.choice([2, 3]), gx), rand_time(rng, s["fs"][0]["times"])) for _ in range(12)]
            pool += [(rand_pts(rng, len(p), gx), t) for p, t in pool[:4]]
            for _ in range(20):
                p, t = rng.choice(pool)
                extra.append(at(rng, rng.randint(0 if len(s["fs"]) > 1 else 1, len(s["fs"])), p, t, True, rng.random() < 0.3, "arr"))
                if rng.random() < 0.15:
                    extra.append(dict(op="scribble"))
            s["ops"] = extra + s["ops"]
            scns.append(dict(s, src="random", unit=unit(rng)))
        return numbered(rng, scns)


CHECK = C06()
