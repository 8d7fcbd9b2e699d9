from vlib import Check

NONE = -1000000
# microseconds per tick of the clock of the specification
UNITS = [1000000, 1000000, 250000, 3600000]
OFFS = [NONE, 0, -28800, 19800, 3600, -12600, 43200]


class TimeCheck(Check):
    driver = "time_obj"
    trace = "TimeTrace"
    mix = ()
    rule = (
        "scenario = sequence of constructions and changes of two Time objects and two arrays of the caller; every "
        "transition TLC found within the constants of the model, plus random longer sequences; each line is one call "
        "with the complete projected state after it; non-trivial = the call constructs, changes or rejects something"
    )

    def models_for(self, tier):
        if self.models:
            return self.models
        return (("TimeGen", "TimeGen" if tier == "quick" else "TimeGenDeep", "hist", {"heap": "6g"}),)

    @staticmethod
    def new(slot, src, frm, data=(), tz=NONE, newtz=NONE, origin=NONE, disp=NONE):
        return dict(
            op="new", slot=slot, src=src, data=list(data), tz=tz, newtz=newtz, origin=origin, disp=disp, **{"from": frm}
        )

    @staticmethod
    def axis(rng, k, ok=1.0):
        d = [rng.choice([0, 0, -3600, 86400, 1800])]
        for _ in range(k - 1):
            d.append(d[-1] + rng.choice([1, 60, 900, 3600, 7200, 5400, 1801]))
        if rng.random() >= ok and k > 1:
            i = rng.randrange(k - 1)
            d[i + 1] = d[i] if rng.random() < 0.5 else d[i] - 60
        return d

    def scenarios(self, cases, rng, tier):
        hists = cases["hist"]
        keys = {str(h) for h in hists}
        pref = {str(h[:i]) for h in hists for i in range(1, len(h))}
        hists = [h for h in hists if str(h) not in pref]
        assert keys
        cap = 6000 if tier == "quick" else 60000
        if len(hists) > cap:
            hists = rng.sample(hists, cap)
        scns = [dict(src="tlc", ops=h, unit=rng.choice(UNITS)) for h in hists]
        for _ in range(800 if tier == "quick" else 10000):
            scns.append(self.random_scn(rng))
        for _ in range(80 if tier == "quick" else 1000):
            scns.append(self.twins(rng))
        return scns

    def twins(self, rng):
        """two axes that differ in little: a time inside, an end, the offset, one time more"""
        a = self.axis(rng, rng.choice([1, 3, 4, 6, 6, 12, 150]))
        b = list(a)
        what = rng.choice(["same", "inside", "inside", "end", "start", "more", "offset"])
        if what == "inside" and len(a) > 2:
            gaps = [i for i in range(1, len(a) - 1) if a[i + 1] - a[i] > 1]
            if gaps:
                b[rng.choice(gaps)] += 1
        elif what == "end":
            b[-1] += 1
        elif what == "start":
            b[0] -= 1
        elif what == "more":
            b.append(b[-1] + 60)
        tz = rng.choice(OFFS)
        t2 = rng.choice(OFFS) if what == "offset" else tz
        ops = [dict(op="arrays", a=a, b=b), self.new(1, "arr", 1, tz=tz), self.new(2, "arr", 2, tz=t2)]
        for s in rng.sample([1, 2], rng.choice([0, 1, 2])):
            ops.append(dict(op="settz", slot=s, v=rng.choice([NONE, 0, 3600])))
        if rng.random() < 0.3:
            ops.append(dict(op="setdata", slot=2, src="time", data=[], **{"from": 1}))
        return dict(src="random", ops=ops, unit=rng.choice(UNITS))

    def random_scn(self, rng):
        big = rng.random() < 0.01
        a, b = self.axis(rng, rng.choice([70, 150, 400]) if big else rng.randint(1, 6), 0.85), self.axis(rng, rng.randint(1, 4))
        ops = [dict(op="arrays", a=a, b=b)]
        live = {}
        arrs = {1: list(a), 2: list(b)}

        def asc(d):
            return all(x < y for x, y in zip(d, d[1:]))

        def mk(s):
            src = rng.choice(["arr", "arr", "list", "tuple"] + (["time"] if live else []))
            frm = rng.choice(list(live)) if src == "time" else rng.choice([1, 2])
            data = self.axis(rng, rng.randint(1, 6), 0.9) if src in ("list", "tuple") else []
            tz = rng.choice(OFFS)
            nt = rng.choice(OFFS) if rng.random() < 0.4 else NONE
            og = rng.choice([NONE, NONE, 7200, -100])
            di = rng.choice([NONE, NONE, 5400, 0, -3600, 90061])
            ops.append(self.new(s, src, frm, data, tz, nt, og, di))
            d = data if src in ("list", "tuple") else (arrs[frm] if src == "arr" else [0])
            if asc(d) and (nt == NONE or tz != NONE):
                live[s] = True

        mk(1)
        for _ in range(rng.randint(3, 12)):
            k = rng.choice(self.mix)
            s = rng.choice([1, 2])
            if k == "new" or not live.get(s):
                mk(s)
            elif k == "settz":
                ops.append(dict(op="settz", slot=s, v=rng.choice(OFFS)))
            elif k == "setdisp":
                ops.append(dict(op="setdisp", slot=s, v=rng.choice([NONE, 5400, 0, -3600, 90061]), kind="td"))
                if rng.random() < 0.5:
                    ops[-1].update(v=rng.choice([5400, -3600, 7200]), kind="hours")
            elif k == "setdata":
                frm = rng.choice([1, 2])
                if asc(arrs[frm]):
                    ops.append(dict(op="setdata", slot=s, src="arr", data=[], **{"from": frm}))
                elif len(live) == 2:
                    ops.append(dict(op="setdata", slot=s, src="time", data=[], **{"from": 3 - s}))
            elif k == "poke":
                frm = rng.choice([1, 2])
                i = rng.randint(1, len(arrs[frm]))
                v = rng.choice([-7200, 100, 5000])
                arrs[frm][i - 1] = v
                ops.append(dict(op="poke", i=i, v=v, **{"from": frm}))
            elif k == "pokecopy":
                ops.append(dict(op="pokecopy", slot=s))
        return dict(src="random", ops=ops, unit=rng.choice(UNITS))

    def nontrivial(self, line):
        return line["ev"] not in ("arrays", "pokecopy")
