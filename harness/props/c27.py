from vlib import Check

HOLE = -998
LOCS = ["node", "edge", "face", "boundary"]
NAMES = ["u", "v", "w", "x", "depth"]


def items(rng, n, nc, wild=True):
    x = rng.random()
    if n == 0:
        return dict(k=rng.choice(["all", "rev"]), a=[])
    if x < 0.25:
        return dict(k="int", a=[rng.randrange(-n, n) if rng.random() < 0.9 or not wild else n + rng.randrange(3)])
    if x < 0.5:
        return dict(k="slice", a=[rng.randint(0, n), rng.randint(0, n + 2), rng.choice([1, 1, 2, 3])])
    if x < 0.6:
        return dict(k=rng.choice(["all", "rev", "all"]), a=[])
    if x < 0.7:
        return dict(k="mask", a=[rng.randrange(2) for _ in range(n)])
    if nc:
        return dict(k="list", a=sorted(rng.sample(range(n), rng.randint(1, n))))
    return dict(k="list", a=[rng.randrange(-n, n) for _ in range(rng.randint(1, 6))] + ([n] if wild and rng.random() < 0.05 else []))


def twins(rng, n):
    """items whose text is alike: numpy shows only the ends of long arrays"""
    a = [rng.randrange(n) for _ in range(1100)]
    b = a[:]
    for j in rng.sample(range(10, 1090), 5):
        b[j] = (a[j] + 1 + rng.randrange(n - 1)) % n
    return [dict(k="list", a=a), dict(k="list", a=b)]


def numbers(rng, n, way):
    d = [rng.randint(-90, 90) for _ in range(n)]
    if way in ("ma", "nc") and rng.random() < 0.5:
        d = [HOLE if rng.random() < 0.3 else x for x in d]
        if way == "ma" and n and HOLE not in d:
            d[rng.randrange(n)] = HOLE
    return d


def var(rng, name, n, cls="UVar", way=None):
    way = way or rng.choice(["arr", "arr", "ma", "nc", "nc", "list"])
    if cls == "SGrid" and way == "list":
        way = "arr"
    return dict(
        op="var",
        cls=cls,
        name=name,
        loc=rng.choice(LOCS),
        back=way,
        dt=rng.choice(["f8", "f4", "i4", "i2"]),
        data=numbers(rng, n, way),
        attrs=rng.choice([None, [], [["units", "m"]], [["units", "m"], ["standard_name", "depth"]]]),
        ncattrs=rng.choice([[], [["units", "m/s"]], [["long_name", "a field"]]]),
    )


class C27(Check):
    id = "C27"
    driver = "uvar"
    trace = "UVarTrace"
    rule = (
        "histories of indexing variables and a group of them (by number, slice, list, mask) whose data are replaced, deleted or "
        "written to in between and whose answers the caller overwrites: every transition of the model TLC emits, given data in "
        "memory, with holes, or in files, and random longer histories with long lists of numbers and refused calls; non-trivial = an answer"
    )

    def models_for(self, tier):
        return (("UVarGen", "UVarGen" if tier == "quick" else "UVarGenDeep", "h", {"heap": "6g"}),)

    def play(self, rng, hist, n, long=False):
        vs = [var(rng, a, n) for a in rng.sample(NAMES, 2)]
        ops = vs + [dict(op="group", members=[1, 2], loc=rng.choice(LOCS + ["none"]), names=[v["name"] for v in vs], good=True)]
        way = [v["back"] for v in vs]
        third = not long and rng.random() < 0.3
        if third:  # and one of the staggered grids, asked the same things
            ops.append(var(rng, "s", n, "SGrid"))
        nc = "nc" in way or True
        two = twins(rng, n) if long else None
        table = {}
        if long:
            table = dict(zip("ij", two))
            table["k"] = two[0]
            for v in vs:
                v["back"], v["data"] = "arr", numbers(rng, n, "arr")
        else:
            for i in "ijk":
                table[i] = items(rng, n, nc)
        num = {"u": 1, "v": 2, "g": 0}
        forms = {i: 0 if long else rng.randrange(6) for i in "ijk"}
        for h in hist:
            k = h["op"]
            if k == "ask":
                ops.append(dict(op="ask", who=num[h["who"]], it=table[h["it"]], form=forms[h["it"]]))
                if third:
                    for _ in range(rng.choice([1, 2])):
                        ops.append(dict(op="ask", who=3, it=table[h["it"]] if rng.random() < 0.7 else dict(k="all", a=[]), form=rng.randrange(6)))
                        if rng.random() < 0.4:
                            ops.append(dict(op="scribble"))
                if rng.random() < 0.05:
                    ops.append(dict(op="info", who=rng.randint(1, 3 if third else 2)))
            elif k == "scribble":
                ops.append(dict(op="scribble"))
            else:
                w = num[h["who"]]
                if k == "del":
                    # without data for a moment
                    ops.append(dict(op="change", who=w, how="del", data=[]))
                    if rng.random() < 0.5:
                        ops.append(dict(op="ask", who=w, it=rng.choice([table["i"], dict(k="all", a=[])]), form=1))
                    ops.append(dict(op="info", who=w))
                if k == "write" and way[w - 1] != "nc":
                    ops.append(dict(op="change", who=w, how="write", at=rng.randrange(n), x=rng.randint(-90, 90)))
                else:
                    b = rng.choice(["arr", "nc", "ma", "list"]) if not long else "arr"
                    way[w - 1] = b
                    ops.append(dict(op="change", who=w, how="set", back=b, dt=rng.choice(["f8", "i4"]), data=numbers(rng, n, b)))
        return ops

    def free(self, rng):
        """refused calls, more variables in the group, variables of the staggered grids"""
        n = rng.choice([1, 3, 5, 8])
        ops, lens, names, good = [], [], [], []
        for _ in range(rng.randint(2, 5)):
            m = n if rng.random() < 0.85 else rng.choice([0, 2, 4])
            v = var(rng, rng.choice(NAMES), m, rng.choice(["UVar", "UVar", "UVar", "SGrid"]))
            if m == 0 and v["back"] in ("nc", "list"):
                v["back"] = "arr"
            if rng.random() < 0.1 and v["cls"] == "UVar":
                ops.append({**v, "loc": rng.choice(["nodes", "", "center", "none", "Node"])})
                continue
            ops.append(v)
            lens.append(m)
            names.append(v["name"])
            good.append(v["cls"] == "UVar")
        pool = [i for i in range(len(lens)) if good[i]]
        rng.shuffle(pool)
        members, rest = [], []
        for i in pool:
            (members if names[i] not in [names[j] for j in members] and (not members or lens[i] == lens[members[0]]) and len(members) < 2 else rest).append(i)
        grouped = False
        if members and rng.random() < 0.2:
            ops.append(dict(op="group", members=[members[0] + 1], loc="node", names=[names[members[0]]], good=False))
        if len(pool) > 1 and rng.random() < 0.3:
            i, j = rng.sample(pool, 2)
            if lens[i] != lens[j]:
                ops.append(dict(op="group", members=[i + 1, j + 1], loc="node", names=[names[i], names[j]], good=False))
        if len(members) == 2:
            if rng.random() < 0.1:
                ops.append(dict(op="group", members=[i + 1 for i in members], loc=rng.choice(["nodes", "center"]), names=[names[i] for i in members], good=False))
            ops.append(dict(op="group", members=[i + 1 for i in members], loc=rng.choice(LOCS + ["none"]), names=[names[i] for i in members], good=True))
            grouped = True
        inside = list(members) if grouped else []
        for _ in range(rng.randint(4, 10)):
            x = rng.random()
            who = rng.randrange(len(lens)) if lens else None
            if who is None:
                break
            if x < 0.25 and grouped:
                ops.append(dict(op="ask", who=0, it=items(rng, lens[members[0]], True), form=rng.randrange(6)))
            elif x < 0.35 and grouped and pool:
                i = rng.choice(pool)
                ok = names[i] not in [names[j] for j in inside] and lens[i] == lens[inside[0]]
                ops.append(dict(op="add", v=i + 1, name=names[i], good=ok))
                if ok:
                    inside.append(i)
                ops.append(dict(op="ask", who=0, it=items(rng, lens[members[0]], True), form=rng.randrange(6)))
            elif x < 0.45:
                ops.append(dict(op="info", who=who + 1))
            elif x < 0.55:
                ops.append(dict(op="scribble"))
            elif x < 0.65 and good[who] and who not in inside:
                lens[who] = rng.choice([1, 2, 6])
                b = rng.choice(["arr", "nc", "ma", "list"])
                ops.append(dict(op="change", who=who + 1, how="set", back=b, dt="f8", data=numbers(rng, lens[who], b)))
            else:
                ops.append(dict(op="ask", who=who + 1, it=items(rng, lens[who], True), form=rng.randrange(6)))
        return ops

    def scenarios(self, cases, rng, tier):
        hists = cases["h"]
        pref = {str(h[:i]) for h in hists for i in range(1, len(h))}
        hists = [h for h in hists if str(h) not in pref]
        cap = 1500 if tier == "quick" else 15000
        if len(hists) > cap:
            hists = rng.sample(hists, cap)
        scns = [dict(src="tlc", ops=self.play(rng, h, rng.choice([3, 6, 11]))) for h in hists]
        for h in rng.sample(hists, 40 if tier == "quick" else 300):
            scns.append(dict(src="tlc", ops=self.play(rng, h, 20, True)))
        for _ in range(500 if tier == "quick" else 6000):
            scns.append(dict(src="random", ops=self.free(rng)))
        return scns

    def nontrivial(self, line):
        return line["ev"] in ("ask", "info")


CHECK = C27()
