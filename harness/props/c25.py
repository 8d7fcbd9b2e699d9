from vlib import Check

# vectors whose length is a whole number of quarters
TRIPLES = [(3, 4), (5, 12), (8, 15), (0, 7), (20, 21), (6, 8), (0, 0), (9, 40)]
EXTRA = dict(none=0, low=1, high=1, both=2)


def val(rng, masked):
    return None if masked and rng.random() < 0.2 else 4 * rng.randint(-9, 9) if rng.random() < 0.5 else rng.randint(-40, 40)


def shape(rng):
    if rng.random() < 0.01:
        return rng.choice([[300], [20, 30], [3, 10, 10]])
    return rng.choice([[1], [3], [7], [2, 3], [3, 2], [1, 4], [2, 2], [2, 2, 3], [0], [3, 1, 2]])


def size(sh):
    n = 1
    for x in sh:
        n *= x
    return n


def lay(rng):
    return rng.choice(["C", "C", "F", "strided", "readonly", "ma"])


def turns(rng, cs):
    sh = shape(rng)
    n = size(sh)
    m = rng.random() < 0.4
    c = [rng.choice(cs) for _ in range(n)]
    x, y = [val(rng, m) for _ in range(n)], [val(rng, m) for _ in range(n)]
    for i in range(n):
        if rng.random() < 0.5:
            x[i], y[i] = 4 * c[i]["v"][0][0], 4 * c[i]["v"][1][0]
    return dict(k="turn", shape=sh, x=x, y=y, a=[q["a"] for q in c], dt="f8", lay=lay(rng))


def sums(rng):
    sh = shape(rng)
    x, y = [], []
    m = rng.random() < 0.4
    # short integers whose squares are no short integers
    big = rng.choice([50, 300, 600]) if rng.random() < 0.3 else 1
    for _ in range(size(sh)):
        a, b = rng.choice(TRIPLES)
        a, b = a * big, b * big
        if rng.random() < 0.5:
            a, b = b, a
        a, b = a * rng.choice([1, -1]) * 4, b * rng.choice([1, -1]) * 4
        x.append(None if m and rng.random() < 0.2 else a)
        y.append(None if m and rng.random() < 0.2 else b)
    dt = rng.choice(["f8", "f8", "f4", "i8", "i4", "i2"])
    return dict(k="sum", shape=sh, x=x, y=y, dt=dt, dty=rng.choice([dt, dt, "f8", "i4"]), lay=lay(rng))


def pairs(rng):
    sh = shape(rng)
    n = size(sh)
    dt, dty = rng.choice(["f8", "f4", "i4"]), rng.choice(["f8", "f4", "i4"])
    x, y = ([(4 if d == "i4" else 1) * rng.randint(-99, 99) for _ in range(n)] for d in (dt, dty))
    return dict(k="pair", shape=sh, x=x, y=y, dt=dt, dty=dty, lay=lay(rng))


def avg(rng, c):
    dt = rng.choice(["f8", "f8", "f4", "i4", "i2", "i1"])
    m = rng.random() < 0.4
    # short integers whose sum is no short integer
    big = 1 if rng.random() < 0.6 else dict(i1=3, i2=800).get(dt, 1)
    t = [[None if m and rng.random() < 0.2 else big * (4 if dt[0] == "i" else 1) * rng.randint(-40, 40) for _ in range(c["n"])] for _ in range(c["m"])]
    return dict(k="avg", t=t, ax=c["ax"], dt=dt, lay=lay(rng))


def bears(rng, cs, n):
    c = [rng.choice(cs) for _ in range(n)]
    f = rng.choice([0, 360]) if rng.random() < 0.2 else 0
    return dict(k="bear", p=[[q["p"][0] + f, q["p"][1]] for q in c], q=[q["q"] for q in c], dt=rng.choice(["f8", "f8", "i8"]), rows=rng.random() < 0.3)


def polys(rng, cs):
    m = rng.choice([3, 4])
    P = [c["poly"] for c in cs if len(c["poly"]) == m]
    n = rng.choice([1, 5, 20, 60, 60, 300])
    return dict(
        k="poly",
        polys=[rng.choice(P) for _ in range(n)],
        pts=[[rng.randint(-1, 5), rng.randint(-1, 5)] for _ in range(n)],
        two=rng.random() < 0.4,
        lay=lay(rng),
        sc=rng.choice([0, 0, -9, 7]),
        far=rng.choice([0, 0, 1024, -121]),
    )


def wide(rng):
    """polygons of more corners"""
    m = rng.choice([5, 6, 8])
    n = rng.choice([1, 10, 30])
    r = lambda: [rng.randint(-6, 6), rng.randint(-6, 6)]  # noqa: E731
    return dict(k="poly", polys=[[r() for _ in range(m)] for _ in range(n)], pts=[r() for _ in range(n)], two=rng.random() < 0.4, lay=lay(rng), sc=0, far=0)


# names of dimensions along x and y: nodes, faces, edges of the two kinds
NAMES = [
    "xi_psi eta_psi xi_rho eta_rho xi_u eta_u xi_v eta_v",
    "x_psi y_psi x y x_u y_u x_v y_v",
    "x y x_rho y_rho x_u y_u x_v y_v",
    "psi_x psi_y x y u_x u_y v_x v_y",
    "i j ic jc ie1 je1 ie2 je2",
    "MMAX NMAX MMAXZ NMAXZ MMAXU NMAXU MMAXV NMAXV",
    "y x yc xc yu xu yv xv",
    "n1 n2 n n3 e1 e e3 e4",
    "time_x time_y ocean_x ocean_y ocean_time_u ocean oce ean_time",
    # edges along the dimensions of nodes and faces
    "xi_psi eta_psi xi_rho eta_rho xi_psi eta_rho xi_rho eta_psi",
    "x_node y_node x y x_node y x y_node",
    "x y x_face y_face x y_face x_face y",
]


def dims(rng):
    names = rng.choice(NAMES).split()
    return dict(names=names, edges=len(set(names)) == 8 or rng.random() < 0.7)


def field(rng, c, cs):
    n = [rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4])]
    e1, e2 = EXTRA[c["p1"]], EXTRA[c["p2"]]
    m = rng.random() < 0.4
    tab = lambda a, b: [[val(rng, m) for _ in range(b)] for _ in range(a)]  # noqa: E731
    one = rng.choice(cs)["a"]
    return dict(
        k="field",
        p1=c["p1"],
        p2=c["p2"],
        t=c["t"],
        n=n,
        u=[tab(n[0] + e2, n[1] + 1) for _ in range(max(1, c["t"]))],
        v=[tab(n[0] + 1, n[1] + e1) for _ in range(max(1, c["t"]))],
        ang=[[one if c["t"] == 1 else rng.choice(cs)["a"] for _ in range(n[1] + e1)] for _ in range(n[0] + e2)],
        dt=rng.choice(["f8", "f4"]),
        **dims(rng),
    )


class C25(Check):
    id = "C25"
    driver = "vec"
    trace = "VecTrace"
    models = (("VecGen", "VecGen", "v"),)
    rule = (
        "turns, polygons, bearings, tables and paddings of files from TLC, put together in arrays of every shape, type and layout, "
        "masked or not; further polygons of more corners at random; non-trivial = the call gave an answer"
    )

    def scenarios(self, cases, rng, tier):
        by = {}
        for c in cases["v"]:
            by.setdefault(c["k"], []).append(c)
        scns = []
        for _ in range(2 if tier == "quick" else 60):
            ops = [field(rng, c, by["turn"]) for c in by["field"]] + [avg(rng, c) for c in by["avg"]]
            ops += [turns(rng, by["turn"]) for _ in range(80)] + [sums(rng) for _ in range(60)] + [pairs(rng) for _ in range(40)]
            ops += [bears(rng, by["bear"], rng.choice([1, 2, 5, 30])) for _ in range(60)]
            ops += [polys(rng, by["poly"]) for _ in range(100)] + [wide(rng) for _ in range(30)]
            rng.shuffle(ops)
            scns += [dict(src="tlc", ops=ops[i : i + 6]) for i in range(0, len(ops), 6)]
        return scns

    def nontrivial(self, line):
        return line["out"] == "ok"


CHECK = C25()
