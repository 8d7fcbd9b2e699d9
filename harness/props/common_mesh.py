from vlib import Check

LATTICE = [[2 * (k % 3), 2 * (k // 3)] for k in range(9)]
# whole-number maps of the plane (applied to nodes and points alike); some turn faces over
MAPS = [
    (1, 0, 0, 1, 0, 0),
    (1, 0, 0, 1, -7, 3),
    (2, 0, 1, 1, 0, 0),
    (1, 1, 0, 1, 5, -40),
    (-1, 0, 0, 1, 0, 0),
    (0, 1, 1, 0, 2, 2),
    (3, 1, -1, 2, 0, 0),
    (1, 2, -1, 1, -3, 1),
]


def tr(m, p, scale=1):
    a, b, c, d, e, f = m
    return [a * p[0] + b * p[1] + scale * e, c * p[0] + d * p[1] + scale * f]


def rotate(rng, face, flip=True):
    r = rng.randrange(len(face))
    f = face[r:] + face[:r]
    return f[::-1] if flip and rng.random() < 0.5 else f


def renumber(rng, nodes, faces):
    """the same mesh with the nodes and the faces in another order"""
    perm = list(range(len(nodes)))
    rng.shuffle(perm)
    nn = [None] * len(nodes)
    for i, p in enumerate(perm):
        nn[p] = nodes[i]
    ff = [rotate(rng, [perm[v] for v in f]) for f in faces]
    rng.shuffle(ff)
    return nn, ff


def lattice_points(rng, m, n, s=1):
    """points in quarters: inside, on nodes, on sides, outside the lattice, mapped"""
    out = []
    for _ in range(n):
        x = rng.random()
        if x < 0.5:
            p = [rng.randint(0, 16), rng.randint(0, 16)]
        elif x < 0.65:
            p = [8 * rng.randint(0, 2), 8 * rng.randint(0, 2)]
        elif x < 0.8:
            p = [8 * rng.randint(0, 2), rng.randint(0, 16)]
        else:
            p = [rng.randint(-9, 25), rng.randint(-9, 25)]
        if s > 1:
            p = [v * s + rng.choice([0, 0, 1, -1, 2, 3]) for v in p]
        out.append(tr(m, p, 4))
    return out


def irregular(rng, n, R=20):
    """a mesh of triangles of all sizes and shapes, by putting nodes into triangles; at times with holes"""
    nodes = [[0, 0], [R, 0], [R, R], [0, R]]
    faces = [[0, 1, 2], [0, 2, 3]]

    def twice(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

    for _ in range(20 * n):
        if len(faces) >= n:
            break
        f = rng.choice(faces)
        a, b, c = (nodes[v] for v in f)
        p = [rng.randint(min(a[i], b[i], c[i]), max(a[i], b[i], c[i])) for i in (0, 1)]
        if min(twice(a, b, p), twice(b, c, p), twice(c, a, p)) <= 0:
            continue
        k = len(nodes)
        nodes.append(p)
        faces.remove(f)
        faces += [[f[0], f[1], k], [f[1], f[2], k], [f[2], f[0], k]]
        # turn the diagonal of some quadrilateral
        if rng.random() < 0.5:
            g, h = rng.choice(faces), rng.choice(faces)
            sh = set(g) & set(h)
            if len(sh) == 2:
                u = (set(g) - sh).pop()
                v = (set(h) - sh).pop()
                i = g.index(u)
                s, t = g[(i + 1) % 3], g[(i + 2) % 3]
                if twice(nodes[u], nodes[s], nodes[v]) > 0 and twice(nodes[u], nodes[v], nodes[t]) > 0:
                    faces.remove(g)
                    faces.remove(h)
                    faces += [[u, s, v], [u, v, t]]
    if rng.random() < 0.4:
        faces = rng.sample(faces, max(1, (2 * len(faces)) // 3))
    return nodes, faces


def big(rng, nx, ny):
    """a lattice of nx by ny cells with diagonals either way, and holes"""
    nodes = [[2 * i, 2 * j] for j in range(ny + 1) for i in range(nx + 1)]
    faces = []
    for j in range(ny):
        for i in range(nx):
            a, b, c, d = j * (nx + 1) + i, j * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i
            if rng.random() < 0.05:
                continue
            faces += [[a, b, c], [a, c, d]] if rng.random() < 0.5 else [[a, b, d], [b, c, d]]
    return nodes, faces


def halved(rng, quads):
    """some of the quadrilaterals cut in two triangles"""
    out = []
    for a, b, c, d in quads:
        out += rng.choice([[[a, b, c, d]], [[a, b, c], [a, c, d]], [[a, b, d], [b, c, d]]])
    return out


def under(rng):
    """what stands where a face has no node; 0 also where no face lacks one: no mask then"""
    return rng.choice([0, 0, -999, -1, 999999, 3])


def spread(rng, nodes, faces, n):
    """points in quarters on such a mesh: at nodes, near nodes, inside of faces, anywhere"""
    xs, ys = [p[0] for p in nodes], [p[1] for p in nodes]
    out = []
    for _ in range(n):
        x = rng.random()
        a = rng.choice(nodes)
        if x < 0.2:
            p = [4 * a[0], 4 * a[1]]
        elif x < 0.4:
            p = [4 * a[0] + rng.randint(-2, 2), 4 * a[1] + rng.randint(-2, 2)]
        elif x < 0.6:
            f = rng.choice(faces)
            p = [sum(nodes[v][i] for v in f) * 4 // len(f) for i in (0, 1)]
        else:
            p = [rng.randint(4 * min(xs) - 3, 4 * max(xs) + 3), rng.randint(4 * min(ys) - 3, 4 * max(ys) + 3)]
        out.append(p)
    return out


def seams(rng, nodes, faces, n):
    """points in quarters on the sides of faces: halfway, at a quarter, at the ends"""
    out = []
    for _ in range(n):
        f = rng.choice(faces)
        k = rng.randrange(len(f))
        a, b, t = nodes[f[k]], nodes[f[k - 1]], rng.choice([0, 1, 2, 2, 3])
        out.append([(4 - t) * a[i] + t * b[i] for i in (0, 1)])
    return out


def data(rng, n):
    return [rng.randint(-9, 9) for _ in range(n)]


def form(rng):
    return rng.choice(["arr", "arr", "list", "single"])


def query(rng, kind, nn, nf, pts, quad=False):
    f = form(rng)
    if kind == "locate":
        return dict(op="locate", pts=pts, form=f, how=rng.choice(["", "", "index_of"] + ([] if quad else ["simple"])))
    if kind in ("nearest", "alphas"):
        return dict(op=kind, pts=pts, form=f, given=rng.choice(["", "", "", "memo", "nomemo"] + ([] if quad else ["simple"])))
    loc = kind
    lead = rng.choice([0, 0, 1, 3])
    n = nn if loc == "node" else nf
    # data missing here and there, often in the last ones
    miss = rng.sample(range(n), rng.randint(1, max(1, n // 3))) if rng.random() < 0.25 else []
    if miss and rng.random() < 0.7:
        miss = sorted({*miss, n - 1})
    return dict(
        miss=miss,
        mkind=rng.choice(["nan", "mask"]),
        op="interp",
        loc=loc,
        data=data(rng, nn if loc == "node" else nf),
        pts=pts,
        form=f,
        lead=lead,
        k=rng.randrange(max(1, lead)),
        via=rng.choice(["grid", "grid", "var"]),
        infer=nn != nf and rng.random() < 0.3,
        ddtype=rng.choice(["f8", "f8", "f4"]),
        cols=rng.random() < 0.15,
        given=rng.random() < 0.15,
    )


class MeshCheck(Check):
    driver = "mesh"
    trace = "MeshTrace"
