"""Queries, changes and derived arrays of real unstructured grids (UGrid / Grid_U)."""

import numpy as np

from obs import World, dt, guard, rat, rats


def ints(a):
    """2-D array of whole numbers, or -999 where it is something else"""

    def one(x):
        if x is np.ma.masked:
            return -998
        f = float(x)
        return int(f) if f == int(f) and abs(f) < 10**6 else -999

    return [[one(x) for x in row] for row in a]


def ragged(a):
    """the rows of a table of a flexible mesh, without the entries missing at their ends"""
    out = ints(a)
    for r in out:
        while r and r[-1] == -998:
            r.pop()
    return out


def shape_of(r):
    o, s = guard(lambda: [int(x) for x in np.shape(r)])
    return s if o == "ok" else [-1]


def index_list(r, n):
    o, idx = guard(lambda: [int(x) for x in np.asarray(r).reshape(-1)])
    return idx if o == "ok" and len(idx) == n else [-999] * n


def run(scn, log):
    from gridded import Grid_U, Variable

    g = [None]
    cur = {"nodes": [], "faces": []}
    last = [None]
    mine = []  # every array the caller handed over, with a copy

    world = World(scn.get("world"))

    def given(kind, vals):
        """the caller's own array for nodes or faces, in the form asked for"""
        form = scn.get("form", "arr")
        if kind == "nodes":
            a = world.of(vals)
        else:
            w = max(len(f) for f in vals)
            if any(len(f) < w for f in vals):
                # a flexible mesh: anything may be under the mask
                a = np.ma.array([f + [scn.get("under", -999)] * (w - len(f)) for f in vals], dtype=scn.get("idt", "i4"), mask=[[j >= len(f) for j in range(w)] for f in vals])
                return a
            a = np.array(vals, dtype=scn.get("idt", "i4"))
            if scn.get("under"):
                return np.ma.array(a)
        return a.tolist() if form == "list" else a

    def untouched():
        return all(np.array_equal(np.asarray(a), b) for a, b in mine)

    def observed():
        o1, f = guard(lambda: ragged(g[0].faces))
        o2, n = guard(lambda: ints(world.back(g[0].nodes)))
        return f if o1 == "ok" else [], n if o2 == "ok" else []

    def kept():
        """what the mesh still knows of its faces and edges"""
        r = {}
        for n, a in (("faces", "faces"), ("edges", "edges"), ("bounds", "boundaries"), ("ff", "face_face_connectivity"), ("fe", "face_edge_connectivity")):
            o, v = guard(lambda: [] if getattr(g[0], a) is None else ragged(getattr(g[0], a)))
            r[n] = v if o == "ok" else [[-997]]
        return r

    for op in scn["ops"]:
        k = op["op"]
        if k in ("make", "setnodes", "setfaces"):
            if k == "setnodes":
                n, f = op["nodes"], cur["faces"]
            elif k == "setfaces":
                n, f = cur["nodes"], op["faces"]
            else:
                n, f = op["nodes"], op["faces"]
            nn = given("nodes", n)
            ff = given("faces", f) if f else None
            keepn, keepf = np.array(nn, copy=True), None if ff is None else np.array(ff, copy=True)

            def do():
                if k == "make":
                    if scn.get("lonlat"):
                        arr = np.asarray(nn)
                        g[0] = Grid_U(node_lon=arr[:, 0], node_lat=arr[:, 1], faces=ff)
                    else:
                        g[0] = Grid_U(nodes=nn, faces=ff)
                elif k == "setnodes":
                    g[0].nodes = nn
                else:
                    g[0].faces = ff

            out, _r = guard(do)
            mine.append((nn, keepn))
            if ff is not None:
                mine.append((ff, keepf))
            same = untouched()
            got, gotn = observed() if out == "ok" else ([], [])
            log("make", nodes=n, faces=f, out=out, got=got, gotnodes=gotn, kept=kept(), same=bool(same))
            if out == "ok":
                cur["nodes"] = n
                cur["faces"] = got
            elif k == "make":
                return
            continue
        if k in ("delfaces", "delnodes"):
            guard(lambda: delattr(g[0], k[3:]))
            o, r = guard(lambda: g[0].locate_faces(world.of([[1.0, 1.0]])))
            o2, n = guard(lambda: [int(len(g[0].nodes))])
            log("gone", what=k[3:], out=o, kept=kept(), left=n if o2 == "ok" else [-1], same=bool(untouched()))
            cur["faces"] = []
            continue
        if k == "scribble":

            def scrib():
                last[0][...] = -5

            guard(scrib)
            continue
        if k == "infer":
            out, loc = guard(lambda: g[0].infer_location(np.zeros(op["lead"] + [op["size"]])))
            o2, nb = guard(lambda: -1 if g[0].boundaries is None else len(g[0].boundaries))
            log("infer", out=out, size=op["size"], nb=nb if o2 == "ok" else -1, loc="none" if loc is None else str(loc), same=True)
            continue
        if k == "topo":

            def topo():
                u = g[0]
                if op.get("given"):
                    # the caller's own edges: other order, other way round
                    u.build_edges()
                    e = np.array(u.edges)
                    key = [(op["given"] * (i + 3) * 7919) % 101 for i in range(len(e))]
                    e = e[np.argsort(key, kind="stable")]
                    flip = np.array(key) % 2 == 1
                    e[flip] = e[flip][:, ::-1]
                    u.edges = e
                    mine.append((e, e.copy()))
                    u.build_face_edge_connectivity()
                    u.build_face_face_connectivity()
                    u.build_boundaries()
                elif op.get("order"):
                    u.build_boundaries()
                    u.build_edges()
                    u.build_face_edge_connectivity()
                    u.build_face_face_connectivity()
                else:
                    u.build_edges()
                    u.build_face_face_connectivity()
                    u.build_face_edge_connectivity()
                    u.build_boundaries()
                u.build_face_coordinates()
                u.build_edge_coordinates()
                u.build_boundary_coordinates()

                def coords(a):
                    # a closed surface has no boundaries
                    return [[rat(x) for x in row] for row in world.back(a)] if len(a) else []

                return dict(
                    edges=ints(u.edges),
                    bounds=ints(u.boundaries),
                    ff=ragged(u.face_face_connectivity),
                    fe=ragged(u.face_edge_connectivity),
                    fcoord=coords(u.face_coordinates),
                    ecoord=coords(u.edge_coordinates),
                    bcoord=coords(u.boundary_coordinates),
                    lines=[ints(world.back(x)) for x in u.get_lines()],
                )

            out, r = guard(topo)
            if out != "ok":
                r = dict(edges=[], bounds=[], ff=[], fe=[], fcoord=[], ecoord=[], bcoord=[], lines=[])
            f, n = observed()
            log("topo", out=out, same=bool(f == cur["faces"] and n == cur["nodes"] and untouched()), **r)
            continue
        if k == "edges":
            # the edges are replaced, built again or dropped after the edges of the faces were built

            def edit():
                u = g[0]
                want = []
                if op["how"] in ("set", "list"):
                    e = np.array(u.edges)
                    key = [(op["given"] * (i + 3) * 7919) % 101 for i in range(len(e))]
                    e = e[np.argsort(key, kind="stable")]
                    flip = np.array(key) % 2 == 1
                    e[flip] = e[flip][:, ::-1]
                    want = ints(e)
                    u.edges = e if op["how"] == "set" else e.tolist()
                    mine.append((e, e.copy()))
                elif op["how"] == "build":
                    u.build_edges()
                elif op["how"] == "none":
                    u.edges = None
                else:
                    del u.edges
                return want, [] if u.edges is None else ints(u.edges), [] if u.face_edge_connectivity is None else ragged(u.face_edge_connectivity)

            out, r = guard(edit)
            want, e, fe = r if out == "ok" else ([], [], [])
            log("edges", how=op["how"], out=out, want=want, edges=e, fe=fe, same=bool(untouched()))
            continue
        # queries
        pts = world.of(np.array(op["pts"], dtype=float).reshape(-1, 2) / 4.0)
        single = op["form"] == "single"
        npt = 1 if single else len(pts)
        arg = pts[0] if single else (pts.tolist() if op["form"] == "list" else pts)
        used = op["pts"][:npt]
        before = np.array(arg, copy=True)
        if k in ("locate", "nearest"):

            def loc():
                if k == "nearest":
                    return g[0].locate_nodes(arg)
                if op.get("how") == "index_of":
                    return g[0].index_of(arg)
                if op.get("how") == "simple":
                    return g[0].locate_faces(arg, method="simple")
                return g[0].locate_faces(arg)

            out, r = guard(loc)
            want = [] if single else [npt]
            sh = shape_of(r) if out == "ok" else []
            idx = index_list(r, npt) if out == "ok" and sh == want else []
            last[0] = r
            log(k, pts=used, out=out, shape=sh, wantshape=want, idx=idx, same=bool(np.array_equal(before, np.asarray(arg)) and untouched()))
        elif k == "alphas":
            arr = np.asarray(arg, dtype=float).reshape(-1, 2)
            how = op.get("given")

            def weights():
                if how:
                    return g[0].interpolation_alphas(arr, g[0].locate_faces(arr, **({"method": "simple", "_memo": False} if how == "simple" else {})), **({"_memo": False} if how == "nomemo" else {}))
                return g[0].interpolation_alphas(arr)

            out, r = guard(weights)
            want = [npt, 3]
            sh = shape_of(r) if out == "ok" else []
            vals = [rats(row) for row in r] if out == "ok" and sh == want else []
            last[0] = r
            log(k, pts=used, out=out, shape=sh, wantshape=want, vals=vals, same=bool(np.array_equal(before, np.asarray(arg)) and untouched()))
        elif k == "interp":
            data = np.array(op["data"], dtype=op.get("ddtype", "f8"))
            miss = op.get("miss") or []
            if miss and op["mkind"] == "nan":
                data[miss] = np.nan
            elif miss:
                data = np.ma.array(data)
                data[miss] = np.ma.masked
            full, slices = data, None
            if op["lead"]:
                full = (np.ma.stack if miss and op["mkind"] == "mask" else np.stack)([data if i == op["k"] else data * 0 - 99 for i in range(op["lead"])])
                slices = (op["k"],)
            cols = op.get("cols") and op["via"] == "grid" and not op.get("infer")
            if cols:  # more than one value at each node or face
                full = np.ma.stack([full, full * -2], axis=-1) if np.ma.isMA(full) else np.stack([full, full * -2], axis=-1)
            vkeep = full.copy()
            kw = {} if slices is None else {"slices": slices}
            if not op.get("infer"):
                kw["location"] = op["loc"]
            if op["via"] == "grid":
                if op.get("given"):
                    o, ind = guard(lambda: g[0].locate_faces(np.asarray(arg, dtype=float).reshape(-1, 2)))
                    if o == "ok":
                        kw["indices"] = ind
                out, r = guard(lambda: g[0].interpolate_var_to_points(arg, full, **kw))
                want = [npt, 2] if cols else [npt]
            else:

                def ask():
                    v = Variable(
                        name="v",
                        data=full,
                        grid=g[0],
                        location=None if op.get("infer") else op["loc"],
                        time=[dt(3600 * i) for i in range(op["lead"])] if op["lead"] else None,
                    )
                    return v.at(arg, dt(3600 * op["k"]))

                out, r = guard(ask)
                want = [npt, 1]
            sh = shape_of(r) if out == "ok" else []
            vals = rats(r if not cols else r[:, 0]) if out == "ok" and sh == want else []
            if cols and vals:
                vals = [a if a == b else [-7, 11] for a, b in zip(vals, rats(r[:, 1] / -2))]
            last[0] = r
            log(
                k,
                pts=used,
                loc=op["loc"],
                data=op["data"],
                miss=miss,
                mark=dict(nan=[2, 0], mask=[1, 0])[op["mkind"]] if miss else [0, 0],
                out=out,
                shape=sh,
                wantshape=want,
                vals=vals,
                same=bool(
                    np.array_equal(before, np.asarray(arg))
                    and np.array_equal(np.ma.filled(vkeep, 555), np.ma.filled(full, 555), equal_nan=True)
                    and untouched()
                ),
            )


