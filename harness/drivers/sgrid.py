"""Queries of real staggered grids (gridded Grid_S / pysgrid SGrid) and of variables on them."""

from fractions import Fraction

import numpy as np

from obs import dress, dt, guard, rats

ALIAS = {
    "node": ["node", "nodes", "psi", "vertex", "points"],
    "center": ["center", "face", "faces", "cell", "centers"],
    "edge1": ["edge1", "u"],
    "edge2": ["edge2", "v"],
}


def shape_of(r):
    o, s = guard(lambda: [int(x) for x in np.shape(r)])
    return s if o == "ok" else [-1]


def position(nodes, w):
    """exact position (fractions) of a point given as cell and quarters in it"""
    r, c, fx, fy = w
    x = y = Fraction(0)
    for a in (0, 1):
        for b in (0, 1):
            k = Fraction((fx if b else 4 - fx) * (fy if a else 4 - fy), 16)
            x += k * nodes[r + a][c + b][0]
            y += k * nodes[r + a][c + b][1]
    return x, y


def ints(r):
    return [[int(x) for x in row] for row in np.ma.filled(np.ma.asarray(r), -1).reshape(-1, 2)]


class Lab:
    """one grid"""

    def __init__(self, scn):
        from gridded.grids import Grid_S
        from gridded.pysgrid.sgrid import SGrid

        g = self.g = scn["g"]
        self.nodes = g["nodes"]
        sc, bx, by = scn["scale"], scn["base"][0], scn["base"][1]
        self.tr = lambda x, y: (bx + sc * float(x), by + sc * float(y))
        R, C = len(self.nodes), len(self.nodes[0])
        xy = np.array([[self.tr(*p) for p in row] for row in self.nodes])
        a = self.arrays = {}
        a["node_lon"], a["node_lat"] = xy[..., 0].copy(), xy[..., 1].copy()
        if scn.get("maskedcoord"):
            a["node_lon"], a["node_lat"] = np.ma.array(a["node_lon"]), np.ma.array(a["node_lat"])
        for loc in ("center", "edge1", "edge2"):
            m = scn["coords"].get(loc)
            if m:
                q = np.array([[self.tr(*p) for p in row] for row in m])
                a[loc + "_lon"], a[loc + "_lat"] = q[..., 0].copy(), q[..., 1].copy()
        if g["cmask"]:
            a["center_mask"] = np.array(g["cmask"], dtype=scn.get("mdtype", "bool"))
        if g["nmask"]:
            a["node_mask"] = np.array(g["nmask"], dtype=scn.get("mdtype", "bool"))
        for name in a:
            if name.endswith(("_lon", "_lat")) and not np.ma.isMA(a[name]):
                a[name] = dress(a[name], scn.get("rep", "f8"))
        kw = dict(a)
        n = lambda p: tuple(None if (x == "none" and scn.get("nonepad")) else x for x in p)
        for name, key in (("face_padding", "fpad"), ("node_padding", "npad"), ("edge1_padding", "e1pad"), ("edge2_padding", "e2pad")):
            if g[key]:
                kw[name] = n(g[key])
        if scn["beh"] != "default":
            kw["masked_interpolant_behavior"] = scn["beh"]
        self.beh = "zero" if scn["beh"] == "default" else scn["beh"]
        self.keep = {k: np.array(v, copy=True) for k, v in a.items()}
        cls = Grid_S if scn["cls"] == "Grid_S" else SGrid
        self.out, self.grid = guard(lambda: cls(**kw))

    def points(self, op):
        """-> float points; op['pts'] are witnesses, those with r < 0 carry their position in sixteenths"""
        res = []
        for w, p in zip(op["pts"], op["at16"]):
            x, y = (Fraction(p[0], 16), Fraction(p[1], 16)) if w[0] < 0 else position(self.nodes, w)
            res.append(self.tr(x, y))
        return np.array(res, dtype=float).reshape(-1, 2)

    def same(self, *pairs):
        ok = all(np.array_equal(np.asarray(self.arrays[k]), np.asarray(v)) for k, v in self.keep.items())
        return bool(ok and all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in pairs))


def mkvar(op):
    d = np.array(op["data"], dtype=op["ddtype"])
    m = np.array(op["dm"], dtype=bool)
    if m.any() or op["ma"]:
        # what lies under the mask is not to be used
        d = np.ma.array(np.where(m, 77 if op["ddtype"] == "i4" else 7.7e5, d).astype(op["ddtype"]), mask=m)
    lead = op["lead"]
    if lead:
        d = np.ma.stack([d if i == op["k"] else d * 0 - 55 for i in range(lead)])
        if not (m.any() or op["ma"]):
            d = np.asarray(d)
    return d


def run(scn, log):
    if scn.get("blends"):
        return blends(scn, log)
    from gridded import Time, Variable

    lab = Lab(scn)
    grid, g = lab.grid, lab.g
    if lab.out != "ok":
        log("pads", g=g, out=lab.out, node=[], center=[], edge1=[], edge2=[], same=True)
        return
    for op in scn["ops"]:
        k = op["op"]
        if k == "pads":
            pad = lambda p: ["none" if x is None else str(x) for x in p]

            def get():
                return [pad(grid.get_padding_by_location(x)) for x in op["names"]]

            out, r = guard(get)
            if out != "ok":
                r = [[]] * 4
            log("pads", g=g, out=out, node=r[0], center=r[1], edge1=r[2], edge2=r[3], same=lab.same())
            continue
        if k == "trim":
            n, pad = op["n"], tuple(op["pad"])
            full = np.add.outer(np.arange(n[0]) * 1000, np.arange(n[1]))
            out, r = guard(lambda: full[grid.get_padding_slices(pad)])
            rows, cols = [], []
            if out == "ok":
                o2, rc = guard(lambda: ([int(x) // 1000 for x in r[:, 0]], [int(x) % 1000 for x in r[0]]))
                if o2 == "ok":
                    rows, cols = rc
            log("trim", n=n, pad=[("none" if p is None else p) for p in pad], out=out, rows=rows, cols=cols, same=lab.same())
            continue
        if k == "shift":
            idx = np.array(op["idx"])
            out, r = guard(lambda: grid.apply_padding_to_idxs(idx.copy(), padding=tuple(op["pad"])))
            got = []
            if out == "ok":
                o2, got = guard(lambda: [[int(x) for x in row] for row in r])
                got = got if o2 == "ok" else []
            log("shift", idx=op["idx"], pad=[("none" if p is None else p) for p in op["pad"]], out=out, got=got, same=lab.same())
            continue
        if k == "infer":
            a = np.zeros(op["lead"] + op["shape"])
            out, loc = guard(lambda: grid.infer_location(a))
            log("infer", g=g, shape2=op["shape"], out=out, loc="none" if loc is None else str(loc), same=lab.same())
            continue
        if k in ("nearest", "nearval"):
            at = op["at16"]
            pts = np.array([lab.tr(Fraction(p[0], 16), Fraction(p[1], 16)) for p in at]).reshape(-1, 2)
            before = pts.copy()
            xy = g["nodes"] if op["loc"] == "node" else scn["coords"][op["loc"]]
            if k == "nearest":
                out, r = guard(lambda: grid.locate_nearest(pts, op["loc"]))
                sh = shape_of(r) if out == "ok" else []
                want = [len(pts), 2]
                idx = []
                if out == "ok" and sh == want:
                    o2, idx = guard(lambda: ints(r))
                    if o2 != "ok":
                        idx = [[-9, -9]] * len(pts)
                log("nearest", xy=xy, pts=at, out=out, shape=sh, wantshape=want, idx=idx, same=lab.same((before, pts)))
            else:
                var = mkvar(op)
                kw = {"slices": (op["k"],)} if op["lead"] else {}
                if op["named"]:
                    kw["grid"] = op["loc"]
                out, r = guard(lambda: grid.nearest_var_to_points(pts, var, **kw))
                vals = rats(r) if out == "ok" and shape_of(r) == [len(pts), 1] else []
                log("nearval", xy=xy, pts=at, data=op["data"], dm=op["dm"], out=out, vals=vals, same=lab.same((before, pts)))
            continue
        pts = lab.points(op)
        form = op["form"]
        single = form == "single"
        if single:
            pts = pts[:1]
        used = op["pts"][: len(pts)]
        arg = pts[0] if single else pts.tolist() if form == "list" else pts
        before = np.array(arg, copy=True)
        if k == "locate":
            kw = {"_memo": True} if op.get("memo") else {}
            if op.get("copy"):
                kw["_copy"] = True
            f = grid.index_of if op.get("index_of") else grid.locate_faces
            out, r = guard(lambda: f(arg, **kw))
            want = [2] if single else [len(pts), 2]
            sh = shape_of(r) if out == "ok" else []
            idx = []
            if out == "ok" and sh == want:
                o2, idx = guard(lambda: ints(r))
                if o2 != "ok":
                    idx = [[-9, -9]] * len(pts)
            log("locate", g=g, pts=used, out=out, shape=sh, wantshape=want, idx=idx, same=lab.same((before, arg)))
            continue
        # interpolation
        var = mkvar(op)
        vkeep = np.ma.array(var, copy=True)
        loc = op["loc"]
        unmask, fill = False, 0
        mine = []
        if op["via"] == "grid":
            kw = {}
            if op["lead"]:
                kw["slices"] = (op["k"],)
            elif op["sl"]:
                kw["slices"] = ()
            if op["unmask"]:
                unmask, fill = True, op["fill"]
                kw.update(unmask=True, fill_value=fill)
            if op["pad"]:
                kw["padding"] = tuple(op["pad"])
            if op["memo"]:
                kw["_memo"] = True
            if op["loc_arg"] != "infer":
                kw["location"] = op["loc_arg"]
            if op["ind"]:
                o, ind = guard(lambda: grid.locate_faces(pts))
                if o == "ok":
                    how = op["ind"]  # as found, or plain; with the offsets in the cells, or without
                    kw["indices"] = np.asarray(np.ma.filled(ind, -1)) if how in ("plain", "plainal") else ind
                    if how in ("al", "plainal") and not np.ma.getmaskarray(ind).all():
                        o, al = guard(lambda: grid.geo_to_logical(pts, indices=ind) - ind)
                        if o == "ok":
                            kw["alphas"] = al if how == "al" else np.where(np.ma.getmaskarray(al), 0.25, np.ma.getdata(al))
            mine = [(x, np.ma.array(x, copy=True)) for x in (kw.get("indices"), kw.get("alphas")) if x is not None]
            f = grid.interpolate if op["memo"] else grid.interpolate_var_to_points
            out, r = guard(lambda: f(pts, var, **kw))
            want = [len(pts), 1] if loc == "center" else [len(pts)]
        else:

            def ask():
                v = Variable(
                    name="v",
                    data=var,
                    grid=grid,
                    location=None if op["loc_arg"] == "infer" else op["loc_arg"],
                    time=Time(np.array([dt(3600 * i) for i in range(op["lead"])])) if op["lead"] else None,
                )
                kw = {}
                if op["unmask"]:
                    kw["unmask"] = True
                return v.at(arg, dt(3600 * op["k"]), **kw)

            if op["unmask"]:
                unmask, fill = True, 0
            out, r = guard(ask)
            want = [len(pts), 1]
        sh = shape_of(r) if out == "ok" else []
        vals = rats(r, maxden=64, tol=1e-7) if out == "ok" and sh == want else []
        vsame = np.array_equal(np.ma.getmaskarray(vkeep), np.ma.getmaskarray(var)) and np.array_equal(np.ma.getdata(vkeep), np.ma.getdata(var))
        log(
            "interp",
            g=g,
            loc=loc,
            pad=op["pad"] if op["via"] == "grid" else [],
            data=op["data"],
            dm=op["dm"],
            pts=used,
            beh=lab.beh,
            out=out,
            shape=sh,
            wantshape=want,
            vals=vals,
            unmask=unmask,
            fill=fill,
            same=lab.same((before, arg)) and bool(vsame) and all(np.ma.allequal(a, b) and np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)) for a, b in mine),
        )


def blends(scn, log):
    """compute_interpolant on its own"""
    from gridded.pysgrid.sgrid import SGrid

    for op in scn["blends"]:
        kw, call = {}, {}
        if op["how"] == "attr":
            kw["masked_interpolant_behavior"] = op["beh"]
        elif op["how"] == "arg":
            call["mask_behavior"] = op["beh"]
        v = np.ma.array(op["vs"], mask=np.array(op["ms"], dtype=bool), dtype=float)
        w = np.array(op["ws"], dtype=float) / 16
        keep = v.copy(), w.copy()

        def ask():
            g = SGrid(node_lon=np.zeros((2, 2)), node_lat=np.zeros((2, 2)), **kw)
            if op["one"]:
                return np.ma.array([g.compute_interpolant(v[0], w[0], **call)])
            return g.compute_interpolant(v, w, **call)

        n = 1 if op["one"] else len(op["vs"])
        out, r = guard(ask)
        vals = rats(r) if out == "ok" else []
        same = np.array_equal(keep[0].mask, v.mask) and np.array_equal(keep[0].data, v.data) and np.array_equal(keep[1], w)
        log("blend", vs=op["vs"][:n], ms=op["ms"][:n], ws=op["ws"][:n], beh=op["beh"], out=out, vals=vals, same=bool(same))
