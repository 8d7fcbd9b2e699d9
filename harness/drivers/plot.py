"""Drawings of grids, and cells picked on them.  Everything happens in the (scratch) working directory."""

import contextlib
import csv
import io
import math
import os
import tempfile
from types import SimpleNamespace

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import netCDF4  # noqa: E402
import numpy as np  # noqa: E402
from matplotlib.collections import LineCollection, PathCollection  # noqa: E402
from matplotlib.patches import Polygon  # noqa: E402

from obs import guard, rat, set_precision  # noqa: E402

matplotlib.rcParams["figure.dpi"] = 20
set_precision(3000, 1e-9)
BADINT = -(10**8)
HEAD = ["nele", "nele_lat", "nele_lon"] + [n for k in "123" for n in ("node" + k, f"node{k}_lat", f"node{k}_lon")]


def pt(p):
    return [rat(p[0]), rat(p[1])]


def polyline(xy):
    """the segments of a line, broken where it is not a number"""
    out = []
    for a, b in zip(xy[:-1], xy[1:]):
        if not (np.isnan(a).any() or np.isnan(b).any()):
            out.append([pt(a), pt(b)])
    return out


def off(x):
    return x in (None, "None", "none", "", " ")


def segments(ax):
    out = []
    for ln in ax.lines:
        if ln.get_visible() and not off(ln.get_linestyle()):
            out += polyline(np.ma.filled(np.ma.asarray(ln.get_xydata(), float), np.nan))
    for c in ax.collections:
        if isinstance(c, LineCollection) and c.get_visible():
            for s in c.get_segments():
                out += polyline(np.asarray(s, float))
    return out


def marks(ax):
    out = []
    for ln in ax.lines:
        if ln.get_visible() and not off(ln.get_marker()):
            out += [pt(p) for p in np.asarray(ln.get_xydata(), float) if not np.isnan(p).any()]
    return out + scatters(ax)


def scatters(ax):
    return [pt(p) for c in ax.collections if isinstance(c, PathCollection) and c.get_visible() for p in np.asarray(c.get_offsets(), float)]


def integer(s):
    try:
        return int(s) if abs(int(s)) < 10**8 else BADINT
    except Exception:
        return BADINT


def lims(ax):
    return [rat(x) for x in (*sorted(ax.get_xlim()), *sorted(ax.get_ylim()))]


def wide(ax):
    """limits, a little wider than they are: they are compared with whole numbers"""
    lo = lambda x: [math.floor(x * 64 + 1e-6), 64]  # noqa: E731
    hi = lambda x: [math.ceil(x * 64 - 1e-6), 64]  # noqa: E731
    red = lambda f: [f[0] // math.gcd(f[0], 64), 64 // math.gcd(f[0], 64)]  # noqa: E731
    x, y = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    return [red(lo(x[0])), red(hi(x[1])), red(lo(y[0])), red(hi(y[1]))]


def run(scn, log):
    plt.close("all")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            {"ugrid": ugrid, "sgrid": sgrid, "geo": geo, "viewer": viewer}[scn["kind"]](scn, log)
    finally:
        plt.close("all")


def ugrid(scn, log):
    from gridded.plotting.mpl_plotting import plot_ugrid
    from gridded.pyugrid.ugrid import UGrid

    def do():
        kw = {}
        if scn["bounds"]:
            kw["boundaries"] = np.array(scn["bounds"])
        if scn["fcoord"]:
            kw["face_coordinates"] = np.array(scn["fcoord"], float) / 4
        g = UGrid(nodes=np.array(scn["nodes"], float), faces=np.array(scn["faces"]), **kw)
        if scn["built"]:
            g.build_edges()
        fig, ax = plt.subplots()
        names = dict(dots="nodes", nnum="node_numbers", fnum="face_numbers")
        plot_ugrid(ax, g, **{names[k]: True for k in names if scn[k]})
        return dict(
            segs=segments(ax), marks=marks(ax), texts=[[integer(t.get_text()), pt(t.xy)] for t in ax.texts], lims=wide(ax)
        )

    out, r = guard(do)
    r = r or dict(segs=[], marks=[], texts=[], lims=[])
    log("ugrid", out=out, **{k: scn[k] for k in ("nodes", "faces", "bounds", "fcoord", "dots", "nnum", "fnum")}, **r)


def sgrid(scn, log):
    from gridded.plotting.mpl_plotting import plot_sgrid
    from gridded.pysgrid.sgrid import SGrid

    def do():
        kw = {}
        names = dict(
            clon="center_lon", clat="center_lat", alon="edge1_lon", alat="edge1_lat", blon="edge2_lon", blat="edge2_lat"
        )
        for k, n in names.items():
            if scn[k]:
                kw[n] = np.array(scn[k], float)
        a = [np.array(scn["lon"], float), np.array(scn["lat"], float)]
        if scn["masked"]:
            a = [np.ma.masked_array(x) for x in a]
        g = SGrid(node_lon=a[0], node_lat=a[1], **kw)
        fig, ax = plt.subplots()
        names = dict(dots="nodes", rho="rho_points", edge="edge_points")
        plot_sgrid(ax, g, **{names[k]: True for k in names if scn[k]})
        return dict(segs=segments(ax), marks=marks(ax), lims=wide(ax))

    out, r = guard(do)
    r = r or dict(segs=[], marks=[], lims=[])
    keys = ("lon", "lat", "clon", "clat", "alon", "alat", "blon", "blat", "dots", "rho", "edge")
    log("sgrid", out=out, **{k: scn[k] for k in keys}, **r)


def write(fn, scn):
    """a file of FVCOM"""
    n, m = len(scn["nodes"]), len(scn["faces"])
    with netCDF4.Dataset(fn, "w", format=scn["fmt"]) as nc:
        for d, k in (("node", n), ("nele", m), ("three", 3), ("time", 2), ("siglay", 2), ("siglev", 3)):
            nc.createDimension(d, k)

        def var(name, dims, data, t="f8"):
            v = nc.createVariable(name, t, dims)
            v[...] = np.array(data, dtype=t)
            return v

        var("lon", ("node",), [p[0] + scn["off"] for p in scn["nodes"]], scn["dt"])
        var("lat", ("node",), [p[1] for p in scn["nodes"]], scn["dt"])
        f = np.array(scn["faces"]) + scn["base"]
        if scn["tr"]:
            var("nv", ("three", "nele"), f.T, "i4")
        else:
            var("nv", ("nele", "three"), f, "i4")
        var("h", ("node",), [10] * n)
        var("siglay", ("siglay", "node"), np.tile([[-0.25], [-0.75]], n))
        var("siglev", ("siglev", "node"), np.tile([[0.0], [-0.5], [-1.0]], n))
        var("zeta", ("time", "node"), np.zeros((2, n)))
        var("time", ("time",), [0, 1]).units = "hours since 2020-01-01"


def geo(scn, log):
    from gridded.plotting.mpl_plotting import GridGeoGenerator

    fn = tempfile.mktemp(suffix=".nc", dir=os.getcwd())
    write(fn, scn)

    def do():
        g = GridGeoGenerator(fn)
        fig, ax = plt.subplots()
        g.draw_grid_lines(ax, **(dict(appearance=dict(color="red", linewidth=2)) if scn["style"] else {}))
        q = []
        for p in scn["pts"]:
            r = g.fvcom_index_query((p[0] / 4, p[1] / 4))
            q.append(dict(p=p, nele=-1, corners=[], click=[]) if r is None else asked(p, r))
        m = {} if scn["m"] == 5 else dict(margin=scn["m"] / 100)
        return dict(
            tri=[[int(x) for x in f] for f in np.asarray(g.get_triangle_faces())],
            lines=[[pt(c) for c in ln.coords] for ln in g.gen_grid_lines_U().geoms],
            segs=segments(ax),
            extent=[rat(x) for x in g.get_max_extent(**m)],
            q=q,
        )

    try:
        out, r = guard(do)
    finally:
        os.unlink(fn)
    r = r or dict(tri=[], lines=[], segs=[], extent=[], q=[])
    log("geo", out=out, **{k: scn[k] for k in ("nodes", "faces", "off", "m")}, **r)


def asked(p, r):
    return dict(
        p=p,
        nele=integer(r["nele"]),
        corners=[[integer(n), pt(x)] for n, x in zip(r["nodes"], zip(r["node_lons"], r["node_lats"]))],
        click=pt(r["click_pos"]),
    )


def seen(v):
    """what there is to see: the log, the outlines and the labels of the nodes"""
    with open(v.csv_path, newline="") as f:
        t = list(csv.reader(f))
    rows = []
    for r in t[1:]:
        num = lambda k: rat(r[k]) if k < len(r) else rat(None)  # noqa: E731
        rows.append(
            dict(
                nele=integer(r[0]),
                center=[num(2), num(1)],
                corners=[[integer(r[k]) if k < len(r) else BADINT, [num(k + 2), num(k + 1)]] for k in (3, 6, 9)],
            )
        )
    patches = []
    for p in v.ax.patches:
        if isinstance(p, Polygon) and p.get_visible():
            xy = np.asarray(p.get_xy(), float)
            patches.append([pt(x) for x in xy])
    labels = []
    for a in v.ax.texts:
        s = a.get_text()
        if s.startswith("Node:"):
            labels.append([integer(s[5:].strip()), pt(a.xy)])
    return dict(head=bool(t) and t[0] == HEAD, rows=rows, patches=patches, labels=labels)


def nothing():
    return dict(head=False, rows=[], patches=[], labels=[])


def viewer(scn, log):
    from gridded.plotting import mpl_plotting

    wd = tempfile.mkdtemp(dir=os.getcwd())
    fn = os.path.join(wd, scn["name"])
    write(fn, scn)
    spill = tuple(x / 4 for x in scn["spill"]) if scn["spill"] else None
    steps = []

    def make():
        kw = dict(spill_location=spill) if spill else {}
        return mpl_plotting.PureMatplotlibFVCOMViewer(fn, **kw)

    def first():
        if scn["inspector"]:
            # a log of an earlier session is cleared
            with open(fn[:-3] + "_selected_cell.csv", "w") as f:
                f.write("old\n1,2,3\n")
            p = mpl_plotting.fvcom_inspector(fn, backend="agg", **(dict(spill_location=spill) if spill else {}))
            with open(p) as f:
                assert f.read().strip() == ",".join(HEAD)
        v = make()
        return v, dict(
            first=seen(v),
            path=os.path.realpath(v.csv_path) == os.path.realpath(fn[:-3] + "_selected_cell.csv"),
            segs=segments(v.ax),
            lims=wide(v.ax),
            stars=scatters(v.ax),
        )

    out, r = guard(first)
    if out == "ok":
        v, r = r
        for c in scn["clicks"]:

            def step():
                nonlocal v
                if c["k"] == "reopen":
                    plt.close("all")
                    v = make()
                elif c["k"] == "margin":
                    v.on_click(SimpleNamespace(button=c["button"], xdata=None, ydata=None, inaxes=None))
                elif c["through"]:
                    through(v, c)
                else:
                    v.on_click(SimpleNamespace(button=c["button"], xdata=c["p"][0] / 4, ydata=c["p"][1] / 4, inaxes=v.ax))
                return seen(v)

            so, s = guard(step)
            steps.append(dict(c=dict(k=c["k"], button=c["button"], p=c["p"]), out=so, o=s or nothing()))
    else:
        r = dict(first=nothing(), path=False, segs=[], lims=[], stars=[])
    for n in os.listdir(wd):
        os.unlink(os.path.join(wd, n))
    os.rmdir(wd)
    log("viewer", out=out, steps=steps, **{k: scn[k] for k in ("nodes", "faces", "off", "spill")}, **r)


def through(v, c):
    """a click that comes through the canvas"""
    from matplotlib.backend_bases import LocationEvent, MouseEvent

    LocationEvent._last_axes_ref = None
    v.fig.canvas.draw_idle()
    e = MouseEvent("button_press_event", v.fig.canvas, 0, 0, button=c["button"])
    e.inaxes, e.xdata, e.ydata = v.ax, c["p"][0] / 4, c["p"][1] / 4
    v.fig.canvas.callbacks.process("button_press_event", e)
