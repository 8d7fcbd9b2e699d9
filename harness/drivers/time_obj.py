"""Drives gridded.Time objects: construction, offsets, displacement, data replacement, lookups."""

import numpy as np

import obs
from obs import NAN, delta, dt, guard, rat, secs, ticks

NONE = -1000000


def hours(v):
    if v == NONE:
        return None
    h = v * obs.UNIT / 3600e6
    return int(h) if h == int(h) else h


def td(v):
    return None if v == NONE else delta(v)


def off(v):
    """a number of hours as seconds"""
    if v is None:
        return NONE
    try:
        s = float(v) * 3600e6 / obs.UNIT
    except Exception:
        return NONE + 1
    return int(round(s)) if abs(s - round(s)) < 1e-6 and abs(s) < 10**8 else NONE + 2


def dsp(v):
    if v is None:
        return NONE
    try:
        return ticks(v)
    except Exception:
        return NONE + 1


def observe(t):
    if t is None:
        return dict(live=False, data=[], tz=NONE, disp=NONE, min=0, max=0, n=0, it=[], arr=[])
    o1, data = guard(lambda: [secs(x) for x in t.data])
    o2, mn = guard(lambda: secs(t.min_time))
    o3, mx = guard(lambda: secs(t.max_time))
    o4, n = guard(lambda: len(t))
    o5, it = guard(lambda: [secs(x) for x in t])
    o6, arr = guard(lambda: [secs(x) for x in t.get_time_array()])
    o7, tz = guard(lambda: off(t.tz_offset))
    o8, di = guard(lambda: dsp(t.displacement))
    return dict(
        live=True,
        data=data if o1 == "ok" else [],
        min=mn if o2 == "ok" else NONE,
        max=mx if o3 == "ok" else NONE,
        n=int(n) if o4 == "ok" else -1,
        it=it if o5 == "ok" else [],
        arr=arr if o6 == "ok" else [],
        tz=tz if o7 == "ok" else NONE + 3,
        disp=di if o8 == "ok" else NONE + 3,
    )


def run(scn, log):
    from gridded.time import Time

    obs.set_unit(scn.get("unit", 1000000))
    objs = [None, None]
    arrs = [None, None]

    def state():
        eqs = []
        for a in (0, 1):
            for b in (0, 1):
                if objs[a] is not None and objs[b] is not None:
                    o, v = guard(lambda: (bool(objs[a] == objs[b]), bool(objs[a] != objs[b])))
                    eqs.append([a + 1, b + 1, v[0], v[1]] if o == "ok" else [a + 1, b + 1, True, True])
        return dict(
            objs=[observe(o) for o in objs],
            arrs=[[secs(x) for x in a] if a is not None else [] for a in arrs],
            eqs=eqs,
        )

    for op in scn["ops"]:
        k = op["op"]
        out, _v = "ok", None
        extra = {}
        if k == "arrays":
            arrs = [np.array([dt(x) for x in op[n]], dtype=object) for n in ("a", "b")]
        elif k in ("new", "setdata"):
            if op["src"] == "arr":
                src = arrs[op["from"] - 1]
            elif op["src"] == "time":
                src = objs[op["from"] - 1]
            elif op["src"] == "tuple":
                src = tuple(dt(x) for x in op["data"])
            else:
                src = [dt(x) for x in op["data"]]
            if k == "new":
                kw = {}
                if op["tz"] != NONE or scn.get("explicit"):
                    kw["tz_offset"] = hours(op["tz"])
                if op["newtz"] != NONE or scn.get("explicit"):
                    kw["new_tz_offset"] = hours(op["newtz"])
                if op["origin"] != NONE:
                    kw["origin"] = dt(op["origin"])
                if op["disp"] != NONE:
                    kw["displacement"] = td(op["disp"])
                out, obj = guard(lambda: Time(src, **kw))
                if out == "ok":
                    objs[op["slot"] - 1] = obj
            else:

                def setd():
                    objs[op["slot"] - 1].data = src

                out, _v = guard(setd)
        elif k == "settz":

            def settz():
                objs[op["slot"] - 1].tz_offset = hours(op["v"])

            out, _v = guard(settz)
        elif k == "setdisp":

            def setdisp():
                objs[op["slot"] - 1].displacement = td(op["v"]) if op["kind"] == "td" else hours(op["v"])

            out, _v = guard(setdisp)
        elif k == "poke":
            arrs[op["from"] - 1][op["i"] - 1] = dt(op["v"])
        elif k == "pokecopy":

            def pk():
                objs[op["slot"] - 1].get_time_array()[0] = dt(-99999)

            out, _v = guard(pk)
        elif k == "lookup":
            t = objs[op["slot"] - 1]
            q = dt(op["t"])
            out, idx = guard(lambda: int(t.index_of(q, extrapolate=op["ex"])))
            out2, al = guard(lambda: t.interp_alpha(q, extrapolate=op["ex"]))
            out3, inb = guard(lambda: bool(t.time_in_bounds(q)))
            out4, _v = guard(lambda: t.valid_time(q))
            extra = dict(
                idx=idx if out == "ok" else -1,
                outa=out2,
                alpha=rat(al) if out2 == "ok" else list(NAN),
                inb=inb if out3 == "ok" else False,
                outb=out3,
                outv=out4,
            )
        log(k, op=op, out=out, st=state(), **extra)
