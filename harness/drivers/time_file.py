"""Reads time axes from netCDF files written for the purpose."""

import os
import tempfile
from datetime import timedelta

import netCDF4
import numpy as np

from drivers.time_obj import NONE, dsp, hours, observe, td
from obs import dt, guard


def fmt(ref, uoff, style):
    t = dt(ref)
    if style == 0:
        s = t.strftime("%Y-%m-%dT%H:%M:%S")
    elif style == 1:
        s = t.strftime("%Y-%m-%d %H:%M:%S")
    else:
        s = f"{t.year}-{t.month}-{t.day} {t.hour:02d}:{t.minute:02d}:{t.second:02d}"
    if uoff == NONE:
        return s
    if uoff == 0:
        return s + ("Z" if style == 0 else "+00:00" if style == 1 else " UTC")
    sg = "-" if uoff < 0 else "+"
    h, m = divmod(abs(uoff) // 60, 60)
    if style == 2:
        return f"{s} {sg}{h}:{m:02d}"
    return f"{s}{sg}{h:02d}:{m:02d}"


def run(scn, log):
    from gridded.time import Time

    if scn["kind"] == "load":
        c = scn["c"]
        # by turns a file in memory and a file on disk
        ondisk = scn["n"] % 2
        fn = tempfile.mktemp(suffix=".nc", dir=os.getcwd())
        ds = netCDF4.Dataset(fn, "w", diskless=not ondisk, persist=False) if not ondisk else netCDF4.Dataset(fn, "w")
        ds.createDimension("time", len(c["vals"]))
        v = ds.createVariable("time", "f8" if scn["n"] % 3 else "f4" if c["unit"] != "seconds" else "f8", ("time",))
        v[:] = [a / b for a, b in c["vals"]]
        v.units = f"{c['unit']} since {fmt(c['ref'], c['uoff'], scn['n'] % 3)}"
        d = ds.createVariable("temp", "f8", ("time",))
        d[:] = 0.0
        kw = {}
        if c["tzarg"] == "naive":
            kw["tz_offset"] = ["Naive", "naive"][scn["n"] % 2]
        elif c["tzarg"] == "num":
            kw["tz_offset"] = hours(c["tz"])
        if c["newtz"] != NONE:
            kw["new_tz_offset"] = hours(c["newtz"])
        if c["origin"] != NONE:
            kw["origin"] = dt(c["origin"])
        if c["disp"] != NONE:
            kw["displacement"] = td(c["disp"])
        if c["name"]:
            kw["tz_offset_name"] = c["name"]
        if scn["n"] % 4 < 2:
            kw["varname"] = "time"
        else:
            kw["datavar"] = "temp" if scn["n"] % 8 < 4 else ds["temp"]
        if ondisk:
            ds.close()
            if "datavar" in kw:
                kw["datavar"] = "temp"
            out, t = guard(lambda: Time.from_netCDF(filename=fn, **kw))
        else:
            out, t = guard(lambda: Time.from_netCDF(dataset=ds, **kw))
        name = str(getattr(t, "tz_offset_name", "")) if out == "ok" else ""
        log("load", c=c, out=out, o=observe(t), name=name)
        if ondisk:
            os.unlink(fn)
        else:
            ds.close()
    else:
        # several time variables and dimensions in one file
        fn = tempfile.mktemp(suffix=".nc", dir=os.getcwd())
        ds = netCDF4.Dataset(fn, "w", diskless=True, persist=False)
        axes = scn["axes"]
        for name, ax in axes.items():
            ds.createDimension(name, len(ax))
            v = ds.createVariable(name, "f8", (name,))
            v.units = "seconds since 2020-01-01 00:00:00"
            v[:] = ax
        ds.createDimension("x", 2)
        ds.createDimension("depth", 3)
        dims = scn["dims"]
        d = ds.createVariable("q", "f8", tuple(dims))
        if scn["attr"]:
            d.setncattr("time", scn["attr"])
        d[:] = np.zeros(d.shape)
        out, t = guard(lambda: Time.from_netCDF(dataset=ds, datavar=d))
        anytime = False
        if out == "ok" and not isinstance(t, Time):
            out = "err:NotATime"
        if out == "ok":
            o, w = guard(lambda: [int(t.index_of(dt(0) + timedelta(days=k))) for k in (-9999, 0, 9999)])
            anytime = o == "ok" and w == [0, 0, 0]
        log(
            "find",
            dims=dims,
            attr=scn["attr"],
            alldims=list(axes) + ["x", "depth"],
            hastime="time" in dims[0],
            axes={k: [int(x) for x in v] for k, v in axes.items()},
            out=out,
            o=observe(t if out == "ok" else None),
            anytime=anytime,
        )
        ds.close()


_ = dsp
