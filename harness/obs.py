"""Projection of what the code returned onto the values the specification talks about."""

import math
from datetime import datetime, timedelta
from fractions import Fraction

import numpy as np



class Hang(BaseException):
    """raised by the alarm of the driver: never swallowed by `except Exception`"""


OFF, MASK, NAN, INF = [0, 0], [1, 0], [2, 0], [3, 0]
LIM = 2**31 - 1


class World:
    """
    Where the model's plane lies in the world: far from the origin, with small or large cells.
    Powers of two and whole numbers, so that nothing is rounded.
    """

    def __init__(self, tr=None):
        self.b, self.sc = np.array([0.0, 0.0]), 1.0
        self.plain = not tr
        set_precision(*((10000, 1e-9) if self.plain else (2000, 1e-7)))
        if tr:
            self.b, self.sc = np.array(tr[:2], dtype=float), 2.0 ** tr[2]

    def of(self, a):
        """model -> world, rows of two coordinates"""
        a = np.array(a, dtype=float).reshape(-1, 2)
        return a if self.plain else self.b + self.sc * a

    def axis(self, a, d):
        a = np.array(a, dtype=float)
        return a if self.plain else self.b[d] + self.sc * a

    def back(self, a, d=None):
        """world -> model"""
        if self.plain:
            return a
        return (np.asarray(a, dtype=float) - (self.b if d is None else self.b[d])) / self.sc


# how the caller keeps an array in memory
REPS = ["f8"] * 6 + ["i4", "i8", "i2", "be", "F", "view", "back", "ro", "ma"]
# data may be of the shortest whole numbers that hold them
DATA_REPS = REPS + ["least", "least"]


def dress(a, rep):
    """the same numbers, kept in another way"""
    a = np.asarray(a)
    if rep in ("i2", "i4", "i8"):
        return a.astype(rep) if a.dtype.kind == "f" and np.array_equal(a, np.round(a)) and np.all(np.abs(a) < 30000) else a
    if rep == "least":
        if a.dtype.kind == "f" and a.size and np.array_equal(a, np.round(a)):
            for d in ("u1", "i1", "u2", "i2"):
                if np.iinfo(d).min <= a.min() and a.max() <= np.iinfo(d).max:
                    return a.astype(d)
        return a
    if rep == "be":
        return a.astype(a.dtype.newbyteorder(">"))
    if rep == "F":
        return np.asfortranarray(a)
    if rep == "view":
        b = np.full([2 * x for x in a.shape], -55, dtype=a.dtype)
        s = tuple(slice(None, None, 2) for _ in a.shape)
        b[s] = a
        return b[s]
    if rep == "back":
        return a[..., ::-1].copy()[..., ::-1]
    if rep == "ro":
        a = a.copy()
        a.setflags(write=False)
        return a
    if rep == "ma":
        return np.ma.array(a)
    return a


MAXDEN, TOL = 10000, 1e-9


def set_precision(maxden, tol):
    global MAXDEN, TOL
    MAXDEN, TOL = maxden, tol


def rat(x, maxden=None, tol=None):
    """float -> small rational it stands for"""
    maxden = MAXDEN if maxden is None else maxden
    tol = TOL if tol is None else tol
    if x is np.ma.masked or x is None:
        return list(MASK)
    try:
        x = float(x)
    except Exception:
        return list(OFF)
    if math.isnan(x):
        return list(NAN)
    if math.isinf(x):
        return list(INF)
    f = Fraction(x).limit_denominator(maxden)
    if abs(float(f) - x) <= tol * max(1.0, abs(x)) and abs(f.numerator) < LIM:
        return [f.numerator, f.denominator]
    return list(OFF)


def rats(a, **kw):
    """1-D array (masked or not) -> list of rationals"""
    m = np.ma.getmaskarray(np.ma.asarray(a)).ravel()
    d = np.ma.getdata(np.ma.asarray(a)).ravel()
    return [list(MASK) if mm else rat(x, **kw) for x, mm in zip(d, m)]


def guard(fn, *a, **kw):
    """-> (outcome, value).  outcome is "ok" or "err:<class>" of the nearest public error class"""
    try:
        return "ok", fn(*a, **kw)
    except RecursionError:
        return "err:RecursionError", None
    except Exception as ex:
        return "err:" + type(ex).__name__, None


BASE = datetime(2020, 1, 1)

# microseconds per tick of the specification's clock
UNIT = 1000000


def set_unit(us):
    global UNIT
    UNIT = int(us)


def delta(ticks):
    return timedelta(microseconds=ticks * UNIT)


def dt(ticks):
    return BASE + delta(ticks)


def ticks(d):
    """timedelta -> whole ticks, or -10**9 for something that is no such time"""
    try:
        us = (d.days * 86400 + d.seconds) * 1000000 + d.microseconds
    except Exception:
        return -(10**9)
    if us % UNIT or abs(us // UNIT) > 10**9:
        return -(10**9) + 1
    return us // UNIT


def secs(t):
    """datetime -> whole ticks since BASE, or -10**9 for something that is no such time"""
    if isinstance(t, np.datetime64):
        t = t.astype("datetime64[us]").item()
    try:
        return ticks(t - BASE)
    except Exception:
        return -(10**9)
