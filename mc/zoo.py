"""Alphabet of column kinds: every item type riptable supports, at any small length (values cycle, with missing)."""
import numpy as np
import riptable as rt
from .model import arr, INTS, FLTS

DAY = 86400 * 10**9


def cyc(l, n):
    return [l[i % len(l)] for i in range(n)]


def item(kind, n, off=0):
    """one array of the kind with n rows; `off` rotates the values"""
    FA = rt.FastArray

    def c(l):
        return [l[(i + off) % len(l)] for i in range(n)]

    if kind in INTS:
        return arr(c([3, None, 1, 7]), kind)
    if kind in FLTS:
        return arr(c([0.5, -2.0, None, float("inf")]), kind)
    if kind == "bool":
        return FA(np.array(c([True, False, True, True]), dtype=bool))
    if kind == "S":
        return FA(np.array(c(["b", "", "a", "bb"]), dtype="S3"))
    if kind == "U":
        return FA(np.array(c(["\u00e9", "", "a", "\u4e2d\u6587"]), dtype="U3"), unicode=True)
    if kind == "c128":
        return FA(np.array(c([1 + 2j, 0, -3j, 5]), dtype="complex128"))
    if kind == "m2":
        return FA(np.arange(off, off + n * 2, dtype="int32").reshape(n, 2))
    if kind == "m2f":
        return FA(np.asfortranarray(np.arange(off, off + n * 3, dtype="float64").reshape(n, 3)))
    if kind == "strided":
        a = np.empty(2 * n, dtype="int64")
        a[::2] = c([5, 6, 7, 8])
        a[1::2] = -1
        return FA(a)[::2]
    if kind == "rev":
        return FA(np.array(c([5, 6, 7, 8])[::-1], dtype="int32"))[::-1]
    if kind == "cat":
        return rt.Categorical(FA(np.array(c(["b", "", "a", "bb"]), dtype="S3"))) if n else rt.Categorical(FA(np.array([], dtype="int8")), FA(["a", "b"]))
    if kind == "catun":
        return rt.Categorical(FA(np.array(c([2, 1, 3, 2]), dtype="int8")), FA(["z", "y", "x", "unused"]))
    if kind == "catf":
        return rt.Categorical(FA(np.array(c([1, 0, 2, 1]), dtype="int16")), FA(["u", "w"]))
    if kind == "cat0":
        return rt.Categorical(FA(np.array(c([1, 0, 0, 1]), dtype="int8")), FA(["u", "w"]), base_index=0)
    if kind == "catnum":
        return rt.Categorical(FA(np.array(c([2, 1, 0, 3]), dtype="int8")), FA(np.array([30, 10, 20], dtype="int64")))
    if kind == "catflt":
        return rt.Categorical(FA(np.array(c([2, 1, 2, 1]), dtype="int8")), FA(np.array([1.5, 0.5])))
    if kind == "catU":
        return rt.Categorical(FA(np.array(c([2, 1, 2, 1]), dtype="int8")), FA(np.array(["\u00e9", "b"]), unicode=True), unicode=True)
    if kind == "cat2":
        if n == 0:
            return rt.Categorical([FA(np.array(["x", "y"], dtype="S1")), FA(np.array([1, 2], dtype="int32"))])[:0]
        return rt.Categorical([FA(np.array(c(["x", "y", "x", "y"]), dtype="S1")), FA(np.array(c([1, 2, 1, 1]), dtype="int32"))])
    if kind == "catmap":
        return rt.Categorical(FA(np.array(c([5, 9, 9, 5]), dtype="int32")), {5: "lo", 9: "hi"})
    if kind == "dtn":
        return rt.DateTimeNano(np.array(c([DAY, 0, 3 * DAY + 5, 2 * DAY]), dtype="int64"), from_tz="GMT", to_tz="GMT")
    if kind == "dtnNY":
        return rt.DateTimeNano(np.array(c([DAY, 0, 3 * DAY + 5, 2 * DAY]), dtype="int64"), from_tz="GMT", to_tz="NYC")
    if kind == "dtnDB":
        return rt.DateTimeNano(np.array(c([DAY, 0, 3 * DAY + 5, 2 * DAY]), dtype="int64"), from_tz="GMT", to_tz="DUBLIN")
    if kind == "date":
        return rt.Date(np.array(c([10, 20, 0, 15]), dtype="int32"))
    if kind == "span":
        return rt.TimeSpan(np.array(c([7.0, np.nan, -2.0, 5e9])))
    if kind == "dspan":
        return rt.DateSpan(np.array(c([7, 1, -2147483648, 5]), dtype="int32"))
    raise KeyError(kind)


PLAIN = INTS + FLTS + ["bool", "S", "U"]
CATS = ["cat", "catun", "catf", "cat0", "catnum", "catflt", "catU", "cat2", "catmap"]
TIMES = ["dtn", "dtnNY", "dtnDB", "date", "span", "dspan"]
ALL = PLAIN + CATS + TIMES
