"""C04 Array and Dataset reductions skip exactly the missing and filtered elements."""
import itertools, math, warnings, logging
import numpy as np
import riptable as rt
from ..model import *

PROPERTY = "C04"
warnings.simplefilter("ignore")
np.seterr(all="ignore")
logging.disable(logging.WARNING)
INF = float("inf")
BASE = ("sum", "mean", "var", "std", "min", "max", "median", "argmin", "argmax")
RAISES, SKIP = object(), object()


def pvar(v, ddof):
    n = len(v)
    if n - ddof <= 0:
        return None
    if any(math.isinf(x) for x in v):
        return None
    m = sum(v) / n
    return sum((x - m) ** 2 for x in v) / (n - ddof)


def red(f, x, ddof=1):
    """reference reduction of a list with None for missing"""
    nan = f.startswith("nan")
    g = f[3:] if nan else f
    if nan:
        v = [y for y in x if y is not None]
        if g in ("argmin", "argmax"):
            if not v:
                return RAISES
            t = min(v) if g == "argmin" else max(v)
            return x.index(t)
        if not x:
            return {"sum": 0}.get(g, RAISES if g != "median" else SKIP)
        if not v:
            return {"sum": 0, "mean": SKIP}.get(g)
    else:
        v = x
        if not x:
            return 0 if g == "sum" else RAISES
        if None in x:
            return x.index(None) if g in ("argmin", "argmax") else None
        if g in ("argmin", "argmax"):
            return x.index(min(x) if g == "argmin" else max(x))
    if g == "sum":
        return sum(v)
    if g == "mean":
        return sum(v) / len(v)
    if g == "var":
        return pvar(v, ddof)
    if g == "std":
        r = pvar(v, ddof)
        return None if r is None else math.sqrt(r)
    if g == "min":
        return min(v)
    if g == "max":
        return max(v)
    s = sorted(v)
    k = len(s)
    return s[k // 2] if k % 2 else (s[k // 2 - 1] + s[k // 2]) / 2


def lin(s, q):
    p = q * (len(s) - 1)
    i = int(math.floor(p))
    return s[i] if i == p else s[i] + (s[i + 1] - s[i]) * (p - i)


def close(g, w, tol=1e-9):
    if isinstance(w, str):
        return g == w
    if w is None or g is None:
        return w is None and g is None
    if isinstance(w, float) and w != w:
        return g is None
    if isinstance(w, int) and not isinstance(w, bool) and isinstance(g, int):
        return g == w
    if math.isinf(w) or math.isinf(g):
        return g == w
    return abs(g - w) <= tol * max(1.0, abs(w))


def lay(a, how):
    if how == "strided":
        b = np.empty(2 * len(a), dtype=a.dtype)
        b[:] = 1
        b[::2] = a
        return rt.FastArray(b)[::2]
    if how == "rev":
        return rt.FastArray(np.asarray(a)[::-1].copy())[::-1]
    if how == "off":
        return rt.FastArray(np.concatenate([np.asarray(a)[:1], np.asarray(a)]))[1:] if len(a) else a
    return a


AL = {
    "float64": (None, 0.0, 1.5, -2.0, INF), "float32": (None, 0.5, -3.0), "int32": (None, 0, 3, -2), "int64": (None, 7, 2**40 + 1), "int8": (None, 127, -127, 1),
    "int16": (None, 300, -5), "uint8": (None, 0, 254, 3), "uint16": (None, 1, 65534), "uint32": (None, 2, 2**32 - 2), "uint64": (None, 0, 9), "bool": (True, False),
}


def explore(mc):
    T = mc.thorough

    def space():
        for dt, al in AL.items():
            hi = 4 if dt in ("float64", "int32") or len(al) < 4 else 3
            for n in range(0, hi + 1 + T):
                for x in itertools.product(al, repeat=n):
                    if INF in x and (n > 3 or x.count(INF) > 1):
                        continue
                    yield dt, x

    def check(g, f, x, what, tol, **ctx):
        w = red(f, x)
        if w is SKIP or w is RAISES:
            return
        mc.eq(close(scalar(g), w, tol), True, what + f, g_=repr(g), w_=w, x=x, **ctx)
        mc.op()

    def run1(case):
        dt, x = case
        x = list(x)
        a = arr(x, dt) if dt != "bool" else rt.FastArray(np.array(x, bool))
        tol = 1e-5 if dt == "float32" else 1e-9
        for how in ("c",) + (("strided", "rev", "off") if len(x) > 1 else ()):
            A = lay(a, how)
            for base in BASE:
                for f in (base, "nan" + base):
                    w = red(f, x)
                    if f == "median" and (dt[0] in "iu" or INF in x) and (None in x or not x):
                        continue  # median of integers counts the invalid value
                    if w is SKIP or (w is RAISES and f in ("median", "nanmedian")):
                        continue
                    if base in ("median", "nanmedian", "mean", "var", "std") and INF in x:
                        continue
                    forms = [("method", lambda: getattr(A, f)()), ("rt", lambda: getattr(rt, f)(A))]
                    if base not in ("var", "std") and how == "c":
                        forms.append(("np", lambda: getattr(np, f)(A)))
                    if base in ("var", "std"):
                        forms.append(("ddof=1", lambda: getattr(A, f)(ddof=1)))
                    for nm, fn in forms:
                        if w is RAISES:
                            if how == "c" and not (nm == "np" and base in ("mean", "var", "std", "median")):
                                mc.raises(fn, f + " without elements", (ValueError, TypeError))
                            continue
                        if nm in ("np", "ddof=1") and not x:
                            continue
                        if nm == "ddof=1" and dt[0] in "iu" and None in x:
                            continue
                        g = fn()
                        if base in ("min", "max") and dt[0] in "iu":
                            g = np.array([g]).astype(dt)[0]
                        mc.eq(close(scalar(g), w, tol), True, f, g_=repr(g), w_=w, x=x, how=how, nm=nm, dt=dt)
                        if base in ("min", "max") and nm == "method":
                            mc.eq(np.asarray(g).dtype == raw(a).dtype, True, "min/max keep the dtype", f=f, dt=dt)
                        mc.op()
            # other
            if dt not in ("bool", "int8", "uint8", "uint16", "uint32", "uint64"):  # NumPy interpolates in the narrow dtype
                v = [y for y in x if y is not None]
                if v and INF not in x:
                    s = sorted(v)
                    for q in (0.0, 0.25, 0.5, 0.9, 1.0):
                        for nm, g in (("nanquantile", A.nanquantile(q=q)), ("nanpercentile", A.nanpercentile(q=100 * q))):
                            g = np.asarray(g).reshape(-1)
                            mc.eq(len(g) == 1 and close(scalar(g[0]), lin(s, q), 1e-5), True, nm, x=x, q=q, dt=dt, how=how)
                        if None not in x:
                            for nm, g in (("quantile", A.quantile(q=q)), ("percentile", A.percentile(q=100 * q))):
                                g = np.asarray(g).reshape(-1)
                                mc.eq(len(g) == 1 and close(scalar(g[0]), lin(s, q), 1e-5), True, nm, x=x, q=q, dt=dt, how=how)
                        mc.op(4)
            if None not in x:
                mc.eq(bool(A.any()), any(bool(y) for y in x), "any", x=x)
                mc.eq(bool(A.all()), all(bool(y) for y in x), "all", x=x)
                mc.eq(bool(rt.any(A)), any(bool(y) for y in x), "rt.any", x=x)
                mc.eq(bool(rt.all(A)), all(bool(y) for y in x), "rt.all", x=x)
        # value counts
        if len(x) and dt != "bool" and INF not in x:
            c = a.count()
            v = sorted({y for y in x if y is not None})
            g = {k: n for k, n in zip(vals(c[0]), vals(c[1])) if k is not None}
            mc.eq(g, {k: x.count(k) for k in v}, "count", x=x, dt=dt)
            mc.eq(int(a.nunique()), len(v), "nunique", x=x, dt=dt)
        if x and None not in x and dt in ("int32", "float64", "uint8") and INF not in x:
            lo, hi = min(x), max(x)
            if hi > lo:
                mc.eq(all(close(scalar(g), (y - lo) / (hi - lo), 1e-6) for g, y in zip(a.normalize_minmax(), x)), True, "normalize_minmax", x=x, dt=dt)
                m, s = sum(x) / len(x), math.sqrt(pvar(x, 1))
                mc.eq(all(close(scalar(g), (y - m) / s, 1e-6) for g, y in zip(a.normalize_zscore(), x)), True, "normalize_zscore", x=x, dt=dt)

    mc.run("reductions", list(space()), run1)

    # ------------------------------------------------ filters
    def run2(case):
        dt, f = case
        al = [y for y in AL[dt] if y != INF]
        for n in range(1, 4 + T):
            for x in itertools.product(al[:3], repeat=n):
                a = arr(x, dt)
                for m in itertools.product((True, False), repeat=n):
                    sub = [y for y, k in zip(x, m) if k]
                    if not sub or (f.startswith("nan") and f != "nansum" and not any(y is not None for y in sub)):
                        continue
                    F = rt.FastArray(np.array(m, bool))
                    w = red(f, sub)
                    forms = [lambda: getattr(rt, f)(a, filter=F)]
                    if f != "sum":
                        forms.append(lambda: getattr(a, f)(filter=F))
                    for fn in forms:
                        g = fn()
                        mc.eq(close(scalar(g), w, 1e-5 if dt == "float32" else 1e-9), True, f + " with a filter", g_=repr(g), w_=w, x=x, m=m, dt=dt)
                        mc.op()
                if f != "sum":
                    for m in (True,):
                        w = red(f, list(x))
                        if w is SKIP or (f.startswith("nan") and all(y is None for y in x) and f != "nansum"):
                            continue
                        mc.eq(close(scalar(getattr(a, f)(filter=m)), w, 1e-5), True, f + " with filter=True", x=x, dt=dt)
                mc.raises(lambda: getattr(rt, f)(a, filter=rt.FastArray(np.ones(n + 1, bool))), f + " with a filter of another length", ValueError)

    mc.run("filters", [(dt, f) for dt in (("float64", "int32") if not T else ("float64", "int32", "uint8", "int64", "float32")) for f in ("sum", "nansum", "mean", "nanmean", "var", "nanvar", "std", "nanstd")], run2)

    # ------------------------------------------------ position of the special element in arrays around the vector widths
    def run3(case):
        dt, n, i, sp = case
        x = [(j * 7) % 11 for j in range(n)]
        x[i] = {"none": None, "min": 0 if dt[0] == "u" else -100, "max": 120}[sp]
        if sp == "min":
            x = [y + 1 if j != i else y for j, y in enumerate(x)]
        a = arr(x, dt)
        for how in ("c", "strided", "off"):
            A = lay(a, how)
            for f in ("sum", "nansum", "mean", "nanmean", "min", "nanmin", "max", "nanmax", "argmin", "nanargmin", "argmax", "nanargmax", "nanvar", "nanmedian"):
                if red(f, x) is RAISES:
                    continue
                check(getattr(A, f)(), f, x, "position: ", 1e-5, how=how, dt=dt, n=n, i=i)

    ns = (1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 70)
    mc.run("positions", [(dt, n, i, sp) for dt in (("float64", "int32", "uint8", "float32") if not T else [d for d in AL if d != "bool"]) for n in ns for i in (range(n) if T or n < 20 else sorted({0, 1, n // 2, n - 2, n - 1, 15, 16, 31} & set(range(n)))) for sp in ("none", "min", "max")], run3)

    # ------------------------------------------------ Dataset reductions
    def run4(case):
        cols, order = case
        n = len(cols[0][1])
        d = {}
        for j, (dt, x) in enumerate(cols):
            d["abc"[j]] = arr(list(x), dt)
        for extra in (False, True):
            dd = dict(d)
            if extra:
                dd = {"s": rt.FastArray(["x"] * n), **d} if order else {**d, "s": rt.FastArray(["x"] * n)}
            ds = rt.Dataset(dd)
            for base in BASE:
                for f in (base, "nan" + base):
                    w = {}
                    skip = False
                    for k, (dt, x) in zip("abc", cols):
                        w[k] = red(f, list(x))
                        if w[k] is SKIP or w[k] is RAISES or (f == "median" and None in x and dt[0] in "iu"):
                            skip = True
                    if skip:
                        continue
                    if extra and base in ("min", "max"):
                        w = {k: "x" if k == "s" else w[k] for k in dd}
                    r = getattr(ds, f)()
                    mc.eq(list(r.keys()), list(w), "Dataset reduction: columns", f=f)
                    mc.eq([r[k].shape for k in w], [(1,)] * len(w), "Dataset reduction: one row", f=f)
                    mc.eq([close(scalar(r[k][0]), w[k], 1e-6) for k in w], [True] * len(w), "Dataset." + f, cols=cols, g_=[repr(r[k][0]) for k in w], w_=list(w.values()))
                    r = getattr(ds, f)(as_dataset=False)
                    mc.eq([close(scalar(r[k]), w[k], 1e-6) for k in w], [True] * len(w), "Dataset." + f + " as Struct", cols=cols)
                    mc.op(2)
                    if f in ("sum", "min", "max", "nanmin") and extra:
                        r = getattr(ds, f)(fill_value=5)
                        mc.eq(scalar(r["s"][0]), 5, "fill_value for a string column", f=f)
                        r = getattr(ds, f)(fill_value={"s": "q"})
                        mc.eq(scalar(r["s"][0]), "q", "fill_value dict for a string column", f=f)
                    flat = [y for dt, x in cols for y in x]
                    if base not in ("min", "max"):  # min and max apply to the string column too
                        w0 = red(f, flat)
                        if w0 is not RAISES and w0 is not SKIP:
                            g = getattr(ds, f)(axis=None)
                            mc.eq(close(scalar(g), w0, 1e-6), True, "Dataset." + f + " axis=None", cols=cols, extra=extra, g_=repr(g), w_=w0)
                            mc.op()
                    # by row (values are combined in one floating point matrix when the dtypes differ)
                    rows = list(zip(*[x for dt, x in cols]))
                    if f not in ("sum", "min", "max", "nanmin", "nanmax", "median", "nanmedian") and not (base in ("var", "std") and len(cols) < 2):
                        w1 = [red(f, list(r)) for r in rows]
                        if not any(z is RAISES or z is SKIP for z in w1) and not (f in ("argmin", "argmax") and any(None in r for r in rows)):
                            g = getattr(ds, f)(axis=1)
                            mc.eq([close(scalar(p), q, 1e-6) for p, q in zip(g, w1)] + [len(g)], [True] * n + [n], "Dataset." + f + " axis=1", cols=cols, extra=extra, g_=vals(np.asarray(g)), w_=w1)
                            mc.op()
                    if extra:
                        continue
                    w1 = [red(f, list(r)) for r in rows]
                    if f in ("nanmin", "nanmax") and None not in w1:
                        g = getattr(ds, f)(axis=1)
                        mc.eq([close(p, q, 1e-6) for p, q in zip(vals(rt.FastArray(g)), w1)] + [len(g)], [True] * n + [n], "Dataset." + f + " axis=1 with missing integers", cols=cols, g_=repr(g), w_=w1)
                        mc.op()
                    mixed = len({dt for dt, x in cols}) > 1
                    allf = all(dt[0] == "f" for dt, x in cols)
                    if (allf or not any(None in r for r in rows)) and not (f in ("var", "std", "nanvar", "nanstd") and len(cols) < 2):
                        w1 = [red(f, list(r)) for r in rows]
                        if not any(z is RAISES or z is SKIP for z in w1):
                            g = getattr(ds, f)(axis=1)
                        if not any(z is RAISES or z is SKIP for z in w1):
                            mc.eq([close(scalar(p), q, 1e-6) for p, q in zip(g, w1)] + [len(g)], [True] * n + [n], "Dataset." + f + " axis=1", cols=cols, g_=vals(np.asarray(g)), w_=w1)
                        if True:
                            w0 = red(f, flat)
                            if w0 is not RAISES and w0 is not SKIP:
                                g = getattr(ds, f)(axis=None)
                                mc.eq(close(scalar(g), w0, 1e-6), True, "Dataset." + f + " axis=None", cols=cols, g_=repr(g), w_=w0)
                        mc.op(2)

    def space4():
        xs = {"float64": ((1.5, None), (2.0, -1.0), (None, None), (0.0, 3.0)), "int32": ((3, -2), (None, 4), (0, 0)), "uint8": ((1, 9), (None, 2)), "int64": ((2**40, 1), (5, None))}
        one = [(dt, x) for dt in xs for x in xs[dt]]
        for c in one:
            yield (c,), 0
        for c in itertools.product(one, repeat=2):
            yield c, 0
        for c in itertools.product(one[:7], repeat=3):
            yield c, 1

    mc.run("Dataset reductions", list(space4()), run4)

    # ------------------------------------------------ arrays of two dimensions, and axis= and ddof= of one
    def run2d(case):
        dt, shape, x = case
        r, c = shape
        m = rt.FastArray(np.asarray(arr(list(x), dt)).reshape(r, c).copy())
        for order in ("C", "F"):
            A = m if order == "C" else rt.FastArray(np.asfortranarray(np.asarray(m)))
            groups = {None: [list(x)], 0: [[x[i * c + j] for i in range(r)] for j in range(c)], 1: [list(x[i * c:i * c + c]) for i in range(r)]}
            for ax, gs in groups.items():
                for f in ("nansum", "nanmean", "nanvar", "nanstd", "nanmin", "nanmax", "mean", "var", "std"):
                    for ddof in ((0, 1) if f[-3:] in ("var", "std") else (1,)):
                        w = [red(f, g, ddof) for g in gs]
                        if any(z is SKIP or z is RAISES for z in w) or (dt[0] in "iu" and f in ("nanmin", "nanmax") and None in w and True):
                            continue
                        kw = {} if ddof == 1 else {"ddof": ddof}
                        if ax is not None:
                            kw["axis"] = ax
                        for nm, fn in (("method", lambda: getattr(A, f)(**kw)), ("function", lambda: getattr(rt, f)(A, **kw))):
                            g = fn()
                            g = [scalar(g)] if ax is None else vals(np.atleast_1d(np.asarray(g)))
                            mc.op()
                            mc.eq([close(p, q, 1e-6) for p, q in zip(g, w)] + [len(g)], [True] * len(w) + [len(w)], f"{nm} {f} of a matrix", dt=dt, x=x, shape=shape, axis=ax, ddof=ddof, g_=repr(g), w_=w)
        a = arr(list(x), dt)
        for f in ("nansum", "nanmean", "nanvar", "nanstd", "nanmin", "nanmax", "mean", "var", "std", "nanargmin", "nanargmax"):
            for ddof in ((0, 1, 2) if f[-3:] in ("var", "std") else (1,)):
                w = red(f, list(x), ddof)
                if w is SKIP or w is RAISES or (w is None and f in ("nanmin", "nanmax")):
                    continue
                for kw in ({"axis": 0}, {"axis": None}, {"ddof": ddof}, {"axis": 0, "ddof": ddof}, {"keepdims": True}):
                    if ("ddof" in kw) != (f[-3:] in ("var", "std")):
                        continue
                    g = getattr(a, f)(**kw)
                    g = scalar(np.asarray(g).ravel()[0])
                    mc.op()
                    mc.eq(close(g, w, 1e-6), True, f"{f} with {kw}", dt=dt, x=x, g_=repr(g), w_=w)

    AL2 = {"int32": (None, 3, -2), "uint8": (None, 7, 0), "float64": (None, 1.5, -2.0), "int64": (None, 2**40, 1)}
    mc.run("matrices", ((dt, s, x) for dt in AL2 for s in ((2, 2), (1, 3), (2, 3)) for x in itertools.product(AL2[dt] if s != (2, 3) or T else AL2[dt][:2], repeat=s[0] * s[1])), run2d)

    # ------------------------------------------------ describe
    def run5(case):
        dt, x = case
        a = arr(x, dt)
        v = sorted(y for y in x if y is not None)
        n = len(x)
        for q in (None, [0.5], [0.25, 0.75]):
            qq = q or [0.1, 0.25, 0.5, 0.75, 0.9]
            names = ["Count", "Valid", "Nans", "Mean", "Std", "Min"] + [f"P{int(p * 100)}" for p in qq] + ["Max"]
            if v:
                w = [n, len(v), n - len(v), sum(v) / len(v), red("std", v), v[0]] + [lin(v, p) for p in qq] + [v[-1]]
            else:
                w = [n, 0]  # the other figures of an all-missing array are nan
            for how in ("c", "rev") if n > 1 else ("c",):
                for r in (rt.describe(lay(a, how), q=q)["Col0"], rt.Dataset({"s": ["z"] * n, "Col0": lay(a, how)}).describe(q=q)["Col0"]):
                    mc.eq([close(scalar(p), z, 1e-5) for p, z in zip(r, w)], [True] * len(w), "describe", x=x, dt=dt, g_=vals(r), w_=w, how=how)
            mc.eq(vals(rt.describe(a, q=q)["Stats"])[:-1], names, "describe labels")
            mc.eq(vals(a), list(x), "describe leaves the array alone")
            mc.op(2)

    def space5():
        for dt in ("float64", "int32", "uint8", "int64", "uint64", "float32"):
            al = [y for y in AL[dt] if y != INF]
            for n in range(1, 4 + T):
                for x in itertools.product(al, repeat=n):
                    yield dt, x

    mc.run("describe", list(space5()), run5)
