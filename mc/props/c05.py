"""C05 Conversion and filling never lose, invent or misplace missing values."""
import itertools, warnings, logging
import numpy as np
import riptable as rt
from ..model import *
from ..zoo import item, PLAIN, CATS, TIMES

PROPERTY = "C05"
warnings.simplefilter("ignore")
np.seterr(all="ignore")
logging.disable(logging.WARNING)
FA = rt.FastArray
NUM = INTS + FLTS
INF = float("inf")


def lay(a, how):
    a = np.asarray(a)
    if how == "strided":
        b = np.empty(2 * len(a) + 1, dtype=a.dtype)
        b[:] = 1
        b[: 2 * len(a) : 2] = a
        return FA(b)[: 2 * len(a) : 2]
    if how == "rev":
        return FA(a[::-1].copy())[::-1]
    if how == "off":
        return FA(np.concatenate([a[:1], a]))[1:] if len(a) else FA(a)
    return FA(a.copy())


def cands(s):
    """interesting values of dtype s (None = missing)"""
    if s == "bool":
        return [False, True]
    if s in FLTS:
        v = [None, 0.0, 1.0, 2.75, -2.75, 100.0, -100.0, 250.0, 40000.0, -30000.0, float(2**24), -float(2**31 - 2**7), float(2**31), float(2**40), INF, -INF]
        return v if s == "float32" else v + [float(2**53 - 1), -float(2**53 - 1)]
    i = np.iinfo(s)
    v = [None, 0, 1, 100, i.max - 1, i.min + 1, i.max if i.min else 0]
    if i.min:
        v += [-1, -100]
    for e in (7, 8, 15, 16, 31, 32):
        for d in (-1, 0, 1):
            for sg in (1, -1):
                x = sg * (2**e + d)
                if i.min < x < i.max:
                    v.append(x)
    out = []
    for x in v:
        if x not in out:
            out.append(x)
    return out


def conv(v, s, d):
    """(defined, value) of converting the element v from s to d"""
    if v is None:
        return (True, None) if d != "bool" else (False, None)
    if d == "bool":
        return True, bool(v)
    if d in FLTS:
        f = float(np.dtype(d).type(v))
        return (True, f) if f == v else (False, None)
    if v in (INF, -INF):
        return False, None
    x = int(v)
    i = np.iinfo(d)
    if i.min <= x <= i.max and x != sent(d):
        return True, x
    return False, None


def ffill(x, val, limit):
    out, last, c = [], val, 0
    for y in x:
        if y is None:
            c += 1
            out.append(last if (not limit or c <= limit) else None)
        else:
            last, c = y, 0
            out.append(y)
    return out


def explore(mc):
    T = mc.thorough

    # ---------------------------------------------------------------- dtype conversion
    def cspace():
        for s in ["bool"] + NUM:
            for d in ["bool"] + NUM:
                for how in ("c", "strided", "rev", "off"):
                    for via in ("astype", "ctor", "ds", "np"):
                        yield s, d, how, via

    def crun(case):
        s, d, how, via = case
        pool = [(v,) + conv(v, s, d) for v in cands(s)]
        pool = [(v, w) for v, ok, w in pool if ok]
        # every ordered pair of values (neighbours never influence each other), and a long array crossing vector widths
        seqs_ = [[], *[[p] for p in pool], *[[p, q] for p in pool for q in pool][:: 1 if T else 3], pool * 5]
        for sq in seqs_:
            x, w = [p[0] for p in sq], [p[1] for p in sq]
            a = lay(arr(x, s), how)
            if via == "astype":
                r = a.astype(d)
            elif via == "ctor":
                if how != "c" and None in x:
                    continue
                r = FA(a, dtype=d) if s == d or None not in x else a.astype(np.dtype(d).char)
            elif via == "ds":
                r = rt.Dataset({"a": a, "b": rt.arange(len(x))}).astype(d)["a"]
            else:
                r = a.astype(np.dtype(d).type)
            mc.op()
            mc.eq((str(np.asarray(r).dtype), vals(r)), (d, w), "conversion keeps values and missing", key=f"cast-{s}-{d}-{via}-{how}", x=x)
            mc.eq(vals(a), x, "conversion leaves its input alone", key="cast-input")
            mc.eq(type(r).__name__, "FastArray", "result type", key="cast-type")

    mc.run("convert", cspace(), crun)

    # ---------------------------------------------------------------- strings
    def sspace():
        for n in range(0, 4):
            for x in itertools.product(("", "a", "12", "-3.5", "zz z"), repeat=n):
                yield "str", x
        for s in INTS:
            for n in range(0, 3):
                for x in itertools.product((0, 7, 120), repeat=n):
                    yield s, x
        for n in range(0, 3):
            for x in itertools.product((0.5, 7.0, -2.25), repeat=n):
                yield "float64", x

    def srun(case):
        s, x = case
        x = list(x)
        for how in ("c", "strided", "rev"):
            if s == "str":
                for t in ("S6", "U6"):
                    a = lay(np.array(x, dtype=t), how)
                    for d in ("S", "U", "S8", "U8", "S6", "U6"):
                        r = a.astype(d)
                        mc.op()
                        mc.eq((np.asarray(r).dtype.kind, vals(r)), (d[0], x), "string conversion", key=f"str-{t}-{d}-{how}")
                        mc.eq(vals(a.astype(d).astype(t)), x, "string round trip", key="str-rt")
                    if all(y in ("12", "-3.5") for y in x):
                        mc.eq(vals(a.astype("float64")), [float(y) for y in x], "text to float", key="str-f")
                    if all(y == "12" for y in x):
                        mc.eq(vals(a.astype("int32")), [12] * len(x), "text to int", key="str-i")
            else:
                a = lay(arr(x, s), how)
                for d in ("S", "U"):
                    r = a.astype(d)
                    mc.op()
                    mc.eq(vals(r), [str(y) for y in x], "number to text", key=f"num-{d}-{how}")
                    if x:
                        mc.eq(vals(r.astype(s)), x, "text round trip", key="num-rt")

    mc.run("strings", sspace(), srun)

    # ---------------------------------------------------------------- filling
    FAL = {"float64": (None, 1.5, -2.0), "float32": (None, 0.5), "int32": (None, 4, -9), "int64": (None, 2**40 + 1), "int8": (None, 127, -127), "int16": (None, 3),
           "uint8": (None, 0, 254), "uint16": (None, 9), "uint32": (None, 9), "uint64": (None, 0)}

    def fspace():
        for dt, al in FAL.items():
            hi = (5 if len(al) == 3 else 6) + T
            if dt not in ("float64", "int32", "int8", "float32", "uint8"):
                hi = 4
            for n in range(0, hi + 1):
                for x in itertools.product(al, repeat=n):
                    yield dt, x

    def frun(case):
        dt, x = case
        x = list(x)
        fl = dt in FLTS
        V = 8.5 if fl else 8
        V = V
        hows = ("c", "strided", "rev", "off") if len(x) <= 4 else ("c", "strided")
        for how in hows:
            mk = lambda: lay(arr(x, dt), how)
            for val in (V, 0, None):
                for limit in (None, 0, 1, 2, 3) if len(x) <= 4 else (None, 1, 2):
                    wf = ffill(x, val, limit)
                    wb = ffill(x[::-1], val, limit)[::-1]
                    for meth, w in (("forward", wf), ("backward", wb)):
                        f = "fill_" + meth
                        ctx = dict(x=x, how=how, val=val, limit=limit, dt=dt)
                        kw = {} if limit is None else {"limit": limit}
                        a = mk()
                        r = getattr(a, f)(val, **kw)
                        mc.op()
                        mc.eq((vals(r), str(r.dtype)), (w, dt), f, key=f, **ctx)
                        mc.eq(vals(a), x, f + " leaves its input alone", key=f + "-in", **ctx)
                        a = mk()
                        getattr(a, f)(fill_val=val, inplace=True, **kw)
                        mc.eq(vals(a), w, f + " inplace", key=f + "-inplace", **ctx)
                        r = getattr(rt, f)(mk(), fill_val=val, **kw)
                        mc.eq(vals(r), w, "rt." + f, key="rt" + f, **ctx)
                        for name in {"forward": ("ffill", "pad"), "backward": ("bfill", "backfill")}[meth]:
                            a = mk()
                            r = a.fillna(val, method=name, limit=limit)
                            mc.eq((vals(r), vals(a)), (w, x), "fillna method", key="fillna-" + name, **ctx)
                            a = mk()
                            a.fillna(val, method=name, limit=limit, inplace=True)
                            mc.eq(vals(a), w, "fillna method inplace", key="fillna-in-" + name, **ctx)
                        if how == "c":
                            r = getattr(rt, f)(np.asarray(arr(x, dt)).copy(), fill_val=val, **kw)
                            mc.eq(vals(r), w, "rt." + f + " of NumPy array", key="np" + f, **ctx)
                        if len(x) <= 4:
                            nm = "ffill" if meth == "forward" else "bfill"
                            ds = rt.Dataset({"a": mk(), "k": rt.arange(len(x)) + 1})
                            r = ds.fillna(val, method=nm, limit=limit)
                            mc.eq((list(r), vals(r.a), vals(r.k), vals(ds.a)), (["a", "k"], w, list(range(1, len(x) + 1)), x), "Dataset.fillna method", key="ds-fillna", **ctx)
                            ds.fillna(val, method=nm, limit=limit, inplace=True)
                            mc.eq((vals(ds.a), vals(ds.k)), (w, list(range(1, len(x) + 1))), "Dataset.fillna method inplace", key="ds-fillna-in", **ctx)
            for val in (V, 0):
                w = [val if y is None else y for y in x]
                for f in ("replacena", "fillna"):
                    a = mk()
                    r = getattr(a, f)(val)
                    mc.op()
                    mc.eq((vals(r), str(r.dtype), vals(a)), (w, dt, x), f, key=f, how=how)
                    a = mk()
                    mc.eq(getattr(a, f)(val, inplace=True), None, f + " inplace returns None", key=f + "-none")
                    mc.eq(vals(a), w, f + " inplace", key=f + "-inplace", how=how, x=x)
                ds = rt.Dataset({"a": mk(), "k": rt.arange(len(x)) + 1})
                r = ds.fillna(val)
                mc.eq((vals(r.a), vals(r.k), vals(ds.a)), (w, list(range(1, len(x) + 1)), x), "Dataset.fillna", key="ds-fill")
                ds.fillna(val, inplace=True)
                mc.eq((vals(ds.a), vals(ds.k)), (w, list(range(1, len(x) + 1))), "Dataset.fillna inplace", key="ds-fill-in")
            a = mk()
            mc.eq((vals(a.isna()), vals(a.notna())), ([y is None for y in x], [y is not None for y in x]), "isna/notna", key="isna", how=how)
            r = rt.nan_to_zero(a)
            w = [0 if y is None else y for y in x]
            mc.eq((vals(r), vals(a)), (w, w), "nan_to_zero", key="nan_to_zero", how=how)
            if fl:
                mc.eq(vals(rt.nan_to_num(mk())), w, "nan_to_num", key="nan_to_num", how=how)
        # per-position fill values
        m = [y is None for y in x]
        if any(m):
            a = lay(arr(x, dt), "c")
            a[a.isna()] = FA(np.array(range(1, sum(m) + 1), dtype=dt))
            it = iter(range(1, 99))
            mc.eq(vals(a), [next(it) if y is None else y for y in x], "masked assignment of fill values", key="mask-assign")

    mc.run("fill", fspace(), frun)

    # ---------------------------------------------------------------- refusals
    def rspace():
        for d in ("bool", "S", "U"):
            for f in ("fill_forward", "fill_backward"):
                yield d, f
        for d in NUM:
            for f in ("fill_forward", "fill_backward", "fillna"):
                yield d, f

    def rrun(case):
        d, f = case
        a = item(d, 3)
        b = vals(a)
        if d in ("bool", "S", "U"):
            mc.raises(lambda: getattr(a, f)(), "fill of unsupported type refused", TypeError)
            mc.raises(lambda: getattr(a, f)(inplace=True), "fill of unsupported type refused", TypeError)
        elif f == "fillna":
            mc.raises(lambda: a.fillna(), "fillna needs value or method", ValueError)
            mc.raises(lambda: a.fillna(1, method="nope"), "unknown method", KeyError)
            mc.raises(lambda: a.fillna(1, limit=2), "limit without method", KeyError)
            ds = rt.Dataset({"a": a})
            mc.raises(lambda: ds.fillna(), "fillna needs value or method", ValueError)
            mc.raises(lambda: ds.fillna(1, method="nope"), "unknown method", KeyError)
            mc.raises(lambda: ds.fillna(1, limit=2), "limit without method", KeyError)
        else:
            mc.raises(lambda: getattr(a, f)(limit=-1), "negative limit", TypeError)
            mc.raises(lambda: getattr(a, f)(limit=-1, inplace=True), "negative limit", TypeError)
        mc.eq(vals(a), b, "refused fill changes nothing", key="refuse")

    mc.run("refuse", rspace(), rrun)

    # ---------------------------------------------------------------- shift, putmask, full, invalid fills for every kind
    KINDS = [k for k in PLAIN if k not in ("m2", "m2f")] + CATS + TIMES
    MISS = {"S": "", "U": "", "bool": False}

    def hspace():
        for k in KINDS:
            for n in range(0, 5 + T):
                for p in range(-n - 2, n + 3):
                    yield k, n, p

    def hrun(case):
        k, n, p = case
        a = item(k, n)
        x = vals(a)
        miss = MISS.get(k)
        if k in ("c128",):
            return
        w = [x[i - p] if 0 <= i - p < n else miss for i in range(n)]
        mc.op()
        if k in ("cat0", "catmap", "catenum") or (k in CATS and k not in ("cat", "catun", "catf", "catnum", "catflt", "catU", "cat2")):
            pass
        else:
            r = a.shift_cat(p) if k in CATS else a.shift(p)
            mc.eq((vals(r), type(r).__name__), (w, type(a).__name__), "shift", key="shift-" + k)
            mc.eq(vals(a), x, "shift leaves its input alone", key="shift-in")
        if k in NUM:
            for how in ("strided", "rev"):
                r = lay(a, how).shift(p)
                mc.eq(vals(r), w, "shift of a view", key="shift-" + how)
            r = a.shift(p, invalid=9)
            mc.eq(vals(r), [x[i - p] if 0 <= i - p < n else 9 for i in range(n)] if p else x, "shift with fill value", key="shift-invalid")

    mc.run("shift", hspace(), hrun)

    def pspace():
        for k in [k for k in KINDS if k not in CATS and k != "c128"]:
            for n in range(0, 4 + T):
                for m in itertools.product((False, True), repeat=n):
                    yield k, n, m

    def prun(case):
        k, n, m = case
        x, y = vals(item(k, n)), vals(item(k, n, 1))
        w = [b if f else a for a, b, f in zip(x, y, m)]
        mk = FA(np.array(m, dtype=bool))
        mc.op()
        src = item(k, n, 1)
        a = item(k, n)
        rt.putmask(a, mk, src)
        mc.eq((vals(a), vals(src)), (w, y), "rt.putmask", key="putmask-" + k)
        a = item(k, n)
        ds = rt.Dataset({"a": a, "b": rt.arange(n)})
        ds.putmask(mk, rt.Dataset({"a": item(k, n, 1), "b": rt.arange(n) + 50}))
        mc.eq((vals(ds.a), vals(ds.b)), (w, [i + 50 if f else i for i, f in enumerate(m)]), "Dataset.putmask", key="ds-putmask-" + k)
        if k in NUM:
            ds = rt.Dataset({"a": item(k, n), "b": item(k, n, 2)})
            z = vals(ds.b)
            ds.putmask(mk, item(k, n, 1))
            mc.eq((vals(ds.a), vals(ds.b)), (w, [b if f else c for c, b, f in zip(z, y, m)]), "Dataset.putmask(array)", key="ds-putmask-arr")
            for how in ("strided", "rev"):
                a = lay(item(k, n), how)
                rt.putmask(a, mk, src)
                mc.eq(vals(a), w, "putmask into a view", key="putmask-view")
                a = item(k, n)
                rt.putmask(a, mk, lay(src, how))
                mc.eq(vals(a), w, "putmask from a view", key="putmask-from-view")
                a = item(k, n)
                rt.putmask(a, lay(mk, how), src)
                mc.eq(vals(a), w, "putmask with a strided mask", key="putmask-mask-view")
        # filling with missing
        a = item(k, n)
        miss = MISS.get(k)
        r = a.copy_invalid()
        mc.eq((vals(r), len(r), vals(a), type(r).__name__), ([miss] * n, n, x, type(a).__name__), "copy_invalid", key="copy_invalid-" + k)
        a.fill_invalid()
        mc.eq(vals(a), [miss] * n, "fill_invalid", key="fill_invalid-" + k)
        if k in NUM:
            mc.eq(vals(FA(np.array([a.inv], dtype=k))), [None], "inv", key="inv")
            mc.eq(vals(rt.full(n, a.inv, dtype=k)), [None] * n, "full with missing", key="full")
            mc.eq(vals(rt.full(n, 5, dtype=k)), [5] * n, "full", key="full5")
            # a shorter value array repeats, a scalar applies everywhere, a missing integer stays missing
            if n >= 2:
                a = item(k, n)
                z = arr([5, None], k)
                rt.putmask(a, mk, z)
                mc.eq(vals(a), [(5, None)[i % 2] if f else v for i, (v, f) in enumerate(zip(x, m))], "putmask repeats short values", key="putmask-short")
            a = item(k, n)
            rt.putmask(a, mk, 5)
            mc.eq(vals(a), [5 if f else v for v, f in zip(x, m)], "putmask scalar", key="putmask-scalar")
            if k in INTS:
                a = item("float64", n)
                x6 = vals(a)
                for how in ("c", "strided", "rev"):
                    a = item("float64", n)
                    rt.putmask(a, mk, lay(src, how))
                    mc.eq(vals(a), [b if f else v for v, b, f in zip(x6, y, m)], "putmask of integers into floats", key="putmask-int-float-" + how)
            mc.eq(vals(rt.zeros_like(item(k, n))), [0] * n, "zeros_like", key="zeros_like")
            mc.eq(vals(rt.ones_like(item(k, n))), [1] * n, "ones_like", key="ones_like")

    mc.run("mask", pspace(), prun)
