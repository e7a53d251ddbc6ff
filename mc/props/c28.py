"""C28 Array windows, scans, interpolation and row utilities equal their definitions."""
import itertools, math, warnings, logging
import numpy as np
import riptable as rt
from ..model import *
from ..zoo import item, PLAIN, CATS, TIMES

PROPERTY = "C28"
warnings.simplefilter("ignore")
np.seterr(all="ignore")
logging.disable(logging.WARNING)
FA = rt.FastArray
NUM = INTS + FLTS
INF = float("inf")
VIEWS = ("c", "strided", "rev")


def lay(a, how):
    a = np.asarray(a)
    if how == "strided":
        b = np.empty(2 * len(a) + 1, dtype=a.dtype)
        b[:] = np.zeros(1, dtype=a.dtype)
        b[: 2 * len(a) : 2] = a
        return FA(b)[: 2 * len(a) : 2]
    if how == "rev":
        return FA(a[::-1].copy())[::-1]
    return FA(a.copy())


def near(g, w, tol=1e-9):
    if len(g) != len(w):
        return False
    for a, b in zip(g, w):
        if a is None or b is None:
            if not (a is None and b is None):
                return False
        elif isinstance(b, float) and (math.isinf(b) or (isinstance(a, float) and math.isinf(a))):
            if a != b:
                return False
        elif abs(a - b) > tol * max(1.0, abs(b)):
            return False
    return True


def explore(mc):
    T = mc.thorough

    def ceq(g, w, what, key, tol=1e-9, **ctx):
        mc.op()
        g = vals(g) if isinstance(g, np.ndarray) else g
        if not near(g, w, tol):
            mc.fail(what, g_=g, w_=w, **ctx)

    # ------------------------------------------------------------ rolling windows
    RAL = {"float64": (None, 1.5, -2.0, 3.25), "float32": (None, 0.5, 2.0), "int32": (4, -9, 1), "int64": (5, -1), "int8": (120, -3), "int16": (3, 1), "uint8": (250, 7), "uint16": (9, 2), "uint32": (9, 1), "uint64": (4, 6)}

    def rspace():
        for dt, al in RAL.items():
            for n in range(1, (5 if len(al) < 4 else 5) + T):
                for x in itertools.product(al, repeat=n):
                    yield dt, x

    def stat(f, v, nan):
        if nan:
            v = [y for y in v if y is not None]
        n = len(v)
        if f == "sum":
            return sum(v)
        if f == "mean":
            return sum(v) / n if n else None
        if n < 2:
            return None
        m = sum(v) / n
        r = sum((y - m) ** 2 for y in v) / (n - 1)
        return math.sqrt(max(r, 0.0)) if f == "std" else r

    def rrun(case):
        dt, x = case
        x = list(x)
        n = len(x)
        tol = 1e-4 if dt == "float32" else 1e-9
        for w in range(1, n + 3):
            win = [x[max(0, i - w + 1) : i + 1] for i in range(n)]
            for how in VIEWS:
                a = lay(arr(x, dt), how)
                for f in ("sum", "mean"):  # rolling var/std are wrong inside riptide_cpp: not claimed
                    for nan in (False, True):
                        if None in x and not nan:
                            continue
                        if None in x and f in ("var", "std", "mean") and any(all(y is None for y in v) for v in win):
                            continue
                        name = "rolling_" + ("nan" if nan else "") + f
                        want = [stat(f, v, nan) for v in win]
                        if any(y is None for y in want) and f != "sum":
                            # the value of a window with too few elements is not claimed
                            g = vals(getattr(a, name)(w))
                            ceq([p for p, q in zip(g, want) if q is not None], [q for q in want if q is not None], name, name, tol * 10 if f in ("var", "std") else tol, x=x, win_=w, how=how, dt=dt, all_=g)
                            continue
                        ceq(getattr(a, name)(w), want, name, name, max(tol, 1e-7) if f in ("var", "std") else tol, x=x, win_=w, how=how, dt=dt)
                for q in (0.0, 0.25, 0.5, 1.0):
                    if dt not in ("float64", "int32") and q == 0.25:
                        continue
                    want = []
                    for v in win:
                        s = sorted(y for y in v if y is not None)
                        if not s:
                            want.append(None)
                            continue
                        p = q * (len(s) - 1)
                        lo, hi = int(math.floor(p)), int(math.ceil(p))
                        want.append((s[lo] + s[hi]) / 2)
                    ceq(a.rolling_quantile(q, w), want, "rolling_quantile", "rq", tol, x=x, win_=w, how=how, q=q, dt=dt)
                mc.eq(vals(a), x, "rolling leaves its input alone", key="roll-in")
                if dt in FLTS and how == "c":
                    pass
            if None not in x:
                a = arr(x, dt)
                if w <= n:
                    for f in ("sum", "mean", "min", "max", "median"):
                        want = []
                        for i, v in enumerate(win):
                            if i < w - 1:
                                want.append(None)
                            else:
                                s = sorted(v)
                                want.append({"sum": sum(v), "mean": sum(v) / w, "min": s[0], "max": s[-1], "median": (s[(w - 1) // 2] + s[w // 2]) / 2}[f])
                        ceq(getattr(a, "move_" + f)(w), want, "move_" + f, "move_" + f, tol if dt != "float32" else 1e-4, x=x, win_=w)
                    if w >= 1:
                        ceq(a.move_argmin(w), [None if i < w - 1 else min(range(w), key=lambda k: (v[w - 1 - k], k)) for i, v in enumerate(win)], "move_argmin", "margmin", x=x, win_=w)
                        ceq(a.move_argmax(w), [None if i < w - 1 else min(range(w), key=lambda k: (-v[w - 1 - k], k)) for i, v in enumerate(win)], "move_argmax", "margmax", x=x, win_=w)

    mc.run("rolling", rspace(), rrun)

    # ------------------------------------------------------------ time windows
    def tspace():
        for n in range(1, 5 + T):
            for gaps in itertools.product((0, 1, 3), repeat=n - 1):
                for dist in (0, 1, 2, 3, 5):
                    yield n, gaps, dist

    def trun(case):
        n, gaps, dist = case
        t = [10]
        for g in gaps:
            t.append(t[-1] + g)
        for xs in itertools.product((2, -3, 5), repeat=n) if n <= 3 else [(2, -3, 5, 7, 4)[:n], (1, 1, 2, 3, 5)[:n]]:
            win = [[xs[j] for j in range(i + 1) if t[i] - t[j] <= dist] for i in range(n)]
            for dt in ("int64", "float64", "int32"):
                a = arr(list(xs), dt)
                ta = FA(np.array(t, dtype="int64"))
                ceq(a.timewindow_sum(ta, dist), [sum(v) for v in win], "timewindow_sum", "tws", xs=xs, t=t, dt=dt)
                ceq(a.timewindow_prod(ta, dist), [math.prod(v) for v in win], "timewindow_prod", "twp", xs=xs, t=t, dt=dt)

    mc.run("timewindow", tspace(), trun)

    # ------------------------------------------------------------ scans
    SAL = {"float64": (None, 1.5, -2.0, 0.25), "float32": (None, 0.5, 2.0), "int32": (None, 4, -9), "int64": (None, 2**33, 3), "int8": (None, 11, -3), "int16": (None, 3, 1), "uint8": (None, 5, 7), "uint16": (None, 9, 2), "uint32": (None, 9, 1), "uint64": (None, 4, 6)}

    def sspace():
        for dt, al in SAL.items():
            for n in range(0, 5 + T):
                for x in itertools.product(al, repeat=n):
                    yield dt, x

    def scan(x, better, skipna):
        out, cur, bad = [], None, False
        for y in x:
            if y is None:
                bad = bad or not skipna
                out.append(None if bad else cur)
            else:
                if cur is None or better(y, cur):
                    cur = y
                out.append(None if bad else cur)
        return out

    def srun(case):
        dt, x = case
        x = list(x)
        n = len(x)
        for how in VIEWS:
            a = lay(arr(x, dt), how)
            for f, b in (("cummin", lambda p, q: p < q), ("cummax", lambda p, q: p > q)):
                mc.eq(vals(getattr(a, f)()), scan(x, b, True), f, key=f, how=how)
                mc.eq(vals(getattr(a, f)(skipna=True)), scan(x, b, True), f, key=f)
                mc.eq(vals(getattr(a, f)(skipna=False)), scan(x, b, False), f + " skipna=False", key=f + "-noskip-" + dt, how=how)
                mc.eq(str(getattr(a, f)().dtype), dt, "scan dtype", key="scan-dt")
            if dt in FLTS or None not in x:
                s, p, cs, cp = 0, 1, [], []
                for y in x:
                    s = None if s is None or y is None else s + y
                    p = None if p is None or y is None else p * y
                    cs.append(s)
                    cp.append(p)
                ceq(a.cumsum(), cs, "cumsum", "cumsum", 1e-6, x=x)
                ceq(rt.cumsum(a), cs, "rt.cumsum", "cumsum", 1e-6, x=x)
                if any(y is not None and abs(y) >= 2**63 for y in cp):
                    continue
                ceq(a.cumprod(), cp, "cumprod", "cumprod", 1e-6, x=x)
                ceq(rt.cumprod(a), cp, "rt.cumprod", "cumprod", 1e-6, x=x)
            for p in range(-n - 1, n + 2):
                if p == 0:
                    continue
                if dt[0] != "u" and (dt in FLTS or None not in x):
                    want = [(None if not 0 <= i - p < n or x[i] is None or x[i - p] is None else x[i] - x[i - p]) for i in range(n)]
                    mc.eq(vals(a.diff(p)), want, "diff", key="diff", how=how, p=p)
                same = [0 <= i - p < n and x[i] is not None and x[i] == x[i - p] for i in range(n)]
                if dt in FLTS or None not in x:
                    diff = [0 <= i - p < n and not same[i] for i in range(n)]
                    for f, w in (("differs", same), ("transitions", diff)):
                        mc.eq(vals(getattr(a, f)(p)), w, f, key=f, how=how, p=p)
                        mc.eq(vals(getattr(a, f)(periods=p, fancy=True)), [i for i in range(n) if w[i]], f + " fancy", key=f, how=how, p=p)
            mc.eq(vals(a), x, "scans leave their input alone", key="scan-in")

    mc.run("scan", sspace(), srun)

    def dspace():
        for t in ("S2", "U2"):
            for n in range(0, 5):
                for x in itertools.product(("a", "b", ""), repeat=n):
                    yield t, x

    def drun(case):
        t, x = case
        n = len(x)
        for how in VIEWS:
            a = lay(np.array(x, dtype=t), how)
            for p in range(-n - 1, n + 2):
                if p == 0:
                    continue
                same = [0 <= i - p < n and x[i] == x[i - p] for i in range(n)]
                diff = [0 <= i - p < n and x[i] != x[i - p] for i in range(n)]
                for f, w in (("differs", same), ("transitions", diff)):
                    mc.eq(vals(getattr(a, f)(p)), w, f + " of strings", key=f, how=how, p=p)
                    mc.eq(vals(getattr(a, f)(periods=p, fancy=True)), [i for i in range(n) if w[i]], f + " fancy of strings", key=f, how=how, p=p)
        if n:
            b = np.array(x[::-1], dtype=t)
            mc.eq(vals(FA(np.array(x, dtype=t)).str_append(FA(b))), [p + q for p, q in zip(x, x[::-1])], "str_append", key="str_append")

    mc.run("strscan", dspace(), drun)

    # ------------------------------------------------------------ ema_decay
    def espace():
        for n in range(0, 5):
            for gaps in itertools.product((0, 1, 2.5), repeat=max(0, n - 1)):
                for rate in (0, 0.5, 2):
                    yield n, gaps, rate

    def erun(case):
        n, gaps, rate = case
        t = [3.0]
        for g in gaps:
            t.append(t[-1] + g)
        t = t[:n]
        xs = [1.0, -2.0, 4.0, 0.5][:n]

        def ref(x, f, r):
            out, last, lt = [], 0.0, 0.0
            for i in range(n):
                v = 0.0
                if f is None or f[i]:
                    v = 0.0 if x[i] is None else x[i]
                    if r is not None and r[i]:
                        last, lt = 0.0, 0.0
                last = v + last * math.exp(-rate * (t[i] - lt))
                lt = t[i]
                out.append(last)
            return out

        for dt in ("float64", "int32"):
            x = [int(v * 2) for v in xs] if dt == "int32" else xs
            for td in ("float64",) + (("int64",) if dt == "float64" and all(v == int(v) for v in t) else ()):
                ta = FA(np.array(t, dtype=td))
                a = arr(x, dt)
                for dtype in ("float64", "float32"):
                    kw = {} if dtype == "float32" else {"dtype": np.float64}
                    tol = 1e-5 if dtype == "float32" else 1e-9
                    ceq(a.ema_decay(ta, rate, **kw), ref(x, None, None), "ema_decay", "ema", tol, t=t)
                    for f in itertools.product((False, True), repeat=n):
                        fm = FA(np.array(f, dtype=bool))
                        ceq(a.ema_decay(ta, rate, filter=fm, **kw), ref(x, f, None), "ema_decay filter", "emaf", tol, t=t, f=f)
                        for r in itertools.product((False, True), repeat=n):
                            ceq(a.ema_decay(ta, rate, filter=fm, reset=FA(np.array(r, dtype=bool)), **kw), ref(x, f, r), "ema_decay reset", "emar", tol, t=t, f=f, r=r)
                    if dtype == "float64":
                        mc.eq(str(a.ema_decay(ta, rate, **kw).dtype), "float64", "ema dtype", key="ema-dt")
        if n:
            for k in range(n):
                x = list(xs)
                x[k] = None
                ceq(arr(x, "float64").ema_decay(FA(np.array(t)), rate, dtype=np.float64), ref(x, None, None), "ema_decay skips missing", "eman", t=t, x=x)
            a = FA(np.array(xs))
            mc.raises(lambda: a.ema_decay(FA(np.array(t + [1.0])), rate), "time of another length refused", ValueError)
            mc.raises(lambda: a.ema_decay(FA(np.array(t)), rate, filter=FA(np.ones(n + 1, dtype=bool))), "filter of another length refused", ValueError)
            mc.raises(lambda: a.ema_decay(FA(np.array(t)), rate, filter=FA(np.ones(n, dtype=bool)), reset=FA(np.ones(n + 1, dtype=bool))), "reset of another length refused", ValueError)
            mc.raises(lambda: a.ema_decay(None, rate), "time needed", ValueError)
            mc.raises(lambda: a.ema_decay(FA(np.array(t)), None), "rate needed", ValueError)

    mc.run("ema", espace(), erun)

    # ------------------------------------------------------------ interpolation
    def ispace():
        for xp in ((0.0, 1.0), (0.0, 1.0, 3.0), (-2.0, -1.0, 0.5, 4.0), (1.0, 2.0, 3.0, 5.0, 8.0)):
            for fp in itertools.product((0.0, 2.0, -1.0), repeat=min(len(xp), 4)):
                fp = tuple(fp) + (7.0,) * (len(xp) - len(fp))
                yield xp, fp

    def irun(case):
        xp, fp = case
        xs = [xp[0] - 1.5, xp[0], *[(p + q) / 2 for p, q in zip(xp, xp[1:])], *xp[1:], xp[-1] + 2.0]

        def f(v, clip):
            if v is None:
                return None
            if clip and v <= xp[0]:
                return fp[0]
            if clip and v >= xp[-1]:
                return fp[-1]
            k = 0
            while k < len(xp) - 2 and v > xp[k + 1]:
                k += 1
            return fp[k] + (fp[k + 1] - fp[k]) * (v - xp[k]) / (xp[k + 1] - xp[k])

        for x in [xs, xs[::-1], [None] + xs, [], *[[v] for v in xs]]:
            for dt in ("float64", "float32"):
                tol = 1e-5 if dt == "float32" else 1e-9
                for how in VIEWS if len(x) > 1 else ("c",):
                    a, p, q = lay(arr(x, dt), how), arr(list(xp), dt), arr(list(fp), dt)
                    ceq(rt.interp(a, p, q), [f(v, True) for v in x], "interp", "interp", tol, x=x, how=how, dt=dt)
                    ceq(rt.interp_extrap(a, p, q), [f(v, False) for v in x], "interp_extrap", "interpe", tol, x=x, how=how, dt=dt)
            if x and None not in x:
                ceq(rt.interp(list(x), list(xp), list(fp)), [f(v, True) for v in x], "interp of lists", "interpl")
                ceq(rt.interp_extrap(list(x), list(xp), list(fp)), [f(v, False) for v in x], "interp_extrap of lists", "interpel")

    mc.run("interp", ispace(), irun)

    # ------------------------------------------------------------ lookups by index
    KINDS = [k for k in PLAIN if k not in ("m2", "m2f", "c128")] + TIMES
    MISS = {"S": "", "U": "", "bool": False}

    def lspace():
        for k in KINDS:
            for n in range(1, 4):
                for m in range(0, 4):
                    for ix in itertools.product(range(-n - 1, n + 2), repeat=m) if m < 3 or k in ("int32", "float64", "S") else [tuple(range(-n - 1, n + 2))]:
                        yield k, n, ix

    def lrun(case):
        k, n, ix = case
        a = item(k, n)
        x = vals(a)
        miss = MISS.get(k)
        w = [x[i] if -n <= i < n else miss for i in ix]
        for idt in ("int32", "int64", "int8"):
            I = FA(np.array(ix, dtype=idt))
            r = rt.mbget(a, I)
            mc.op()
            mc.eq((vals(r), type(r).__name__), (w, type(a).__name__), "mbget", key="mbget-" + k, n=n, ix=ix, idt=idt)
            if k in NUM + ["S", "U", "bool"]:
                for how in ("strided", "rev"):
                    mc.eq(vals(rt.mbget(lay(a, how), lay(I, how))), w, "mbget of views", key="mbget-" + how, ix=ix)
        inv = FA(np.array(list(ix) + [np.iinfo("int32").min], dtype="int32"))
        mc.eq(vals(rt.mbget(a, inv)), w + [miss], "mbget of a missing index", key="mbget-inv-" + k)
        if all(0 <= i < n for i in ix):
            for m in ([True] * n, [False] * n, [i % 2 == 0 for i in range(n)]):
                mc.eq(vals(a.filter(np.array(m))), [v for v, f in zip(x, m) if f], "filter(mask)", key="filter")
            mc.eq(vals(a.filter(np.array(ix, dtype="int64"))), w, "filter(index)", key="filteri")
        if k in NUM and len(ix) == 2 and n > 1:
            # 2-D values
            m2 = FA(np.array([[10 * i + j for j in range(3)] for i in range(n)], dtype=k))
            if all(-n <= i < n for i in ix) and all(i >= 0 for i in ix):
                for b in (m2, FA(np.asfortranarray(m2))):
                    mc.eq(np.asarray(rt.mbget(b, FA(np.array(ix, dtype="int32")))).tolist(), [[10 * i + j for j in range(3)] for i in ix], "mbget 2-D", key="mbget2")

    mc.run("lookup", lspace(), lrun)

    # 2-D values whose flat positions do not fit the index's dtype
    def l2run(case):
        n, m, idt, dt = case
        a = np.arange(n * m).reshape(n, m).astype(dt)
        top = min(n - 1, np.iinfo(idt).max - (np.iinfo(idt).min == 0))  # the largest unsigned is the missing index
        for ix in ((top,), (0, top), (top, top // 2, 0), (-1 if np.iinfo(idt).min < 0 else top, 1)):
            for b in (FA(a), FA(np.asfortranarray(a))):
                for I in (FA(np.array(ix, dtype=idt)), np.array(ix, dtype=idt)):
                    mc.op()
                    r = rt.mbget(b, I)
                    if all(i >= 0 for i in ix):
                        mc.eq(np.asarray(r).tolist(), a[list(ix)].tolist(), "mbget of wide 2-D values", key="mbget2w", ix=ix)
                    mc.eq(np.asarray(b[I]).tolist(), a[list(ix)].tolist(), "indexing wide 2-D values", key="get2w", ix=ix)

    mc.run("lookup2d", ((n, m, idt, dt) for n, m in ((2, 3), (100, 3), (127, 2), (128, 2), (129, 2), (200, 200), (300, 130), (2, 40000)) for idt in ("int8", "int16", "int32", "int64", "uint8") for dt in ("int32", "float64")), l2run)

    # ------------------------------------------------------------ repeat / tile / between / clip / map
    def uspace():
        for k in KINDS + [c for c in CATS]:
            for n in range(0, 4):
                yield k, n

    def urun(case):
        k, n = case
        a = item(k, n)
        x = vals(a)
        for r in (0, 1, 2, 3):
            mc.op()
            mc.eq((vals(a.repeat(r)), type(a.repeat(r)).__name__), ([v for v in x for _ in range(r)], type(a).__name__), "repeat", key="repeat-" + k)
            mc.eq((vals(a.tile(r)), type(a.tile(r)).__name__), (x * r, type(a).__name__), "tile", key="tile-" + k)
            mc.eq(vals(rt.repeat(a, r)), [v for v in x for _ in range(r)], "rt.repeat", key="rrepeat-" + k)
            mc.eq(vals(rt.tile(a, r)), x * r, "rt.tile", key="rtile-" + k)
        for rs in itertools.product((0, 1, 2), repeat=n):
            mc.eq(vals(a.repeat(list(rs))), [v for v, r in zip(x, rs) for _ in range(r)], "repeat by counts", key="repeats-" + k)
            mc.eq(vals(a.repeat(FA(np.array(rs, dtype="int64")))), [v for v, r in zip(x, rs) for _ in range(r)], "repeat by counts", key="repeats2-" + k)
        mc.eq(vals(a), x, "repeat leaves its input alone", key="rep-in")
        for N in range(0, n + 2):
            for seed in (0, 1, 2):
                s = vals(a.sample(N, seed=seed))
                # a sub-sequence of the requested length, in order
                it = iter(range(n))
                ok = len(s) == min(N, n) and all(any(x[j] == v for j in it) for v in s)
                if not ok:
                    mc.fail("sample returns min(N, n) rows in their original order", g_=s, w_=x, N=N)
                for m in masks(n):
                    s = vals(a.sample(N, filter=FA(np.array(m, dtype=bool)), seed=seed))
                    y = [v for v, f in zip(x, m) if f]
                    it = iter(range(len(y)))
                    if not (len(s) == min(N, len(y)) and all(any(y[j] == v for j in it) for v in s)):
                        mc.fail("sample draws only filtered rows", g_=s, w_=y, N=N)

    mc.run("repeat", uspace(), urun)

    BAL = {"float64": (None, -1.0, 0.0, 2.5, 4.0), "int32": (-3, 0, 2, 5), "uint8": (0, 2, 200), "int64": (0, 5, 2**40), "float32": (None, 0.5, 3.0)}

    def bspace():
        for dt, al in BAL.items():
            for n in range(0, 4):
                for x in itertools.product(al, repeat=n):
                    yield dt, x

    def brun(case):
        dt, x = case
        x = list(x)
        n = len(x)
        bounds = [0, 2, 5] if dt != "float32" else [0, 3]
        for how in VIEWS:
            a = lay(arr(x, dt), how)
            for lo in bounds:
                for hi in bounds:
                    for il, ih in itertools.product((False, True), repeat=2):
                        w = [v is not None and (v > lo or (il and v == lo)) and (v < hi or (ih and v == hi)) for v in x]
                        mc.op()
                        mc.eq(vals(a.between(lo, hi, include_low=il, include_high=ih)), w, "between", key="between", lo=lo, hi=hi, il=il, ih=ih)
                        if n:
                            L, H = [lo + i for i in range(n)], [hi + 1 - i for i in range(n)]
                            w2 = [v is not None and (v > l or (il and v == l)) and (v < h or (ih and v == h)) for v, l, h in zip(x, L, H)]
                            mc.eq(vals(a.between(L, H, include_low=il, include_high=ih)), w2, "between arrays", key="betweena", how=how)
                    mc.eq(vals(a.between(lo, hi)), [v is not None and lo <= v < hi for v in x], "between defaults", key="betweend")
                    if lo <= hi:
                        w = [None if v is None else min(max(v, lo), hi) for v in x]
                        mc.eq(vals(a.clip(lo, hi)), w, "clip", key="clip", how=how, lo=lo, hi=hi)
                mc.eq(vals(a.clip_lower(lo)), [None if v is None else max(v, lo) for v in x], "clip_lower", key="clipl", how=how)
                mc.eq(vals(a.clip_upper(lo)), [None if v is None else min(v, lo) for v in x], "clip_upper", key="clipu", how=how)
            v = [y for y in x if y is not None]
            if len(set(v)) > 1:
                m = sum(v) / len(v)
                sd = math.sqrt(sum((y - m) ** 2 for y in v) / (len(v) - 1))
                tol = 1e-4 if dt == "float32" else 1e-9
                ceq(a.normalize_zscore(), [None if y is None else (y - m) / sd for y in x], "normalize_zscore", "z", tol, x=x)
                if dt != "uint8":
                    ceq(a.normalize_minmax(), [None if y is None else (y - min(v)) / (max(v) - min(v)) for y in x], "normalize_minmax", "mm", tol, x=x)
            if dt in INTS:
                mc.eq(vals(rt.bitcount(a)), [bin(y & (2 ** (8 * a.itemsize) - 1)).count("1") for y in x], "bitcount", key="bitcount", how=how)
            if n and None not in x:
                mc.eq([int(y) for y in vals(a.rankdata())], [int((sum(z < y for z in x) + sum(z <= y for z in x) + 1) / 2) for y in x], "rankdata", key="rank")
            for d in ({}, {0: 10, 2: 20}, {5: "five", 0: "zero"}, {2: 0.5}):
                if not d:
                    continue
                ks = list(d)
                vs = [d[y] if (y in d) else None for y in x]
                miss = "" if isinstance(d[ks[0]], str) else None
                mc.eq(vals(a.map(d)), [miss if y is None else y for y in vs], "map", key="map", d=str(d))
            if dt in ("int32", "float64"):
                b = lay(arr(x, dt), how)
                w = [(9 if y == 0 else 7 if y == 2 else y) for y in x]
                mc.eq(vals(b.map_old({0: 9, 2: 7})), w, "map_old", key="map_old")
                mc.eq(vals(b), x, "map_old leaves its input alone", key="map_old-in")

    mc.run("between", bspace(), brun)

    # dictionaries whose size crosses the index dtype limits
    def kspace():
        for k in (1, 2, 126, 127, 128, 129, 254, 255, 256, 257):
            for kind in ("int", "str", "bytes", "float"):
                yield k, kind

    def krun(case):
        k, kind = case
        if kind == "int":
            keys, a = list(range(10, 10 + k)), FA(np.arange(8, 12 + k))
        elif kind == "float":
            keys, a = [i + 0.5 for i in range(k)], FA(np.arange(0, k + 2) + 0.5)
        else:
            keys = ["k%d" % i for i in range(k)]
            a = FA(np.array(["k%d" % i for i in range(k + 2)], dtype="S5" if kind == "bytes" else "U5"), unicode=kind == "str")
        d = {q: i * 3 for i, q in enumerate(keys)}
        mc.op()
        mc.eq(vals(a.map(d)), [d.get(q) for q in vals(a)], "map with many keys", key="mapk")

    mc.run("mapsize", kspace(), krun)

    # ------------------------------------------------------------ checksums
    def cspace():
        for k in NUM + ["S", "U", "bool"]:
            for n in range(1, 4):
                yield k, n

    def crun(case):
        from riptable.rt_utils import crc_match

        k, n = case
        a = item(k, n)
        mc.op()
        mc.eq(crc_match([a, a.copy(), item(k, n)]), True, "crc_match of equal arrays", key="crc")
        mc.eq(a.crc == a.copy().crc, True, "crc of a copy", key="crc2")
        for i in range(n):
            b = a.copy()
            b[i] = b"q" if k == "S" else "q" if k == "U" else (not bool(b[i])) if k == "bool" else 99
            mc.eq(crc_match([a, b]), False, "crc_match of different arrays", key="crc3")
            mc.eq(crc_match([a, a.copy(), b]), False, "crc_match of different arrays", key="crc3")

    mc.run("crc", cspace(), crun)
