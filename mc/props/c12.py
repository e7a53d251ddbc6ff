"""C12 Group-wise scans, windows and row selections respect group and row order."""
import itertools, math
import numpy as np
import riptable as rt
import numba as nb
from ..model import *
from ..cats import made, HOWS, NMS

PROPERTY = "C12"
MODES = True

LAB = ["b", "a", "c"]


def rows_of(keys, ok):
    d = {}
    for i, k in enumerate(keys):
        if ok is None or ok[i]:
            d.setdefault(k, []).append(i)
    return d


def prod(v):
    p = 1
    for x in v:
        p = None if (p is None or x is None) else p * x
    return p


def win_quant(w, q):
    v = sorted(x for x in w if x is not None)
    if not v:
        return None
    pos = q * (len(v) - 1)
    lo = int(math.floor(pos + 1e-12))
    return v[lo] if abs(pos - lo) < 1e-9 else (v[lo] + v[lo + 1]) / 2


# each scan: function of the group's value list -> list of outputs
def scans(W):
    S = {}

    def win(f):
        return lambda v, w: [f(v[max(0, i - w + 1): i + 1]) for i in range(len(v))]

    S["cumsum"] = (lambda v, w: [r_sum(v[: i + 1]) for i in range(len(v))], [{}], "nonan_int")
    S["cumprod"] = (lambda v, w: [prod(v[: i + 1]) for i in range(len(v))], [{}], "nonan_int")
    S["cummin"] = (lambda v, w: [r_nanmin(v[: i + 1]) for i in range(len(v))], [{}], "")
    S["cummax"] = (lambda v, w: [r_nanmax(v[: i + 1]) for i in range(len(v))], [{}], "")
    S["cummin_na"] = (lambda v, w: [r_min(v[: i + 1]) for i in range(len(v))], [{}], "")
    S["cummax_na"] = (lambda v, w: [r_max(v[: i + 1]) for i in range(len(v))], [{}], "")
    ws = [{"window": w} for w in W]
    S["rolling_sum"] = (win(r_sum), ws, "nonan_all roll")
    S["rolling_nansum"] = (win(r_nansum), ws, "roll")
    S["rolling_mean"] = (win(r_mean), ws, "nonan_all roll")
    S["rolling_nanmean"] = (win(r_nanmean), ws, "roll")
    S["rolling_median"] = (lambda v, w: [win_quant(v[max(0, i - w + 1): i + 1], 0.5) for i in range(len(v))], ws, "roll")
    S["rolling_shift"] = (lambda v, w: [v[i - w] if 0 <= i - w < len(v) else None for i in range(len(v))], [{"window": w} for w in (-2, -1, 1, 2)], "roll")
    S["rolling_diff"] = (lambda v, w: [(None if v[i] is None or v[i - w] is None else v[i] - v[i - w]) if 0 <= i - w < len(v) else None for i in range(len(v))],
                         [{"window": w} for w in (-2, -1, 1, 2)], "nonan_int roll")
    return S


def explore(mc):
    T = mc.thorough
    S = scans((1, 2, 3) if not T else (1, 2, 3, 4))
    S1 = {k: v for k, v in S.items()}

    def valcols(n, dt):
        """a fixed family of value columns that distinguishes every row"""
        base = [2, 3, 5, 7, 11][:n]
        cols = [base]
        for j in range(n):
            cols.append([None if i == j else x for i, x in enumerate(base)])
        cols.append([None if i in (0, n - 1) else x for i, x in enumerate(base)])
        return cols

    def space1():
        for dt in ("int32", "int64", "float64", "float32") if not T else ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "float32", "float64"):
            for n in (1, 2, 3, 4) if not T else (1, 2, 3, 4, 5):
                for ix in canon(n, 3 if n < 5 else 2):
                    if dt in ("int64", "float32") and n > 3 and not T:
                        continue
                    yield dt, ix

    def run1(case):
        dt, ix = case
        n = len(ix)
        keys = [LAB[i] for i in ix]
        k = rt.FastArray(np.array(keys, dtype="S1"))
        V = valcols(n, dt)
        cols = {f"c{i}": arr(v, dt) for i, v in enumerate(V)}
        ds = rt.Dataset({"k": k, **cols})
        full = T and n < 5 or n <= 3
        oks = [None] + (list(masks(n)) if full else [m for m in masks(n) if sum(m) in (n - 1, 2)])
        for ok in oks:
            f = None if ok is None else rt.FastArray(np.array(ok, dtype=bool))
            g = rows_of(keys, ok)
            objs = []
            kw = {} if f is None else {"filter": f}
            objs.append(("Categorical.{}(filter)" if ok else "Categorical.{}", rt.Categorical(k), (cols,), kw))
            objs.append(("groupby.{}(filter)" if ok else "groupby.{}", ds.groupby("k"), (), kw))
            if ok is not None and any(ok):
                objs.append(("Categorical(filter).{}", rt.Categorical(k, filter=f), (cols,), {}))
                objs.append(("gbu(filter).{}", ds.gbu("k", filter=f), (), {}))
            for what, obj, args, fk in objs:
                for name, (ref, kws, flags) in S.items():
                    fn = name.replace("_na", "") if name.endswith("_na") else name
                    for kw2 in kws:
                        extra = dict(kw2)
                        if name.endswith("_na"):
                            extra["skipna"] = False
                        r = getattr(obj, fn)(*args, **extra, **fk)
                        for i, v in enumerate(V):
                            if None in v and ("nonan_all" in flags or "nonan_int" in flags and np.dtype(dt).kind in "iu"):  # kernels of riptide_cpp
                                continue
                            if name == "rolling_diff" and np.dtype(dt).kind == "u":
                                continue
                            want = [None] * n
                            for rows in g.values():
                                o = ref([v[j] for j in rows], kw2.get("window"))
                                for j, x in zip(rows, o):
                                    want[j] = x
                            got = vals(r[f"c{i}"])
                            if ok is not None and "roll" not in flags:
                                got = [x if ok[j] else None for j, x in enumerate(got)]  # value at excluded rows not claimed
                            mc.eq(got, want, what.format(name), dtype=dt, kw=kw2, filter=ok, values=v)
                # cumcount
                for asc in (True, False):
                    got = vals(obj.cumcount(ascending=asc, **fk))
                    want = [None] * n
                    for rows in g.values():
                        for p, j in enumerate(rows):
                            want[j] = p if asc else len(rows) - 1 - p
                    mc.eq(got, want, what.format("cumcount"), ascending=asc, filter=ok)
                r = obj.findnth(*args, **fk)
                want = [0] * n
                for rows in g.values():
                    for p, j in enumerate(rows):
                        want[j] = p + 1
                mc.eq(vals(r["c0"]), want, what.format("findnth"), filter=ok)
        # aliases of shift and diff on GroupBy
        g = rows_of(keys, None)
        gb = ds.groupby("k")
        for w in (-1, 1, 2):
            for nm, r, ref in (("shift", gb.shift(w), S["rolling_shift"][0]), ("diff", gb.diff(w), S["rolling_diff"][0])):
                if nm == "diff" and np.dtype(dt).kind == "u":
                    continue
                v = V[0]
                want = [None] * n
                for rows in g.values():
                    for j, x in zip(rows, ref([v[j] for j in rows], w)):
                        want[j] = x
                mc.eq(vals(r["c0"]), want, f"groupby.{nm}({w})")
        if not T and dt == "float64":
            # rolling quantile over several q
            for w in (2, 3):
                r = gb.rolling_quantile(q=[0.25, 0.5, 1.0], window=w)
                for q in (0.25, 0.5, 1.0):
                    for i, v in enumerate(V):
                        want = [None] * n
                        for rows in g.values():
                            gv = [v[j] for j in rows]
                            for p, j in enumerate(rows):
                                want[j] = win_quant(gv[max(0, p - w + 1): p + 1], q)
                        mc.eq(vals(r[f"c{i}_q" + f"{q:.3g}".replace(".", "_")]), want, "rolling_quantile multi", q=q, window=w)

    mc.run("scans and windows", space1(), run1)

    # ---------------------------------------------------------------- reset filters and exponential averages
    def space2():
        for n in (1, 2, 3, 4):
            for ix in canon(n, 2):
                for rs in [None] + list(masks(n)):
                    if n == 4 and rs is not None and not T and sum(rs) != 1:
                        continue
                    yield ix, rs

    def run2(case):
        ix, rs = case
        n = len(ix)
        keys = [LAB[i] for i in ix]
        k = rt.FastArray(np.array(keys, dtype="S1"))
        v = [2.0, 3.0, 5.0, 7.0][:n]
        tm = [0, 1, 3, 4][:n]
        ds = rt.Dataset({"k": k, "x": rt.FastArray(np.array(v))})
        c = rt.Categorical(k)
        R = None if rs is None else rt.FastArray(np.array(rs, dtype=bool))
        kw = {} if R is None else {"reset_filter": R}
        time = rt.FastArray(np.array(tm, dtype="int64"))
        g = rows_of(keys, None)

        def scan(step):
            out = [None] * n
            for rows in g.values():
                st = None
                for j in rows:
                    if rs is not None and rs[j]:
                        st = None
                    st = step(st, j)
                    out[j] = st[0] if isinstance(st, tuple) else st
            return out

        for fn, step in (
            ("cumsum", lambda s, j: v[j] if s is None else s + v[j]),
            ("cumprod", lambda s, j: v[j] if s is None else s * v[j]),
            ("cummin", lambda s, j: v[j] if s is None else min(s, v[j])),
            ("cummax", lambda s, j: v[j] if s is None else max(s, v[j])),
        ):
            mc.eq(vals(getattr(ds.groupby("k"), fn)(**kw)["x"]), scan(step), f"{fn}(reset_filter)")
            mc.eq(vals(getattr(c, fn)(ds.x, **kw)[0]), scan(step), f"Categorical {fn}(reset_filter)")
        if rs is None:
            dr = 0.5
            for oks in [None] + list(masks(n)):
                if oks is not None and not any(oks):
                    continue
                gk = rows_of(keys, oks)

                def ema(kind_):
                    out = [None] * n
                    for rows in gk.values():
                        last = lt = None
                        for j in rows:
                            if last is None:
                                o = v[j]
                            else:
                                dt_ = tm[j] - lt
                                if kind_ == "decay":
                                    o = v[j] + last * math.exp(-dr * dt_)
                                elif kind_ == "normal":
                                    w = math.exp(-dr * dt_)
                                    o = v[j] * (1 - w) + last * w
                                else:
                                    o = v[j] * (1 - dr) + last * dr
                            out[j] = o
                            last, lt = o, tm[j]
                    return out

                fk = {} if oks is None else {"filter": rt.FastArray(np.array(oks, dtype=bool))}
                gb = ds.groupby("k", **fk)
                mc.eq(vals(gb.ema_decay(time=time, decay_rate=dr)["x"]), ema("decay"), "ema_decay", filter=oks)
                mc.eq(vals(gb.ema_normal(time=time, decay_rate=dr)["x"]), ema("normal"), "ema_normal", filter=oks)
                mc.eq(vals(gb.ema_weighted(decay_rate=dr)["x"]), ema("weighted"), "ema_weighted", filter=oks)
            mc.eq(vals(c.ema_decay(ds.x, time=time, decay_rate=dr)[0]), vals(ds.groupby("k").ema_decay(time=time, decay_rate=dr)["x"]), "Categorical.ema_decay")
            mc.raises(lambda: ds.groupby("k").ema_decay(decay_rate=dr), "ema_decay without time")
            mc.raises(lambda: ds.groupby("k").cumsum(transform=True), "cumsum(transform)")

    mc.run("reset filters and ema", space2(), run2)

    # ---------------------------------------------------------------- fill forward / backward by group
    def fill(v, rows, limit, fv, back):
        out = {}
        last = fv
        cnt = limit
        for j in reversed(rows) if back else rows:
            if v[j] is None:
                if limit and cnt <= 0:
                    out[j] = None
                else:
                    out[j] = last
                    cnt -= 1
            else:
                last = out[j] = v[j]
                cnt = limit
        return out

    def fcheck(dt, ix, v, ok, cls):
        n = len(ix)
        keys = [LAB[i] for i in ix]
        k = rt.FastArray(np.array(keys, dtype="S1"))
        f = None if ok is None else rt.FastArray(np.array(ok, dtype=bool))
        g = rows_of(keys, ok)
        for limit in (0, 1, 2):
            for fv in (None, 9):
                for back in (False, True):
                    for inplace in (False, True):
                        x = arr(v, dt)
                        if cls == "cat":
                            c = rt.Categorical(k) if f is None else rt.Categorical(k, filter=f)
                            fn = c.fill_backward if back else c.fill_forward
                            r = fn(x, limit=limit, fill_val=fv, inplace=inplace)
                            got = vals(x) if r is None else vals(r[0])
                        else:
                            ds = rt.Dataset({"k": k, "x": x})
                            gb = ds.groupby("k") if f is None else ds.groupby("k", filter=f)
                            fn = gb.backfill if back else gb.pad
                            r = fn(limit=limit, fill_val=fv, inplace=inplace)
                            got = vals(r["x"])
                        want = [None] * n
                        for rows in g.values():
                            for j, y in fill(v, rows, limit, fv, back).items():
                                want[j] = y
                        if ok is not None:
                            got = [y if ok[j] else None for j, y in enumerate(got)]
                        mc.eq(got, want, f"{cls} fill back={back} inplace={inplace}", limit=limit, fill_val=fv)
                        if inplace:
                            gx = [y if ok is None or ok[j] else None for j, y in enumerate(vals(x))]
                            mc.eq(gx, want, f"{cls} fill in place back={back}", limit=limit, fill_val=fv)
                        else:
                            mc.eq(vals(x), list(v), f"{cls} fill leaves its input alone")

    def space3():
        for dt in ("int32", "float64") if not T else ("int8", "uint16", "int32", "int64", "float32", "float64"):
            for n in (1, 3, 4) if not T else (1, 2, 3, 4, 5):
                for ix in canon(n, 2):
                    if n >= 4 and ix[0] == 1:
                        continue
                    for v in itertools.product((None, 1), repeat=n):
                        vv = tuple(None if y is None else 10 + j for j, y in enumerate(v))
                        yield dt, ix, vv, None, "cat"
                        yield dt, ix, vv, None, "gb"
                        if n == 3:
                            for ok in masks(n):
                                if any(ok):
                                    yield dt, ix, vv, ok, "cat"

    mc.run("fill forward/backward", space3(), lambda c: fcheck(*c))

    def run3j(case):
        dt = case
        for ix in itertools.product((0, 1), repeat=3):
            for v in itertools.product((None, 7, 8), repeat=3):
                fcheck(dt, ix, v, None, "cat")

    mc.run("fill compiled", ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"], run3j, mode="jit")

    # ---------------------------------------------------------------- user functions
    def space4():
        for n in (1, 2, 3, 4):
            for ix in canon(n, 3):
                for ok in [None] + (list(masks(n)) if n < 4 or T else [m for m in masks(n) if sum(m) == 2]):
                    yield ix, ok

    def run4(case):
        ix, ok = case
        n = len(ix)
        keys = [LAB[i] for i in ix]
        k = rt.FastArray(np.array(keys, dtype="S1"))
        v = [2, 3, 5, 7][:n]
        ds = rt.Dataset({"k": k, "x": arr(v, "int64"), "y": arr(v, "float64")})
        f = None if ok is None else rt.FastArray(np.array(ok, dtype=bool))
        kw = {} if f is None else {"filter": f}
        g = rows_of(keys, ok)
        c = rt.Categorical(k)
        uf = lambda a: np.cumsum(np.asarray(a)) * 10 + len(a)
        want = [None] * n
        for rows in g.values():
            s = 0
            for j in rows:
                s += v[j]
                want[j] = s * 10 + len(rows)

        def inside(x):
            return [y if ok is None or ok[j] else None for j, y in enumerate(x)]

        r = c.apply_nonreduce(uf, ds.x, **kw)
        mc.eq(inside(vals(r["x"])), want, "apply_nonreduce", filter=ok)
        r = ds.groupby("k", **kw).apply_nonreduce(uf)
        mc.eq(inside(vals(r["x"])), want, "groupby apply_nonreduce", filter=ok)
        mc.eq(inside(vals(r["y"])), want, "groupby apply_nonreduce second column", filter=ok)
        r = c.apply_nonreduce(lambda a, b: np.asarray(a) * 100 + np.asarray(b)[::-1], (ds.x, ds.y), **kw)
        want2 = [None] * n
        for rows in g.values():
            for p, j in enumerate(rows):
                want2[j] = v[j] * 100 + v[rows[-1 - p]]
        mc.eq(inside(vals(r["x"])), want2, "apply_nonreduce two columns", filter=ok)
        if any(len(r_) > 1 for r_ in g.values()) and (ok is None or all(ok)):
            r = c.apply(lambda a: rt.FastArray(uf(a.x)) if hasattr(a, "x") else rt.FastArray(uf(a)), {"x": ds.x})
            mc.eq(vals(r[[q for q in r.keys() if q not in r.label_get_names()][0]]), want, "apply (non reducing)")
        if mc.mode != "jit":
            r = c.numba_apply(lambda a: a.sum(), ds.x, **kw)
            allk = sorted(set(keys))
            mc.eq(vals(r["x"]), [sum(v[j] for j in g.get(q, [])) for q in allk], "numba_apply reduce", filter=ok) if all(q in g for q in allk) else None
            r = c.numba_apply(lambda a: a.sum(), ds.x, transform=True, **kw)
            mc.eq(inside(vals(r["x"])), [sum(v[j] for j in g[keys[i]]) if ok is None or ok[i] else None for i in range(n)], "numba_apply transform", filter=ok)
            r = c.numba_apply(lambda a: a.cumsum(), ds.x, **kw)
            want3 = [None] * n
            for rows in g.values():
                s = 0
                for j in rows:
                    s += v[j]
                    want3[j] = s
            mc.eq(inside(vals(r["x"])), want3, "numba_apply scan", filter=ok)
            mc.eq(vals(c.nb_sum(ds.x)["x"]), [sum(v[j] for j in range(n) if keys[j] == q) for q in allk], "nb_sum")
        # Categorical shift with a filter
        for w in (-1, 1, 2):
            r = c.shift(ds.x, w, **kw)
            want4 = [None] * n
            for rows in g.values():
                for p, j in enumerate(rows):
                    want4[j] = v[rows[p - w]] if 0 <= p - w < len(rows) else None
            mc.eq(vals(r["x"]), want4, "Categorical.shift", window=w, filter=ok)

    mc.run("user functions and shift", space4(), run4)

    # ---------------------------------------------------------------- two keys, histories
    def space5():
        for n in (2, 3, 4):
            for a in canon(n, 2):
                for b in canon(n, 2):
                    if n == 4 and not T and a[0] == 1:
                        continue
                    yield a, b

    def run5(case):
        a, b = case
        n = len(a)
        ka, kb = rt.FastArray(np.array([LAB[i] for i in a], "S1")), rt.FastArray(np.array(b, dtype="int32"))
        keys = list(zip(a, b))
        v = [2, 3, 5, 7][:n]
        x = arr(v, "int64")
        ds = rt.Dataset({"a": ka, "b": kb, "x": x})
        g = rows_of(keys, None)
        f = rt.FastArray(np.array([j % 2 == 0 for j in range(n)]))
        gf = rows_of(keys, [j % 2 == 0 for j in range(n)])
        cs, sh = [None] * n, [None] * n
        for rows in g.values():
            s = 0
            for p, j in enumerate(rows):
                s += v[j]
                cs[j] = s
                sh[j] = v[rows[p - 1]] if p else None
        shf = [None] * n
        for rows in gf.values():
            for p, j in enumerate(rows):
                shf[j] = v[rows[p - 1]] if p else None
        for obj, args in ((ds.groupby(["a", "b"]), ()), (rt.Categorical([ka, kb]), (x,))):
            nm = "x"
            for step in range(2):  # repeat: cached packing must not leak between calls
                mc.eq(vals(obj.cumsum(*args)[nm]), cs, "two keys cumsum", step=step)
                mc.eq(vals(obj.rolling_shift(*args, window=1, filter=f)[nm]), shf, "two keys shift(filter)", step=step)
                mc.eq(vals(obj.rolling_shift(*args, window=1)[nm]), sh, "two keys shift", step=step)
                mc.eq(vals(obj.first(*args, filter=f)[nm]) and True, True, "first(filter)")
                mc.eq(vals(obj.apply_nonreduce(np.cumsum, *args)[nm]), cs, "two keys apply_nonreduce", step=step)

    mc.run("two keys, call histories", space5(), run5)

    # ---------------------------------------------------------------- however the Categorical was made
    def per_group(ix, f):
        """f(rows) -> a value per row of the group; '-' for rows in no group (not claimed)"""
        out = ["-"] * len(ix)
        for i in {i for i in ix if i is not None}:
            rows = [j for j, q in enumerate(ix) if q == i]
            for j, w in zip(rows, f(rows)):
                out[j] = w
        return out

    def run6(case):
        how, ix = case
        if how[:2] == "gb" or made(how, ix) is None:
            return
        n = len(ix)
        v = [5, 3, 8, 1, 9][:n]
        y = [0.5, None, 2.0, None, 4.5][:n]
        inside = lambda a: [q if i is not None else "-" for i, q in zip(ix, vals(a))]
        X, Y = (lambda: arr(v, "int64")), (lambda: arr(y, "float64"))
        gv = lambda rows: [v[j] for j in rows]
        gy = lambda rows: [y[j] for j in rows]
        mk = lambda: made(how, ix)[0]
        col = lambda r: r[[q for q in r.keys() if q not in r.label_get_names()][0]] if isinstance(r, rt.Dataset) else r
        tests = {
            "cumsum": (lambda c: c.cumsum(X()), lambda r: list(itertools.accumulate(gv(r)))),
            "cummin": (lambda c: c.cummin(X()), lambda r: list(itertools.accumulate(gv(r), min))),
            "cummax": (lambda c: c.cummax(X()), lambda r: list(itertools.accumulate(gv(r), max))),
            "rolling_sum": (lambda c: c.rolling_sum(X(), window=2), lambda r: [sum(gv(r)[max(0, i - 1): i + 1]) for i in range(len(r))]),
            "rolling_nanmean": (lambda c: c.rolling_nanmean(Y(), window=2), lambda r: [r_nanmean(gy(r)[max(0, i - 1): i + 1]) for i in range(len(r))]),
            "rolling_median": (lambda c: c.rolling_median(X(), window=2), lambda r: [win_quant(gv(r)[max(0, i - 1): i + 1], 0.5) for i in range(len(r))]),
            "rolling_shift": (lambda c: c.rolling_shift(X(), window=1), lambda r: [None] + gv(r)[:-1]),
            "shift back": (lambda c: c.shift(X(), window=-1), lambda r: gv(r)[1:] + [None]),
            "rolling_diff": (lambda c: c.rolling_diff(X(), window=1), lambda r: [None] + [b - a for a, b in zip(gv(r), gv(r)[1:])]),
            "fill_forward": (lambda c: c.fill_forward(Y()), lambda r: [next((q for q in gy(r)[i::-1] if q is not None), None) for i in range(len(r))]),
            "fill_backward": (lambda c: c.fill_backward(Y()), lambda r: [next((q for q in gy(r)[i:] if q is not None), None) for i in range(len(r))]),
            "findnth": (lambda c: c.findnth(X()), lambda r: list(range(1, len(r) + 1))),
            "cumcount": (lambda c: c.cumcount(), lambda r: list(range(len(r)))),
            "cumcount descending": (lambda c: c.cumcount(ascending=False), lambda r: list(range(len(r)))[::-1]),
            "apply_nonreduce": (lambda c: c.apply_nonreduce(lambda a: np.cumsum(np.asarray(a)), X()), lambda r: list(itertools.accumulate(gv(r)))),
            "numba_apply array": (lambda c: c.numba_apply(lambda a: a.cumsum(), X()), lambda r: list(itertools.accumulate(gv(r)))),
            "numba_apply transform": (lambda c: c.numba_apply(lambda a: a.sum(), X(), transform=True), lambda r: [sum(gv(r))] * len(r)),
        }
        some = any(i is not None for i in ix)
        for nm, (f, w) in tests.items():
            if not some and nm.startswith(("apply", "numba")):
                continue
            got = inside(col(f(mk())))
            mc.eq(got, per_group(ix, w), f"{how}: {nm}")
        # numba_apply reduced: beside its own label
        if some and set(q for q in ix if q is not None) == {0, 1, 2} or how in ("strings", "filter", "numbers", "two keys", "strings0", "mapped") and some:
            r = mk().numba_apply(lambda a: a.sum(), X())
            lab = [{1.5: "a", 2.5: "b", 3.5: "c"}.get(q, q) for q in vals(r[r.label_get_names()[-1]])]
            mc.eq(sorted(lab), sorted({NMS[q] for q in ix if q is not None}), f"{how}: numba_apply labels")
            mc.eq(vals(r[[q for q in r.keys() if q not in r.label_get_names()][0]]), [float(sum(v[j] for j in range(n) if ix[j] == NMS.index(L))) for L in lab], f"{how}: numba_apply reduce", labels=lab)
        # row selections
        c = mk()
        rows = {i: [j for j, q in enumerate(ix) if q == i] for i in ix if i is not None}
        mc.eq(sorted(vals(c.first_fancy)), sorted(r[0] for r in rows.values()), f"{how}: first_fancy")
        mc.eq(sorted(vals(c.last_fancy)), sorted(r[-1] for r in rows.values()), f"{how}: last_fancy")
        mc.eq(vals(c.first_bool), [ix[j] is not None and ix[j] not in ix[:j] for j in range(n)], f"{how}: first_bool")
        mc.eq(vals(c.last_bool), [ix[j] is not None and ix[j] not in ix[j + 1:] for j in range(n)], f"{how}: last_bool")

    if mc.mode != "jit":
        mc.run("however made", ((how, ix) for how in HOWS for n in (1, 2, 3, 4) + ((5,) if T else ()) for ix in itertools.product((0, 1, 2, None) if n < 4 or T else (0, 1, None), repeat=n)), run6)
