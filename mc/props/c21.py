"""C21 Binning puts every value in exactly the bin that contains it."""
import itertools, math, warnings
import numpy as np
import riptable as rt
from ..model import *

PROPERTY = "C21"
warnings.simplefilter("ignore")
INF = math.inf


def lay(a, how):
    """the same values in another memory layout"""
    if how == "strided":
        b = np.empty(2 * len(a), a.dtype)
        b[::2] = a
        b[1::2] = a[:1] if len(a) else 0
        return b.view(rt.FastArray)[::2]
    if how == "rev":
        return a[::-1].copy()[::-1]
    if how == "np":
        return np.asarray(a)
    if how == "ro":
        a = a.copy()
        a.flags.writeable = False
        return a
    return a


def fin(x):
    return x is not None and not math.isinf(x)


def bin_right(x, e):
    """documented rule for right=True: [e0, e1], (e1, e2], ...; anything else is bin 0"""
    if not fin(x) or x < e[0] or x > e[-1]:
        return 0
    return 1 if x == e[0] else next(i for i in range(1, len(e)) if x <= e[i])


def bin_left(x, e):
    """documented rule for right=False: (e0, e1], (e1, e2], ...; above the last edge: one further bin"""
    if x <= e[0]:
        return 0
    return next((i for i in range(1, len(e)) if x <= e[i]), len(e))


def lin(s, q):
    """linear interpolation quantile of a sorted list"""
    if not s:
        return None
    p = q * (len(s) - 1)
    i = int(math.floor(p))
    return s[i] if p == i else s[i] + (s[i + 1] - s[i]) * (p - i)


def lin2(s, q, how):
    p = q * (len(s) - 1)
    return s[int(math.floor(p) if how == "lower" else math.ceil(p))]


def close(a, b):
    return (a is None) == (b is None) and (a is None or a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)))


def explore(mc):
    T = mc.thorough
    EDGES = [0.0, 0.5, 1.0, 2.0, 3.0]
    VALS = {"float64": (None, -INF, INF, -1.0, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0), "float32": (None, INF, -1.0, 0.0, 0.25, 0.5, 1.0, 2.0, 3.0, 4.0)}
    for d in ("int8", "int16", "int32", "int64"):
        VALS[d] = (None, -1, 0, 1, 2, 3, 4)
    for d in ("uint8", "uint32", "uint64"):
        VALS[d] = (None, 0, 1, 2, 3, 4)
    edge_lists = [list(c) for k in (2, 3, 4, 5) for c in itertools.combinations(EDGES, k)]
    edge_lists += [[-INF] + list(c) + [INF] for k in (1, 2, 3) for c in itertools.combinations(EDGES[1:], k)]
    edge_lists += [[-INF, 1.0, 2.0], [0.5, 2.0, INF]]

    # ------------------------------------------------ cut by edges: every value, every edge list, every dtype and layout
    def space1():
        for dt in VALS:
            for e in edge_lists:
                yield dt, e

    def run1(case):
        dt, e = case
        v = list(VALS[dt])
        for x in (v, v[::-1], v * 9):
            base = arr(x, dt)
            for how in ("c", "strided", "rev", "np", "ro"):
                a = lay(base, how)
                for ed in (e, np.array(e), rt.FastArray(np.array(e)), tuple(e)):
                    want = [bin_right(y, e) for y in x]
                    mc.eq(vals(rt.cut(a, ed, labels=False)), want, "cut codes", dt=dt, e=e, how=how)
                    if isinstance(ed, list):
                        for il in (True, False):
                            c, b = rt.cut(a, ed, retbins=True, include_lowest=il)
                            mc.eq(codes(c), want, "cut Categorical codes", dt=dt, e=e, how=how)
                            mc.eq([float(y) for y in b], e, "cut returned edges")
                            lb = vals(c.category_array)
                            mc.eq(lb, [f"{p}->{q}" for p, q in zip(e, e[1:])], "cut labels", e=e)
                        names = [f"n{i}" for i in range(len(e) - 1)]
                        for L in (names, np.array(names), rt.FastArray(names)):
                            c = rt.cut(a, ed, labels=L)
                            mc.eq([None if k == "Filtered" else k for k in labels(c)], [names[w - 1] if w else None for w in want], "cut user labels", how=how)
                        mc.raises(lambda: rt.cut(a, ed, labels=names + ["x"]), "cut with a wrong number of labels", ValueError)
                mc.op()
            if not any(isinstance(y, float) and math.isinf(y) for y in e):
                ok = [y for y in x if fin(y)]
                a = arr(ok, dt)
                mc.eq(vals(rt.cut(a, e, labels=False, right=False)), [bin_left(y, e) for y in ok], "cut(right=False) codes", dt=dt, e=e)
        # single elements
        for y in v:
            for how in ("c", "strided", "rev"):
                mc.eq(vals(rt.cut(lay(arr([y], dt), how), e, labels=False)), [bin_right(y, e)], "cut of one value", dt=dt, e=e, y=y, how=how)
        mc.eq(vals(rt.cut(rt.FastArray(np.array([], dt)), e, labels=False)), [], "cut of nothing")

    mc.run("cut by edges", list(space1()), run1)

    # ------------------------------------------------ order does not matter: all short arrays, filters
    def space2():
        al = (None, -INF, 0.0, 0.5, 1.0, 2.0, 5.0)
        for n in (1, 2, 3) + ((4,) if T else ()):
            for x in itertools.product(al, repeat=n):
                yield x

    def run2(x):
        n = len(x)
        a = arr(x, "float64")
        for e in ([0.0, 1.0, 2.0], [0.0, 0.5, 1.0, 5.0]):
            for m in [None] + list(itertools.product((True, False), repeat=n)):
                f = None if m is None else rt.FastArray(np.array(m, bool))
                ok = m or [True] * n
                mc.eq(vals(rt.cut(a, e, labels=False, filter=f)), [bin_right(y, e) if o else 0 for y, o in zip(x, ok)], "cut with a filter", m=m, e=e)
                mc.op()
        # duplicates
        for e in ([0.0, 0.0, 1.0], [0.0, 1.0, 1.0, 2.0]):
            mc.raises(lambda: rt.cut(a, e, labels=False), "cut with duplicate edges", ValueError)
            u = sorted(set(e))
            g, b = rt.cut(a, e, labels=False, duplicates="drop", retbins=True)
            mc.eq(vals(g), [bin_right(y, u) for y in x], "cut dropping duplicate edges", e=e)
            mc.eq([float(y) for y in b], u, "cut dropping duplicate edges: edges", e=e)
        mc.raises(lambda: rt.cut(a, [1.0, 0.0], labels=False), "cut with decreasing edges", ValueError)

    mc.run("cut small arrays", list(space2()), run2)

    # ------------------------------------------------ cut by count, qcut, quantile
    ALQ = {"float64": (None, INF, -INF, 0.0, 1.0, 2.5, -4.0), "int32": (None, 0, 1, -1, -2), "int64": (None, 7, 1, 2, -4), "uint8": (0, 1, 9), "float32": (None, 0.0, 1.0, 2.5)}

    def space3():
        for dt, al in ALQ.items():
            for n in (1, 2, 3) + ((4,) if dt == "float64" or T else ()) + ((5,) if T and dt != "float64" else ()):
                for x in itertools.combinations_with_replacement(al, n) if n > 3 else itertools.product(al, repeat=n):
                    yield dt, x

    QS = [0.0, 0.25, 0.5, 0.75, 0.9, 1.0]

    def run3(case):
        dt, x = case
        n = len(x)
        s = sorted(y for y in x if fin(y))
        for how in ("c", "strided") if n > 1 else ("c",):
            a = lay(arr(x, dt), how)
            # equal width
            if s and not any(y is not None and math.isinf(y) for y in x):
                mn, mx = float(s[0]), float(s[-1])
                if mn == mx:
                    d = 0.001 * abs(mn) if mn else 0.001
                    mn, mx = mn - d, mx + d
                for k in (1, 2, 3, 4):
                    g, b = rt.cut(a, k, labels=False, retbins=True)
                    e = [float(y) for y in b]
                    mc.eq(len(e), k + 1, "cut by count: number of edges")
                    if dt != "float32":
                        mc.eq(all(close(p, mn + (mx - mn) * i / k) for i, p in enumerate(e)), True, "cut by count: equal width edges", e=e, k=k)
                    mc.eq(vals(g), [bin_right(y, e) for y in x], "cut by count codes", dt=dt, k=k, e=e)
                    mc.eq([bool(w) for w in vals(g)], [fin(y) for y in x], "cut by count: every valid value has a bin", dt=dt, k=k)
                    mc.op()
            # quantile
            for q in QS:
                r = rt.quantile(a, q)[0]
                mc.eq(close(scalar(r), lin(s, q)) if s else scalar(r) is None, True, "quantile", q=q, dt=dt, g_=repr(r))
                if s:
                    for im in ("lower", "higher"):
                        mc.eq(close(scalar(rt.quantile(a, q, im)[0]), lin2(s, q, im)), True, "quantile interpolation", q=q, dt=dt, im=im)
            r = rt.quantile(a, QS)[0]
            mc.eq([close(scalar(y), lin(s, q)) if s else scalar(y) is None for y, q in zip(r, QS)], [True] * len(QS), "quantile list", dt=dt)
            if n and not any(y is not None and math.isinf(y) for y in x):
                r = rt.rt_utils.quantile(a if how == "c" else a.copy(), QS)
                mc.eq([close(scalar(y), lin(s, q)) if s else scalar(y) is None for y, q in zip(r, QS)], [True] * len(QS), "rt_utils.quantile", dt=dt, g_=vals(r))
            # qcut
            if not s:
                continue
            for q in (1, 2, 3, 4, [0.0, 0.5, 1.0], [0.25, 0.75], [0.1, 0.5], [0.0, 0.25, 0.5, 0.75, 1.0]):
                qs = [i / q for i in range(q + 1)] if isinstance(q, int) else q
                e = [float(lin(s, z)) for z in qs]
                ctx = dict(dt=dt, q=q, how=how)
                g = None
                dup = len(set(e)) < len(e)
                if dup and len(e) != 2:
                    mc.raises(lambda: rt.qcut(a, q, labels=False), "qcut with duplicate edges", ValueError)
                    g, b = rt.qcut(a, q, labels=False, duplicates="drop", retbins=True)
                elif not dup:
                    g, b = rt.qcut(a, q, labels=False, retbins=True)
                if g is None:
                    continue
                be = [float(y) for y in b]
                if len(be) < 2:
                    continue  # all quantiles coincide and were dropped: no bin is left
                if dt != "float32":
                    mc.eq(len(be) == len(set(e)) and all(close(y, z) for y, z in zip(be, sorted(set(e)))), True, "qcut edges", g_=be, w_=e, **ctx)
                want = [0 if not fin(y) else (1 + bin_right(y, be)) for y in x]
                mc.eq(vals(g), want, "qcut codes", e=be, **ctx)
                c = rt.qcut(a, q, duplicates="drop")
                mc.eq(codes(c), want, "qcut Categorical codes", **ctx)
                mc.eq(vals(c.category_array)[0], "Clipped", "qcut clipped label")
                mc.eq(len(vals(c.category_array)), len(be), "qcut number of labels", **ctx)
                names = [f"n{i}" for i in range(len(be) - 1)]
                for L in (names, np.array(names), rt.FastArray(names)):
                    c = rt.qcut(a, q, duplicates="drop", labels=L)
                    mc.eq(vals(c.category_array), ["Clipped"] + names, "qcut user labels", L=type(L).__name__, **ctx)
                    mc.eq(codes(c), want, "qcut user labels codes", **ctx)
                mc.op(4)
            for m in itertools.product((True, False), repeat=n) if n < 4 else ():
                sub = sorted(y for y, o in zip(x, m) if o and fin(y))
                if len(set(sub)) < 2 or all(m):
                    continue
                g, b = rt.qcut(a, 2, labels=False, duplicates="drop", retbins=True, filter=rt.FastArray(np.array(m, bool)))
                be = [float(y) for y in b]
                mc.eq(vals(g), [0 if not o or not fin(y) else 1 + bin_right(y, be) for y, o in zip(x, m)], "qcut with a filter", m=m, dt=dt)
                if dt not in ("float32",):
                    mc.eq([close(p, z) for p, z in zip(be, sorted({float(lin(sub, z)) for z in (0, 0.5, 1)}))], [True] * len(be), "qcut with a filter: edges", m=m, dt=dt)

    mc.run("quantiles", list(space3()), run3)

    # ------------------------------------------------ label text describes the edges at every precision
    def run4(case):
        e, p = case
        a = arr([e[0], e[-1]], "float64")
        c = rt.cut(a, list(e), precision=p)
        lb = [tuple(float(z) for z in l.split("->")) for l in vals(c.category_array)]
        mc.eq(len(lb), len(e) - 1, "label count")
        mc.eq(all(lb[i][1] == lb[i + 1][0] for i in range(len(lb) - 1)), True, "labels chain", lb=lb)
        mc.eq(len(set(lb)), len(lb), "labels are distinct", lb=lb)
        ed = [lb[0][0]] + [z for _, z in lb]
        mc.eq(all(abs(x - y) <= max(0.51 * 10.0 ** -p, 1e-12) for x, y in zip(ed, e)), True, "labels round the edges", ed=ed, e=e, p=p)
        mc.op()

    pool = [-12.34567, -0.00123456, 0.0, 0.00012345, 0.5, 0.50001, 1.25, 99.999951, 1234567.891]
    mc.run("labels", [(e, p) for k in (2, 3, 4) for e in itertools.combinations(pool, k) for p in (1, 2, 3, 5)], run4)

    # ------------------------------------------------ more bins than an int8 or int16 code can hold
    def run5(k):
        e = [float(i) for i in range(k + 1)]
        x = [0.0, 0.5, 1.0, 126.0, 126.5, 127.0, 127.5, 128.5, k - 1.0, k - 0.5, float(k), k + 1.0, -1.0, None, 255.5, 32766.5, 32768.5]
        want = [bin_right(y, e) for y in x]
        mc.eq(vals(rt.cut(arr(x, "float64"), e, labels=False)), want, "many bins", k=k)
        c = rt.cut(arr(x, "float64"), e)
        mc.eq(codes(c), want, "many bins Categorical", k=k)
        big = [float(i) for i in range(k * 2 + 1)]
        g, b = rt.qcut(arr(big, "float64"), k, labels=False, retbins=True)
        be = [float(z) for z in b]
        mc.eq(vals(g), [1 + bin_right(y, be) for y in big], "many quantile bins", k=k)
        mc.op(3)

    mc.run("many bins", [100, 125, 126, 127, 128, 129, 254, 255, 256, 300] + ([32766, 32767, 32768] if T else []), run5)
