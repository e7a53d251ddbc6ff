"""C11 Group reductions equal the reduction of each group's rows."""
import itertools, math
import numpy as np
import riptable as rt
from ..model import *
from ..cats import made, HOWS, NMS

PROPERTY = "C11"

F = {
    "sum": r_sum, "nansum": r_nansum, "mean": r_mean, "nanmean": r_nanmean, "min": r_min, "nanmin": r_nanmin, "max": r_max, "nanmax": r_nanmax,
    "first": r_first, "last": r_last, "median": r_median, "nanmedian": r_nanmedian, "var": r_var, "nanvar": r_nanvar, "std": r_std, "nanstd": r_nanstd,
}
KEYT = {
    "S": (lambda ix: rt.FastArray(np.array([b"b", b"a", b"cc"])[list(ix)] if len(ix) else np.array([], "S2")), ["b", "a", "cc"]),
    "U": (lambda ix: rt.FastArray(np.array(["b", "a", "cc"])[list(ix)] if len(ix) else np.array([], "U2"), unicode=True), ["b", "a", "cc"]),
    "i8": (lambda ix: rt.FastArray(np.array([5, -3, 7], "int8")[list(ix)]), [5, -3, 7]),
    "i32": (lambda ix: rt.FastArray(np.array([5, -3, 7], "int32")[list(ix)]), [5, -3, 7]),
    "i64": (lambda ix: rt.FastArray(np.array([5, -3, 1 << 40], "int64")[list(ix)]), [5, -3, 1 << 40]),
    "u16": (lambda ix: rt.FastArray(np.array([5, 3, 40000], "uint16")[list(ix)]), [5, 3, 40000]),
    "f64": (lambda ix: rt.FastArray(np.array([5.5, -3.25, 7.0])[list(ix)]), [5.5, -3.25, 7.0]),
    "bool": (lambda ix: rt.FastArray(np.array([True, False, True])[list(ix)]), [True, False, True]),
    "Date": (lambda ix: rt.Date(np.array([18000, 17000, 19000], "int32")[list(ix)]), [18000, 17000, 19000]),
}


def group_rows(keys, ok):
    """distinct keys in order of first appearance -> rows"""
    d = {}
    for i, k in enumerate(keys):
        if ok is None or ok[i]:
            d.setdefault(k, []).append(i)
    return d


def labelvals(ds, names):
    cols = [vals(ds[n]) for n in names]
    return cols[0] if len(cols) == 1 else list(zip(*cols))


def red(fn, v):
    return F[fn](v)


def explore(mc):
    T = mc.thorough
    # ---------------------------------------------------------------- every reduction x dtype x values
    dts = INTS + FLTS + ["bool"]

    def values(dt, n):
        al = (True, False) if dt == "bool" else (None, 1, 3)
        return list(itertools.product(al, repeat=n))

    def space1():
        for dt in dts:
            for n in (1, 2, 3) + ((4,) if T else ()):
                for ix in canon(n, 2):
                    yield dt, ix

    def run1(case):
        dt, ix = case
        n = len(ix)
        V = values(dt, n)
        ds = rt.Dataset({"k": KEYT["i32"][0](ix), **{f"c{i}": arr(v, dt) for i, v in enumerate(V)}})
        keys = [KEYT["i32"][1][i] for i in ix]
        g = group_rows(keys, None)
        order = sorted(g)
        cat = rt.Categorical(ds.k)
        cols = {f"c{i}": ds[f"c{i}"] for i in range(len(V))}
        for fn in F:
            if dt == "bool" and fn in ("median", "nanmedian"):
                continue
            r = getattr(ds.groupby("k"), fn)()
            rc = getattr(cat, fn)(cols)
            rtf = getattr(ds.groupby("k"), fn)(transform=True)
            rct = getattr(cat, fn)(cols, transform=True)
            mc.eq(list(r.keys()), ["k"] + list(cols), f"{fn} column names")
            mc.eq(vals(r["k"]), order, f"{fn} keys")
            mc.eq(list(rtf.keys()), list(cols), f"{fn} transform column names")
            for i, v in enumerate(V):
                want = {k: red(fn, [v[j] for j in g[k]]) for k in order}
                if dt == "bool" and fn in ("sum", "nansum"):
                    want = {k: int(x) for k, x in want.items()}
                w = [want[k] for k in order]
                wt = [want[k] for k in keys]
                mc.eq(vals(r[f"c{i}"]), w, f"groupby {fn} of {dt}", values=v)
                mc.eq(vals(rc[f"c{i}"]), w, f"Categorical {fn} of {dt}", values=v)
                mc.eq(vals(rtf[f"c{i}"]), wt, f"groupby {fn} transform of {dt}", values=v)
                mc.eq(vals(rct[f"c{i}"]), wt, f"Categorical {fn} transform of {dt}", values=v)
        # mode: any most frequent value
        if dt != "bool":
            r = ds.groupby("k").mode()
            for i, v in enumerate(V):
                if None in v:
                    continue
                got = vals(r[f"c{i}"])
                for k, x in zip(order, got):
                    gv = [v[j] for j in g[k]]
                    top = max(gv.count(y) for y in gv)
                    mc.op()
                    if x is None or gv.count(x) != top:
                        mc.soft(f"mode of {dt}: got {x}", group=gv)

    mc.run("reductions x dtype", space1(), run1)

    # ---------------------------------------------------------------- plumbing: key types, filters, options
    PF = ["sum", "nanmean", "first", "last", "median", "max", "count", "var"]

    def space2():
        for kt in KEYT:
            for n in (1, 3, 4) if not T else (1, 2, 3, 4, 5):
                for ix in canon(n, 3):
                    if kt not in ("S", "i32") and n > 3:
                        continue
                    yield kt, ix

    def check_red(r, names, order, g, V, what, fn, empty0=True, kinds=None):
        """r: result dataset; g: key->rows; V: column->values"""
        mc.eq(labelvals(r, names), order, what + " keys")
        for c, v in V.items():
            want = []
            for k in order:
                rows = g.get(k, [])
                want.append(len(rows) if fn == "count" else red(fn, [v[j] for j in rows]))
            col = "Count" if fn == "count" else c
            mc.eq(vals(r[col]), want, what, column=c)

    def run2(case):
        kt, ix = case
        n = len(ix)
        mk, labs = KEYT[kt]
        keys = [labs[i] for i in ix]
        V = {"x": [(None, 4, 1, 7, 2)[j] for j in range(n)], "y": [(2.5, 1.5, None, -3.0, 8.0)[j] for j in range(n)]}

        def mkds():
            return rt.Dataset({"x": arr(V["x"], "int32"), "k": mk(ix), "y": arr(V["y"], "float64")})

        allkeys = group_rows(keys, None)
        for ok in [None] + list(masks(n)):
            f = None if ok is None else rt.FastArray(np.array(ok, dtype=bool))
            g = group_rows(keys, ok)
            for fn in PF:
                V1 = {"x": V["x"]} if fn == "count" else V
                ds = mkds()
                # constructor filter
                if g:
                    r = getattr(ds.groupby("k", filter=f), fn)()
                    check_red(r, ["k"], sorted(g), g, V1, f"gb(filter).{fn}", fn)
                    r = getattr(ds.gbu("k", filter=f), fn)()
                    check_red(r, ["k"], list(g), g, V1, f"gbu(filter).{fn}", fn)
                # call filter keeps every group
                if f is not None:
                    r = getattr(ds.groupby("k"), fn)(filter=f)
                    check_red(r, ["k"], sorted(allkeys), g, V1, f"gb.{fn}(filter)", fn)
                    r = getattr(ds.gbu("k"), fn)(filter=f)
                    check_red(r, ["k"], list(allkeys), g, V1, f"gbu.{fn}(filter)", fn)
                    mc.eq(r.label_get_names(), ["k"], f"{fn} label names")
                    # Categorical
                    c = rt.Categorical(ds.k)
                    args = () if fn == "count" else ({"x": ds.x, "y": ds.y},)
                    r = getattr(c, fn)(*args, filter=f)
                    nm = [q for q in r.keys() if q not in ("x", "y", "Count")]
                    check_red(r, nm, sorted(allkeys), g, V1, f"Categorical.{fn}(filter)", fn)
                    if g:
                        c = rt.Categorical(ds.k, filter=f)
                        r = getattr(c, fn)(*args)
                        nm = [q for q in r.keys() if q not in ("x", "y", "Count")]
                        check_red(r, nm, sorted(g), g, V1, f"Categorical(filter).{fn}", fn)
                        # transform with filtered rows: rows outside the filter belong to no group; rows inside get their group's value
                        c = rt.Categorical(ds.k, filter=f)
                        r = getattr(c, fn)(*args, transform=True)
                        for cn, v in V1.items():
                            got = vals(r["Count" if fn == "count" else cn])
                            for j in range(n):
                                if ok[j]:
                                    rows = g[keys[j]]
                                    mc.eq(got[j], len(rows) if fn == "count" else red(fn, [v[q] for q in rows]), f"Categorical(filter).{fn}(transform)", row=j, column=cn)
                    r = getattr(ds.groupby("k"), fn)(filter=f, transform=True)
                    for cn, v in V1.items():
                        w = [len(g.get(k, [])) if fn == "count" else red(fn, [v[q] for q in g.get(k, [])]) for k in keys]
                        mc.eq(vals(r["Count" if fn == "count" else cn]), w, f"gb.{fn}(filter,transform)", column=cn)
                    # showfilter: extra first row holds the filtered rows
                    if fn != "count":
                        r = getattr(ds.groupby("k"), fn)(filter=f, showfilter=True)
                        out = [j for j in range(n) if not ok[j]]
                        ro = {c_: [red(fn, [v[j] for j in out])] for c_, v in V1.items()}
                        lv = labelvals(r, ["k"])
                        mc.eq(lv[1:], sorted(allkeys), f"gb.{fn}(filter,showfilter) keys")
                        for cn, v in V1.items():
                            w = ro[cn] + [red(fn, [v[j] for j in g.get(k, [])]) for k in sorted(allkeys)]
                            mc.eq(vals(r[cn]), w, f"gb.{fn}(filter,showfilter)", column=cn)
                        if kt in ("S", "U"):
                            mc.eq(lv[0], "Filtered", "showfilter label")

    mc.run("key types x filters", space2(), run2)

    # ---------------------------------------------------------------- two keys
    def space3():
        for n in (1, 2, 3) + ((4,) if T else ()):
            for a in canon(n, 2):
                for b in canon(n, 2):
                    for kts in (("S", "i32"), ("i64", "f64"), ("U", "S")) if n < 4 else (("S", "i32"),):
                        yield kts, a, b

    def run3(case):
        kts, a, b = case
        n = len(a)
        (ma, la), (mb, lb) = KEYT[kts[0]], KEYT[kts[1]]
        keys = [(la[i], lb[j]) for i, j in zip(a, b)]
        V = {"x": [(None, 4, 1, 7, 2)[j] for j in range(n)], "y": [(2.5, 1.5, None, -3.0, 8.0)[j] for j in range(n)]}
        allk = group_rows(keys, None)
        for ok in [None] + list(masks(n)):
            f = None if ok is None else rt.FastArray(np.array(ok, dtype=bool))
            g = group_rows(keys, ok)
            ds = rt.Dataset({"b": mb(b), "x": arr(V["x"], "int32"), "a": ma(a), "y": arr(V["y"], "float64")})
            for fn in PF:
                V1 = {"x": V["x"]} if fn == "count" else V
                if g:
                    check_red(getattr(ds.groupby(["a", "b"], filter=f), fn)(), ["a", "b"], sorted(g), g, V1, f"2key gb(filter).{fn}", fn)
                    check_red(getattr(ds.gbu(["a", "b"], filter=f), fn)(), ["a", "b"], list(g), g, V1, f"2key gbu(filter).{fn}", fn)
                    check_red(getattr(ds.groupby(["a", "b"], filter=f, rec=True), fn)(), ["a", "b"], sorted(g), g, V1, f"2key gb(filter,rec).{fn}", fn)
                if f is not None:
                    r = getattr(ds.groupby(["a", "b"]), fn)(filter=f)
                    check_red(r, ["a", "b"], sorted(allk), g, V1, f"2key gb.{fn}(filter)", fn)
                    mc.eq(r.label_get_names(), ["a", "b"], "2key labels")
                else:
                    # lex grouping gives the same partition
                    check_red(getattr(ds.groupby(["a", "b"], lex=True), fn)(), ["a", "b"], sorted(allk), g, V1, f"2key gb(lex).{fn}", fn)
                c = rt.Categorical([ds.a, ds.b])
                args = () if fn == "count" else ({"x": ds.x, "y": ds.y},)
                r = getattr(c, fn)(*args, **({} if f is None else {"filter": f}))
                nm = [q for q in r.keys() if q not in ("x", "y", "Count")]
                got = dict(zip(labelvals(r, nm), zip(*[vals(r[q]) for q in (["Count"] if fn == "count" else V1)])))
                mc.eq(sorted(got), sorted(allk), f"multikey Categorical.{fn} keys")
                for k in allk:
                    rows = g.get(k, [])
                    mc.eq(list(got.get(k, ())), [len(rows)] if fn == "count" else [red(fn, [v[q] for q in rows]) for v in V1.values()], f"multikey Categorical.{fn}", group=k)
                rtf = getattr(ds.groupby(["a", "b"]), fn)(transform=True)
                g0 = allk
                for cn, v in V1.items():
                    mc.eq(vals(rtf["Count" if fn == "count" else cn]), [len(g0[k]) if fn == "count" else red(fn, [v[q] for q in g0[k]]) for k in keys], f"2key gb.{fn}(transform)")

    mc.run("two keys x filters", space3(), run3)

    # ---------------------------------------------------------------- quantiles
    QS = [0, 0.25, 0.5, 0.9, 1]

    def q_ref(v, q):
        v = sorted(v)
        if not v:
            return None
        pos = q * (len(v) - 1)
        lo = int(math.floor(pos))
        hi = min(lo + 1, len(v) - 1)
        return v[lo] if pos == lo else (v[lo] + v[hi]) / 2  # midpoint interpolation

    def space4():
        for dt in ("int32", "float64", "uint8", "float32") if not T else INTS + FLTS:
            for n in (1, 3, 4):
                for ix in canon(n, 2):
                    for v in itertools.product((None, 1, 4) if n > 3 else (None, 1, 4, 6), repeat=n):
                        if n > 3 and ix != tuple(sorted(ix)) and not T:
                            continue
                        yield dt, ix, v

    def run4(case):
        dt, ix, v = case
        ds = rt.Dataset({"k": KEYT["i32"][0](ix), "x": arr(v, dt), "z": arr([3 if q is None else None for q in v], "float64")})
        V = {"x": v, "z": [3 if q is None else None for q in v]}
        keys = [KEYT["i32"][1][i] for i in ix]
        g = group_rows(keys, None)
        order = sorted(g)

        def ref(cv, q, nan):
            out = []
            for k in order:
                gv = [cv[j] for j in g[k]]
                if nan:
                    gv = [y for y in gv if y is not None]
                elif None in gv:
                    out.append(None)
                    continue
                out.append(q_ref(gv, q))
            return out

        gb = ds.groupby("k")
        for nan in (False, True):
            for pct in (False, True):
                fn = ("nan" if nan else "") + ("percentile" if pct else "quantile")
                m = 100 if pct else 1
                for q in QS:
                    r = getattr(gb, fn)(q=q * m)
                    mc.eq(list(r.keys()), ["k", "x", "z"], f"{fn} names")
                    for cn in V:
                        mc.eq(vals(r[cn]), ref(V[cn], q, nan), f"{fn}", q=q, column=cn)
                qq = [q * m for q in QS]
                for tr in (False, True):
                    r = getattr(gb, fn)(q=qq, transform=tr)
                    names = [c + ("_p" if pct else "_q") + f"{q:.3g}".replace(".", "_") for c in V for q in qq]
                    mc.eq([x for x in r.keys() if x != "k"], names, f"{fn} multi-q names")
                    for c in V:
                        for q in QS:
                            w = ref(V[c], q, nan)
                            if tr:
                                w = [dict(zip(order, w))[k] for k in keys]
                            nmq = c + ("_p" if pct else "_q") + f"{q*m:.3g}".replace(".", "_")
                            mc.eq(vals(r[nmq]), w, f"{fn} multi-q transform={tr}", column=nmq)

    mc.run("quantile and percentile", space4(), run4)

    # ---------------------------------------------------------------- column types
    def space5():
        for n in (1, 2, 3) + ((4,) if T else ()):
            for ix in canon(n, 2):
                for ok in [None] + list(masks(n)):
                    yield ix, ok

    D = [18000, 17000, 18500, 16000]
    NS = [10**18 + 5, 10**18, 10**18 + 7 * 10**9, 10**18 + 3]

    def run5(case):
        ix, ok = case
        n = len(ix)
        f = None if ok is None else rt.FastArray(np.array(ok, dtype=bool))
        keys = [KEYT["S"][1][i] for i in ix]
        V = {
            "i": [3, 1, 2, 9][:n], "s": ["q", "p", "rr", "q"][:n], "u": ["zz", "y", "x", "w"][:n], "d": D[:n], "t": NS[:n],
            "ts": [5.0, 1.0, 9.0, 2.0][:n], "c": ["m", "l", "m", "n"][:n], "b": [True, False, True, True][:n],
        }
        ds = rt.Dataset({
            "k": KEYT["S"][0](ix), "i": arr(V["i"], "int16"), "s": rt.FastArray(np.array(V["s"], "S2")), "u": rt.FastArray(np.array(V["u"], "U2"), unicode=True),
            "d": rt.Date(np.array(V["d"], "int32")), "t": rt.DateTimeNano(np.array(V["t"], "int64"), from_tz="UTC", to_tz="NYC"), "ts": rt.TimeSpan(np.array(V["ts"])),
            "c": rt.Categorical(V["c"]), "b": rt.FastArray(np.array(V["b"])),
        })
        g = group_rows(keys, ok)
        allk = sorted(group_rows(keys, None))
        kinds = {c: kind(ds[c]) for c in V}
        for fn, okc in (("first", "i s u d t ts c b"), ("last", "i s u d t ts c b"), ("min", "i d t ts b"), ("max", "i d t ts b"), ("nth1", "i s u d t ts b")):
            okc = okc.split()
            if fn == "nth1":
                if f is not None:
                    continue
                r = ds.groupby("k").nth(1)
                want = {c: [([V[c][j] for j in g[k]] + [None, None])[1] for k in allk] for c in okc}
            else:
                r = getattr(ds.groupby("k"), fn)(**({} if f is None else {"filter": f}))
                want = {c: [F[fn]([V[c][j] for j in g.get(k, [])]) for k in allk] for c in okc}
            for c in okc:
                if c not in r.keys():
                    mc.soft(f"{fn} dropped column {c}")
                    continue
                w = want[c]
                got = vals(r[c])
                if c in "su":
                    w = ["" if x is None else x for x in w]
                if c == "b":
                    if None in w:
                        continue  # bool has no missing value
                if c == "c":
                    got = [None if x is None else x for x in got]
                mc.eq(kind(r[c]), kinds[c], f"{fn} type of {c}")
                mc.eq(got, w, f"{fn} of {kinds[c]} column", column=c)
            mc.eq([x for x in r.keys() if x in okc], okc, f"{fn} column order")
        # timezone preserved
        mc.eq(str(ds.groupby("k").first()["t"]._timezone._to_tz), str(ds.t._timezone._to_tz), "first keeps the time zone")

    mc.run("column types", space5(), run5)

    # ---------------------------------------------------------------- agg, apply_reduce, apply, nth, count_uniques, groups
    def space6():
        for n in (1, 2, 3, 4):
            for ix in canon(n, 3):
                if n == 4 and not T and ix[0] > 1:
                    continue
                for ok in [None] + ([m for m in masks(n)] if n < 4 or T else [m for m in masks(n) if sum(m) in (1, 3)]):
                    yield ix, ok

    def run6(case):
        ix, ok = case
        n = len(ix)
        f = None if ok is None else rt.FastArray(np.array(ok, dtype=bool))
        kw = {} if f is None else {"filter": f}
        keys = [KEYT["S"][1][i] for i in ix]
        V = {"x": [4, 4, 1, 7][:n], "y": [2.5, None, 1.5, 2.5][:n]}
        ds = rt.Dataset({"k": KEYT["S"][0](ix), "x": arr(V["x"], "int32"), "y": arr(V["y"], "float64")})
        allg = group_rows(keys, None)
        allk = sorted(allg)
        g = group_rows(keys, ok)
        cat = rt.Categorical(ds.k)
        cols = {"x": ds.x, "y": ds.y}
        # agg with several functions
        if f is None:
            for spec in (["sum", "min"], ["first", "nanmax"], [np.sum, np.amax], "nanmean"):
                m = ds.groupby("k").agg(spec)
                fl = [spec] if isinstance(spec, str) else [s if isinstance(s, str) else {"amax": "max"}.get(s.__name__, s.__name__) for s in spec]
                mc.eq(list(m.keys()), [s.capitalize() for s in fl], "agg names")
                for s in fl:
                    r = m[s.capitalize()]
                    for c in V:
                        mc.eq(vals(r[c]), [red(s, [V[c][j] for j in allg[k]]) for k in allk], f"agg {s}", column=c)
            m = ds.groupby("k").agg({"x": ["sum", "max"], "y": "nanmean"})
            mc.eq(sorted(m.keys()), ["Max", "Nanmean", "Sum"], "agg dict names")
            mc.eq([x for x in m["Sum"].keys() if x != "k"], ["x"], "agg dict columns")
            mc.eq([x for x in m["Nanmean"].keys() if x != "k"], ["y"], "agg dict columns")
            mc.eq(vals(m["Max"]["x"]), [r_max([V["x"][j] for j in allg[k]]) for k in allk], "agg dict max")
            mc.eq(vals(m["Nanmean"]["y"]), [r_nanmean([V["y"][j] for j in allg[k]]) for k in allk], "agg dict nanmean")
            m = cat.agg(["sum", "last"], cols)
            for s in ("sum", "last"):
                for c in V:
                    mc.eq(vals(m[s.capitalize()][c]), [red(s, [V[c][j] for j in allg[k]]) for k in allk], f"Categorical agg {s}", column=c)
            # nth
            for nn in (0, 1, 2):
                r = ds.groupby("k").nth(nn)
                rc_ = cat.nth(cols, nn)
                for c in V:
                    w = [([V[c][j] for j in allg[k]] + [None] * 5)[nn] for k in allk]
                    mc.eq(vals(r[c]), w, "nth", n=nn, column=c)
                    mc.eq(vals(rc_[c]), w, "Categorical nth", n=nn, column=c)
            # iteration and groups
            gb = ds.groupby("k")
            mc.eq({scalar(k): vals(v) for k, v in gb.groups.items()}, {k: allg[k] for k in allg}, "groups") if list(gb.groups) else None
            it = {scalar(k): list(zip(vals(d.x), vals(d.y))) for k, d in [(k, d.copy()) for k, d in ds.groupby("k")]}
            mc.eq(sorted(it), allk, "iteration keys")
            for k in allk:
                mc.eq(it[k], [(V["x"][j], V["y"][j]) for j in allg[k]], "iteration rows", group=k)
            it = {scalar(k): vals(d) for k, d in cat.iter_groups()}
            mc.eq(sorted(it), allk, "iter_groups keys")
            for k in allk:
                mc.eq(it[k], allg[k], "iter_groups rows", group=k)
                mc.eq(dsvals(ds.groupby("k").get_group(k))["x"], [V["x"][j] for j in allg[k]], "get_group", group=k)
            mc.eq(vals(ds.groupby("k").as_categorical()), keys, "as_categorical labels")
            mc.eq(vals(ds.gbu("k").as_categorical()), keys, "gbu as_categorical labels")
            ff, lf = [min(allg[k]) for k in allk], [max(allg[k]) for k in allk]
            mc.eq(vals(cat.first_fancy), ff, "first_fancy")
            mc.eq(vals(cat.last_fancy), lf, "last_fancy")
            mc.eq(vals(cat.first_bool), [j in ff for j in range(n)], "first_bool")
            mc.eq(vals(cat.last_bool), [j in lf for j in range(n)], "last_bool")
            # totals footer
            r = ds.groupby("k", totals=True).sum()
            fd = r.footer_get_dict()
            mc.eq(scalar(fd["Total"]["x"]), sum(V["x"]), "totals footer")
            for c in V:
                mc.eq(vals(r[c]), [r_sum([V[c][j] for j in allg[k]]) for k in allk], "sum with totals")
            # null: keys only
            mc.eq(labelvals(cat.null(), list(cat.null().keys())[:1]), allk, "null keys")
        # apply_reduce: user function
        uf = lambda a: float(len(a)) * 100 + float(np.asarray(a)[0])
        r = cat.apply_reduce(uf, ds.x, **kw)
        xn = [q for q in r.keys() if q not in r.label_get_names()][0]
        w = [(len(g[k]) * 100 + V["x"][g[k][0]]) if k in g else None for k in allk]
        mc.eq(vals(r[xn]), w, "apply_reduce")
        if g:
            r = ds.groupby("k", **kw).apply_reduce(uf)
            gk = sorted(g)
            mc.eq(labelvals(r, ["k"]), gk, "gb apply_reduce keys")
            mc.eq(vals(r["x"]), [len(g[k]) * 100 + V["x"][g[k][0]] for k in gk], "gb apply_reduce")
        r = cat.apply_reduce(lambda a, b: float(np.nansum(np.asarray(a) * np.asarray(b))), (ds.x, ds.y), **kw)
        xn = [q for q in r.keys() if q not in r.label_get_names()][0]
        w = [sum(V["x"][j] * V["y"][j] for j in g[k] if V["y"][j] is not None) * 1.0 if k in g else None for k in allk]
        mc.eq(vals(r[xn]), w, "apply_reduce of two columns")
        if f is None:
            r = cat.apply_reduce(uf, ds.x, transform=True)
            mc.eq(vals(r[0]), [len(allg[k]) * 100 + V["x"][allg[k][0]] for k in keys], "apply_reduce transform")
            r = ds.groupby("k").apply(lambda d: d.sum())
            mc.eq(labelvals(r, ["k"]), allk, "apply keys")
            mc.eq(vals(r["x"]), [sum(V["x"][j] for j in allg[k]) for k in allk], "apply")
            r = cat.apply(rt.sum, ds.x)
            if n > len(allk):
                mc.eq(vals(r[[q for q in r.keys() if q not in r.label_get_names()][0]]), [sum(V["x"][j] for j in allg[k]) for k in allk], "Categorical apply")
        # count_uniques
        r = cat.count_uniques(cols, **kw)
        w = [len({V["x"][j] for j in g.get(k, [])}) for k in allk]
        mc.eq(vals(r["x"]), w, "count_uniques")
        # Categorical count with transform
        r = cat.count(**kw)
        mc.eq(vals(r["Count"]), [len(g.get(k, [])) for k in allk], "count(filter)")
        r = cat.count(transform=True, **kw)
        mc.eq(vals(r["Count"]), [len(g.get(k, [])) for k in keys], "count(filter, transform)")
        # subset of columns via selection
        r = ds.groupby("k")["x"].sum(**kw)
        mc.eq(sorted(q for q in r.keys()), ["k", "x"], "gb[col] columns")
        mc.eq(vals(r["x"]), [sum(V["x"][j] for j in g.get(k, [])) for k in allk], "gb[col].sum")
        r = ds.groupby("k").sum(col_idx=["y"], **kw)
        mc.eq(vals(r["y"]), [r_sum([V["y"][j] for j in g.get(k, [])]) for k in allk], "sum(col_idx)")
        # return_all keeps the other columns
        ds2 = rt.Dataset({"k": ds.k, "s": rt.FastArray(["w"] * n), "x": ds.x})
        r = ds2.groupby("k", return_all=True).sum(**kw)
        mc.eq(vals(r["x"]), [sum(V["x"][j] for j in g.get(k, [])) for k in allk], "return_all sum")
        mc.eq(vals(r["k"]), allk, "return_all keys")

    mc.run("agg, apply, nth, iteration", space6(), run6)

    # ---------------------------------------------------------------- reductions in sequence on one object (cached packing)
    OPS = ["first_f", "sum_f", "median_f", "count_f", "first", "sum", "last", "count", "applyr_f", "median", "showf"]

    def space7():
        for a in OPS:
            for b in OPS:
                for c in OPS if T else ("first", "sum", "count", "median_f", "count_f"):
                    for kt in ("cat", "gb"):
                        yield kt, (a, b, c)

    def run7(case):
        kt, seq = case
        keys = ["b", "a", "b", "c", "a"]
        V = [1, 2, 4, 8, 16]
        oks = [(True, False, True, True, True), (False, True, False, False, True)]
        ds = rt.Dataset({"k": rt.FastArray(keys), "x": arr(V, "int64")})
        obj = rt.Categorical(ds.k) if kt == "cat" else ds.groupby("k")
        args = (ds.x,) if kt == "cat" else ()
        allk = ["a", "b", "c"]
        for step, o in enumerate(seq):
            fn = o.split("_")[0]
            ok = oks[step % 2] if o.endswith("_f") or o == "showf" else None
            kw = {} if ok is None else {"filter": rt.FastArray(np.array(ok))}
            g = group_rows(keys, ok)
            if fn == "count":
                r = obj.count(**kw)
                mc.eq(vals(r["Count"]), [len(g.get(k, [])) for k in allk], f"step {step} {o}")
                continue
            if fn == "applyr":
                r = obj.apply_reduce(lambda a: int(np.asarray(a).sum()), *args, **kw)
                w = [sum(V[j] for j in g[k]) if k in g else None for k in allk]
            elif fn == "showf":
                r = obj.sum(*args, showfilter=True, **kw)
                w = [sum(V[j] for j in range(5) if not ok[j])] + [sum(V[j] for j in g.get(k, [])) for k in allk]
            else:
                r = getattr(obj, fn)(*args, **kw)
                w = [red(fn, [V[j] for j in g.get(k, [])]) for k in allk]
            lab = r.label_get_names()
            xn = [q for q in r.keys() if q not in lab][0]
            mc.eq(vals(r[xn]), w, f"step {step} {o}")
            mc.eq(vals(r[lab[0]])[-3:], allk, f"step {step} {o} keys")

    mc.run("reduction histories", space7(), run7)

    # ---------------------------------------------------------------- many groups (index dtype thresholds)
    def space8():
        for ng in (126, 127, 128, 129, 254, 255, 256, 257) + ((32766, 32767, 32768, 32769, 65534, 65535, 65536) if True else ()):
            for kt in ("int", "str", "cat2"):
                yield ng, kt

    def run8(case):
        ng, kt = case
        lab = np.arange(ng)
        k0 = np.concatenate([lab[::-1], lab[: ng // 2]])
        x = np.arange(len(k0))
        exp_sum = np.zeros(ng, int)
        np.add.at(exp_sum, k0, x)
        cnt = np.bincount(k0, minlength=ng)
        last = np.zeros(ng, int)
        last[k0] = x
        if kt == "str":
            key = rt.FastArray(np.char.zfill(k0.astype("S6"), 6))
        else:
            key = rt.FastArray(k0.astype("int32"))
        ds = rt.Dataset({"k": key, "x": rt.FastArray(x)})
        if kt == "cat2":
            c = rt.Categorical([ds.k, rt.FastArray(np.char.zfill(k0.astype("S6"), 6))])
            res = []
            for q in (c.sum(ds.x), c.last(ds.x), c.count()):
                lab_ = q.label_get_names()
                val = [z for z in q.keys() if z not in lab_][0]
                res.append(np.asarray(q[val])[np.argsort(np.asarray(q[lab_[0]]))])
            s, l, n = res
            mc.eq(bool((np.asarray(c.sum(ds.x, transform=True)[0]) == exp_sum[k0]).all()), True, "transform sum many groups")
        else:
            gb = ds.groupby("k")
            s, l, n = np.asarray(gb.sum().x), np.asarray(gb.last().x), np.asarray(gb.count().Count)
            mc.eq(bool((np.asarray(gb.sum(transform=True).x) == exp_sum[k0]).all()), True, "transform sum many groups")
        mc.eq(bool((s == exp_sum).all()), True, "sum many groups")
        mc.eq(bool((l == last).all()), True, "last many groups")
        mc.eq(bool((n == cnt).all()), True, "count many groups")

    mc.run("many groups", space8(), run8)

    # ---------------------------------------------------------------- however the Categorical was made: reduced and spread back over the rows
    def bylabel(r, cols, want, how, fn, g, ix, ties=False, v=None):
        """every group that has rows is listed exactly once, with the value of its rows beside its own label"""
        lab = [{1.5: "a", 2.5: "b", 3.5: "c"}.get(x, x) for x in vals(r[r.label_get_names()[-1]])]
        mc.eq(len(lab), len(set(lab)), f"{how}: {fn} lists a label twice", labels=lab)
        mc.eq([NMS[i] for i in g if NMS[i] not in lab], [], f"{how}: {fn} lists every group", labels=lab)
        for cn in cols:
            got = vals(r[cn])
            for L, q in zip(lab, got):
                rows = g.get(NMS.index(L), [])
                if rows and not (ties and len({[v[j] for j in rows].count(x) for x in {v[j] for j in rows}}) == 1 and len({v[j] for j in rows}) > 1):
                    mc.eq(q, want(cn, rows), f"{how}: {fn}", column=cn, label=L)

    def run_made(case):
        how, ix = case
        if made(how, ix) is None:
            return
        n = len(ix)
        g = group_rows(ix, [i is not None for i in ix])
        V = {"x": [1 << i for i in range(n)], "y": [i * 0.5 if i != 1 else None for i in range(n)]}
        mk = lambda: (rt.FastArray(V["x"], dtype="int32"), arr(V["y"], "float64"))
        for fn in ("sum", "nanmean", "first", "last", "max", "median", "count", "nth", "apply_reduce"):
            def call(c, **kw):
                x, y = mk()
                if fn == "count":
                    return c.count(**kw)
                if fn == "nth":
                    return c.nth(rt.Dataset({"x": x, "y": y}), 0, **kw)
                if fn == "apply_reduce":
                    return c.apply_reduce(lambda a: a.sum(), rt.Dataset({"x": x, "y": y}), **kw)
                return getattr(c, fn)(rt.Dataset({"x": x, "y": y}), **kw)

            def want(v, rows):
                if fn == "count":
                    return len(rows)
                v = [v[q] for q in rows]
                return red({"nth": "first", "apply_reduce": "sum"}.get(fn, fn), v)

            c, labs = made(how, ix)
            if (not g and fn == "apply_reduce") or (fn == "nth" and how.startswith("gb")):
                continue
            r = call(c, transform=True)
            for cn, v in V.items():
                got = vals(r["Count" if fn == "count" else cn])
                mc.eq(len(got), n, f"{how}: {fn}(transform) length", column=cn)
                # what a row in no group gets is not claimed (the repository's tests have it get the last group's value)
                w = [want(v, g[i]) if i is not None else "-" for i in ix]
                mc.eq([q if i is not None else "-" for i, q in zip(ix, got)], w, f"{how}: {fn}(transform)", column=cn)
            # the flat result, label by label
            if not (fn == "nth" and how.startswith("gb")):
                c, labs = made(how, ix)
                r = call(c)
                bylabel(r, ["Count"] if fn == "count" else list(V), lambda cn, rows: want(V.get(cn, V["x"]), rows), how, fn, g, ix)
        if how[:2] != "gb":
            for fn, f, w in (
                ("count_uniques", lambda c, a: c.count_uniques(a), lambda v: len(set(v))),
                ("quantile", lambda c, a: c.quantile(a, q=[0.5]), r_median),
                ("mode", lambda c, a: c.mode(a), None),
            ):
                c, labs = made(how, ix)
                v = [5, 7, 5, 5, 7][:n]
                if not g:
                    continue
                r = f(c, rt.FastArray(v, dtype="int32"))
                cn = [q for q in r.keys() if q not in r.label_get_names()][0]
                bylabel(r, [cn], lambda _, rows: w([v[j] for j in rows]) if w else max(sorted({v[j] for j in rows}), key=[v[j] for j in rows].count), how, fn, g, ix, ties=fn == "mode", v=v)
        # two reductions of the same object, in both orders, and with the deprecated property
        c, _ = made(how, ix)
        x, y = mk()
        for tr in (False, True, False, True):
            r = c.sum(x, transform=tr)
            got = vals(r[-1] if not tr else r[0])
            if tr:
                mc.eq([q if i is not None else "-" for i, q in zip(ix, got)], [r_sum([V["x"][q] for q in g[i]]) if i is not None else "-" for i in ix], f"{how}: sum(transform) again")

    mc.run("however made", ((how, ix) for how in HOWS for n in (1, 2, 3, 4) + ((5,) if T else ()) for ix in itertools.product((0, 1, 2, None) if n < 4 or T else (0, 1, None), repeat=n)), run_made)

    # ---------------------------------------------------------------- user functions over several columns
    UV = {"x": ("int32", [1, 2, 4, 8, 16]), "y": ("float64", [0.5, 1.25, None, 2.5, 4.75]), "b": ("bool", [True, False, True, True, False]), "h": ("float32", [1.5, 2.5, 3.5, 4.5, 5.5])}
    UF = {
        "sum": (lambda a: a.sum(), lambda v: r_sum(v)),
        "first": (lambda a: a[0], lambda v: v[0]),
        "last item": (lambda a: np.asarray(a)[-1], lambda v: v[-1]),
        "len": (lambda a: len(a), lambda v: len(v)),
        "pair": (lambda a: (a.sum(), len(a)), lambda v: (r_sum(v), len(v))),
    }

    def run_user(case):
        ix, cols, fn, dt = case
        n = len(ix)
        uf, mf = UF[fn]
        V = {c: UV[c][1][:n] for c in cols}
        mkds = lambda: rt.Dataset({c: arr(V[c], UV[c][0]) for c in cols})
        kw = {} if dt is None else {"dtype": {"class": np.float32, "str": "float64", "dtype": np.dtype("float32")}[dt]}
        for how in ("cat", "gb", "given"):
            for f in [None] + [m for m in masks(n)]:
                ok = [True] * n if f is None else list(f)
                g = group_rows(ix, ok)
                if not g:
                    continue
                fk = dict(kw) if f is None else dict(kw, filter=rt.FastArray(ok))
                allk = sorted(set(ix)) if how != "given" else [0, 1, 2]
                if fn == "pair" and (len(allk) == 1 or any(k not in g for k in allk)):  # a 2-D column of one row is squeezed
                    continue
                names = ["p", "q", "r"]
                if how == "gb":
                    ds = mkds()
                    ds["k"] = rt.FastArray([names[i] for i in ix])
                    r = ds.groupby("k").apply_reduce(uf, **fk)
                elif how == "cat":
                    r = rt.Categorical(rt.FastArray([names[i] for i in ix])).apply_reduce(uf, mkds(), **fk)
                else:
                    r = rt.Categorical(rt.FastArray([i + 1 for i in ix]), names).apply_reduce(uf, mkds(), **fk)
                mc.eq([vals(r[q]) for q in r.label_get_names()], [[names[k] for k in allk]], "apply_reduce labels", how=how, f=f)
                mc.eq([c for c in r.keys() if c not in r.label_get_names()], list(cols), "apply_reduce columns", how=how, f=f)
                for c in cols:
                    if fn == "pair":
                        got = [tuple(None if isinstance(z, float) and math.isnan(z) else z for z in row) for row in np.asarray(r[c]).tolist()]
                        w = [mf([V[c][j] for j in g[k]]) for k in allk]
                        mc.eq(got, w, "apply_reduce of pairs", column=c, how=how, f=f)
                    else:
                        got = vals(r[c])
                        for k, q in zip(allk, got):
                            w = mf([V[c][j] for j in g[k]]) if k in g else None
                            if k not in g and c == "b" and np.asarray(r[c]).dtype == bool:
                                continue
                            mc.eq(q, w if w is None else float(w) if dt else w, "apply_reduce", column=c, group=k, how=how, f=f)
                        if dt:
                            mc.eq(str(r[c].dtype), "float64" if dt == "str" else "float32", "apply_reduce dtype", column=c)

    UC = [("x",), ("x", "y"), ("y", "x"), ("b", "y", "x"), ("h", "y", "b"), ("x", "h")]
    mc.run("user functions of several columns", ((ix, cols, fn, dt) for n in (1, 2, 3, 4) + ((5,) if T else ()) for ix in canon(n, 3) for cols in UC for fn in UF for dt in ((None, "class", "str", "dtype") if fn != "pair" else (None,))), run_user)
