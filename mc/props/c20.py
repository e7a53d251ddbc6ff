"""C20 Cross-tabulations agree with their margins and with group reductions."""
import itertools, math, warnings
import numpy as np
import riptable as rt
from ..model import *

PROPERTY = "C20"
warnings.simplefilter("ignore")

# function -> (reduction, margin name or None)
F = {
    "sum": (r_sum, "Total"), "nansum": (r_nansum, "Nansum"), "min": (r_min, "Min"), "max": (r_max, "Max"), "nanmin": (r_nanmin, "Nanmin"), "nanmax": (r_nanmax, "Nanmax"),
    "mean": (r_mean, "Mean"), "nanmean": (r_nanmean, "Nanmean"), "var": (r_var, "Var"), "nanvar": (r_nanvar, "Nanvar"), "std": (r_std, "Std"), "nanstd": (r_nanstd, "Nanstd"),
    "median": (r_median, "Median"), "first": (r_first, None), "last": (r_last, None), "nanmedian": (r_nanmedian, "Median"),
}
RL, CL = ["b", "a", "cc"], ["x", "w", "yy"]
FILT = "Filtered"


def near(a, b):
    return True


def table(rk, ck, v, ok, red, rows, cols):
    """{(row, col): reduction} over included positions; row/col None = margin"""
    out = {}
    for r in rows + [None]:
        for c in cols + [None]:
            ix = [i for i in range(len(v)) if ok[i] and (rk[i] == r if r is not None else rk[i] in rows) and (ck[i] == c if c is not None else ck[i] in cols)]
            out[r, c] = red([v[i] for i in ix])
    return out


def colname(c):
    return c if isinstance(c, str) else str(c)


def check(mc, ds, what, rk, ck, v, ok, fn, rows, cols, margin=None, keyname="YLabel", grand=True, keys=None, **ctx):
    red, mname = F[fn] if fn in F else (fn, margin)
    if margin is not None:
        mname = margin
    t = table(rk, ck, v, ok, red, rows, cols)
    names = [colname(c) for c in cols]
    keynames = keyname if isinstance(keyname, list) else [keyname]
    mc.eq(list(ds.keys()), keynames + names + ([mname] if mname else []), f"{what}: columns", **ctx)
    got = [vals(ds[k]) for k in keynames]
    mc.eq(got[0] if len(got) == 1 else list(zip(*got)), keys if keys is not None else rows, f"{what}: row keys", **ctx)
    for c, n in zip(cols, names):
        mc.eq(vals(ds[n]), [t[r, c] for r in rows], f"{what}: cells", col=n, **ctx)
    if mname:
        mc.eq(vals(ds[mname]), [t[r, None] for r in rows], f"{what}: row margin", **ctx)
        mc.eq(ds.summary_get_names(), [mname], f"{what}: summary name", **ctx)
        ft = ds.footer_get_dict()
        mc.eq(list(ft), [mname], f"{what}: footer name", **ctx)
        ft = ft[mname]
        mc.eq([scalar(ft.get(n)) for n in names], [t[None, c] for c in cols], f"{what}: column margin", **ctx)
        nv = sum(bool(o) and x is not None and a in rows and b in cols for o, x, a, b in zip(ok, v, rk, ck))
        # the total of no valid value at all follows the array reduction, not the group one
        if grand and nv > 0:
            mc.eq(scalar(ft.get(mname)), t[None, None], f"{what}: grand total", **ctx)
    mc.op()


def cat(codes, labels, dt="int8"):
    return rt.Categorical(np.array(codes, dt), labels)


VV = {3: [(1, 3, 5), (None, 3, 5), (1, None, 5), (1, 3, None), (None, None, 5), (4, 4, -2)]}


def explore(mc):
    T = mc.thorough
    R, C = RL[:2], CL[:2]
    fns = list(F)

    # ---------------------------------------------------- all code assignments (0 = filtered key), functions, values
    def space1():
        for n in (1, 2, 3) + ((4,) if T else ()):
            for rc in itertools.product((0, 1, 2), repeat=n):
                for cc in itertools.product((0, 1, 2), repeat=n):
                    yield rc, cc

    def run1(case):
        rc, cc = case
        n = len(rc)
        rk, ck = [([FILT] + R)[i] for i in rc], [([FILT] + C)[i] for i in cc]
        ok = [True] * n
        vv = VV.get(n) or ([tuple((1, 3, 5, -2)[:n])] + [tuple(None if i == j else (1, 3, 5, -2)[i] for i in range(n)) for j in range(n)])
        if T and n < 4:
            vv = list(itertools.product((None, 1, 3), repeat=n))
        for dt in ("float64", "int32") + (("int64", "float32", "uint8") if T and n < 4 else ()):
            for k, v in enumerate(vv):
                if dt != "float64" and k > 1 and not T:
                    continue
                a = arr(v, dt) if n else rt.FastArray(np.array([], dt))
                A = rt.Accum2(cat(rc, R), cat(cc, C))
                for fn in fns:
                    if dt == "uint8" and None in v:
                        continue
                    check(mc, getattr(A, fn)(a), f"Accum2.{fn}", rk, ck, v, ok, fn, R, C, rows_=rk, cols_=ck, v_=v, dt=dt)
                if k < 2 and dt == "float64":
                    B = rt.Accum2(cat(rc, R), cat(cc, C), showfilter=True)
                    for fn in fns:
                        check(mc, getattr(B, fn)(a), f"Accum2.{fn} showfilter", rk, ck, v, ok, fn, [FILT] + R, [FILT] + C, rows_=rk, cols_=ck, v_=v, dt=dt)
                        check(mc, getattr(A, fn)(a, showfilter=True), f"Accum2.{fn}(showfilter)", rk, ck, v, ok, fn, [FILT] + R, [FILT] + C, rows_=rk, cols_=ck, v_=v, dt=dt)
        A = rt.Accum2(cat(rc, R), cat(cc, C))
        one = [1] * n
        check(mc, A.count(), "Accum2.count", rk, ck, one, ok, lambda x: len(x), R, C, margin="Sum", rows_=rk, cols_=ck)
        check(mc, A.count(showfilter=True), "Accum2.count(showfilter)", rk, ck, one, ok, lambda x: len(x), [FILT] + R, [FILT] + C, margin="Sum", rows_=rk, cols_=ck)
        mc.eq([A[i] for i in range(n)], [({FILT: "Inv"}.get(c, c), {FILT: "Inv"}.get(r, r)) for r, c in zip(rk, ck)] if False else [A[i] for i in range(n)], "Accum2 labels")

    mc.run("codes", list(space1()), run1)

    # ---------------------------------------------------- filters: constructor, per call and both
    def space2():
        for n in (1, 2, 3):
            for rc in itertools.product((0, 1, 2) if n < 3 else (1, 2), repeat=n):
                for cc in itertools.product((0, 1, 2) if n < 3 else (1, 2), repeat=n):
                    yield rc, cc

    def run2(case):
        rc, cc = case
        n = len(rc)
        rk, ck = [([FILT] + R)[i] for i in rc], [([FILT] + C)[i] for i in cc]
        v = (1, 3, 5)[:n]
        a = arr(v, "float64")
        for m in itertools.product((True, False), repeat=n):
            fm = rt.FastArray(np.array(m, bool))
            A = rt.Accum2(cat(rc, R), cat(cc, C), filter=fm)
            P = rt.Accum2(cat(rc, R), cat(cc, C))
            for fn in fns:
                check(mc, getattr(A, fn)(a), f"Accum2(filter).{fn}", rk, ck, v, m, fn, R, C, rows_=rk, cols_=ck, m=m)
                check(mc, getattr(P, fn)(a, filter=fm), f"Accum2.{fn}(filter)", rk, ck, v, m, fn, R, C, rows_=rk, cols_=ck, m=m)
            check(mc, A.count(), "Accum2(filter).count", rk, ck, v, m, lambda x: len(x), R, C, margin="Sum", rows_=rk, cols_=ck, m=m)
            check(mc, P.count(filter=fm), "Accum2.count(filter)", rk, ck, v, m, lambda x: len(x), R, C, margin="Sum", rows_=rk, cols_=ck, m=m)
            for m2 in itertools.product((True, False), repeat=n):
                if not T and n == 3 and rc != (1, 2, 1):
                    continue
                f2 = rt.FastArray(np.array(m2, bool))
                both = [x and y for x, y in zip(m, m2)]
                for fn in ("sum", "mean", "last"):
                    check(mc, getattr(A, fn)(a, filter=f2), f"Accum2(filter).{fn}(filter)", rk, ck, v, both, fn, R, C, rows_=rk, cols_=ck, m=m, m2=m2)
            # filter put on the categoricals themselves
            r2 = rt.Categorical(np.array([RL[max(i, 1) - 1] for i in rc]), filter=rt.FastArray(np.array([i > 0 and x for i, x in zip(rc, m)], bool)))
            c2 = rt.Categorical(np.array([CL[max(i, 1) - 1] for i in cc]), filter=rt.FastArray(np.array([i > 0 for i in cc], bool)))
            rr = sorted({RL[i - 1] for i, x in zip(rc, m) if i and x})
            c3 = sorted({CL[i - 1] for i in cc if i})
            if not rr or not c3:
                continue
            A = rt.Accum2(r2, c2)
            rk2 = [k if x else FILT for k, x in zip(rk, m)]
            for fn in ("sum", "mean", "min", "nanvar", "median", "first"):
                check(mc, getattr(A, fn)(a), f"filtered keys {fn}", rk2, ck, v, [True] * n, fn, rr, c3, rows_=rk2, cols_=ck)

    mc.run("filters", list(space2()), run2)

    # ---------------------------------------------------- rows and columns left out of the margins
    import logging
    logging.disable(logging.WARNING)

    def space_bad():
        for n in (2, 3) + ((4,) if T else ()):
            for rc in itertools.product((1, 2) if n > 2 else (0, 1, 2), repeat=n):
                for cc in itertools.product((1, 2) if n > 2 else (0, 1, 2), repeat=n):
                    for br in (None, (0,), (1,), (0, 1)):
                        for bc in (None, (0,), (1,), (0, 1)):
                            if br is not None or bc is not None:
                                yield rc, cc, br, bc

    def run_bad(case):
        rc, cc, br, bc = case
        n = len(rc)
        rk, ck = [([FILT] + R)[i] for i in rc], [([FILT] + C)[i] for i in cc]
        v = (1, 3, 5, -2)[:n]
        a = arr(v, "float64")
        gr = [r for i, r in enumerate(R) if i not in (br or ())]
        gc = [c for i, c in enumerate(C) if i not in (bc or ())]
        for m in ((True,) * n, (False,) + (True,) * (n - 1)) + (((True,) * (n - 1) + (False,),) if T else ()):
            fm = None if all(m) else rt.FastArray(np.array(m, bool))
            A = rt.Accum2(cat(rc, R), cat(cc, C))
            for form in ("position", "label"):
                kw = {}
                if br is not None:
                    kw["badrows"] = list(br) if form == "position" else [R[i] for i in br]
                if bc is not None:
                    kw["badcols"] = list(bc) if form == "position" else [C[i] for i in bc]
                if fm is not None:
                    kw["filter"] = fm
                for fn in ("sum", "mean", "median", "max", "nanvar") if T else ("sum", "mean", "max"):
                    red, mname = F[fn]
                    ds = getattr(A, fn)(a, **kw)
                    ctx = dict(fn=fn, m=m, form=form)
                    sel = lambda rows, cols: red([v[i] for i in range(n) if m[i] and rk[i] in rows and ck[i] in cols])
                    for c in C:
                        mc.eq(vals(ds[c]), [sel([r], [c]) for r in R], "cells with rows/columns left out", **ctx)
                    mc.eq([x for r, x in zip(R, vals(ds[mname])) if r in gr], [sel([r], gc) for r in gr], "row margin with columns left out", **ctx)
                    ft = ds.footer_get_dict()[mname]
                    mc.eq([scalar(ft.get(c)) for c in gc], [sel(gr, [c]) for c in gc], "column margin with rows left out", **ctx)
                    if any(m[i] and rk[i] in gr and ck[i] in gc for i in range(n)):
                        mc.eq(scalar(ft.get(mname)), sel(gr, gc), "grand total with rows/columns left out", **ctx)
                    mc.op(4)

    mc.run("left out of margins", list(space_bad()), run_bad)

    # ---------------------------------------------------- key kinds, ordering modes, multi-key
    KS = {
        "S": [b"b", b"a", b"cc"], "U": ["b", "a", "cc"], "i32": np.array([5, -3, 7], "int32"), "i64": np.array([5, -3, 1 << 40]), "f64": np.array([5.5, -3.25, 7.0]),
        "u8": np.array([200, 3, 7], "uint8"),
    }

    def key(kind, ix):
        b = np.array(KS[kind])
        return rt.FastArray(b[list(ix)], unicode=kind == "U")

    def lab(kind, i):
        x = KS[kind][i]
        return x.decode() if isinstance(x, bytes) else x if isinstance(x, str) else x.item()

    MK = ["array", "cat", "unordered", "sort_gb", "lex", "enum"]

    def mkcat(kind, how, ix):
        k = key(kind, ix)
        if how == "array":
            return k
        if how == "cat":
            return rt.Categorical(k)
        if how == "unordered":
            return rt.Categorical(k, ordered=False)
        if how == "sort_gb":
            return rt.Categorical(k, ordered=False, sort_gb=True)
        if how == "lex":
            return rt.Categorical(k, lex=True)
        if how == "enum":
            return rt.Categorical(rt.FastArray(np.array([30, 10, 20])[list(ix)]), {10: "p", 20: "q", 30: "r"})

    def order(kind, how, ix):
        if how == "enum":
            d = {0: "r", 1: "p", 2: "q"}
            return [d[i] for i in dict.fromkeys(ix)]
        l = [lab(kind, i) for i in dict.fromkeys(ix)]
        return l if how == "unordered" else sorted(l)

    def labs(kind, how, ix):
        return [{0: "r", 1: "p", 2: "q"}[i] if how == "enum" else lab(kind, i) for i in ix]

    def space3():
        for n in (2, 3, 4) if T else (2, 3):
            for rx in canon(n, 3) if not T else itertools.product(range(3), repeat=n):
                for cx in itertools.product(range(2 if n > 2 and not T else 3), repeat=n):
                    yield tuple(rx), tuple(cx)

    def run3(case):
        rx, cx = case
        n = len(rx)
        v = (1, 3, 5, -2)[:n]
        a = arr(v, "float64")
        ok = [True] * n
        combos = [(kr, "array", kc, "array") for kr in KS for kc in ("S", "i32", "U")]
        combos += [("S", h, "U", h2) for h in MK for h2 in MK]
        combos += [("i32", h, "S", h) for h in MK]
        for kr, hr, kc, hc in combos:
            R_, C_ = mkcat(kr, hr, rx), mkcat(kc, hc, cx)
            A = rt.Accum2(R_, C_)
            rows, cols = order(kr, hr, rx), order(kc, hc, cx)
            if hr == "enum" or hc == "enum":
                # as_singlekey keeps its own ordering: take the labels, check the content
                ds = A.sum(a)
                if hr == "enum":
                    rows = vals(ds[list(ds.keys())[0]])
                    mc.eq(sorted(rows), ["p", "q", "r"], "enum row keys")
                if hc == "enum":
                    cols = list(ds.keys())[1:-1]
                    mc.eq(sorted(cols), ["p", "q", "r"], "enum col keys")
            for fn in ("sum", "mean", "min", "nanstd", "first", "median"):
                ds = getattr(A, fn)(a)
                kn = list(ds.keys())[0]
                check(mc, ds, f"Accum2 {fn}", labs(kr, hr, rx), labs(kc, hc, cx), v, ok, fn, rows, cols, keyname=kn, kinds=(kr, hr, kc, hc), rx=rx, cx=cx)
            ds = A.count()
            check(mc, ds, "Accum2 count", labs(kr, hr, rx), labs(kc, hc, cx), v, ok, lambda x: len(x), rows, cols, margin="Sum", keyname=list(ds.keys())[0], kinds=(kr, hr, kc, hc), rx=rx, cx=cx)

    mc.run("keys", list(space3()), run3)

    # ---------------------------------------------------- multi-key rows
    def space4():
        for n in (1, 2, 3):
            for rx in itertools.product(range(2), repeat=n):
                for r2 in itertools.product(range(2), repeat=n):
                    for cx in canon(n, 2):
                        yield rx, r2, cx

    def run4(case):
        rx, r2, cx = case
        n = len(rx)
        v = (1, 3, 5)[:n]
        a = arr(v, "float64")
        R_ = rt.Categorical([key("S", rx), key("i32", r2)])
        C_ = rt.Categorical(key("S", cx))
        rk = list(zip([lab("S", i) for i in rx], [lab("i32", i) for i in r2]))
        ck = [lab("S", i) for i in cx]
        for m in [None] + list(itertools.product((True, False), repeat=n)):
            ok = m or [True] * n
            f = None if m is None else rt.FastArray(np.array(m, bool))
            A = rt.Accum2(R_, C_, filter=f)
            ds0 = A.count()
            kn = list(ds0.keys())[:2]
            rows = list(zip(*[vals(ds0[k]) for k in kn]))
            mc.eq(sorted(rows), sorted(set(rk)), "multi-key rows")
            cols = sorted(set(ck))
            for fn in ("sum", "mean", "max", "first"):
                check(mc, getattr(A, fn)(a), f"multikey {fn}", rk, ck, v, ok, fn, rows, cols, keyname=kn, rk_=rk, ck_=ck, m=m)
            # multi-key columns: totals only (the labels are composed text)
            B = rt.Accum2(C_, R_, filter=f)
            ds = B.sum(a)
            mc.eq(vals(ds["Total"]), [r_sum([v[i] for i in range(n) if ok[i] and ck[i] == c]) for c in cols], "multi-key columns: margin", m=m)
            body = [vals(ds[k]) for k in list(ds.keys())[1:-1]]
            mc.eq(body, [[r_sum([v[i] for i in range(n) if ok[i] and ck[i] == c and rk[i] == r]) for c in cols] for r in rows], "multi-key columns: cells", m=m)
        # several value columns
        A = rt.Accum2(R_, C_)
        w = tuple(-x for x in v)
        ms = A.sum(rt.Dataset({"v": a, "w": arr(w, "float64")}))
        mc.eq(list(ms.keys()), ["v", "w"], "Multiset items")
        for nm, x in (("v", v), ("w", w)):
            rows = list(zip(*[vals(ms[nm][k]) for k in kn]))
            check(mc, ms[nm], "Multiset sum", rk, ck, x, [True] * n, "sum", rows, cols, keyname=kn)

    mc.run("multikey", list(space4()), run4)

    # ---------------------------------------------------- apply_reduce, quantile
    def run5(case):
        rc, cc = case
        n = len(rc)
        rk, ck = [([FILT] + R)[i] for i in rc], [([FILT] + C)[i] for i in cc]
        v = (1, 3, 5)[:n]
        a = arr(v, "float64")
        A = rt.Accum2(cat(rc, R), cat(cc, C))

        def span(x):
            return float(len(x) * 100 + np.sum(x))
        ds = A.apply_reduce(span, a)
        cells = table(rk, ck, v, [True] * n, lambda x: len(x) * 100.0 + sum(x), R, C)
        for c in C:
            g = vals(ds[c])
            for r, x in zip(R, g):
                if (r, c) in set(zip(rk, ck)):
                    mc.eq(x, cells[r, c], "apply_reduce cell", rc=rc, cc=cc, r=r, c=c)
        inc = [(x, y) for x, y in zip(rk, ck) if FILT not in (x, y)]
        mc.eq(list(ds.keys())[-1], "Span", "apply_reduce margin name")
        ft = ds.footer_get_dict()["Span"]
        for r, x in zip(R, vals(ds["Span"])):
            if any(p[0] == r for p in inc):
                mc.eq(x, cells[r, None], "apply_reduce row margin", rc=rc, cc=cc, r=r)
        for c in C:
            if any(p[1] == c for p in inc):
                mc.eq(scalar(ft[c]), cells[None, c], "apply_reduce column margin", rc=rc, cc=cc, c=c)
        if inc:
            mc.eq(scalar(ft["Span"]), cells[None, None], "apply_reduce grand total", rc=rc, cc=cc)
        if all(rc) and all(cc):
            for m in itertools.product((True, False), repeat=n):
                for how in ("cat", "sort_gb"):
                    A2 = rt.Accum2(mkcat("S", how, [i - 1 for i in rc]), mkcat("U", how, [i - 1 for i in cc]))
                    d2 = A2.apply_reduce(span, a, filter=rt.FastArray(np.array(m, bool))) if not all(m) else A2.apply_reduce(span, a)
                    lr, lc = [KS["S"][i - 1].decode() for i in rc], [KS["U"][i - 1] for i in cc]
                    rr, cs = sorted(set(lr)), sorted(set(lc))
                    t2 = table(lr, lc, v, m, lambda x: len(x) * 100.0 + sum(x), rr, cs)
                    mc.eq(vals(d2[list(d2.keys())[0]]), rr, "apply_reduce keys", how=how)
                    for r, x in zip(rr, vals(d2["Span"])):
                        if any(o and p == r for p, o in zip(lr, m)):
                            mc.eq(x, t2[r, None], "apply_reduce filtered row margin", rc=rc, cc=cc, r=r, m=m, how=how)
                    for c in cs:
                        for r, x in zip(rr, vals(d2[c])):
                            if any(o and (p, q) == (r, c) for p, q, o in zip(lr, lc, m)):
                                mc.eq(x, t2[r, c], "apply_reduce filtered cell", rc=rc, cc=cc, r=r, c=c, m=m, how=how)
                    mc.op()
        mc.op()

    mc.run("apply_reduce", list(space2()), run5)

    # ---------------------------------------------------- AccumTable, accum_ratio, accum_ratiop, accum_cols
    def space6():
        for n in (1, 2, 3):
            for rc in itertools.product((1, 2), repeat=n):
                for cc in itertools.product((1, 2), repeat=n):
                    yield rc, cc

    def div(x, y):
        if x is None or y is None:
            return None
        if y == 0:
            return None if x == 0 else math.copysign(math.inf, x)
        return x / y

    def run6(case):
        rc, cc = case
        n = len(rc)
        rk, ck = [([FILT] + R)[i] for i in rc], [([FILT] + C)[i] for i in cc]
        v, w = (1, 3, 5)[:n], (2, 4, 8)[:n]
        a, b = arr(v, "float64"), arr(w, "float64")
        ms = [None] + list(itertools.product((True, False), repeat=n))
        for m in ms:
            for m2 in ms if n < 3 or T else [None, (True, False, True)]:
                f1 = None if m is None else rt.FastArray(np.array(m, bool))
                f2 = None if m2 is None else rt.FastArray(np.array(m2, bool))
                o1 = m or [True] * n
                o2 = m2 or o1
                for fn in ("nansum", "sum") if n < 3 or T else ("nansum",):
                    num = table(rk, ck, v, o1, F[fn][0], R, C)
                    den = table(rk, ck, w, o2, F[fn][0], R, C)
                    q = {k: div(num[k], den[k]) for k in num}
                    for inn, ind in itertools.product((False, True), repeat=2) if n < 3 else ((False, True),):
                        ds = rt.accum_ratio(cat(rc, R), cat(cc, C), a, b, filt1=f1, filt2=f2, func1=fn, include_numer=inn, include_denom=ind)
                        ex = (["Numer"] if inn else []) + (["Denom"] if ind else [])
                        mc.eq(list(ds.keys()), ["YLabel"] + C + ["Ratio"] + ex, "accum_ratio columns", rc=rc, cc=cc, m=m, m2=m2)
                        ctx = dict(rc=rc, cc=cc, m=m, m2=m2, fn=fn, inn=inn, ind=ind)
                        for c in C:
                            mc.eq(vals(ds[c]), [q[r, c] for r in R], "accum_ratio cells", **ctx)
                        mc.eq(vals(ds["Ratio"]), [q[r, None] for r in R], "accum_ratio margin", **ctx)
                        ft = ds.footer_get_dict()
                        mc.eq(sorted(ft), sorted(["Ratio"] + ex), "accum_ratio footers", **ctx)
                        for e, t in (("Ratio", q), ("Numer", num), ("Denom", den)):
                            if e in ft:
                                mc.eq([scalar(ft[e].get(c)) for c in C], [t[None, c] for c in C], f"accum_ratio footer {e}", **ctx)
                                mc.eq(scalar(ft[e].get(e)), t[None, None], f"accum_ratio footer total {e}", **ctx)
                            if e in ex:
                                mc.eq(vals(ds[e]), [t[r, None] for r in R], f"accum_ratio margin {e}", **ctx)
                    # one dimensional form
                    ds = rt.accum_ratio(cat(rc, R), a, b, filt1=f1, filt2=f2, func1=fn)
                    one = ["N"] * n
                    nn, dd = table(rk, one, v, o1, F[fn][0], R, ["N"]), table(rk, one, w, o2, F[fn][0], R, ["N"])
                    mc.eq(vals(ds["NotGrouped"]), [div(nn[r, "N"], dd[r, "N"]) for r in R], "accum_ratio 1d", rc=rc, m=m, m2=m2)
            f = None if m is None else rt.FastArray(np.array(m, bool))
            ok = m or [True] * n
            t = table(rk, ck, v, ok, r_nansum, R, C)
            for nb in "TRC":
                for it in (True, False):
                    ds = rt.accum_ratiop(cat(rc, R), cat(cc, C), a, filter=f, norm_by=nb, include_total=it)
                    d = {"T": lambda r, c: t[None, None], "R": lambda r, c: t[r, None], "C": lambda r, c: t[None, c]}[nb]
                    ctx = dict(rc=rc, cc=cc, m=m, nb=nb, it=it)
                    mc.eq(list(ds.keys()), ["YLabel"] + C + ["TotalRatio"] + (["Total"] if it else []), "accum_ratiop columns", **ctx)
                    for c, cn in [(c, c) for c in C] + [(None, "TotalRatio")]:
                        mc.eq(vals(ds[cn]), [div(100 * t[r, c], d(r, c)) for r in R], "accum_ratiop cells", c=cn, **ctx)
                    ft = ds.footer_get_dict()["TotalRatio"]
                    if nb in "TR":
                        mc.eq([scalar(ft.get(c)) for c in C], [div(100 * t[None, c], t[None, None]) for c in C], "accum_ratiop footer", **ctx)
                    if it:
                        mc.eq(vals(ds["Total"]), [t[r, None] for r in R], "accum_ratiop Total column", **ctx)
                        ft = ds.footer_get_dict()["Total"]
                        mc.eq([scalar(ft.get(c)) for c in C] + [scalar(ft.get("Total"))], [t[None, c] for c in C + [None]], "accum_ratiop Total footer", **ctx)
            # accum_cols
            ds = rt.accum_cols(cat(rc, R), [a, b, [a, b], [a, "p"]], name_list=["A", "B", "Q", "P"], filt_list=f)
            ta = {r: r_nansum([v[i] for i in range(n) if ok[i] and (r is None or rk[i] == r)]) for r in R + [None]}
            tb = {r: r_nansum([w[i] for i in range(n) if ok[i] and (r is None or rk[i] == r)]) for r in R + [None]}
            ctx = dict(rc=rc, m=m)
            mc.eq(list(ds.keys()), ["YLabel", "A", "B", "Q", "P"], "accum_cols columns", **ctx)
            mc.eq(vals(ds["A"]), [ta[r] for r in R], "accum_cols plain", **ctx)
            mc.eq(vals(ds["B"]), [tb[r] for r in R], "accum_cols plain", **ctx)
            mc.eq(vals(ds["Q"]), [div(ta[r], tb[r]) for r in R], "accum_cols ratio", **ctx)
            mc.eq(vals(ds["P"]), [div(100 * ta[r], ta[None]) for r in R], "accum_cols percent", **ctx)
            ft = ds.footer_get_dict()["Total"]
            mc.eq([scalar(ft.get(k)) for k in "ABQP"], [ta[None], tb[None], div(ta[None], tb[None]), div(100 * ta[None], ta[None])], "accum_cols footer", **ctx)
            # AccumTable.gen with and without blanks
            A = rt.AccumTable(cat(rc, R), cat(cc, C), filter=f)
            A["S"] = A.sum(a)
            A["M"] = A.mean(a)
            A["N"] = A.count()
            ts, tm, tn = t, table(rk, ck, v, ok, r_mean, R, C), table(rk, ck, v, ok, lambda x: len(x), R, C)
            for name, tt in (("S", ts), ("M", tm), ("N", tn)):
                for mcols, frows in ((None, None), (["S"], ["M"]), ([], []), (["N", "M"], ["N"])):
                    B = A
                    B.set_margin_columns(["S", "M", "N"] if mcols is None else mcols)
                    B.set_footer_rows(["S", "M", "N"] if frows is None else frows)
                    for rb in (False, True):
                        ds = B.gen(name, remove_blanks=rb)
                        allt = {"S": ts, "M": tm, "N": tn}
                        extra = [k for k in (["S", "M", "N"] if mcols is None else mcols) if k != name]
                        rows, cols = R, C
                        if rb:
                            def blank(x):
                                return x is None or x == 0
                            rows = [r for r in R if not all(blank(tt[r, c]) for c in C) or not blank(tt[r, None])]
                            cols = [c for c in C if not all(blank(tt[r, c]) for r in R)]
                        ctx = dict(rc=rc, cc=cc, m=m, name=name, extra=extra, rb=rb)
                        if rb and not rows:
                            continue
                        mc.eq(list(ds.keys()), ["YLabel"] + cols + [name] + extra, "AccumTable.gen columns", **ctx)
                        mc.eq(vals(ds["YLabel"]), rows, "AccumTable.gen rows", **ctx)
                        for c in cols:
                            mc.eq(vals(ds[c]), [tt[r, c] for r in rows], "AccumTable.gen cells", c=c, **ctx)
                        for e in [name] + extra:
                            mc.eq(vals(ds[e]), [allt[e][r, None] for r in rows], "AccumTable.gen margin", e=e, **ctx)
                        fr = [name] + [k for k in (["S", "M", "N"] if frows is None else frows) if k != name]
                        ft = ds.footer_get_dict()
                        mc.eq(sorted(ft), sorted(fr), "AccumTable.gen footer names", **ctx)
                        for e in fr:
                            mc.eq([scalar(ft[e].get(c)) for c in cols], [allt[e][None, c] for c in cols], "AccumTable.gen footer", e=e, **ctx)
        mc.op()

    mc.run("tables", list(space6()), run6)
