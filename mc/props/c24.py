"""C24 Reshaping keeps every value under its own row and column keys."""
import itertools, operator, warnings
import numpy as np
import riptable as rt
from ..model import *

PROPERTY = "C24"
warnings.simplefilter("ignore")

KS = {
    "S": np.array([b"b", b"a", b"cc"]), "U": np.array(["b", "a", "cc"]), "i32": np.array([5, -3, 7], "int32"), "i64": np.array([5, -3, 1 << 40]),
    "f64": np.array([5.5, -3.25, 7.0]), "u8": np.array([200, 3, 7], "uint8"),
}


def key(kind, ix):
    if kind == "cat":
        return rt.Categorical(KS["S"][list(ix)] if len(ix) else np.array([], "S2"))
    if kind == "Date":
        return rt.Date(np.array([18000, 17000, 19000], "int32")[list(ix)])
    return rt.FastArray(KS[kind][list(ix)] if len(ix) else np.array([], KS[kind].dtype), unicode=kind == "U")


def lab(kind, i):
    if kind == "Date":
        return [18000, 17000, 19000][i]
    x = KS["S" if kind == "cat" else kind][i]
    return x.decode() if isinstance(x, bytes) else str(x) if isinstance(x, str) else x.item()


KINDS = list(KS) + ["cat", "Date"]


def cols(ds, names):
    return [vals(ds[n]) for n in names]


def rows(ds, names):
    c = cols(ds, names)
    return list(zip(*c)) if c else []


def explore(mc):
    T = mc.thorough

    # ------------------------------------------------ melt
    def melts():
        for n in (0, 1, 2, 3):
            for nid in range(3):
                for nval in range(1, 4):
                    for vd in ("float64", "int32", "mix", "S", "U"):
                        for pos in (0, 1):
                            yield n, nid, nval, vd, pos

    def run_melt(case):
        n, nid, nval, vd, pos = case
        def val(j, i):
            x = 10 * (j + 1) + i
            if vd in ("S", "U"):
                return f"v{x}"
            return None if (i + j) % 3 == 1 else 0 if (i + j) % 3 == 2 and i else x
        V = [[val(j, i) for i in range(n)] for j in range(nval)]
        def mk(j):
            if vd == "S":
                return rt.FastArray(np.array([x.encode() for x in V[j]], "S6"))
            if vd == "U":
                return rt.FastArray(np.array(V[j], "U6"), unicode=True)
            dt = ("int32", "float64", "int64")[j % 3] if vd == "mix" else vd
            return arr(V[j], dt) if n else rt.FastArray(np.array([], dt))
        for kinds in itertools.product(KINDS[:4] + ["cat"], repeat=nid) if T or nid < 2 else [("S", "cat"), ("cat", "i32"), ("f64", "U")]:
            ids = {f"k{i}": key(k, [(r + i) % 3 for r in range(n)]) for i, k in enumerate(kinds)}
            vs = {f"v{j}": mk(j) for j in range(nval)}
            ds = rt.Dataset({**ids, **vs} if pos == 0 else {**vs, **ids})
            idl = {f"k{i}": [lab(k, (r + i) % 3) for r in range(n)] for i, k in enumerate(kinds)}
            before = dsvals(ds)
            for sub in [None] + [list(c) for k in range(1, nval + 1) for c in itertools.combinations(vs, k)]:
                for vn, wn in ((None, "value"), ("nm", "w")):
                    for tr in (False, True) if vd not in ("S", "U") else (False,):
                        kw = {} if vn is None else {"var_name": vn, "value_name": wn}
                        r = ds.melt(id_vars=list(ids) or None, value_vars=sub, trim=tr, **kw)
                        use = sub or list(vs)
                        want = [tuple(idl[k][i] for k in ids) + (c, V[int(c[1:])][i]) for c in use for i in range(n)]
                        if tr:
                            want = [w for w in want if w[-1] not in (None, 0)]
                        names = list(ids) + [vn or "variable", wn]
                        mc.eq(list(r.keys()), names, "melt columns", case=(kinds, sub, tr))
                        got = rows(r, names)
                        if vd == "mix":
                            got = [g[:-1] + (None if g[-1] is None else float(g[-1]),) for g in got]
                            want = [g[:-1] + (None if g[-1] is None else float(g[-1]),) for g in want]
                        mc.eq(got, want, "melt rows", case=(kinds, sub, tr))
                        mc.op()
            mc.eq(dsvals(ds), before, "melt leaves the Dataset")

    mc.run("melt", list(melts()), run_melt)

    # ------------------------------------------------ pivot
    def pivots():
        for n in (1, 2, 3, 4):
            for ix in itertools.product(range(3), repeat=n) if n < 4 else canon(4, 3):
                for cx in itertools.product(range(3), repeat=n) if n < 3 or T else canon(n, 3):
                    yield tuple(ix), tuple(cx)

    def run_pivot(case):
        ix, cx = case
        n = len(ix)
        V = [10 * (i + 1) for i in range(n)]
        W = [-1.5 * (i + 1) for i in range(n)]
        combos = [(kr, "S") for kr in KINDS] + [("i32", kc) for kc in KINDS if kc not in ("f64", "Date")] if n < 3 else [("S", "U"), ("i64", "S"), ("cat", "i32")]
        for kr, kc in combos:
            for m in [None] + (list(itertools.product((True, False), repeat=n)) if n < 4 else [(True, True, False, False), (False, True, False, True)]):
                ok = m or [True] * n
                cells = [(ix[i], cx[i]) for i in range(n) if ok[i]]
                f = None if m is None else rt.FastArray(np.array(m, bool))
                ds = rt.Dataset({"k": key(kr, ix), "c": key(kc, cx), "v": arr(V, "int32"), "w": arr(W, "float64")})
                for o in (True, False) if kr not in ("cat",) and kc != "cat" else (True,):
                    ctx = dict(kr=kr, kc=kc, m=m, o=o)
                    if len(set(cells)) < len(cells):
                        mc.raises(lambda: ds.pivot(labels="k", columns="c", values="v", ordered=o, filter=f), "pivot refuses duplicates", ValueError)
                        continue
                    r = ds.pivot(labels="k", columns="c", values="v", ordered=o, filter=f)
                    rk, ck = [lab(kr, i) for i in dict.fromkeys(ix)], [lab(kc, i) for i in dict.fromkeys(cx)]
                    if o:
                        rk.sort(), ck.sort()
                    mc.eq(list(r.keys()), ["k"] + [str(x) for x in ck], "pivot columns", **ctx)
                    mc.eq(vals(r["k"]), rk, "pivot row keys", **ctx)
                    mc.eq(r.label_get_names(), ["k"], "pivot labels", **ctx)
                    d = {(lab(kr, ix[i]), lab(kc, cx[i])): i for i in range(n) if ok[i]}
                    for c in ck:
                        mc.eq(vals(r[str(c)]), [V[d[k, c]] if (k, c) in d else None for k in rk], "pivot cells", **ctx)
                    ms = ds.pivot(labels=["k"], columns=["c"], ordered=o, filter=f)
                    mc.eq(list(ms.keys()), ["v", "w"], "pivot of several values", **ctx)
                    for nm, X in (("v", V), ("w", W)):
                        for c in ck:
                            mc.eq(vals(ms[nm][str(c)]), [X[d[k, c]] if (k, c) in d else None for k in rk], "pivot cells (several values)", **ctx)
                    d2 = rt.Dataset({"k": key(kr, ix), "c": key(kc, cx), "v": arr(V, "int32")})
                    d2.label_set_names(["k"])
                    mc.eq(dsvals(d2.pivot(columns="c", values="v", ordered=o, filter=f)), dsvals(r), "pivot by the Dataset's labels", **ctx)
                    mc.op(3)
        # two row labels and two column keys
        d3 = rt.Dataset({"k": key("S", ix), "k2": key("i32", cx), "c": key("U", cx), "c2": key("S", ix), "v": arr(V, "int32")})
        if len(set(zip(ix, cx))) == n:
            r = d3.pivot(labels=["k", "k2"], columns=["c", "c2"], values="v")
            lk = list(zip(vals(r["k"]), vals(r["k2"])))
            want = {(lab("S", a), lab("i32", b)): (f"{lab('U', b)}_{lab('S', a)}", V[i]) for i, (a, b) in enumerate(zip(ix, cx))}
            mc.eq(sorted(lk), sorted(want), "pivot multi-key rows")
            for i, k in enumerate(lk):
                got = {c: vals(r[c])[i] for c in list(r.keys())[2:]}
                mc.eq({c: x for c, x in got.items() if x is not None}, {want[k][0]: want[k][1]}, "pivot multi-key cells")
        mc.op()

    mc.run("pivot", list(pivots()), run_pivot)

    # ------------------------------------------------ transpose, imatrix, as_matrix, add_matrix, apply, arithmetic
    def shapes():
        for n in (1, 2, 3):
            for nc in (1, 2, 3):
                for dt in ("int32", "float64", "mix", "bool"):
                    for nl in (0, 1, 2):
                        for extra in (0, 1, 2):
                            yield n, nc, dt, nl, extra

    def run_shape(case):
        n, nc, dt, nl, extra = case
        def val(j, i):
            if dt == "bool":
                return (i + j) % 2 == 0
            # (integer arithmetic and 2d reductions take integer invalids as numbers, so only float columns have missing values)
            return None if (i + 2 * j) % 5 == 3 and (dt == "float64" or dt == "mix" and j % 3 == 1) else (i * 7 + j * 3) % 11
        V = [[val(j, i) for i in range(n)] for j in range(nc)]
        def build():
            d = {}
            if nl > 0:
                d["L"] = key("S", range(n))
            if nl > 1:
                d["M"] = key("cat", [(2 - i) for i in range(n)])
            for j in range(nc):
                d[f"v{j}"] = arr(V[j], ("int32", "float64", "int16")[j % 3] if dt == "mix" else dt)
                if extra == 1 and j == 0:
                    d["txt"] = key("U", range(n))
            if extra == 2:
                d["cc"] = key("cat", range(n))
            ds = rt.Dataset(d)
            if nl:
                ds.label_set_names(["L", "M"][:nl])
            return ds
        ds = build()
        names = [f"v{j}" for j in range(nc)]
        fl = lambda x: None if x is None else float(x)
        # transpose
        t = ds.transpose()
        cn = [f"C{i}" for i in range(n)]
        if nl:
            cn = [lab("S", i) for i in range(n)]
        if nl > 1:
            cn = [f"{a}_{lab('cat', 2 - i)}" for i, a in enumerate(cn)]
        mc.eq(list(t.keys()), ["Col"] + cn, "transpose columns")
        mc.eq(vals(t["Col"]), names, "transpose row names")
        for i, c in enumerate(cn):
            mc.eq([fl(x) for x in vals(t[c])], [fl(V[j][i]) for j in range(nc)], "transpose cells", i=i)
        sub = names[::-1][: max(1, nc - 1)]
        t = ds.transpose(colnames=sub, headername="H")
        mc.eq(vals(t["H"]), sub, "transpose(colnames)")
        for i, c in enumerate(cn):
            mc.eq([fl(x) for x in vals(t[c])], [fl(V[int(s[1:])][i]) for s in sub], "transpose(colnames) cells")
        mc.eq(dsvals(ds), dsvals(build()), "transpose leaves the Dataset")
        # imatrix
        for order in "FC":
            im, nm = ds.imatrix_make(inplace=False, order=order, retnames=True)
            mc.eq(nm, names, "imatrix names")
            mc.eq([[fl(scalar(x)) for x in r] for r in (np.asarray(im) if order == "F" else np.asarray(im).T)], [[fl(V[j][i]) for j in range(nc)] for i in range(n)], "imatrix cells", order=order)
        mc.eq(dsvals(ds), dsvals(build()), "imatrix_make(inplace=False) leaves the Dataset")
        d2 = build()
        im = d2.imatrix_make()
        mc.eq({k: [fl(x) for x in v] if k in names else v for k, v in dsvals(d2).items()}, {k: [fl(x) for x in v] if k in names else v for k, v in dsvals(ds).items()}, "imatrix_make keeps values")
        if dt != "bool":
            d2.imatrix_y(np.nansum)
            mc.eq(list(d2.keys()), list(ds.keys()) + ["Nansum"], "imatrix_y column")
            mc.eq([fl(x) for x in vals(d2["Nansum"])], [fl(sum(V[j][i] or 0 for j in range(nc))) for i in range(n)], "imatrix_y values")
            d2.imatrix_y([np.nanmin, np.nanmax], name=["lo", "hi"])
            for nm, f in (("lo", min), ("hi", max)):
                mc.eq([fl(x) for x in vals(d2[nm])], [fl(f([V[j][i] for j in range(nc) if V[j][i] is not None], default=None)) for i in range(n)], f"imatrix_y {nm}")
            if all(x is not None for v in V for x in v):
                d3 = build().imatrix_totals()
                mc.eq([fl(x) for x in vals(d3["Sum"])], [float(sum(V[j][i] for j in range(nc))) for i in range(n)], "imatrix_totals rows")
                ft = d3.footer_get_dict()["Sum"]
                mc.eq([fl(ft[k]) for k in names + ["Sum"]], [float(sum(v)) for v in V] + [float(sum(map(sum, V)))], "imatrix_totals footer")
        # as_matrix
        m, info = ds.as_matrix()
        mc.eq(m.shape, (n, len(ds.keys())), "as_matrix shape")
        for j, k in enumerate(ds.keys()):
            if k in names:
                if dt != "bool":
                    mc.eq([fl(scalar(x)) for x in m[:, j]], [fl(x) for x in V[int(k[1:])]], "as_matrix column", k=k)
            elif k in ("L", "txt"):
                cv = vals(info[k]["category_values"])
                mc.eq([cv[int(x)] for x in m[:, j]], vals(ds[k]), "as_matrix string column", k=k)
        # add_matrix
        d4 = build()
        M = np.arange(n * 3).reshape(n, 3)
        d4.add_matrix(M, names=["x", "y", "z"])
        mc.eq({k: vals(d4[k]) for k in "xyz"}, {k: M[:, i].tolist() for i, k in enumerate("xyz")}, "add_matrix")
        mc.eq(list(d4.keys()), list(ds.keys()) + ["x", "y", "z"], "add_matrix columns")
        d5 = rt.Dataset({})
        d5.add_matrix(M.T.copy().T)
        mc.eq(dsvals(d5), {f"col_{i}": M[:, i].tolist() for i in range(3)}, "add_matrix default names")
        # Dataset-wide arithmetic: numeric columns only, labels and text untouched
        if dt != "bool":
            for op in (operator.add, operator.sub, operator.mul, operator.truediv, operator.floordiv):
                for w in (2, 0.5, np.arange(1, n + 1), rt.FastArray(np.arange(1, n + 1)), list(range(1, n + 1))):
                    if op is operator.floordiv and not isinstance(w, int):
                        continue
                    g = op(ds, w)
                    mc.eq(list(g.keys()), list(ds.keys()), "Dataset arithmetic columns")
                    for k in ds.keys():
                        ww = [w] * n if np.isscalar(w) else [int(x) for x in w]
                        if k in names:
                            want = [None if x is None else float(op(x, y)) for x, y in zip(V[int(k[1:])], ww)]
                            mc.eq([fl(x) for x in vals(g[k])], want, f"Dataset {op.__name__}", k=k, w=repr(w))
                        else:
                            mc.eq(vals(g[k]), vals(ds[k]), "Dataset arithmetic leaves other columns", k=k)
                    if op in (operator.add, operator.mul):
                        g2 = op(2, ds) if not isinstance(w, (np.ndarray, list)) else g
                        if g2 is not g and w == 2:
                            mc.eq(dsvals(g2), dsvals(g), "reflected Dataset arithmetic")
            other = rt.Dataset({k: arr([3] * n, "int32") for k in reversed(names)})
            g = ds + other
            for k in ds.keys():
                mc.eq([fl(x) for x in vals(g[k])] if k in names else vals(g[k]), [None if x is None else x + 3.0 for x in V[int(k[1:])]] if k in names else vals(ds[k]), "Dataset + Dataset by column name", k=k)
            g = ds + {names[0]: 5} if False else ds + rt.Struct({names[0]: 5})
            for k in ds.keys():
                mc.eq([fl(x) for x in vals(g[k])] if k in names else vals(g[k]), [None if x is None else x + (5.0 if k == names[0] else 0) for x in V[int(k[1:])]] if k in names else vals(ds[k]), "Dataset + Struct by column name", k=k)
            for tgt in ("float64", "float32", "int64"):
                g = ds.astype(tgt)
                for k in ds.keys():
                    mc.eq([fl(x) for x in vals(g[k])] if k in names else vals(g[k]), [fl(x) for x in V[int(k[1:])]] if k in names else vals(ds[k]), "Dataset.astype", k=k, t=tgt)
                    if k in names:
                        mc.eq(str(g[k].dtype), tgt, "Dataset.astype dtype")
            for cmpop in (operator.gt, operator.eq, operator.ne, operator.le):
                d7 = rt.Dataset({k: arr([3] * n, "int32") for k in names})
                g = cmpop(ds[names], d7)
                for k in names:
                    mc.eq(vals(g[k]), [(cmpop is operator.ne) if x is None else cmpop(x, 3) for x in V[int(k[1:])]], "Dataset comparison", k=k, op=cmpop.__name__)
            g = ds.apply_cols(lambda c: c * 2)
            for k in ds.keys():
                mc.eq([fl(x) for x in vals(g[k])] if k in names else vals(g[k]), [None if x is None else x * 2.0 for x in V[int(k[1:])]] if k in names else vals(ds[k]), "apply_cols", k=k)
            d6 = build()
            d6 += 1
            for k in ds.keys():
                mc.eq([fl(x) for x in vals(d6[k])] if k in names else vals(d6[k]), [None if x is None else x + 1.0 for x in V[int(k[1:])]] if k in names else vals(ds[k]), "Dataset +=", k=k)
            mc.eq(dsvals(ds), dsvals(build()), "arithmetic leaves the Dataset")
        # per-row iteration
        if nl == 0:
            lt = [list(r) for r in ds.asrows("tuple")]
            mc.eq([[scalar(x) if not isinstance(x, (bytes, str)) else plain(x) for x in r] for r in lt], [[V[int(k[1:])][i] if k in names else vals(ds[k])[i] for k in ds.keys()] for i in range(n)], "asrows")
        mc.op(10)

    mc.run("shape", list(shapes()), run_shape)

    # ------------------------------------------------ drop_duplicates / duplicated
    def dups():
        for n in range(0, 5 if not T else 6):
            for a in canon(n, 3):
                for b in itertools.product(range(2), repeat=n):
                    yield tuple(a), b

    def run_dups(case):
        a, b = case
        n = len(a)
        for ka, kb in [("S", "i32"), ("f64", "S"), ("cat", "U"), ("i64", "u8"), ("Date", "i32")]:
            extra = [100 + i for i in range(n)]
            tx = [f"t{i}" for i in range(n)]
            def build():
                return rt.Dataset({"x": arr(extra, "int32") if n else rt.FastArray(np.array([], "int32")), "a": key(ka, a), "b": key(kb, b), "t": rt.FastArray(np.array(tx, "U3"), unicode=True),
                                   "q": rt.Categorical(np.array([["p", "r"][i % 2] for i in range(n)], "U1")) if n else rt.Categorical(np.array([], "U1"))})
            names = ["x", "a", "b", "t", "q"]
            base = [(extra[i], lab(ka, a[i]), lab(kb, b[i]), tx[i], ["p", "r"][i % 2]) for i in range(n)]
            for sub, kf in (("a", lambda i: a[i]), (["b"], lambda i: b[i]), (["a", "b"], lambda i: (a[i], b[i])), (None, lambda i: i)):
                grp = {}
                for i in range(n):
                    grp.setdefault(kf(i), []).append(i)
                for keep in ("first", "last", False):
                    keepers = [g[0] if keep == "first" else g[-1] if keep == "last" else g[0] for g in grp.values() if keep is not False or len(g) == 1]
                    ds = build()
                    ctx = dict(ka=ka, kb=kb, sub=sub, keep=keep)
                    if n:
                        mc.eq(vals(ds.duplicated(sub, keep=keep)), [i not in keepers for i in range(n)], "duplicated", **ctx)
                    r = ds.drop_duplicates(sub, keep=keep)
                    mc.eq(sorted(r.keys()), sorted(names), "drop_duplicates columns", **ctx)
                    if list(sorted(r.keys())) == sorted(names):
                        srt = sorted if ka == "cat" and sub == "a" else list  # a Categorical's groups come in category order
                        mc.eq(srt(rows(r, names)), srt(base[i] for i in keepers), "drop_duplicates rows", **ctx)
                    mc.eq(r.label_get_names(), [], "drop_duplicates labels", **ctx)
                    mc.eq(rows(ds, names), base, "drop_duplicates leaves the Dataset", **ctx)
                    r = ds.drop_duplicates(sub, keep=keep, inplace=True)
                    mc.eq(srt(rows(ds, names)), srt(base[i] for i in keepers), "drop_duplicates in place", **ctx)
                    mc.eq(ds.get_nrows(), len(keepers), "drop_duplicates in place row count", **ctx)
                    mc.eq(r is ds, True, "drop_duplicates in place returns the Dataset", **ctx)
                    mc.op(3)

    mc.run("duplicates", list(dups()), run_dups)

    # ------------------------------------------------ equals
    EQ = {"f8": ([1.0, 2.0, None], lambda l: rt.FastArray(np.array([np.nan if x is None else x for x in l], "float64"))),
          "i4": ([1, 2, None], lambda l: rt.FastArray(np.array([-(1 << 31) if x is None else x for x in l], "int32"))),
          "S": (["a", "b"], lambda l: rt.FastArray(np.array([x.encode() for x in l], "S1"))),
          "dtn": ([1, 2, None], lambda l: rt.DateTimeNano(np.array([-(1 << 63) if x is None else x * 10**18 for x in l]), from_tz="GMT", to_tz="GMT")),
          "cat": (["a", "b"], lambda l: rt.Categorical(l))}

    def equals_cases():
        for k in EQ:
            al = EQ[k][0]
            for n in (1, 2):
                for a in itertools.product(al, repeat=n):
                    for b in itertools.product(al, repeat=n):
                        for second in range(3):
                            yield k, a, b, second

    def run_equals(case):
        k, a, b, second = case
        mk = EQ[k][1]
        n = len(a)
        def build(v, order):
            d = {"x": mk(list(v))}
            if second:
                w = list(range(n)) if order == 0 or second == 1 else [j + (j == n - 1) for j in range(n)]
                d["y"] = rt.FastArray(np.array(w, "float64"))
            return rt.Dataset(d)
        p, q = build(a, 0), build(b, 1)
        cx = [x == y for x, y in zip(a, b)]
        w = {"x": cx}
        if second:
            w["y"] = [second == 1 or j != n - 1 for j in range(n)]
        al = all(all(v) for v in w.values())
        mc.eq(bool(p.equals(q)), al, "equals", k=k)
        mc.eq(bool(p.equals(q, exact=True)), al, "equals exact", k=k)
        r0, r1 = p.equals(q, axis=0), p.equals(q, axis=1)
        mc.eq({c: bool(r0[c][0]) for c in r0}, {c: all(v) for c, v in w.items()}, "equals axis=0", k=k)
        mc.eq({c: vals(r1[c]) for c in r1}, w, "equals axis=1", k=k)
        mc.eq(np.asarray(p.equals(q, axis=0, exact=True)).tolist(), [all(v) for v in w.values()], "equals axis=0 exact", k=k)
        mc.eq(np.asarray(p.equals(q, axis=1, exact=True)).tolist(), [list(t) for t in zip(*w.values())], "equals axis=1 exact", k=k)
        mc.op(6)
        # a Dataset of another shape or with other columns is never equal
        more = rt.Dataset({"x": mk(list(a) + [a[0]])}) if not second else rt.Dataset({"x": mk(list(a))})
        for ex in (False, True):
            mc.eq(bool(p.equals(more, exact=ex)), False, "equals of different shapes", k=k, exact=ex, second=second)
            mc.eq(bool(more.equals(p, exact=ex)), False, "equals of different shapes", k=k, exact=ex, second=second)
        ren = p.copy()
        ren.col_rename("x", "z")
        mc.eq(bool(p.equals(ren)), False, "equals with another column name", k=k)
        if second:
            mc.eq(bool(p.equals(q[["y", "x"]])), al, "equals ignores column order", k=k)
        mc.op(6)

    mc.run("equals", list(equals_cases()), run_equals)

    # ------------------------------------------------ trim / keep / all / any / outliers
    def trims():
        for n in (1, 2, 3):
            for v in itertools.product((None, 0, 2), repeat=n):
                for w in itertools.product((None, 0, 2), repeat=n) if n < 3 or T else [(None, 0, 2), (0, 0, 0), (None, None, None), (2, None, 0), (2, 2, 2), (0, 2, None)]:
                    yield v, w

    def run_trim(case):
        v, w = case
        n = len(v)
        for dt in ("float64", "int32"):
            ds = rt.Dataset({"k": key("S", range(n)), "v": arr(v, dt), "w": arr(w, dt)})
            C = {"v": v, "w": w}
            for zeros, nans in ((True, True), (True, False), (False, True)):
                bad = lambda x: (zeros and x == 0 and x is not None) or (nans and x is None)
                for cl, rw in itertools.product((True, False), repeat=2):
                    r = ds.trim(zeros=zeros, nans=nans, columns=cl, rows=rw)
                    kc = [c for c in "vw" if not cl or not all(bad(x) for x in C[c])]
                    kr = [i for i in range(n) if not rw or not kc or not all(bad(C[c][i]) for c in kc)]
                    mc.eq(dsvals(r), {"k": [lab("S", i) for i in kr], **{c: [C[c][i] for i in kr] for c in kc}}, "trim", dt=dt, z=zeros, na=nans, cl=cl, rw=rw)
                    mc.op()
            r = ds.keep(lambda a: a == 2)
            kc = [c for c in "vw" if any(x == 2 for x in C[c])]
            kr = [i for i in range(n) if not kc or any(C[c][i] == 2 for c in kc)]
            mc.eq(dsvals(r), {"k": [lab("S", i) for i in kr], **{c: [C[c][i] for i in kr] for c in kc}}, "keep", dt=dt)
            d = rt.Dataset({"v": arr(v, dt), "w": arr(w, dt)})
            if None not in v and None not in w:
                mc.eq(vals(d.all(axis=1)), [bool(x and y) for x, y in zip(v, w)], "all(axis=1)", dt=dt)
                mc.eq(vals(d.any(axis=1)), [bool(x or y) for x, y in zip(v, w)], "any(axis=1)", dt=dt)
                mc.eq(dsvals(d.all()), {"v": [all(v)], "w": [all(w)]}, "all()", dt=dt)
                mc.eq(dsvals(d.any()), {"v": [any(v)], "w": [any(w)]}, "any()", dt=dt)
                mc.eq((bool(d.all(axis=None)), bool(d.any(axis=None))), (all(v) and all(w), any(v) or any(w)), "all/any(axis=None)", dt=dt)
            if all(any(x is not None for x in c) for c in (v, w)):
                o = ds.outliers("k")
                for nm, f in (("Min", min), ("Max", max)):
                    q = o[nm]
                    for j, c in enumerate("vw"):
                        best = f(x for x in C[c] if x is not None)
                        p = C[c].index(best)
                        mc.eq((vals(q["Names"])[j], vals(q["Values"])[j], vals(q["k"])[j], vals(q["Pos"])[j]), (c, best, lab("S", p), p), "outliers", nm=nm, dt=dt)

    mc.run("trim", list(trims()), run_trim)

    # ------------------------------------------------ one_hot, cat2keys, jagged rows
    def run_onehot(case):
        a, n = case, len(case)
        for kind in ("S", "U", "i32"):
            labs = [lab(kind, i) for i in a]
            # 0 = filtered
            for m in itertools.product((True, False), repeat=n):
                c = rt.Categorical(key(kind, a), filter=rt.FastArray(np.array(m, bool)))
                for dt in (None, "int8", "bool", "float64"):
                    names, hot = c.one_hot_encode(dtype=dt)
                    mc.eq(vals(names), [str(x) for x in sorted({l for l, x in zip(labs, m) if x})], "one_hot labels")
                    for nm, h in zip(vals(names), hot):
                        mc.eq([bool(x) for x in vals(h)], [x and str(l) == nm for l, x in zip(labs, m)], "one_hot column")
                        mc.eq(str(h.dtype), dt or "float32", "one_hot dtype")
                mc.op()
        ds = rt.Dataset({"c": rt.Categorical(key("S", a)), "v": arr(range(n), "int32")})
        ds.one_hot_encode()
        want = {"v": list(range(n))}
        for l in sorted({lab("S", i) for i in a}):
            want[f"c__{l}"] = [int(lab("S", i) == l) for i in a]
        mc.eq({k: [int(x) for x in v] for k, v in dsvals(ds).items() if k in want}, want, "Dataset.one_hot_encode")
        mc.eq(sorted(ds.keys()), sorted(want), "Dataset.one_hot_encode columns")

    mc.run("one_hot", [c for n in (1, 2, 3) for c in itertools.product(range(3), repeat=n)], run_onehot)

    def run_c2k(case):
        a, b = case
        n = len(a)
        for ka, kb in (("S", "i32"), ("U", "S"), ("i64", "f64")):
            la, lb = [lab(ka, i) for i in a], [lab(kb, i) for i in b]
            for o in (True, False):
                c = rt.cat2keys(key(ka, a), key(kb, b), ordered=o)
                exp = [vals(x) for x in c.expand_array] if False else None
                d = c.category_dict
                cd = [vals(x) for x in d.values()]
                cs = [int(x) for x in np.asarray(c._fa)]
                mc.eq([(cd[0][k - 1], cd[1][k - 1]) for k in cs], list(zip(la, lb)), "cat2keys row keys", o=o)
                ra, rb = list(dict.fromkeys(la)), list(dict.fromkeys(lb))
                if o:
                    ra.sort(), rb.sort()
                mc.eq(list(zip(*cd)), [(x, y) for y in rb for x in ra], "cat2keys full matrix", o=o)
                v = arr([10 * (i + 1) for i in range(n)], "float64")
                s = c.nansum(v)
                got = vals(s[[k for k in s.keys() if k not in s.label_get_names()][0]])
                mc.eq(got, [float(sum(10 * (i + 1) for i in range(n) if (la[i], lb[i]) == (x, y))) for y in rb for x in ra], "cat2keys sums", o=o)
                # filtered keys: every row keeps its pair
            for m in itertools.product((True, False), repeat=n):
                if all(m) or not any(m):
                    continue
                f = rt.FastArray(np.array(m, bool))
                c = rt.cat2keys(rt.Categorical(key(ka, a), filter=f), key(kb, b), invalid=True)
                cd = [vals(x) for x in c.category_dict.values()]
                cs = [int(x) for x in np.asarray(c._fa)]
                for i in range(n):
                    if m[i]:
                        mc.eq((str(cd[0][cs[i] - 1]), str(cd[1][cs[i] - 1])), (str(la[i]), str(lb[i])), "cat2keys with filtered keys", i=i, m=m)
            mc.op(2)

    mc.run("cat2keys", [(a, b) for n in (1, 2, 3) for a in itertools.product(range(2 if n > 2 else 3), repeat=n) for b in itertools.product(range(2 if n > 2 else 3), repeat=n)], run_c2k)

    def run_jag(case):
        lens, kind = case
        R = [[f"{chr(97 + i)}{j}" * (1 + (i + j) % 2) for j in range(k)] for i, k in enumerate(lens)]
        def mk(l):
            if kind == "S":
                return rt.FastArray(np.array([x.encode() for x in l], "S4"))
            if kind == "U":
                return rt.FastArray(np.array(l, "U4"), unicode=True)
            return list(l)
        if kind == "list" and 0 in lens:
            return
        for fv in (None, "zz", b"zz", "longer-than-any"):
            ds = rt.Dataset.from_jagged_rows([mk(l) for l in R], fill_value=fv)
            w = max(lens)
            fill = "" if fv is None else (fv.decode() if isinstance(fv, bytes) else fv)
            mc.eq(dsvals(ds), {f"C{j}": [r[j] if j < len(r) else fill for r in R] for j in range(w)}, "from_jagged_rows", fv=repr(fv))
        nums = [[10 * i + j for j in range(k)] for i, k in enumerate(lens)]
        if all(lens):
            d = {"id": [100 + i for i in range(len(lens))], "v": nums, "u": [[-x for x in l[:1]] for l in nums]}
            ds = rt.Dataset.from_jagged_dict(d, stacked=True)
            want = [(100 + i, x, -l[0]) for i, l in enumerate(nums) for x in l]
            mc.eq(rows(ds, ["id", "v", "u"]), want, "from_jagged_dict stacked")
            d = {"id": [100 + i for i in range(len(lens))], "v": nums, "u": [[7, 8]] * len(lens)}
            ds = rt.Dataset.from_jagged_dict(d, stacked=True)
            mc.eq(sorted(rows(ds, ["id", "v", "u"])), sorted((100 + i, x, y) for i, l in enumerate(nums) for x in l for y in (7, 8)), "from_jagged_dict stacked product")
        mc.op(2)

    mc.run("jagged", [(l, k) for n in (1, 2, 3) for l in itertools.product(range(4), repeat=n) if max(l) for k in ("S", "U", "list")], run_jag)
