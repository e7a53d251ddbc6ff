"""C02 Row and column selection and assignment address exactly the chosen cells."""
import itertools, warnings
import numpy as np
import riptable as rt
from ..model import *

PROPERTY = "C02"
DAY = 86400 * 10**9


def explore(mc):
    T = mc.thorough
    warnings.simplefilter("ignore")
    FA = rt.FastArray

    # ------------------------------------------------------------------ column alphabet: name -> (array of n rows, values)
    S4 = ["b", "", "a", "bb"]

    def col(kind_, n):
        i = list(range(n))
        if kind_ in INTS:
            v = [[3, None, 1, 7][k] for k in i]
            return arr(v, kind_), v
        if kind_ in FLTS:
            v = [[0.5, -2.0, None, 4.25][k] for k in i]
            return arr(v, kind_), v
        if kind_ == "bool":
            v = [[True, False, True, True][k] for k in i]
            return FA(np.array(v, dtype=bool)), v
        if kind_ == "S":
            return FA(np.array(S4[:n], dtype="S3")), S4[:n]
        if kind_ == "U":
            v = ["\u00e9", "", "a", "zz"][:n]
            return FA(np.array(v, dtype="U3"), unicode=True), v
        if kind_ == "cat":
            return rt.Categorical(FA(np.array(S4[:n], dtype="S3"))), S4[:n]
        if kind_ == "catf":
            v = [["u", None, "w", "u"][k] for k in i]
            return rt.Categorical(FA(np.array([1, 0, 2, 1][:n], dtype="int8")), FA(["u", "w"])), v
        if kind_ == "cat0":
            v = ["w", "u", "u", "w"][:n]
            return rt.Categorical(FA(np.array([1, 0, 0, 1][:n], dtype="int8")), FA(["u", "w"]), base_index=0), v
        if kind_ == "catnum":
            v = [30, 10, 30, 20][:n]
            return rt.Categorical(FA(np.array(v, dtype="int64"))), v
        if kind_ == "cat2":
            a, b = ["x", "y", "x", "y"][:n], [1, 2, 1, 1][:n]
            return rt.Categorical([FA(np.array(a, dtype="S1")), FA(np.array(b, dtype="int32"))]), list(zip(a, b))
        if kind_ == "catmap":
            v = ["lo", "hi", "hi", "lo"][:n]
            return rt.Categorical(FA(np.array([5, 9, 9, 5][:n], dtype="int32")), {5: "lo", 9: "hi"}), v
        if kind_ == "dtn":
            v = [[DAY, None, 3 * DAY + 5, 2 * DAY][k] for k in i]
            return rt.DateTimeNano(np.array([0 if x is None else x for x in v], dtype="int64"), from_tz="GMT", to_tz="GMT"), v
        if kind_ == "date":
            v = [[10, 20, None, 15][k] for k in i]
            return rt.Date(np.array([0 if x is None else x for x in v], dtype="int32")), v
        if kind_ == "span":
            v = [[7.0, None, 2.0, 5.0][k] for k in i]
            return rt.TimeSpan(np.array([np.nan if x is None else x for x in v])), v
        if kind_ == "dspan":
            v = [[7, 1, 2, 5][k] for k in i]
            return rt.DateSpan(np.array(v, dtype="int32")), v

    KINDS = ["int32", "uint8", "int64", "float64", "float32", "bool", "S", "U", "cat", "catf", "cat0", "catnum", "cat2", "catmap", "dtn", "date", "span", "dspan"]
    if T:
        KINDS += ["int8", "int16", "uint16", "uint32", "uint64"]

    def sc(kind_, x):
        """one element as read by [int]"""
        kind_ = kind_.rstrip("_")
        if kind_.startswith("cat"):
            if isinstance(x, tuple):
                return tuple(scalar(q) for q in x)
            if isinstance(x, (str, bytes)) and scalar(x) == "Filtered":
                return None
            return scalar(x)
        v = scalar(x)
        if kind_ in ("dtn", "date") and v == 0:
            return None
        return v

    MISS = {"bool": False, "S": "", "U": ""}

    def missing(kind_):
        return MISS.get(kind_, None)

    # ------------------------------------------------------------------ row indexers: (riptable indexer, list of rows; row None = missing)
    def row_indexers(n, level):
        out = [(k, [k]) for k in range(-n, n)]
        b = [None] + list(range(-n - 1, n + 2))
        for s in itertools.product(b, b, (None, 2, -1) if level > 1 else (None, -1)):
            if level < 2 and s[0] is not None and s[1] is not None and (abs(s[0]) + abs(s[1])) % 2:
                continue
            out.append((slice(*s), list(range(n))[slice(*s)]))
        for m in masks(n):
            rows = [i for i in range(n) if m[i]]
            out.append((FA(np.array(m, dtype=bool)), rows))
            if level > 1:
                out.append((np.array(m, dtype=bool), rows))
                if n:
                    out.append((list(m), rows))
        for L in (0, 1, 2, 3) if level > 1 else (0, 1, 2):
            for f in itertools.product(range(-n, n), repeat=L):
                if L == 3 and (f[0] > f[2] or f[1] < 0):
                    continue
                rows = [i % n if n else i for i in f]
                out.append((FA(np.array(f, dtype="int32")), rows))
                if level > 1 and L:
                    out.append((np.array(f, dtype="int64"), rows))
                    out.append((list(f), rows))
                    if min(f) >= 0:
                        out.append((FA(np.array(f, dtype="uint8")), rows))
        return out

    def desc(ix):
        return f"[{ix!r}]" if not isinstance(ix, np.ndarray) else f"[{type(ix).__name__} {ix.dtype} {ix.tolist()}]"

    # ------------------------------------------------------------------ 1. reading one column by rows
    def sp1():
        for k in KINDS:
            for n in (0, 1, 2, 3, 4):
                if k in ("cat2",) and n == 0:
                    continue
                yield k, n

    def rd1(case):
        k, n = case
        a, v = col(k, n)
        mc.eq(vals(a), v, "column as built")
        for ix, rows in row_indexers(n, 2):
            w = "a" + desc(ix)
            if isinstance(ix, int):
                mc.eq(sc(k, a[ix]), v[rows[0]], w)
                continue
            r = a[ix]
            if not mc.eq(vals(r), [v[i] for i in rows], w):
                continue
            mc.eq(type(r) is type(a) and r.dtype == a.dtype, True, w + " type")
        for bad in (n, n + 3, -n - 1):
            mc.raises(lambda: a[bad], f"a[{bad}]", IndexError)
        if n and k in KINDS and not k.startswith("cat"):
            # out of range fancy rows read as missing, and never as another row
            for bad in (n, n + 5, -n - 1, -2147483648):
                ix = FA(np.array([0, bad], dtype="int32"))
                try:
                    r = vals(a[ix])
                except IndexError:
                    mc.op()
                    continue
                mc.eq(r, [v[0], missing(k)], "a" + desc(ix))
        if n > 1:
            for bm in ([True] * (n - 1), [True] * (n + 1)):
                try:
                    r = vals(a[FA(bm)])
                except (IndexError, ValueError):
                    mc.op()
                else:
                    mc.soft(f"mask of length {len(bm)} accepted for {n} rows", got=r)
        # views: reversed and strided sources
        for sl in (slice(None, None, -1), slice(None, None, 2), slice(1, None)):
            b, u = a[sl], v[sl]
            m = len(u)
            for ix, rows in row_indexers(m, 1):
                w = f"a[{sl.start}:{sl.stop}:{sl.step}]" + desc(ix)
                r = b[ix]
                mc.eq(sc(k, r) if isinstance(ix, int) else vals(r), u[rows[0]] if isinstance(ix, int) else [u[i] for i in rows], w)
            for j, mk in enumerate(masks(m)):
                if m and j % 2:
                    big = np.zeros(2 * m, dtype=bool)
                    big[::2] = mk
                    mc.eq(vals(b[FA(big)[::2]]), [u[i] for i in range(m) if mk[i]], f"strided mask {mk}")
                    mc.eq(vals(b[FA(np.array(mk[::-1], dtype=bool))[::-1]]), [u[i] for i in range(m) if mk[i]], f"reversed mask {mk}")

    mc.run("reading a column", sp1(), rd1)

    # ------------------------------------------------------------------ 2. reading a Dataset by rows and columns
    def mk(n, kinds):
        d, m = {}, {}
        for k in kinds:
            d[k], m[k] = col(k.rstrip("_"), n)
        return rt.Dataset(d), m

    SETS_ = [("int32", "S", "cat"), ("dtn", "catf", "float64"), ("cat2", "U", "date"), ("catmap", "bool", "span"), ("cat0", "uint8", "catnum")]
    SETS = [tuple(k + "_" for k in s) for s in SETS_]

    def col_indexers(names):
        n = len(names)
        out = [(c, c) for c in names] + [(c.encode(), c) for c in names] + [(i, names[i]) for i in range(-n, n)]
        for L in (1, 2, 3):
            for p in itertools.permutations(names, L):
                out.append((list(p), list(p)))
                out.append((np.array(p), list(p)))
                if L == 2:
                    out.append(([x.encode() for x in p], list(p)))
                    out.append((FA(np.array(p, dtype="S9")), list(p)))
        for m in masks(n):
            if any(m):
                out.append((np.array(m), [c for c, k in zip(names, m) if k]))
                out.append((list(m), [c for c, k in zip(names, m) if k]))
        for f in itertools.permutations(range(-n, n), 2):
            if names[f[0]] != names[f[1]]:
                out.append((list(f), [names[i] for i in f]))
                out.append((np.array(f), [names[i] for i in f]))
        for s in itertools.product([None, 0, 1, -1, n], [None, 0, 1, -1, n], (None, -1)):
            sel = names[slice(*s)]
            if sel:
                out.append((slice(*s), sel))
        return out

    def sp2():
        for s in range(len(SETS)):
            for n in (0, 1, 3) if not T else (0, 1, 2, 3, 4):
                if "cat2_" in SETS[s] and n == 0:
                    continue
                for lab in (False, True):
                    yield s, n, lab

    def same_ds(r, m, cols, rows, lab, w):
        mc.eq(list(r.keys()), list(cols), w + " columns")
        mc.eq([vals(r[c]) for c in cols], [[m[c][i] for i in rows] for c in cols], w + " values")
        mc.eq(tuple(r.shape), (len(rows), len(cols)), w + " shape")
        mc.eq(r.label_get_names(), [c for c in lab if c in cols], w + " labels")

    def rd2(case):
        s, n, lab = case
        names = list(SETS[s])
        ds, m = mk(n, names)
        labs = [names[1], names[0]] if lab else []
        if labs:
            ds.label_set_names(list(labs))
        rix = row_indexers(n, 1)
        cix = col_indexers(names)
        for cx, cols in cix:
            w = f"ds[{cx!r}]"
            r = ds[cx]
            if isinstance(cols, str):
                mc.eq(vals(r), m[cols], w)
            else:
                same_ds(r, m, cols, range(n), labs, w)
        # every row indexer with a few column indexers, every column indexer with a few row indexers
        few_c = [c for c in cix if (isinstance(c[0], (int, slice)) and c[0] in (0, slice(None))) or (isinstance(c[0], list) and c[1] == names[::-1])] + [(names[1], names[1]), ([names[2]], [names[2]])]
        few_r = [r for r in rix if isinstance(r[0], int)][:2] + [r for r in rix if isinstance(r[0], slice)][1:40:13] + [r for r in rix if isinstance(r[0], np.ndarray)][1:40:7]
        for rr, cc in itertools.chain(itertools.product(rix, few_c), itertools.product(few_r, cix)):
            (ix, rows), (cx, cols) = rr, cc
            w = f"ds[{desc(ix)}, {cx!r}]"
            r = ds[ix, cx]
            if isinstance(cols, str):
                mc.eq(sc(cols, r) if isinstance(ix, int) else vals(r), m[cols][rows[0]] if isinstance(ix, int) else [m[cols][i] for i in rows], w)
            else:
                same_ds(r, m, cols, [i % n for i in rows] if isinstance(ix, int) else rows, labs, w)
        for ix, rows in rix:
            if isinstance(ix, np.ndarray):
                same_ds(ds.filter(ix), m, names, rows, labs, "filter" + desc(ix))
                d2, m2 = mk(n, names)
                d2.label_set_names(list(labs))
                d2.filter(ix, inplace=True)
                same_ds(d2, m, names, rows, labs, "filter inplace" + desc(ix))
        for k in range(0, n + 3):
            same_ds(ds.head(k), m, names, range(min(k, n)), labs, f"head({k})")
            same_ds(ds.tail(k), m, names, range(n - min(k, n), n), labs, f"tail({k})")
        # unknown names, out of range and malformed indexers are refused
        for badix in ("nope", ["nope"], [names[0], "nope"], 9, -9, (0, "nope") if n else "nope", (0, 1, 2), None, [0.5], (n + 2, names[0])):
            mc.raises(lambda: ds[badix], f"ds[{badix!r}]", (IndexError, KeyError, TypeError, ValueError))
        # iteration by row
        it = [(i, [sc(c, st[c]) for c in names]) for i, st in ds.iterrows()]
        mc.eq(it, [(i, [m[c][i] for c in names]) for i in range(n)], "iterrows")
        for t in ("Dataset", "Struct", "dict", "namedtuple", "tuple", "list", "iter"):
            got = []
            for r in ds.asrows(as_type=t):
                if t == "Dataset":
                    got.append([vals(r[c])[0] for c in names])
                elif t in ("Struct", "dict"):
                    got.append([sc(c, r[c]) for c in names])
                else:
                    got.append([sc(c, x) for c, x in zip(names, r)])
            mc.eq(got, [[m[c][i] for c in names] for i in range(n)], f"asrows({t})")
        mc.eq([[sc(c, x) for c, x in zip(names, r)] for r in ds.tolist()], [[m[c][i] for c in names] for i in range(n)], "tolist")
        # sample returns distinct rows of the Dataset, in row order, N of them
        if n:
            ds["rowid"] = np.arange(n)
            for N in range(1, n + 1):
                for flt in [None] + [FA(np.array(q)) for q in masks(n) if any(q)]:
                    r = ds.sample(N, filter=flt, seed=7)
                    ids = vals(r.rowid)
                    allow = [i for i in range(n) if flt is None or flt[i]]
                    mc.eq((len(ids), sorted(set(ids)) == sorted(ids), set(ids) <= set(allow)), (min(N, len(allow)), True, True), f"sample({N})", ids=ids)
                    mc.eq([vals(r[c]) for c in names], [[m[c][i] for i in ids] for c in names], f"sample({N}) rows")

    mc.run("reading a dataset", sp2(), rd2)

    # ------------------------------------------------------------------ 3. label row indexing
    def sp3():
        for L in itertools.product("abc", repeat=3):
            for form in ("S", "U", "cat"):
                yield L, form

    def rd3(case):
        L, form = case
        lab = FA(np.array(L, dtype="S1")) if form == "S" else FA(np.array(L), unicode=True) if form == "U" else rt.Categorical(FA(np.array(L, dtype="S1")))
        ds = rt.Dataset({"k": lab, "j": FA([1, 2, 1]), "v": FA([10, 20, 30])})
        ds.label_set_names(["k"])
        for q in (["a"], ["b", "a"], ["c"], ["a", "b", "c"]):
            rows = [i for i in range(3) if L[i] in q]
            mc.eq(vals(ds[q, "v"]), [10 * (i + 1) for i in rows], f"rows labelled {q}")
            same_ds(ds[q, :], {"k": list(L), "j": [1, 2, 1], "v": [10, 20, 30]}, ["k", "j", "v"], rows, ["k"], f"ds[{q},:]")
            mc.eq(vals(ds[np.array(q), "v"]), [10 * (i + 1) for i in rows], f"rows labelled array {q}")
            if len(q) == 1:
                mc.eq(vals(ds[q[0], "v"]), [10 * (i + 1) for i in rows], f"rows labelled {q[0]}")
                mc.eq(vals(ds.label_filter(q[0]).v), [10 * (i + 1) for i in rows], "label_filter")
            mc.eq(vals(ds.label_filter(q).v), [10 * (i + 1) for i in rows], "label_filter list")
        ds.label_set_names(["k", "j"])
        for q in ([("a", 1)], [("a", 1), ("b", 2)], [("c", 2), ("b", 1), ("a", 2)]):
            rows = [i for i in range(3) if (L[i], [1, 2, 1][i]) in q]
            mc.eq(vals(ds[q, "v"]), [10 * (i + 1) for i in rows], f"rows labelled {q}")

    mc.run("label rows", sp3(), rd3)

    # ------------------------------------------------------------------ 4. assignment into one column
    NEWV = {"bool": [True, False], "S": ["zz", "q"], "U": ["\u00e8", "q"], "cat": ["bb", "a"], "catf": ["w", "u"], "cat0": ["u", "w"], "catnum": [20, 10], "catmap": ["hi", "lo"], "dtn": [9 * DAY, 8 * DAY], "date": [77, 78], "span": [11.0, 12.0], "dspan": [3, 4]}

    def newval(k):
        return NEWV.get(k, [100, 5])

    def as_arr(k, v):
        if k in INTS or k in FLTS:
            return arr(v, k)
        if k == "bool":
            return FA(np.array(v, dtype=bool))
        if k == "S":
            return FA(np.array(v, dtype="S3"))
        if k == "U":
            return FA(np.array(v, dtype="U3"), unicode=True)
        if k == "dtn":
            return rt.DateTimeNano(np.array(v, dtype="int64"), from_tz="GMT", to_tz="GMT")
        if k == "date":
            return rt.Date(np.array(v, dtype="int32"))
        if k == "span":
            return rt.TimeSpan(np.array(v))
        if k == "dspan":
            return rt.DateSpan(np.array(v, dtype="int32"))

    def as_sc(k, v):
        return as_arr(k, [v])[0] if k in ("dtn", "date", "span", "dspan") else v

    AK = [k for k in KINDS if k not in ("cat2", "catnum")]

    def sp4():
        for k in AK:
            for n in (1, 2, 3, 4):
                for lay in ("plain", "reversed", "strided"):
                    yield k, n, lay

    def wr4(case):
        k, n, lay = case

        def fresh():
            if lay == "plain":
                a, v = col(k, n)
                return a, a, v, list(range(n))
            if lay == "reversed":
                a, v = col(k, n)
                return a[::-1], a, v, list(range(n))[::-1]
            a, v = col(k, 4)
            return a[::2], a, v, [0, 2]

        if lay != "plain" and k.startswith("cat"):
            return mc.op()  # a sliced Categorical holds its own codes
        if lay == "strided" and n != 4:
            return mc.op()
        nv = newval(k) if k != "cat" else [fresh()[2][0]] * 2
        n_ = len(fresh()[3])
        for ix, rows in row_indexers(n_, 1):
            w = "a" + desc(ix) + " = "
            view, base, v, pos = fresh()
            want = list(v)
            for r in rows:
                want[pos[r]] = nv[0]
            view[ix] = as_sc(k, nv[0])
            mc.eq(vals(base), want, w + "scalar")
            if k.startswith("cat") or isinstance(ix, int) or not rows:
                continue
            if len(set(rows)) == len(rows):
                view, base, v, pos = fresh()
                want = list(v)
                seq = [nv[j % 2] for j in range(len(rows))]
                for r, x in zip(rows, seq):
                    want[pos[r]] = x
                view[ix] = as_arr(k, seq)
                mc.eq(vals(base), want, w + "array")
                if k in INTS + FLTS + ["bool", "S", "U"]:
                    view, base, v, pos = fresh()
                    view[ix] = list(seq)
                    mc.eq(vals(base), want, w + "list")
                    view, base, v, pos = fresh()
                    big = as_arr(k, [y for x in seq for y in (x, nv[1])])[::2]
                    view[ix] = big
                    mc.eq(vals(base), want, w + "strided array")
                    view, base, v, pos = fresh()
                    view[ix] = as_arr(k, seq[::-1])[::-1]
                    mc.eq(vals(base), want, w + "reversed array")
        # missing values survive assignment across dtypes
        if k in INTS + FLTS:
            for src in ("int8", "int16", "int32", "int64", "float32", "float64", "uint8"):
                view, base, v, pos = fresh()
                seq = [None if j == 0 else 6 for j in range(n_)]
                view[:] = arr(seq, src)
                want = list(v)
                for r in range(n_):
                    want[pos[r]] = seq[r]
                mc.eq(vals(base), want, f"assign {src} into {k}")

    mc.run("assigning a column", sp4(), wr4)

    # ------------------------------------------------------------------ 5. assignment into a Dataset
    ASET = [("int32", "float64", "uint8"), ("int64", "int32", "float32")]

    def sp5():
        for s in range(len(ASET)):
            for n in (1, 2, 3) if not T else (1, 2, 3, 4):
                yield s, n

    def wr5(case):
        s, n = case
        names = list(ASET[s])
        colsel = [([names[0], names[2]], [names[0], names[2]]), ([names[2], names[1]], [names[2], names[1]]), (slice(None), names), (names[1], [names[1]]), (1, [names[1]]), ([True, False, True], [names[0], names[2]]), (slice(1, None), names[1:])]
        for (ix, rows), (cx, cols) in itertools.product(row_indexers(n, 1), colsel):
            w = f"ds[{desc(ix)}, {cx!r}] = "
            rr = sorted(set(rows))
            rr = [i % n for i in rows] if isinstance(ix, int) else rows
            ds, m = mk(n, names)
            want = {c: list(x) for c, x in m.items()}
            for c in cols:
                for i in rr:
                    want[c][i] = 42
            ds[ix, cx] = 42
            mc.eq(dsvals(ds), want, w + "scalar")
            if len(set(rr)) != len(rr) or not rr:
                continue
            ds, m = mk(n, names)
            want = {c: list(x) for c, x in m.items()}
            src = rt.Dataset({"q%d" % j: FA(np.arange(len(rr), dtype="int32") + 10 * j + 50) for j in range(len(cols))})
            for j, c in enumerate(cols):
                for t, i in enumerate(rr):
                    want[c][i] = 50 + 10 * j + t
            if isinstance(cx, (str, int)):
                ds[ix, cx] = src[0] if not isinstance(ix, int) else 50
                mc.eq(dsvals(ds), want, w + "array")
            else:
                ds[ix, cx] = src
                mc.eq(dsvals(ds), want, w + "Dataset")
                if len(rr) == 1 and n > 1 and (isinstance(ix, int) or (isinstance(ix, np.ndarray) and ix.dtype.kind != "b")):
                    ds, m = mk(n, names)
                    ds[ix, cx] = [50 + 10 * j for j in range(len(cols))]
                    mc.eq(dsvals(ds), want, w + "list of one row")
        # putmask
        for q in masks(n):
            ds, m = mk(n, names)
            src = rt.Dataset({"q%d" % j: FA(np.arange(n, dtype=np.int32) + 10 * j + 50).astype(ds[names[j]].dtype) for j in range(3)})
            want = {c: [50 + 10 * j + i if q[i] else x for i, x in enumerate(m[c])] for j, c in enumerate(names)}
            ds.putmask(FA(np.array(q)), src)
            mc.eq(dsvals(ds), want, f"putmask {q} Dataset")
            ds, m = mk(n, names)
            one = FA(np.arange(n, dtype=np.float64) + 60)
            want = {c: [60 + i if q[i] else x for i, x in enumerate(m[c])] for c in names}
            ds.putmask(FA(np.array(q)), one)
            mc.eq(dsvals(ds), want, f"putmask {q} array")
            a, v = col("int32", n)
            rt.putmask(a, FA(np.array(q)), FA(np.arange(n, dtype=np.int32) + 60))
            mc.eq(vals(a), [60 + i if q[i] else x for i, x in enumerate(v)], f"rt.putmask {q}")
        mc.raises(lambda: mk(n, names)[0].__setitem__((slice(0, 1), "nope"), 3) if n > 1 else (_ for _ in ()).throw(IndexError()), "row subset of a new column")

    mc.run("assigning a dataset", sp5(), wr5)

    # ------------------------------------------------------------------ 6. trim and keep
    def sp6():
        A = [0, None, 3]
        for a in seqs(A, 3 if T else 2, 3 if T else 2):
            for b in seqs(A, len(a), len(a)):
                for dt in ("int32", "float64"):
                    yield a, b, dt
        if not T:
            for a in seqs([0, None, 3], 3, 3):
                for b in ([0, 0, 0], [1, 0, 2], [None, 5, 0], [None, None, None]):
                    yield a, b, "float64"

    def rd6(case):
        a, b, dt = case
        n = len(a)
        iszero = lambda x: x == 0
        isna = lambda x: x is None
        for lab in (False, True):
            for z, na in ((True, True), (True, False), (False, True)):
                for cols in (True, False):
                    for rws in (True, False):
                        ds = rt.Dataset({"s": FA(np.array(["t"] * n, dtype="S1")), "a": arr(a, dt), "b": arr(b, dt), "l": FA(np.zeros(n, dtype="int32"))})
                        if lab:
                            ds.label_set_names(["l"])
                        f = lambda x: (z and iszero(x)) or (na and isna(x))
                        D = {"a": list(a), "b": list(b)}
                        if not lab:
                            D["l"] = [0] * n
                        keepc = [c for c in D if not cols or not all(f(x) for x in D[c])]
                        rows = [i for i in range(n) if not all(f(D[c][i]) for c in keepc)] if rws and keepc else list(range(n))
                        out = [c for c in ("s", "a", "b", "l") if c not in D or c in keepc]
                        full = {"s": ["t"] * n, "a": list(a), "b": list(b), "l": [0] * n}
                        r = ds.trim(zeros=z, nans=na, columns=cols, rows=rws)
                        mc.eq(dsvals(r), {c: [full[c][i] for i in rows] for c in out}, f"trim zeros={z} nans={na} columns={cols} rows={rws} lab={lab}")
                        mc.eq(dsvals(ds), full, "trim leaves the Dataset")
            ds = rt.Dataset({"s": FA(np.array(["t"] * n, dtype="S1")), "a": arr(a, dt), "b": arr(b, dt)})
            keepc = [c for c, x in (("a", a), ("b", b)) if any(q is not None and q > 0 for q in x)]
            for rws in (True, False):
                rows = [i for i in range(n) if any({"a": a, "b": b}[c][i] is not None and {"a": a, "b": b}[c][i] > 0 for c in keepc)] if keepc and rws else list(range(n))
                r = ds.keep(lambda x: x > 0, rows=rws)
                full = {"s": ["t"] * n, "a": list(a), "b": list(b)}
                mc.eq(dsvals(r), {c: [full[c][i] for i in rows] for c in ["s"] + keepc}, f"keep rows={rws}")

    mc.run("trim and keep", sp6(), rd6)
