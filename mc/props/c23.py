"""C23 Interoperability conversions round-trip losslessly."""
import io, itertools, os, pickle, copy, warnings, logging, datetime
import numpy as np
import riptable as rt
import pandas as pd
import pyarrow as pa
from ..model import *
from ..zoo import item, PLAIN, CATS, TIMES, DAY

PROPERTY = "C23"
warnings.simplefilter("ignore")
logging.disable(logging.WARNING)
FA = rt.FastArray
PAI = {k: getattr(pa, k)() for k in INTS}
UTC = datetime.timezone.utc


def pand(s):
    """plain values of a pandas Series, None = missing, instants/durations in ns"""
    out = []
    for v in s.tolist():
        if v is None or v is pd.NA or v is pd.NaT or (isinstance(v, float) and v != v):
            out.append(None)
        elif isinstance(v, (pd.Timestamp, pd.Timedelta)):
            out.append(v.value)
        elif isinstance(v, bytes):
            out.append(v.decode("latin1"))
        else:
            out.append(v)
    return out


def parr(a, raw_=False):
    """plain values of an arrow array"""
    if pa.types.is_dictionary(a.type):
        if isinstance(a, pa.ChunkedArray):
            return [v for c in a.iterchunks() for v in parr(c)]
        d = a.dictionary.to_pylist()
        return [None if i is None else d[i] for i in a.indices.to_pylist()]
    if pa.types.is_timestamp(a.type) or pa.types.is_duration(a.type):
        return a.view(pa.int64()).to_pylist() if isinstance(a, pa.Array) else [v for c in a.iterchunks() for v in parr(c)]
    if pa.types.is_date(a.type):
        return [None if v is None else (v - datetime.date(1970, 1, 1)).days for v in a.to_pylist()]
    return [v.decode("latin1").rstrip("\0") if isinstance(v, bytes) else None if isinstance(v, float) and v != v else v for v in a.to_pylist()]


def lay(a, how):
    """the same contents presented through another memory layout (plain arrays only)"""
    b = np.asarray(a)
    if how == "strided" and len(b) > 1:
        c = np.empty(2 * len(b), dtype=b.dtype)
        c[::2] = b
        c[1::2] = b[::-1]
        return FA(c)[::2]
    if how == "rev" and len(b) > 1:
        return FA(b[::-1].copy())[::-1]
    return a


def explore(mc):
    T = mc.thorough
    N = 5 if T else 4
    E = {"S": "", "U": ""}

    def strs(x, k):
        return ["" if v is None else v for v in x] if k in ("S", "U") else x

    def objs():
        for k in PLAIN + CATS + TIMES:
            for n in range(0, N + 1):
                for off in range(4):
                    yield k, n, off

    # ------------------------------------------------------------ arrow
    def arun(case):
        k, n, off = case
        for how in ("c", "strided", "rev") if k in PLAIN else ("c",):
            a = lay(item(k, n, off), how)
            x = vals(a)
            if k in ("dspan", "cat2"):
                return
            for es in (True, False):
                for fb in (False, True):
                    p = a.to_arrow(preserve_fixed_bytes=fb, empty_strings_to_null=es)
                    mc.op()
                    w = [None if v == "" and es else v for v in x] if k in ("S", "U") else x
                    if k == "span":
                        w = [None if v is None else int(v) for v in x]
                    if k not in ("cat2", "catmap") and not (k in CATS):
                        mc.eq(parr(p), w, "to_arrow has the same values", key=f"ta-{k}", es=es, fb=fb, how=how)
                    elif k not in ("cat2", "catmap"):
                        mc.eq([v or "" if k in ("cat",) and v is None and x[i] is not None else v for i, v in enumerate(parr(p))], x, "Categorical.to_arrow", key=f"tac-{k}")
                    if p.null_count and k in ("bool",):
                        mc.fail("boolean arrays have no nulls")
                    for wr in (False, True):
                        b = FA.from_arrow(p, zero_copy_only=False, writable=wr)
                        mc.eq((vals(b), type(b).__name__), (x, type(a).__name__), "arrow round trip", key=f"art-{k}", es=es, fb=fb, wr=wr)
                        if k in INTS + FLTS + ["bool"]:
                            mc.eq(str(b.dtype), str(a.dtype), "arrow round trip keeps the dtype", key="art-dt")
                        if wr and n and not isinstance(b, rt.Categorical):
                            mc.eq(b.flags.writeable, True, "writable=True gives a writable array", key="art-wr")
                    # slices and chunks
                    for i in range(0, n + 1):
                        q = p.slice(i, n - i)
                        b = FA.from_arrow(q, zero_copy_only=False)
                        mc.eq(vals(b), x[i:], "from_arrow of a slice", key=f"aslice-{k}", i=i, fb=fb)
                        q = p.slice(0, i)
                        mc.eq(vals(FA.from_arrow(q, zero_copy_only=False)), x[:i], "from_arrow of a slice", key=f"aslice-{k}", i=i, fb=fb)
                        c = pa.chunked_array([p.slice(0, i), p.slice(i)], type=p.type)
                        b = FA.from_arrow(c, zero_copy_only=False)
                        mc.eq((vals(b), type(b).__name__), (x, type(a).__name__), "from_arrow of chunks", key=f"achunk-{k}", i=i, fb=fb)
            mc.eq(vals(a), x, "to_arrow leaves its input alone", key="ta-in")
            ds = rt.Dataset({"p": rt.arange(n), "a": a})
            t = ds.to_arrow()
            mc.eq(t.column_names, ["p", "a"], "arrow table columns", key="tbl")
            d2 = rt.Dataset.from_arrow(t, zero_copy_only=False)
            mc.eq((dsvals(d2), kind(d2.a).replace("U", "S")), ({"p": list(range(n)), "a": x}, kind(a).replace("U", "S")), "Dataset arrow round trip", key=f"tblrt-{k}")

    mc.run("arrow", objs(), arun)

    # arrow-native integers: every null pattern, boundary values, zero copy and widening
    def nspace():
        for k in INTS:
            i = np.iinfo(k)
            for n in range(0, 4):
                for x in itertools.product((None, 0, 7, i.min, i.max), repeat=n):
                    yield k, x

    def nrun(case):
        k, x = case
        p = pa.array(list(x), type=PAI[k])
        s = sent(k)
        has, nulls = s in x, None in x
        for widen in (False, True):
            mc.op()
            f = lambda: FA.from_arrow(p, zero_copy_only=False, auto_widen=widen)
            if has and (not widen or np.dtype(k).itemsize == 8):
                mc.raises(f, "a value that would read as missing is refused", ValueError)
            else:
                b = f()
                mc.eq(vals(b), list(x), "from_arrow of native integers", key=f"nat-{k}", widen=widen)
                if not has:
                    mc.eq(str(b.dtype), k, "no widening without need", key="nat-dt")
        f = lambda: FA.from_arrow(p, zero_copy_only=True)
        if has or nulls:
            mc.raises(f, "zero copy impossible", ValueError)
        else:
            mc.eq(vals(f()), list(x), "zero copy conversion", key="nat-zc")

    mc.run("arrowint", nspace(), nrun)

    # dictionary arrays: index dtypes x nulls x category counts
    def dspace():
        for idt in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64"):
            for n in range(0, 4):
                for ix in itertools.product((None, 0, 1, 2), repeat=n):
                    yield idt, ix, 3
            for cnt in (126, 127, 128, 129, 254, 255, 256, 257):
                if cnt - 1 > np.iinfo(idt).max:
                    continue
                for ix in ((0, cnt - 1), (None, cnt - 1), (cnt - 1, None, cnt - 2, 0)):
                    yield idt, ix, cnt

    def drun(case):
        idt, ix, cnt = case
        for cats in ([f"k{i:04d}" for i in range(cnt)], [10 * i for i in range(cnt)], [f"k{cnt - i:04d}" for i in range(cnt)]):
            p = pa.DictionaryArray.from_arrays(pa.array(list(ix), type=PAI[idt]), pa.array(cats))
            w = [None if i is None else cats[i] for i in ix]
            c = FA.from_arrow(p, zero_copy_only=False)
            mc.op()
            mc.eq(vals(c), w, "Categorical from arrow dictionary", key="dict", idt=idt, cnt=cnt)
            mc.eq(vals(FA.from_arrow(c.to_arrow(), zero_copy_only=False)), w, "dictionary round trip", key="dictrt")

    mc.run("arrowdict", dspace(), drun)

    # the "ordered" flag: set exactly when the categories are in order, whatever the base index, and kept by the round trip
    def orun(case):
        l, ordered, base, kind_ = case
        v = rt.FastArray(list(l)) if kind_ == "s" else rt.FastArray([ord(z) for z in l])
        c = rt.Categorical(v, ordered=ordered, base_index=base)
        cats = vals(c.category_array)
        p = c.to_arrow()
        mc.op()
        w = ordered if cats == sorted(cats) else False
        mc.eq(p.type.ordered, w, "to_arrow ordered flag", key="aord", l=l, ordered=ordered, base=base)
        mc.eq([z for z in p.dictionary.to_pylist()], cats if kind_ != "s" else [z if not isinstance(p.dictionary.to_pylist()[0], bytes) else z.encode() for z in cats], "to_arrow dictionary", key="adict")
        mc.eq(p.indices.to_pylist(), [cats.index(z if kind_ == "s" else ord(z)) for z in l], "to_arrow indices", key="aidx")
        b = FA.from_arrow(p, zero_copy_only=False)
        mc.eq(vals(b), vals(c), "round trip", key="ordrt")
        if w:
            mc.eq(b.to_arrow().type.ordered, True, "round trip keeps the ordered flag", key="aord2")

    mc.run("arroworder", ((l, o, b, k) for n in (1, 2, 3, 4) for l in itertools.product("bac", repeat=n) for o in (True, False) for b in (0, 1) for k in "si"), orun)

    # multi-key Categoricals
    def mspace():
        for n in range(1, 4):
            for x in itertools.product(("a", "b"), repeat=n):
                for y in itertools.product(("x", "y"), repeat=n):
                    for f in itertools.product((True, False), repeat=n):
                        if any(f):
                            yield x, y, f

    def mrun(case):
        x, y, f = case
        c = rt.Categorical([FA(list(x)), FA(list(y))], filter=FA(list(f)))
        w = [(p, q) if t else None for p, q, t in zip(x, y, f)]
        mc.eq(vals(c), w, "multi-key Categorical", key="mk0")
        p = c.to_arrow()
        mc.eq([None if v is None else tuple(v.values()) for v in p.to_pylist()], w, "multi-key to_arrow", key="mk1")
        mc.op()

    mc.run("arrowmk", mspace(), mrun)

    # timestamps/dates/durations in every unit
    def tspace():
        for n in range(0, 4):
            for x in itertools.product((None, 1, 86400 * 400), repeat=n):
                yield x

    def trun(x):
        x = list(x)
        for unit, f in (("s", 10**9), ("ms", 10**6), ("us", 10**3), ("ns", 1)):
            m = 10**9 // f
            v = [None if y is None else y * m for y in x]
            for tz in ("UTC", "America/New_York", "Europe/Dublin"):
                p = pa.array(v, type=pa.timestamp(unit, tz=tz))
                b = FA.from_arrow(p, zero_copy_only=False)
                mc.op()
                mc.eq((vals(b), type(b).__name__), ([None if y is None else y * 10**9 for y in x], "DateTimeNano"), "from_arrow timestamps", key=f"ts-{tz}", unit=unit)
                mc.eq(vals(FA.from_arrow(b.to_arrow(), zero_copy_only=False)), vals(b), "timestamp round trip", key="tsrt")
            v = [None if y is None else (y % 8640000) * m for y in x]
            p = pa.array(v, type=pa.duration(unit))
            b = FA.from_arrow(p, zero_copy_only=False)
            mc.eq((vals(b), type(b).__name__), ([None if y is None else float((y % 8640000) * 10**9) for y in x], "TimeSpan"), "from_arrow durations", key="dur", unit=unit)
        for t, m in ((pa.date32(), 1), (pa.date64(), 86400000)):
            p = pa.array([None if y is None else y * m for y in (None if q is None else q % 5000 + 1 for q in x)], type=pa.int32() if m == 1 else pa.int64()).view(t)
            b = FA.from_arrow(p, zero_copy_only=False)
            mc.eq((vals(b), type(b).__name__), ([None if q is None else q % 5000 + 1 for q in x], "Date"), "from_arrow dates", key="date")

    mc.run("arrowtime", tspace(), trun)

    # ------------------------------------------------------------ pandas
    def prun(case):
        k, n, off = case
        if k == "dspan":
            return
        for how in ("c", "strided", "rev") if k in PLAIN else ("c",):
            a = lay(item(k, n, off), how)
            x = vals(a)
            for un in (True, False):
                for nul in (True, False):
                    df = rt.Dataset({"p": rt.arange(n), "a": a}).to_pandas(unicode=un, use_nullable=nul)
                    mc.op()
                    mc.eq(list(df.columns), ["p", "a"], "pandas column names", key="pdn")
                    if k not in CATS + ["date"] and (nul or k not in INTS):
                        mc.eq(pand(df["a"]), [int(v) if k == "span" and v is not None else v for v in x], "to_pandas values", key=f"pdv-{k}", un=un)
                    elif k in CATS and k not in ("cat2", "catmap"):
                        mc.eq(pand(df["a"]), x, "to_pandas Categorical", key=f"pdc-{k}", un=un)
                    if k in ("cat2", "catmap", "date"):
                        continue
                    if k in INTS and not nul:
                        b = rt.Dataset.from_pandas(df)
                        mc.eq(vals(b.a), x, "pandas round trip of raw integers", key="pdraw")
                        continue
                    b = rt.Dataset.from_pandas(df)
                    mc.eq((dsvals(b), kind(b.a) if k not in ("U", "S") else "s"), ({"p": list(range(n)), "a": x}, kind(a) if k not in ("U", "S") else "s"), "pandas round trip", key=f"pdrt-{k}", un=un, nul=nul)
                    if k in INTS + FLTS + ["bool"]:
                        mc.eq(str(b.a.dtype), str(a.dtype), "pandas round trip dtype", key="pd-dt")
                    if k in ("dtn", "dtnNY", "dtnDB"):
                        mc.eq(b.a._timezone._to_tz, a._timezone._to_tz, "time zone kept", key="pdtz")
            mc.eq(vals(a), x, "to_pandas leaves its input alone", key="pd-in")

    mc.run("pandas", objs(), prun)

    # pandas-native columns
    def qspace():
        al = {
            "object": ("a", "", None, "\u00e9"), "string": ("a", "", None, "b"), "float64": (1.5, None, 0.0), "Float64": (1.5, None, 0.0), "boolean": (True, False), "bool": (True, False),
            "Int64": (1, None, -5), "UInt8": (1, None, 200), "Int8": (1, None, -127), "int16": (1, 2), "category": ("a", None, "b"), "catint": (3, None, 1), "objint": (1, None, 2.5),
            "datetime64[ns]": (10**18, None, 5), "tz": (10**18, None, 5), "timedelta64[ns]": (10**12, None, -5),
        }
        for t, a in al.items():
            for n in range(0, 4):
                for x in itertools.product(a, repeat=n):
                    yield t, x

    def qrun(case):
        t, x = case
        x = list(x)
        if t in ("category", "catint"):
            s = pd.Series(pd.Categorical(x, categories=["b", "a", "z"] if t == "category" else [3, 2, 1]))
        elif t == "objint":
            s = pd.Series(x, dtype="object")
        elif t in ("datetime64[ns]", "tz"):
            s = pd.Series(pd.DatetimeIndex(np.array([np.iinfo("int64").min if v is None else v for v in x], dtype="int64").view("M8[ns]")))
            if t == "tz":
                s = s.dt.tz_localize("UTC").dt.tz_convert("America/New_York")
        elif t == "timedelta64[ns]":
            s = pd.Series(np.array([np.iinfo("int64").min if v is None else v for v in x], dtype="int64").view("m8[ns]"))
        else:
            s = pd.Series(x, dtype=t)
        df = pd.DataFrame({"k": np.arange(len(x)), "a": s})
        w = x
        if t in ("object", "string"):
            if any(isinstance(v, str) for v in x):
                w = ["" if v is None else v for v in x]
            elif t == "object" and x:
                return
            elif x:
                return
        mc.op()
        ds = rt.Dataset.from_pandas(df)
        mc.eq(dsvals(ds), {"k": list(range(len(x))), "a": w}, "from_pandas", key=f"fp-{t}")
        if t == "category":
            mc.eq(vals(rt.Categorical(s.cat if False else pd.Categorical(x, categories=["b", "a", "z"]))), w, "Categorical(pd.Categorical)", key="pdcat")
        # an index is data only when asked for
        df2 = df.set_index(pd.Index([5 + i for i in range(len(x))], name="ix"))
        for keep in (False, None, True):
            d = rt.Dataset.from_pandas(df2, preserve_index=keep)
            want = ["k", "a"] if keep is False else ["ix", "k", "a"]
            mc.eq(list(d), want, "preserve_index", key="pidx", keep=keep)
            if keep is not False:
                mc.eq(vals(d.ix), [5 + i for i in range(len(x))], "preserve_index values", key="pidxv")
        mc.eq(list(rt.Dataset.from_pandas(df, preserve_index=None)), ["k", "a"], "default index is not data", key="pidx0")

    mc.run("pandasnative", qspace(), qrun)

    # ------------------------------------------------------------ pickles and copies
    def krun(case):
        k, n, off = case
        for how in ("c", "strided", "rev") if k in PLAIN else ("c",):
            a = lay(item(k, n, off), how)
            x = vals(a)
            for proto in (2, 4, 5):
                b = pickle.loads(pickle.dumps(a, protocol=proto))
                mc.op()
                mc.eq((vals(b), type(b).__name__, str(b.dtype)), (x, type(a).__name__, str(a.dtype)), "array pickle", key=f"pk-{k}", how=how)
            old = FA.CompressPickle
            try:
                FA.CompressPickle = not old
                b = pickle.loads(pickle.dumps(a))
                mc.eq((vals(b), type(b).__name__), (x, type(a).__name__), "array pickle, other compression", key=f"pk2-{k}", how=how)
            finally:
                FA.CompressPickle = old
            if k.startswith("dtn"):
                mc.eq(b._timezone._to_tz, a._timezone._to_tz, "pickle keeps the time zone", key="pktz")
            if k in CATS:
                mc.eq((fp(b)), fp(a), "pickle keeps the Categorical", key="pkfp-" + k)
            ds = rt.Dataset({"p": rt.arange(n), "a": a, "q": rt.arange(n) * 0.5})
            d2 = pickle.loads(pickle.dumps(ds))
            mc.eq((dsvals(d2), kind(d2.a), type(d2).__name__), (dsvals(ds), kind(a), "Dataset"), "Dataset pickle", key=f"pkds-{k}")
            st = rt.Struct({"x": a, "d": ds, "s": "text", "i": 5})
            s2 = pickle.loads(pickle.dumps(st))
            mc.eq((list(s2), vals(s2.x), dsvals(s2.d), s2.s, s2.i), (["x", "d", "s", "i"], x, dsvals(ds), "text", 5), "Struct pickle", key=f"pkst-{k}")

    mc.run("pickle", objs(), krun)

    # ------------------------------------------------------------ rows, dicts, record arrays
    def rspace():
        ks = ["int32", "int64", "uint8", "float64", "float32", "bool", "S", "U", "dtn", "date", "span", "cat"]
        for k1 in ks:
            for k2 in ks:
                for n in range(0, N):
                    yield k1, k2, n

    def rrun(case):
        k1, k2, n = case
        ds = rt.Dataset({"zz": item(k1, n), "b": item(k2, n, 1), "a": rt.arange(n)})
        base = dsvals(ds)
        mc.op()
        d = ds.asdict()
        mc.eq({k: vals(v) for k, v in d.items()}, base, "asdict", key="asdict")
        mc.eq(dsvals(rt.Dataset(d)), base, "dict round trip", key="dictrt")
        mc.eq(dsvals(rt.Dataset(ds.asdict(copy=True))), base, "dict copy round trip", key="dictrt2")
        mc.eq({k: vals(v) for k, v in ds.asdict(sublist=["a", "zz"]).items()}, {"a": base["a"], "zz": base["zz"]}, "asdict sublist", key="asdicts")
        st = ds.as_struct()
        mc.eq(list(st), ["zz", "b", "a"], "as_struct names", key="asstruct")
        mc.eq({k: vals(st[k]) if n != 1 else None for k in st}, {k: base[k] if n != 1 else None for k in base}, "as_struct", key="asstructv")
        num = [k for k in (k1, k2) if k in ("cat", "dtn", "date", "span")]
        ra = ds.as_recordarray(allow_conversions=True)
        mc.eq((list(ra.dtype.names), len(ra)), (["zz", "b", "a"], n), "record array shape", key="rec")
        if "cat" not in (k1, k2):
            for nm, k in (("zz", k1), ("b", k2)):
                col = ra[nm]
                x = base[nm]
                if k == "dtn":
                    g = [None if v in (np.iinfo("int64").min, 0) else v for v in col.astype("int64").tolist()]
                elif k == "date":
                    g = [None if v in (np.iinfo("int64").min, 0) else v for v in col.astype("int64").tolist()]
                elif k == "span":
                    g = [None if v == np.iinfo("int64").min else float(v) for v in col.astype("int64").tolist()]
                else:
                    g = plain(np.asarray(col))
                mc.eq(g, x, "record array values", key=f"recv-{k}")
        if not num:
            back = rt.Dataset({nm: ra[nm] for nm in ra.dtype.names}) if n else None
            if back is not None:
                mc.eq(dsvals(back), base, "record array round trip", key="recrt")
            # row wise
            rows = [[ds[i, c] for c in ds.keys()] for i in range(n)]
            mc.eq([[scalar(v) for v in r] for r in ds.tolist()], [[base[c][i] for c in base] for i in range(n)], "tolist", key="tolist")
            if n:
                f = rt.Dataset.from_rows(rows, ["zz", "b", "a"])
                mc.eq({c: vals(f[c]) for c in f}, {c: vals(ds[c]) for c in ds}, "from_rows", key="fromrows")
                f = rt.Dataset.from_tagged_rows([dict(zip(["zz", "b", "a"], r)) for r in rows])
                mc.eq({c: vals(f[c]) for c in f}, {c: vals(ds[c]) for c in sorted(ds)}, "from_tagged_rows", key="fromtag")
                f = rt.Dataset.from_tagged_rows([rt.Struct(dict(zip(["zz", "b", "a"], r))) for r in rows])
                mc.eq({c: vals(f[c]) for c in f}, {c: vals(ds[c]) for c in sorted(ds)}, "from_tagged_rows of Structs", key="fromtags")
        it = [(i, {k: vals(v)[0] if isinstance(v, np.ndarray) else scalar(v) for k, v in r.items()}) for i, r in ds.iterrows()] if not num else []
        if not num:
            mc.eq(it, [(i, {c: base[c][i] for c in base}) for i in range(n)], "iterrows", key="iterrows")
        mc.eq(dsvals(ds), base, "conversions leave the Dataset alone", key="row-in")

    mc.run("rows", rspace(), rrun)

    def wspace():
        for n in range(0, 4):
            yield n

    def wrun(n):
        ok = [[i, i * 0.5, "s%d" % i] for i in range(n)]
        for pos in range(n):
            for bad in ([1, 2], [1, 2, 3, 4]):
                rows = [list(r) for r in ok]
                rows[pos] = bad
                mc.raises(lambda: rt.Dataset.from_rows(rows, ["a", "b", "c"]), "short or long row refused", ValueError)
            tagged = [dict(zip("abc", r)) for r in ok]
            tagged[pos] = {"a": 1, "b": 2.0}
            if n > 1:
                mc.raises(lambda: rt.Dataset.from_tagged_rows(tagged), "different keys refused", NotImplementedError)
            mc.raises(lambda: rt.Dataset.from_rows([dict(a=1, b=2, c=3)], ["a", "b", "c"]), "dict rows refused", TypeError)
        mc.op()

    mc.run("rowerr", wspace(), wrun)

    # ------------------------------------------------------------ csv
    def cspace():
        for n in range(0, 4):
            for v in (0, 1, 2, 3, 4):
                for skip in (0, 1, 2):
                    for named in (False, True):
                        for perm in itertools.permutations((0, 1, 2)):
                            yield n, v, skip, named, perm

    def crun(case):
        n, v, skip, named, perm = case
        cols = {"num": [3 * i - 2 for i in range(n)], "flt": [i + 0.25 for i in range(n)], "txt": ["t%d" % (i * i) for i in range(n)]}
        names = [list(cols)[i] for i in perm]
        text = "junk,line\n" * skip + ("" if named else ",".join(names) + "\n") + "".join(",".join(str(cols[c][i]) for c in names) + "\n" for i in range(n))
        if n == 0 and (v == 4 or v == 2):
            return
        conv = {"num": int, "flt": float}
        if v == 0:
            conv = {"num": int, "flt": float}
        mc.op()
        path = os.path.join(mc.scratch, f"f{mc.shard}.csv")
        with open(path, "w") as f:
            f.write(text)
        for src in (path, "io"):
            ds = rt.load_csv_as_dataset(io.StringIO(text) if src == "io" else src, column_names=list(names) if named else None, converters=conv, skip_rows=skip, version=v)
            mc.eq(({c: vals(ds[c]) for c in ds}), {c: cols[c] for c in names}, "load_csv_as_dataset", key=f"csv-{v}")

    mc.run("csv", cspace(), crun)
