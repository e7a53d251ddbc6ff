"""C16 Saving and loading SDS returns the same object."""
import itertools, os, pathlib, shutil, warnings
import numpy as np
import riptable as rt
from ..model import *
from ..zoo import *

PROPERTY = "C16"


def explore(mc):
    T = mc.thorough
    warnings.simplefilter("ignore")
    FA = rt.FastArray
    root = os.path.join(mc.scratch, f"c16_{mc.shard}_{os.getpid()}")
    os.makedirs(root, exist_ok=True)
    ctr = itertools.count()

    def fresh():
        p = os.path.join(root, f"t{next(ctr)}")
        os.mkdir(p)
        return p

    def within(fn):
        def g(case):
            d = fresh()
            try:
                fn(case, d)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        return g

    def norm(x):
        return cn(fp(x))

    def cn(t, root=True):
        """names of the key columns of a multi-key Categorical are not part of the claim"""
        if isinstance(t, tuple) and t and t[0] == "Categorical" and len(t[5]) > 1 and isinstance(t[5][0][1], tuple):
            return t[:5] + ([x[1] for x in t[5]],)
        if isinstance(t, tuple) and t and t[0] == "Struct" and len(t) == 3:
            it = [(k, cn(v, False)) for k, v in t[1]]
            # a nested container which only holds containers has no file of its own (documented): its order is not kept
            if not root and it and all(isinstance(v, tuple) and v[0] in ("Struct", "Dataset") for _, v in it):
                it = sorted(it, key=lambda kv: kv[0])
            return ("Struct", it, t[2])
        if isinstance(t, (tuple, list)):
            return type(t)(cn(x, root) for x in t)
        return t

    def norm_(x):
        """what a saved object is documented to come back as: list items/ndarrays become FastArrays, date scalars plain"""
        return fp(x)

    EXTRA = ["c128", "m2", "m2f", "strided", "rev"]
    KINDS = ALL + EXTRA
    SAVES = [dict(compress=c, complevel=l) for c, l in ((True, None), (False, None), (True, 9))] + [dict(bandsize=1000000), dict(compress=True, bandsize=2)] + [dict(onefile=True)]
    LOADS = ["load_sds", "load_noext", "pathlib", "bytes", "Dataset.load", "Struct.load", "threads1", "threads2", "include_all"]

    def load(p, how, cls=None):
        if how == "load_sds":
            return rt.load_sds(p + ".sds")
        if how == "load_noext":
            return rt.load_sds(p)
        if how == "pathlib":
            return rt.load_sds(pathlib.Path(p + ".sds"))
        if how == "bytes":
            return rt.load_sds((p + ".sds").encode())
        if how == "Dataset.load":
            return rt.Dataset.load(p)
        if how == "Struct.load":
            return rt.Struct.load(p)
        if how == "threads1":
            return rt.load_sds(p, threads=1)
        if how == "threads2":
            return rt.load_sds(p, threads=2)
        if how == "include_all":
            return rt.load_sds(p, include_all_sds=True)

    # ------------------------------------------------------------ one-column Datasets, every option
    def one(case, d):
        k, n, si = case
        x = item(k, n)
        ds = rt.Dataset({"x": x})
        want = norm(ds)
        p = os.path.join(d, "f")
        mc.op()
        rt.save_sds(p, ds, **SAVES[si])
        for how in (LOADS if si == 0 else LOADS[:1]):
            mc.op()
            mc.eq(norm(load(p, how)), want, f"dataset {how}")
        if si == 0:
            mc.eq(norm(ds), want, "saving leaves the source unchanged")
        mc.observe(want)

    mc.run("one column x save/load options", itertools.product(KINDS, range(0, 4 if not T else 6), range(len(SAVES))), within(one))

    # ------------------------------------------------------------ single arrays
    def single(case, d):
        k, n, comp = case
        x = item(k, n)
        p = os.path.join(d, "f")
        how = ["save_sds", "array.save", "uncompressed", "name"][comp]
        mc.op()
        if how == "save_sds":
            rt.save_sds(p, x)
        elif how == "array.save":
            if not hasattr(x, "save"):
                return
            x.save(p)
        elif how == "name":
            rt.save_sds(d, x, name="f")
        else:
            rt.save_sds_uncompressed(p, x) if hasattr(rt, "save_sds_uncompressed") else rt.save_sds(p, x, compress=False)
        for l in ("load_sds", "load_noext", "threads2"):
            got = load(p, l)
            mc.eq(norm(got), norm(x), f"array {how} {l}")

    mc.run("single arrays", itertools.product(KINDS, range(0, 4), range(4)), within(single))

    # ------------------------------------------------------------ all pairs of kinds: order, include, filter
    def pair(case, d):
        k1, k2, n = case
        ds = rt.Dataset({"x": item(k1, n), "a": item(k2, n, 1), "z": arr([1, None, 3][:n] + [9] * max(0, n - 3), "int32")})
        p = os.path.join(d, "f")
        rt.save_sds(p, ds)
        mc.eq(norm(rt.load_sds(p)), norm(ds), "pair")
        for inc in (["x"], ["a"], ["a", "x"], ["x", "z"], ["z", "a", "x"], ["x", "nope"]):
            mc.op()
            got = rt.load_sds(p, include=inc)
            want = rt.Dataset({c: ds[c] for c in ds.keys() if c in inc})
            mc.eq(norm(got), norm(want), f"include {inc}")
        for f in masks(n):
            m = FA(np.array(f, dtype=bool))
            mc.op()
            mc.eq(norm(rt.load_sds(p, filter=m)), norm(ds[m, :]) if n else norm(ds), f"filter {f}")
        for r in range(1, n + 1):
            for idx in itertools.combinations(range(n), r):
                for dt in ("int32", "int64"):
                    mc.eq(norm(rt.load_sds(p, filter=FA(np.array(idx, dtype=dt)), include=["x", "z"])), norm(ds[["x", "z"]][FA(np.array(idx, dtype=dt)), :]), f"row filter {idx} {dt} with include")
        # information entry points
        info = rt.sds_info(p + ".sds")
        names = [t[0].decode() for t in info[0][2] if t[1] & 1]
        mc.eq(names, list(ds.keys()), "sds_info names")
        mc.eq(rt.rt_sds.sds_dir(p), list(ds.keys()), "sds_dir")
        rt.sds_tree(p)
        t = rt.load_sds(p, info=True)
        mc.eq(all(c in str(t) for c in ds.keys()), True, "load info names every column")

    PK = KINDS if T else ["int32", "uint8", "float64", "bool", "S", "U", "cat", "catun", "cat0", "catnum", "cat2", "catmap", "dtn", "dtnNY", "date", "span", "dspan", "strided", "m2"]
    mc.run("pairs: order, include, filter", ((a, b, n) for a, b in itertools.product(PK, PK) for n in ((0, 2) if not T else (0, 1, 2, 3))), within(pair))

    # ------------------------------------------------------------ Struct trees
    def leaf(t):
        if t == "i":
            return 5
        if t == "f":
            return -1.5
        if t == "s":
            return "str"
        if t == "b":
            return True
        if t == "npi":
            return np.int16(7)
        if t == "npf":
            return np.float32(2.5)
        if t == "uni":
            return "\u00e9\u4e2d"
        if t == "ds0":
            return rt.Dataset({"p": item("int32", 0), "q": item("cat", 0)})
        if t == "ds1":
            return rt.Dataset({"p": item("S", 1)})
        if t == "ds2":
            d_ = rt.Dataset({"p": item("int32", 2), "q": item("cat2", 2), "r": item("dtnNY", 2)})
            d_.label_set_names(["p"])
            return d_
        if t == "dsE":
            return rt.Dataset({})
        if isinstance(t, tuple):
            return tree(t)
        return item(t, 2)

    def tree(spec):
        return rt.Struct({n: leaf(t) for n, t in spec})

    L1 = ["i", "f", "s", "b", "npi", "npf", "uni", "int32", "float32", "S", "U", "bool", "m2", "m2f", "cat", "catf", "cat0", "catnum", "cat2", "catmap", "dtn", "dtnNY", "date", "span", "dspan", "ds0", "ds1", "ds2"]
    SUB = [("sub", ()), ("sub", (("p", "i"),)), ("sub", (("p", "int32"), ("q", "cat"))), ("sub", (("p", "ds2"),)), ("sub", (("p", "ds1"), ("q", "i"))), ("sub", (("p", (("pp", "cat2"),)), ("q", "ds2")))]

    def trees():
        for a in L1:
            yield (("a", a),)
        for a, b in itertools.product(L1, L1):
            yield (("b", a), ("a", b))
        for s in SUB:
            yield (("s", s[1]),)
            for a in (L1 if T else ["i", "s", "int32", "cat", "cat2", "catmap", "dtn", "date", "span", "ds0", "ds2", "m2"]):
                yield (("x", a), ("s", s[1]))
                yield (("s", s[1]), ("x", a))
                yield (("s", s[1]), ("x", a), ("t", s[1]))
        for s1, s2 in itertools.product(SUB, SUB):
            yield (("s", s1[1]), ("t", s2[1]))
            yield (("s", (("d", s1[1]), ("e", "ds1"))), ("t", s2[1]))

    def hasempty(spec):
        return any(isinstance(t, tuple) and (not t or hasempty(t)) for _, t in spec)

    def st(case, d):
        spec, mode = case
        s = tree(spec)
        want = norm(s)
        p = os.path.join(d, "f")
        o = [dict(), dict(onefile=True), dict(compress=False), dict(onefile=True, compress=False)][mode]
        mc.op()
        s.save(p, **o)
        for how in ("load", "Struct.load", "threads"):
            got = rt.load_sds(p) if how == "load" else rt.Struct.load(p) if how == "Struct.load" else rt.load_sds(p, threads=2)
            mc.eq(norm(got), want, f"struct {o} {how}")
        # include by top-level name
        names = [n for n, _ in spec]
        if mode == 0 and len(names) > 1:
            for inc in names:
                got = rt.load_sds(p, include=[inc])
                mc.eq(norm(got), norm(rt.Struct({inc: s[inc]})), f"struct include {inc}")
        if mode == 0:
            rt.sds_tree(p)
            rt.load_sds(p, info=True)
        mc.observe(want)

    mc.run("struct trees", itertools.product(trees(), range(4)), within(st))

    # ------------------------------------------------------------ names
    NAMES = ["a", "A b", "a.b", "a-b", "\u00e9", "x" * 60, "1", "a'b", "a_root", "sds", "n#", "a,b", "a=b", "a b c"]

    def names(case, d):
        n1, n2, n3 = case
        ds = rt.Dataset({n1: item("cat", 2), n2: item("int32", 2)})
        p = os.path.join(d, n3)
        rt.save_sds(p, ds)
        mc.eq(norm(rt.load_sds(p)), norm(ds), "column names")
        mc.eq(norm(rt.load_sds(p, include=[n1])), norm(ds[[n1]]), "include named column")
        s = rt.Struct({n1: ds, n2: rt.Struct({n3 + "_": ds, "q": item("cat2", 2)})})
        p2 = os.path.join(d, "st")
        for o in (dict(), dict(onefile=True)):
            s.save(p2 + str(len(o)), **o)
            mc.eq(norm(rt.load_sds(p2 + str(len(o)))), norm(s), f"struct names {o}")

    mc.run("names", ((a, b, c) for a in NAMES for b in NAMES for c in NAMES[: 5 if not T else 15] if a != b), within(names))

    # names that hold the separator of the file format
    BANG = ["a", "a!b", "a!b!c", "!", "a!", "!a", "b"]

    def bang(case, d):
        n1, n2, n3, ks = case
        ds = rt.Dataset({n1: item(ks[0], 2), n2: item(ks[1], 2), n3: item("int32", 2)})
        p = os.path.join(d, "f")
        rt.save_sds(p, ds)
        mc.eq(norm(rt.load_sds(p)), norm(ds), "column names with '!'")
        for o in (dict(), dict(onefile=True)):
            st_ = rt.Struct({n1: item(ks[0], 2), n2: item(ks[1], 3), n3: item("int32", 2)})
            q = os.path.join(d, "s" + str(len(o)))
            st_.save(q, **o)
            mc.eq(norm(rt.load_sds(q)), norm(st_), f"item names with '!' {o}")
        rt.save_sds(p + "2", ds)
        r = rt.load_sds([p + ".sds", p + "2.sds"], stack=True)
        mc.eq({c: vals(r[c]) for c in r}, {c: vals(ds[c]) * 2 for c in ds}, "stacked column names with '!'")
        e = ds[:0, :]
        rt.save_sds(p + "3", e)
        mc.eq(norm(rt.load_sds(p + "3")), norm(e), "empty columns with '!'")
        mc.op(4)

    mc.run("names with the separator", ((a, b, c, k) for a in BANG for b in BANG for c in BANG if len({a, b, c}) == 3 for k in (("cat", "cat"), ("cat", "cat2"), ("cat", "dtn"), ("S", "cat"))), within(bang))

    def nestedbang(case, d):
        ds = rt.Dataset({"x": item("cat", 2), "y": item("int32", 2)})
        st_ = rt.Struct({case: ds, "z": item("int32", 3)})
        q = os.path.join(d, "s")
        try:
            st_.save(q)
            got = norm(rt.load_sds(q))
        except Exception as e:
            got = type(e).__name__
        mc.eq(got, norm(st_), "nested container whose name holds '!'", key="nested container name with '!'")

    mc.run("nested names with the separator", ["a!b", "a!", "!a"], within(nestedbang))

    # ------------------------------------------------------------ labels, sort keys, footers
    def meta(case, d):
        lab, keys, asc, footer, nest = case
        ds = rt.Dataset({"a": FA([3, 1, 2, 1]), "b": FA(["x", "y", "x", "z"]), "c": item("cat", 4)})
        if lab:
            ds.label_set_names(list(lab))
        if keys:
            ds.sort_view(list(keys), ascending=asc)
        if footer:
            ds.footer_set_values("tot", {"a": 6})
        p = os.path.join(d, "f")
        if nest == 0:
            ds.save(p)
            got = rt.load_sds(p)
        elif nest == 1:
            rt.Struct({"n": ds, "o": 1}).save(p)
            got = rt.load_sds(p)["n"]
        else:
            rt.Struct({"n": ds, "o": 1}).save(p, onefile=True)
            got = rt.load_sds(p)["n"]
        mc.eq(norm(got), norm(ds), "labels and columns")
        if nest != 2:
            for c in ds.keys():
                mc.eq(vals(got.get_sorted_col_data(c)), vals(ds.get_sorted_col_data(c)), f"sorted column {c}")
        if nest == 0:
            for inc in (["a"], ["b", "c"], ["c"]):
                g = rt.load_sds(p, include=inc)
                mc.eq([(k, fp(g[k])) for k in g.keys()], [(k, fp(ds[k])) for k in ds.keys() if k in inc], f"include {inc}")

            f = FA([True, False, True, True])
            g = rt.load_sds(p, filter=f)
            mc.eq([(k, fp(g[k])) for k in g.keys()], [(k, fp(ds[f, :][k])) for k in ds.keys()], "filter")
            if keys:
                k2 = ds[f, :]
                k2.sort_view(list(keys), ascending=asc)
                mc.eq(vals(g.get_sorted_col_data("b")), vals(k2.get_sorted_col_data("b")), "sorted column of filtered load")

    def metas():
        for lab in ((), ("a",), ("b", "a")):
            for keys, ascs in (((), (True,)), (("a",), (True, False)), (("b", "a"), (True, False, [True, False], [False, True])), (("c", "a"), (True, [False, True]))):
                for asc in ascs:
                    for footer in (0, 1):
                        for nest in (0, 1, 2):
                            yield lab, keys, asc, footer, nest

    mc.run("labels and sort keys", metas(), within(meta))

    # ------------------------------------------------------------ categorical flags, arrays with their own attributes
    def flags(case, d):
        o, so, lex, n = case
        c = rt.Categorical(FA(np.array(["b", "a", "c", "a"][:n])), ordered=o, sort_gb=so, lex=lex)
        ds = rt.Dataset({"c": c, "v": FA(np.arange(n))})
        p = os.path.join(d, "f")
        for save, get in ((lambda: ds.save(p), lambda: rt.load_sds(p)["c"]), (lambda: rt.save_sds(p, c), lambda: rt.load_sds(p)), (lambda: rt.Struct({"c": c}).save(p), lambda: rt.load_sds(p)["c"])):
            save()
            g = get()
            mc.eq(norm(g), norm(c), "categorical")
            mc.eq([g.ordered, g.sort_gb], [c.ordered, c.sort_gb], "ordered / sort_gb flags")
            v = FA(np.arange(n) * 1.0)
            mc.eq(list(dsvals(g.sum(v)).values()), list(dsvals(c.sum(v)).values()), "group result of loaded categorical")

    mc.run("categorical flags", ((o, so, lex, n) for o in (True, False) for so in (True, False) for lex in (True, False) for n in (1, 2, 3, 4)), within(flags))

    # ------------------------------------------------------------ sizes, bands
    def sizes(case, d):
        n, band, comp = case
        r = np.arange(n)
        ds = rt.Dataset({"i": FA((r * 7) % 1000), "s": FA((r % 13).astype("S2")), "c": rt.Categorical(FA((r % 300).astype("int32"))), "f": FA(r * 0.5), "b": FA(r % 3 == 0), "t": rt.DateTimeNano(r.astype("int64") + 1, from_tz="GMT", to_tz="NYC")})
        p = os.path.join(d, "f")
        rt.save_sds(p, ds, compress=comp, bandsize=band)
        g = rt.load_sds(p)
        for k in ds.keys():
            mc.eq(bool((raw(g[k]) == raw(ds[k])).all()) and len(g[k]) == n and kind(g[k]) == kind(ds[k]), True, f"size {n} column {k}")
        mc.eq(fp(g["c"])[3:], fp(ds["c"])[3:], "categories")
        for m in (FA(r % 2 == 0), FA(r < 3), FA(r >= n - 1), FA(r < 0)):
            g = rt.load_sds(p, filter=m)
            for k in ds.keys():
                mc.eq(bool((raw(g[k]) == raw(ds[k])[np.asarray(m)]).all()) and len(g[k]) == int(m.sum()), True, f"size {n} filtered column {k}")

    SZ = [(n, b, c) for n in (127, 128, 1000, 65535, 65537, 140000) for b in (None, 1000, 50000) for c in (True, False)]
    mc.run("sizes and bands", SZ if not T else SZ + [(1100000, b, c) for b in (None, 100000) for c in (True, False)], within(sizes))
