"""C27 Partitioned and nested Datasets stay consistent with their flat content."""
import contextlib, io, itertools, logging, os, shutil, warnings
import numpy as np
import riptable as rt
from ..model import *
from ..zoo import item

PROPERTY = "C27"
warnings.simplefilter("ignore")
logging.disable(logging.WARNING)
FA = rt.FastArray
COLS = {"i": "int32", "f": "float64", "s": "S", "c": "cat", "t": "dtn", "u": "U"}


def mk(cols, n, off):
    """a Dataset of n rows whose columns are the kinds of COLS, plus a row id"""
    d = {"id": FA(np.arange(n, dtype="int64") + 100 * off)}
    for c in cols:
        d[c] = item(COLS[c], n, off)
    return rt.Dataset(d)


def rows_of(ds):
    return {k: vals(ds[k]) for k in ds.keys()}


GAP = {"s": "", "u": ""}


def stacked(dss):
    """what stacking must hold: every cell, missing where a table lacks the column"""
    names = list(dict.fromkeys(k for d in dss for k in d.keys()))
    return {k: [v for d in dss for v in (vals(d[k]) if k in d else [GAP.get(k)] * len(d["id"]))] for k in names}


def explore(mc):
    T = mc.thorough

    def same(got, want, what, key, **ctx):
        mc.eq(sorted(got), sorted(want), what + ": columns", key=key + "-names", **ctx)
        for k in want:
            mc.eq(got[k], want[k], what, key=key, col=k, **ctx)

    # ------------------------------------------------------------ everything a PDataset says about its partitions
    def consistent(p, want, ns, names, tag):
        cut = list(itertools.accumulate(ns))
        mc.op(12)
        same(rows_of(p), want, "flat content of the PDataset", f"{tag}-flat")
        mc.eq(list(p.shape), [cut[-1], len(want)], "shape", key=f"{tag}-shape")
        mc.eq([int(x) for x in p.pcutoffs], cut, "pcutoffs", key=f"{tag}-cut")
        mc.eq([int(x) for x in p.prows], list(ns), "prows", key=f"{tag}-prows")
        mc.eq(p.pcount, len(ns), "pcount", key=f"{tag}-pcount")
        mc.eq(list(p.pnames), list(names), "pnames", key=f"{tag}-pnames")
        sl = [(a, b) for a, b in zip([0] + cut[:-1], cut)]
        mc.eq([(int(s.start), int(s.stop)) for s in p.pslices], sl, "pslices", key=f"{tag}-slices")
        mc.eq([(k, (int(s.start), int(s.stop))) for k, s in p.pdict.items()], list(zip(names, sl)), "pdict", key=f"{tag}-pdict")
        got = list(p.piter)
        mc.eq([g[0] for g in got], list(names), "piter names", key=f"{tag}-piter")
        for j, (nm, (a, b)) in enumerate(zip(names, sl)):
            w = {k: v[a:b] for k, v in want.items()}
            for how, d in (("piter", got[j][1]), ("partition", p.partition(j)), ("by name", p.partition(nm)), ("getitem", p[nm])):
                mc.eq(type(d) is rt.Dataset, True, "a partition is a Dataset", key=f"{tag}-ptype", how=how)
                same(rows_of(d), w, "rows of a partition", f"{tag}-part", how=how, j=j)
            mc.eq((int(p.pslice(j).start), int(p.pslice(j).stop)), (a, b), "pslice", key=f"{tag}-pslice")
        if cut[-1]:
            pc = p.pcat
            mc.eq(vals(pc), [nm for nm, n in zip(names, ns) for _ in range(n)], "pcat labels each row with its partition", key=f"{tag}-pcat")
            mc.eq(list(plain(pc.category_array)), list(names), "pcat lists the partitions", key=f"{tag}-pcatn")

    # ------------------------------------------------------------ construction from lists of Datasets
    CSETS = [c for r in range(0, 3) for c in itertools.combinations("ifsct", r)]

    def pspace():
        for k in (1, 2, 3):
            for ns in itertools.product(range(4) if T or k < 3 else range(3), repeat=k):
                if k < 3 or T:
                    pats = itertools.product([(), ("i",), ("i", "s"), ("f", "c"), ("t", "u", "c"), ("s", "f")], repeat=k)
                else:
                    pats = itertools.product([("i", "s"), ("f", "c"), ("t", "i")], repeat=k)
                for pat in pats:
                    yield ns, pat

    def prun(case):
        ns, pat = case
        dss = [mk(c, n, j) for j, (n, c) in enumerate(zip(ns, pat))]
        want = stacked(dss)
        before = [rows_of(d) for d in dss]
        k = len(ns)
        for how in range(3):
            if how == 0:
                p, names = rt.PDataset(list(dss)), [f"p{j}" for j in range(k)]
            elif how == 1:
                names = ["2019020%d" % (j + 3) for j in range(k)]
                p = rt.PDataset(list(dss), filenames=[f"/x/data{nm}.sds" for nm in names])
            else:
                names = ["first", "zz", "id"][:k] if False else ["first", "zz", "mid"][:k]
                p = rt.PDataset(list(dss), pnames=list(names))
            consistent(p, want, ns, names, f"pl{how}")
            if how:
                continue
            # copies and column selections stay partitioned, row selections are plain
            for deep in (True, False):
                consistent(p.copy(deep=deep), want, ns, names, "pcopy")
            cs = list(want)
            consistent(p[cs[::-1][:2]], {c: want[c] for c in cs[::-1][:2]}, ns, names, "pcols")
            N = sum(ns)
            if N:
                m = [i % 2 == 0 for i in range(N)]
                d = p[FA(m), :]
                mc.eq(type(d) is rt.Dataset, True, "a row selection is a plain Dataset", key="prow-type")
                same(rows_of(d), {c: [v for v, f in zip(want[c], m) if f] for c in want}, "row mask of a PDataset", "prow-mask")
                same(rows_of(p[1:, :]), {c: want[c][1:] for c in want}, "row slice of a PDataset", "prow-slice")
                same(rows_of(p.filter(FA(m))), {c: [v for v, f in zip(want[c], m) if f] for c in want}, "filter of a PDataset", "prow-filter")
                same(rows_of(p.head(2)), {c: want[c][:2] for c in want}, "head of a PDataset", "prow-head")
                same(rows_of(p.tail(2)), {c: want[c][-2:] for c in want}, "tail of a PDataset", "prow-tail")
                same(rows_of(p.sort_copy("id", ascending=False)), {c: want[c][::-1] for c in want}, "sort_copy of a PDataset", "prow-sort") if len(set(want["id"])) == N and sorted(want["id"]) == want["id"] else None
            mc.eq([rows_of(d) for d in dss], before, "the stacked Datasets are unchanged", key="pl-src")

    mc.run("plists", pspace(), prun)

    # ------------------------------------------------------------ per-partition groupings
    def gspace():
        for k in (1, 2, 3):
            for ns in itertools.product(range(4), repeat=k):
                if sum(ns):
                    for kk in ("a", "b", "d", "s"):
                        yield ns, kk

    KEYS = {"a": [1, 2], "b": [5], "d": [2, 1, 1, 3], "s": ["y", "x", "", "y"]}

    def grun(case):
        ns, kk = case
        dss = []
        o = 0
        for n in ns:
            ks = [KEYS[kk][(o + i) % len(KEYS[kk])] for i in range(n)]
            dss.append(rt.Dataset({"k": FA(np.array(ks, dtype="S1" if kk == "s" else "int64")), "v": FA(np.arange(o, o + n, dtype="int64") + 1), "w": FA(np.arange(n) + 0.5)}))
            o += n
        p = rt.PDataset(dss)
        names = list(p.pnames)
        pc = p.pcat
        N = sum(ns)
        part = [j for j, n in enumerate(ns) for _ in range(n)]
        V = list(range(1, N + 1))
        r = p.pcat.sum(p.v) if False else rt.Dataset({"g": pc, "v": p.v}).gb("g").sum()
        mc.op()
        mc.eq(dict(zip(vals(r["g"]), vals(r["v"]))), {nm: sum(v for v, j in zip(V, part) if j == q) for q, nm in enumerate(names) if ns[q] or nm in vals(r["g"])}, "sum by partition", key="pg-cat")
        q = p.copy()
        g = q.igroupby()
        res = g.sum()
        mc.op(3)
        mc.eq(q.keys()[0], "Partition", "igroupby adds the Partition column first", key="pg-icol")
        gd = dict(zip(vals(res["Partition"]), vals(res["v"])))
        mc.eq({x: gd.get(x) for x, n in zip(names, ns) if n}, {nm: sum(v for v, j in zip(V, part) if j == i) for i, nm in enumerate(names) if ns[i]}, "igroupby sum", key="pg-isum")
        mc.eq("Partition" in p, False, "the copied PDataset's source keeps its columns", key="pg-src")
        # grouping separately inside every partition
        for srt in (True,):
            gp = p.pgb("k")
            mc.op()
            ik = [int(x) for x in gp.grouping.ikey]
            K = vals(p["k"])
            first = {}
            for i in range(N):
                for j in range(i):
                    if part[i] == part[j]:
                        mc.eq(ik[i] == ik[j], K[i] == K[j], "rows of one partition share a bin iff they share the key", key="pg-bins", i=i, j=j)

    mc.run("pgroups", gspace(), grun)

    # ------------------------------------------------------------ histories
    def oset(p, m, st):
        p["new"] = FA(np.arange(m["n"], dtype="int32"))
        m["d"]["new"] = list(range(m["n"]))

    def oren(p, m, st):
        if "i" in m["d"]:
            p.col_rename("i", "renamed")
            m["d"] = {("renamed" if k == "i" else k): v for k, v in m["d"].items()}

    def odel(p, m, st):
        if "s" in m["d"]:
            del p["s"]
            del m["d"]["s"]

    def opn(p, m, st):
        m["names"] = [f"N{st}{j}" for j in range(len(m["ns"]))]
        mc.eq(p.set_pnames(list(m["names"])), m["names"], "set_pnames answers the new names", key="h-spn")

    def ocell(p, m, st):
        if m["n"]:
            p[m["n"] - 1, "id"] = -5 - st
            m["d"]["id"][-1] = -5 - st

    def opcat(p, m, st):
        if m["n"]:
            p.pcat

    def oigb(p, m, st):
        if m["n"] and "Partition" not in m["d"]:
            p.igroupby()
            m["d"] = {"Partition": [nm for nm, n in zip(m["names"], m["ns"]) for _ in range(n)], **m["d"]}

    def orepr(p, m, st):
        t = repr(p)
        if m["n"] and len(m["d"]) < 7:
            for nm, n in zip(m["names"], m["ns"]):
                mc.eq((nm in t), True if n else nm in t, "the display names each partition", key="h-repr")

    def ocopy(p, m, st):
        q = p.copy()
        q.set_pnames([f"C{j}" for j in range(len(m["ns"]))])
        q["id"][:] = -77
        if m["n"]:
            q.pcat

    def oshow(p, m, st):
        p.showpartitions(False)
        repr(p)
        p.showpartitions(True)

    def opart(p, m, st):
        """a deep copy of a partition can be edited without touching the rest"""
        d = p.partition(0).copy()
        if len(d["id"]):
            d[0, "id"] = -99

    def oview(p, m, st):
        """a partition is a view of the rows"""
        if m["ns"][-1]:
            p.partition(len(m["ns"]) - 1)["id"][0] = 999 + st
            m["d"]["id"][m["n"] - m["ns"][-1]] = 999 + st

    HOPS = [oset, oren, odel, opn, ocell, opcat, oigb, orepr, ocopy, oshow, opart, oview]

    def hspace():
        for seq in itertools.chain.from_iterable(itertools.product(range(len(HOPS)), repeat=d) for d in ((1, 2, 3, 4) if T else (1, 2, 3))):
            for ns in ((2, 1), (0, 2, 1)) if len(seq) < 4 else ((2, 1),):
                yield seq, ns

    def hrun(case):
        seq, ns = case
        dss = [mk(("i", "s"), n, j) for j, n in enumerate(ns)]
        p = rt.PDataset(list(dss))
        m = {"d": stacked(dss), "names": [f"p{j}" for j in range(len(ns))], "ns": ns, "n": sum(ns)}
        for st, o in enumerate(seq):
            HOPS[o](p, m, st)
            mc.op()
        consistent(p, m["d"], ns, m["names"], "h")
        mc.eq(list(p.keys()), list(m["d"]), "column order", key="h-order")

    mc.run("phistories", hspace(), hrun)

    # ------------------------------------------------------------ files
    def fspace():
        for k in (1, 2, 3):
            for ns in itertools.product((0, 1, 3) if k < 3 else (0, 2), repeat=k):
                for style in range(6):
                    yield ns, style

    def frun(case):
        ns, style = case
        d = os.path.join(mc.scratch, f"c27files{mc.shard}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            fmt = ["d%d.sds", "2019020%d.sds", "x/2020010%d/y.sds", "data_%d_v2.sds", "%d/part.sds", "ab%dc.sds"][style]
            paths = [os.path.join(d, fmt % (j + 1)) for j in range(len(ns))]
            dss = []
            for j, (n, pth) in enumerate(zip(ns, paths)):
                os.makedirs(os.path.dirname(pth), exist_ok=True)
                x = mk(("i", "s", "f"), n, j)
                x.save(pth)
                dss.append(x)
            want = stacked(dss)
            if any(ns):
                for how in range(3):
                    if how == 0:
                        p = rt.load_sds(paths, stack=True)
                    elif how == 1:
                        p = rt.PDataset(list(paths))
                    else:
                        p = rt.PDataset(list(paths), pnames=[f"q{j}" for j in range(len(ns))])
                    mc.op()
                    nm = list(p.pnames)
                    mc.eq((len(set(nm)), len(nm)), (len(ns), len(ns)), "partition names are unique and one per file", key="f-unique")
                    if how == 2:
                        mc.eq(nm, [f"q{j}" for j in range(len(ns))], "given partition names", key="f-given")
                    elif nm != [f"p{j}" for j in range(len(ns))]:
                        mc.eq([x in q for x, q in zip(nm, paths)], [True] * len(ns), "each partition is named after its own file", key="f-named", nm=nm)
                        if style == 1 and len(ns) > 1:
                            mc.eq(nm, [f"2019020{j + 1}" for j in range(len(ns))], "partitions named by date", key="f-date")
                    consistent(p, want, ns, nm, f"f{how}")
            if style == 1 and any(ns):
                p = rt.PDataset.pload(os.path.join(d, "{}.sds"), "20190201", 20190200 + len(ns))
                mc.op()
                consistent(p, want, ns, list(p.pnames), "fpload")
                p = rt.PDataset.pload(os.path.join(d, "{}.sds"), 20190201, "20190200" if False else str(20190200 + len(ns)), include=["id"])
                mc.eq(vals(p["id"]), want["id"], "pload of one column", key="f-inc")
            if style == 2 and any(ns):
                p = rt.PDataset.pload(os.path.join(d, "x/{}/y.sds"), 20200101, 20200100 + len(ns))
                mc.op()
                consistent(p, want, ns, list(p.pnames), "fpload2")
            # saving a PDataset keeps its rows
            if any(ns):
                q = os.path.join(d, "out.sds")
                p.save(q)
                r = rt.load_sds(q)
                mc.eq(rows_of(r), rows_of(p), "a saved PDataset loads back with all its rows", key="f-save")
        finally:
            shutil.rmtree(d, ignore_errors=True)

    mc.run("pfiles", fspace(), frun)

    # ------------------------------------------------------------ Multiset: building blocks
    def leaf(cols, n, off, lab=False):
        ds = mk([c for c in cols], n, off)
        if lab:
            ds.label_set_names(["id"])
        return ds

    def build(tree, n, lab=False, off=None):
        """tree: ("D", cols) or ("M", [(name, tree)..]) -> (object, model {path: {col: values}})"""
        off = off if off is not None else [0]
        if tree[0] == "D":
            off[0] += 1
            ds = leaf(tree[1], n, off[0] % 3 if not lab else 0, lab)
            return ds, {(): rows_of(ds)}
        obj, mod = {}, {}
        for nm, t in tree[1]:
            o, m = build(t, n, lab, off)
            obj[nm] = o
            for pth, v in m.items():
                mod[(nm,) + pth] = v
        return rt.Multiset(obj), mod

    LEAVES = [("D", ("i",)), ("D", ("i", "s")), ("D", ("f", "c")), ("D", ())]
    SUB = [("M", [("p", LEAVES[0])]), ("M", [("p", LEAVES[1]), ("q", LEAVES[1])]), ("M", [("p", LEAVES[0]), ("q", LEAVES[2])])]
    DEEP = [("M", [("z", SUB[1]), ("y", LEAVES[1])])]

    def trees():
        parts = LEAVES + SUB + DEEP
        for k in (1, 2, 3):
            for combo in itertools.product(range(len(parts)), repeat=k):
                if k == 3 and not T and (sum(combo) * 7 + combo[0]) % 3 and max(combo) > 5:
                    continue
                yield ("M", [(nm, parts[c]) for nm, c in zip(("a", "bb", "e"), combo)])

    def flat_h(mod, delim="_"):
        return {delim.join(pth + (c,)): v for pth, d in mod.items() for c, v in d.items()}

    def content(ms):
        """{path: columns} actually held"""
        out = {}
        for k in ms.keys():
            v = ms[k] if not isinstance(ms, rt.Multiset) else ms.col_get_value(k)
            if isinstance(v, rt.Multiset):
                for pth, d in content(v).items():
                    out[(k,) + pth] = d
            else:
                out[(k,)] = rows_of(v)
        return out

    def mspace():
        for t in trees():
            for n in (1, 2, 3) if T else (1, 3):
                yield t, n

    def mrun(case):
        t, n = case
        ms, mod = build(t, n)
        mc.op()
        mc.eq(content(ms), mod, "a Multiset holds its members", key="ms-in")
        mc.eq(len(ms), n, "a Multiset's length is its row count", key="ms-len")
        for dl in ("_", "."):
            f = ms.flatten(delimiter=dl)
            mc.op()
            mc.eq(type(f) is rt.Dataset, True, "flatten answers a Dataset", key="ms-ftype")
            mc.eq(rows_of(f), flat_h(mod, dl), "horizontal flattening holds every cell under its path", key="ms-flat", dl=dl)
        mc.eq(content(ms), mod, "flatten leaves the Multiset alone", key="ms-fsrc")
        # vertical flattening needs equal columns
        colsets = {tuple(d) for d in mod.values()}
        if len(colsets) == 1:
            f = ms.flatten(horizontal=False, dset_col_name="Src")
            mc.op()
            want = {"Src": ["_".join(pth) for pth in mod for _ in range(n)]}
            for c in next(iter(mod.values())):
                want[c] = [v for d in mod.values() for v in d[c]]
            got = rows_of(f)
            same(got, want, "vertical flattening stacks every member", "ms-vert")
            mc.eq(content(ms), mod, "vertical flatten leaves the Multiset alone", key="ms-vsrc")
        # copies
        for deep in (True, False):
            c = ms.copy(deep=deep)
            mc.op()
            mc.eq(content(c), mod, "copy of a Multiset", key="ms-copy", deep=deep)
        c = ms.copy(deep=True)

        def scribble(x):
            for k in list(x.keys()):
                v = x.col_get_value(k)
                if isinstance(v, rt.Multiset):
                    scribble(v)
                elif n:
                    v["id"][:] = -1
                    v["extra"] = FA(np.arange(n))

        scribble(c)
        mc.eq(content(ms), mod, "editing a deep copy leaves the source alone", key="ms-deep")
        # row selections
        for rs, f in (("mask", FA([i % 2 == 0 for i in range(n)])), ("list", [n - 1, 0]), ("slice", slice(1, None)), ("int", 0)):
            g = ms[f, :]
            mc.op()
            idx = [i for i in range(n) if i % 2 == 0] if rs == "mask" else ([n - 1, 0] if rs == "list" else (list(range(1, n)) if rs == "slice" else [0]))
            mc.eq(content(g), {pth: {c: [v[i] for i in idx] for c, v in d.items()} for pth, d in mod.items()}, "row selection of a Multiset", key="ms-rows", rs=rs)
        # members and sub-columns
        for nm in {pth[0] for pth in mod}:
            x = ms[nm]
            if isinstance(x, rt.Multiset):
                mc.eq(content(x), {pth[1:]: d for pth, d in mod.items() if pth[0] == nm}, "member Multiset", key="ms-mem")
                y = ms[[n - 1], nm]
                mc.eq(content(y), {pth[1:]: {c: v[-1:] for c, v in d.items()} for pth, d in mod.items() if pth[0] == nm}, "rows of a member Multiset", key="ms-memr")
            else:
                mc.eq(rows_of(x), mod[(nm,)], "member Dataset", key="ms-mem")
                mc.eq(rows_of(ms[[n - 1], nm]), {c: v[-1:] for c, v in mod[(nm,)].items()}, "rows of a member", key="ms-memr")
            mc.op(2)
        for c in ("id", "i", "s", "f"):
            have = {pth: d[c] for pth, d in mod.items() if c in d}
            if have:
                g = ms[c]
                mc.op()
                mc.eq(content(g), {pth: {c: v} for pth, v in have.items()}, "a column name collects that column of every member", key="ms-sub", c=c)
            else:
                mc.raises(lambda: ms[c], "an unknown name is refused", (IndexError, KeyError))
        if all(len(p) == 1 for p in mod):  # nested members have no display of their own
            s = str(ms)
            mc.eq(len(s) > 0, True, "display", key="ms-str")
            for pth in mod:
                mc.eq(pth[0] in s, True, "display shows the member name", key="ms-strn")

    mc.run("multisets", mspace(), mrun)

    # ------------------------------------------------------------ cascaded operations
    CASC = {
        "sum": ((), {}), "nansum": ((), {}), "mean": ((), {}), "min": ((), {}), "nanmax": ((), {}), "max": ((), {}), "std": ((), {}), "nanvar": ((), {}), "abs": ((), {}), "fillna": ((9,), {}), "sort_copy": (("id",), {"ascending": False}), "astype": (("float64",), {}), "keep": ((lambda x: x > 0,), {}), "describe": ((), {}), "apply": ((lambda x: x,), {}), "apply_cols": ((rt.nansum,), {}), "nanmean": ((), {}), "nanmin": ((), {}), "nanstd": ((), {}), "var": ((), {}), "all": ((), {}), "any": ((), {}), "quantile": ((0.5,), {}),
    }

    def cspace():
        lv = [("D", ("i",)), ("D", ("i", "f")), ("D", ())]
        sub = [("M", [("p", lv[0]), ("q", lv[1])])]
        for fn in CASC:
            for k in (1, 2, 3):
                for combo in itertools.product(range(4), repeat=k):
                    for n in (1, 2, 4):
                        yield fn, ("M", [(nm, (lv + sub)[c]) for nm, c in zip(("a", "bb", "e"), combo)]), n

    def crun(case):
        fn, t, n = case
        args, kw = CASC[fn]
        ms, mod = build(t, n)

        def each(x):
            out = {}
            for k in x.keys():
                v = x.col_get_value(k)
                if isinstance(v, rt.Multiset):
                    for pth, d in each(v).items():
                        out[(k,) + pth] = d
                else:
                    r = getattr(v.copy(), fn)(*args, **kw)
                    if not isinstance(r, rt.Dataset):
                        return None
                    out[(k,)] = rows_of(r)
            return out

        try:
            want = each(ms)
        except Exception as e:
            mc.observe((fn, type(e).__name__))
            return
        if want is None or len({len(next(iter(d.values()))) for d in want.values() if d}) > 1 or any(not d for d in want.values()):
            mc.observe((fn, "not a Dataset per member"))
            return
        if fn in ("fillna",):
            ms2 = ms.copy()
        else:
            ms2 = ms
        if any(len(p) > 1 for p in mod):
            # nested members: the function is applied to the nested Multiset by name
            g = rt.Multiset({k: (getattr(ms2.col_get_value(k), fn)(*args, **kw)) for k in ms2.keys()})
        else:
            g = getattr(ms2, fn)(*args, **kw)
        mc.op()
        mc.eq(content(g), want, "a cascaded operation is the operation on each member", key=f"casc-{fn}")
        if fn not in ("fillna",):
            mc.eq(content(ms), mod, "cascade leaves the source alone", key=f"cascs-{fn}")
        if all(len(p) == 1 for p in mod):
            g = ms2.cascade(lambda d, *a, **k: getattr(d.copy(), fn)(*a, **k), *args, **kw)
            mc.eq(content(g), want, "cascade of a callable", key=f"cascc-{fn}")

    mc.run("cascade", cspace(), crun)

    # ------------------------------------------------------------ Multiset histories
    def aset(ms, m, st):
        d = mk(("f",), m["n"], 2)
        ms[f"n{st}"] = d
        m["d"][(f"n{st}",)] = rows_of(d)

    def arep(ms, m, st):
        d = mk(("s",), m["n"], 1)
        ms["a"] = d
        m["d"] = {k: (rows_of(d) if k == ("a",) else v) for k, v in m["d"].items()} if ("a",) in m["d"] else {**m["d"], ("a",): rows_of(d)}

    def adel(ms, m, st):
        if ("bb",) in m["d"]:
            del ms["bb"]
            del m["d"][("bb",)]

    def abad(ms, m, st):
        mc.raises(lambda: ms.__setitem__("bad", mk(("f",), m["n"] + 1, 2)), "a member with another row count is refused", ValueError)
        mc.raises(lambda: ms.__setitem__("bad", FA([1, 2])), "a member that is no Dataset is refused", TypeError)

    def amem(ms, m, st):
        if ("a",) in m["d"]:
            ms["a"]["w"] = FA(np.arange(m["n"]) + st)
            m["d"][("a",)]["w"] = [i + st for i in range(m["n"])]

    def acop(ms, m, st):
        c = ms.copy()
        c["zz"] = mk((), m["n"], 0)
        c["c1"]["id"][:] = -3

    def ashal(ms, m, st):
        c = ms.copy(deep=False)
        c["zz"] = mk((), m["n"], 0)

    def arows(ms, m, st):
        ms[[0], :]

    def aflat(ms, m, st):
        f = ms.flatten()
        f["a_id"] = FA(np.zeros(m["n"], dtype="int64"))

    def aren(ms, m, st):
        if ("bb",) in m["d"]:
            ms.col_rename("bb", "cc")
            m["d"] = {(("cc",) if k == ("bb",) else k): v for k, v in m["d"].items()}

    def aget(ms, m, st):
        g = ms.multiget(["id"])
        mc.eq(content(g), {k: {"id": d["id"]} for k, d in m["d"].items()}, "multiget", key="mh-mget")
        g = ms.multiget(["i", "s"])
        mc.eq(content(g), {k: {c: d[c] for c in ("i", "s") if c in d} for k, d in m["d"].items() if "i" in d or "s" in d}, "multiget of several", key="mh-mget2")

    AOPS = [aset, arep, adel, abad, amem, acop, ashal, arows, aflat, aren, aget]

    def ahspace():
        for d in (1, 2, 3, 4) if T else (1, 2, 3):
            for seq in itertools.product(range(len(AOPS)), repeat=d):
                for n in (1, 2) if d < 4 else (2,):
                    yield seq, n

    def ahrun(case):
        seq, n = case
        ds = {"a": mk(("i",), n, 0), "bb": mk(("i", "s"), n, 1), "c1": mk(("f",), n, 2)}
        ms = rt.Multiset(ds)
        m = {"n": n, "d": {(k,): rows_of(v) for k, v in ds.items()}}
        for st, o in enumerate(seq):
            AOPS[o](ms, m, st)
            mc.op()
        mc.eq(content(ms), m["d"], "content after the history", key="mh-content")
        mc.eq(rows_of(ms.flatten()), flat_h(m["d"]), "flattening after the history", key="mh-flat")
        mc.eq(list(ms.keys()), [k[0] for k in m["d"]], "member order", key="mh-order")

    mc.run("mshistories", ahspace(), ahrun)

    # ------------------------------------------------------------ labels and mismatches in flattening
    def lspace():
        for n in (1, 2, 3):
            for cols in itertools.product([("i",), ("i", "s")], repeat=2):
                for labs in itertools.product((0, 1), repeat=2):
                    for hor in (True, False):
                        yield n, cols, labs, hor

    def lrun(case):
        n, cols, labs, hor = case
        dss = [leaf(c, n, 0, bool(l)) for c, l in zip(cols, labs)]
        ms = rt.Multiset({"x": dss[0], "y": dss[1]})
        mc.op()
        if labs[0] != labs[1] or (not hor and cols[0] != cols[1]):
            mc.raises(lambda: ms.flatten(horizontal=hor), "members with other labels/columns are refused", ValueError)
            return
        f = ms.flatten(horizontal=hor)
        lab = ["id"] if labs[0] else []
        mc.eq(list(f.label_get_names()), lab, "flatten keeps the labels", key="lab-names")
        R = [rows_of(d) for d in dss]
        if hor:
            want = {c: R[0][c] for c in lab}
            for nm, r in zip("xy", R):
                want.update({f"{nm}_{c}": v for c, v in r.items() if c not in lab})
        else:
            want = {c: R[0][c] + R[1][c] for c in R[0]}
            want["Column"] = ["x"] * n + ["y"] * n
        same(rows_of(f), want, "flattening with labels", "lab-cells")

    mc.run("labels", lspace(), lrun)
