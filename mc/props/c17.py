"""C17 SDS file histories: overwrite, append, stack and concat compose correctly."""
import builtins, contextlib, io, itertools, os, shutil, warnings
import numpy as np
import riptable as rt
import riptable.rt_sds as sds_mod
from ..model import *
from ..zoo import *

PROPERTY = "C17"


def explore(mc):
    T = mc.thorough
    warnings.simplefilter("ignore")
    FA = rt.FastArray
    root = os.path.join(mc.scratch, f"c17_{mc.shard}_{os.getpid()}")
    os.makedirs(root, exist_ok=True)
    ctr = itertools.count()

    def within(fn):
        def g(case):
            d = os.path.join(root, f"t{next(ctr)}")
            os.mkdir(d)
            try:
                fn(case, d)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        return g

    # ------------------------------------------------------------ expectation of a stack
    def gap(k, n):
        """missing rows of a column kind"""
        z = {"bool": False, "S": "", "U": "", "cat0": ""}.get(k)  # a base-0 Categorical has no missing slot
        return [z] * n

    def stacked_model(parts, kinds):
        """parts: list of {col: list of values} with '#' row count -> ordered {col: values}"""
        cols = []
        for p in parts:
            for c in p:
                if c != "#" and c not in cols:
                    cols.append(c)
        out = {}
        for c in cols:
            v = []
            for p in parts:
                v += p[c] if c in p else gap(kinds[c], p["#"])
            out[c] = v
        return out

    def got_model(ds):
        return {c: vals(ds[c]) for c in ds}

    def check_stack(ds, parts, kinds, what, ctx=None, order=True):
        want = stacked_model(parts, kinds)
        if not mc.eq(type(ds).__name__, "PDataset", what + " type", **(ctx or {})):
            return
        g = got_model(ds)
        if order:
            mc.eq(list(g), list(want), what + " columns", **(ctx or {}))
        for c in want:
            mc.eq(g.get(c), want[c], what + " values", col=c, **(ctx or {}))
        ns = [p["#"] for p in parts]
        mc.eq(ds.get_nrows(), sum(ns), what + " rows", **(ctx or {}))

    # a gap in these kinds is not representable as missing (no missing slot): documented domain restriction
    NOGAP = set()

    # ------------------------------------------------------------ stacks of 2..3 files, every kind, length and gap pattern
    def stacks(case, d):
        k, ns, pres, how = case
        parts, files = [], []
        off = 0
        for i, (n, pr) in enumerate(zip(ns, pres)):
            cols = {}
            if pr:
                cols["x"] = item(k, n, off)
            cols["y"] = FA(np.arange(off, off + n, dtype="int64"))
            ds = rt.Dataset(cols)
            ds.save(os.path.join(d, f"f{i}"))
            files.append(os.path.join(d, f"f{i}"))
            m = {c: vals(v) for c, v in cols.items()}
            m["#"] = n
            parts.append(m)
            off += n
        kinds = {"x": k, "y": "int64"}
        if how == "stack":
            ds = rt.load_sds(files, stack=True)
        elif how == "stack_ext":
            ds = rt.load_sds([f + ".sds" for f in files], stack=True)
        elif how == "threads1":
            ds = rt.load_sds(files, stack=True, threads=1)
        elif how == "include":
            ds = rt.load_sds(files, stack=True, include=["x"])
            parts = [{c: v for c, v in p.items() if c in ("x", "#")} for p in parts]
        elif how in ("concat", "concat_stack"):
            rt.sds_concat([f + ".sds" for f in files], output=os.path.join(d, "o.sds"))
            ds = rt.load_sds(os.path.join(d, "o.sds"), **({"stack": True} if how == "concat_stack" else {}))
        check_stack(ds, parts, kinds, how, {"kind": k, "ns": ns, "pres": pres}, order=False)
        if isinstance(ds, rt.PDataset) and how in ("stack", "stack_ext"):
            for i, p in enumerate(parts):
                sub = ds.partition(i)
                mc.eq(vals(sub.y), p["y"], "partition", i=i, ns=ns, pres=pres)
            mc.eq(list(ds.pcount) if not isinstance(ds.pcount, int) else ds.pcount, len(ns), "pcount")
        # the source files stay as they were
        for f, p in zip(files, parts):
            if how != "include":
                one = rt.load_sds(f)
                mc.eq({c: vals(one[c]) for c in one}, {c: v for c, v in p.items() if c != "#"}, "source file after " + how, kind=k)

    KS = ALL
    def stack_cases():
        hows = ["stack", "stack_ext", "threads1", "include", "concat", "concat_stack"]
        lens = [(1, 1), (2, 1), (1, 2), (0, 2), (2, 0), (2, 1, 2), (1, 0, 2)]
        if T:
            lens += [(0, 0), (0, 1, 0), (3, 2, 1), (1, 1, 1), (4, 4), (2, 2, 2, 2)]
        for k in KS:
            for ns in lens:
                for pres in itertools.product((1, 0), repeat=len(ns)):
                    if not any(pres) or (k in NOGAP and not all(pres)):
                        continue
                    for how in hows:
                        if how == "include" and not any(n for n, p in zip(ns, pres) if p):
                            continue
                        if how == "include" and not all(pres):
                            continue
                        yield k, ns, pres, how

    mc.run("stack_patterns", stack_cases(), within(stacks))

    # ------------------------------------------------------------ width / dtype differences between parts
    def mixed(case, d):
        (ka, kb), ns, how = case
        A = rt.Dataset({"x": mk(ka, ns[0], 0)})
        B = rt.Dataset({"x": mk(kb, ns[1], 1)})
        A.save(d + "/a"); B.save(d + "/b")
        if how == "stack":
            ds = rt.load_sds([d + "/a", d + "/b"], stack=True)
        else:
            rt.sds_concat([d + "/a.sds", d + "/b.sds"], output=d + "/o.sds")
            ds = rt.load_sds(d + "/o.sds", stack=True)
        mc.eq(vals(ds.x), vals(A.x) + vals(B.x), "stack of differing dtypes", ka=ka, kb=kb, ns=ns, how=how)
        two = rt.load_sds([d + "/b", d + "/a"])
        mc.eq([vals(t.x) for t in two], [vals(B.x), vals(A.x)], "list load")

    def mk(k, n, off):
        if k.startswith("S") and k[1:].isdigit():
            w = int(k[1:])
            return FA(np.array([("abcdefgh"[(i + off):] or "z")[:w] for i in range(n)], dtype=k))
        if k.startswith("U") and k[1:].isdigit():
            w = int(k[1:])
            return FA(np.array([("\u00e9\u4e2dbcdef"[(i + off):] or "z")[:w] for i in range(n)], dtype=k), unicode=True)
        if k.startswith("catS"):
            w = int(k[4:])
            return rt.Categorical(FA(np.array([("abcdefgh"[(i + off):] or "z")[:w] for i in range(n)], dtype=f"S{w}")))
        return item(k, n, off)

    MIX = [("S1", "S3"), ("S3", "S1"), ("S2", "S2"), ("U1", "U3"), ("U3", "U1"), ("catS1", "catS3"), ("catS3", "catS1"),
           ("int8", "int32"), ("int32", "int8"), ("int16", "int64"), ("int32", "int64"), ("int64", "int32"), ("uint8", "uint32"), ("float32", "float64"), ("float64", "float32"),
           ("int32", "float64"), ("float64", "int32"), ("int8", "float32"), ("int8", "int16"), ("uint16", "uint64"), ("uint8", "int16"), ("cat", "cat"), ("catf", "catf"), ("cat2", "cat2")]
    mc.run("stack_dtypes", [(m, ns, how) for m in MIX for ns in ((1, 1), (2, 3), (4, 1)) + (((3, 3), (1, 4)) if T else ()) for how in ("stack", "concat")], within(mixed))

    # ------------------------------------------------------------ stacked Categoricals: every pair of category lists
    def cat_stack(case, d):
        la, lb, lc, how = case
        parts = []
        for i, l in enumerate((la, lb, lc)):
            if l is None:
                continue
            rt.Dataset({"c": rt.Categorical(FA(np.array(list(l), dtype="S2"))), "n": FA(np.arange(len(l)))}).save(f"{d}/f{i}")
            parts.append((f"{d}/f{i}", list(l)))
        if how == "stack":
            ds = rt.load_sds([p[0] for p in parts], stack=True)
        else:
            rt.sds_concat([p[0] + ".sds" for p in parts], output=d + "/o.sds")
            ds = rt.load_sds(d + "/o", stack=True)
        allv = sum((p[1] for p in parts), [])
        mc.eq(vals(ds.c), allv, "stacked Categorical", parts=[p[1] for p in parts])
        cats = [x.decode() if isinstance(x, bytes) else str(x) for x in ds.c.category_array]
        mc.eq(sorted(cats), sorted(set(allv)), "stacked categories", parts=[p[1] for p in parts])
        g = ds.c.sum(ds.n)
        want = {}
        for p in parts:
            for i, v in enumerate(p[1]):
                want[v] = want.get(v, 0) + i
        cn, vn = g.label_get_names()[0], "n"
        mc.eq({str(k.decode() if isinstance(k, bytes) else k): int(v) for k, v in sorted(zip(list(g[cn]), list(g[vn])))}, dict(sorted(want.items())), "groups of a stacked Categorical", parts=[p[1] for p in parts])

    W = ["".join(w) for n in (1, 2) for w in itertools.product("ab", repeat=n)] + ["ca", "cb", "bc"]
    def cat_cases():
        for la in W:
            for lb in W:
                for lc in [None] + (W if T else ["c", "ab"]):
                    for how in ("stack", "concat"):
                        yield la, lb, lc, how
    mc.run("stack_categoricals", cat_cases(), within(cat_stack))

    # ------------------------------------------------------------ row filters on single and stacked loads
    def dictsort(x, order):
        return x

    def filt(case, d):
        ns, mask, form, k, inc = case
        parts = []
        off = 0
        for i, n in enumerate(ns):
            ds = rt.Dataset({"x": item(k, n, off), "y": FA(np.arange(off, off + n, dtype="int32"))})
            ds.save(f"{d}/f{i}")
            parts.append(ds)
            off += n
        X = sum((vals(p.x) for p in parts), [])
        Y = sum((vals(p.y) for p in parts), [])
        keep = [i for i, m in enumerate(mask) if m]
        f = FA(np.array(mask, dtype=bool)) if form == "bool" else FA(np.array(keep, dtype=form))
        kw = {"include": ["x"]} if inc else {}
        files = [f"{d}/f{i}" for i in range(len(ns))]
        r = rt.load_sds(files, stack=True, filter=f, **kw) if len(ns) > 1 else rt.load_sds(files[0], filter=f, **kw)
        mc.eq(vals(r.x), [X[i] for i in keep], "filtered load", ns=ns, mask=mask, form=form, kind=k)
        mc.eq(list(r), ["x"] if inc else ["x", "y"], "filtered load columns")
        if not inc:
            mc.eq(vals(r.y), [Y[i] for i in keep], "filtered load y", ns=ns, mask=mask, form=form, kind=k)
        if len(ns) > 1 and isinstance(r, rt.PDataset):
            lo = 0
            for i, n in enumerate(ns):
                want = [Y[j] for j in range(lo, lo + n) if mask[j]]
                if not inc and keep:
                    mc.eq(vals(r.partition(i).y), want, "partition of a filtered stack", ns=ns, mask=mask, form=form, i=i)
                lo += n

    def filt_cases():
        for k in ["int32", "S", "U", "cat", "catf", "dtnNY", "float64", "cat2", "span"] + (ALL if T else []):
            for ns in [(3,), (2, 2), (1, 2, 1)] + ([(4,), (3, 3)] if T else []):
                n = sum(ns)
                for m in masks(n):
                    if not any(m) :
                        continue
                    for form in ["bool", "int32", "int64"]:
                        for inc in (0, 1):
                            if inc and (form != "bool" or k not in ("int32", "S", "cat")):
                                continue
                            if form != "bool" and k not in ("int32", "cat"):
                                continue
                            yield ns, tuple(m), form, k, inc
    mc.run("filters", filt_cases(), within(filt))

    # ------------------------------------------------------------ histories in one directory
    def DS(tag):
        if tag == "A":
            return rt.Dataset({"x": item("int32", 2), "c": item("cat", 2)})
        if tag == "B":
            return rt.Dataset({"x": item("int32", 3, 1), "c": item("cat", 3, 2)})
        if tag == "C":
            return rt.Dataset({"q": FA([1.5, 2.5]), "x": item("int32", 2, 3), "t": item("dtnNY", 2)})
        if tag == "D":
            return rt.Dataset({"q": FA([7.5])})
        if tag == "E":
            return rt.Dataset({"x": item("int32", 0), "c": item("cat", 0)})
        if tag == "S":
            return rt.Struct({"m": item("int64", 2), "k": 7, "w": item("S", 3)})
        if tag == "N":
            return rt.Struct({"a": DS("A"), "b": DS("C"), "v": FA([1, 2, 3])})
        if tag == "N2":
            return rt.Struct({"a": DS("B"), "b": DS("A"), "v": FA([9])})
        if tag == "1":
            return item("float64", 3)
        raise KeyError(tag)

    KCOL = {"x": "int32", "c": "cat", "q": "float64", "t": "dtnNY"}

    class Fault(RuntimeError):
        pass

    @contextlib.contextmanager
    def answers(text):
        old = builtins.input
        builtins.input = lambda *a: text
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                yield
        finally:
            builtins.input = old

    @contextlib.contextmanager
    def failing(k):
        """the k-th file write fails before touching the disk"""
        old = sds_mod.compress_dataset_internal
        cnt = [0]

        def bad(*a, **kw):
            cnt[0] += 1
            if cnt[0] == k:
                raise Fault("injected write failure")
            return old(*a, **kw)
        sds_mod.compress_dataset_internal = bad
        try:
            yield
        finally:
            sds_mod.compress_dataset_internal = old

    ITEMS = {"A": ["x", "c"], "B": ["x", "c"], "C": ["q", "x", "t"], "D": ["q"]}

    def mparts(tags):
        out = []
        for t in tags:
            ds = DS(t)
            m = {c: vals(ds[c]) for c in ds}
            m["#"] = ds.get_nrows()
            out.append(m)
        return out

    FPC = {}

    def FP(t):
        if t not in FPC:
            FPC[t] = fp(DS(t))
        return FPC[t]

    # state: {name: ("one", tag) | ("sec", [(section, tag)...]) | ("cat", [tags])}
    def apply(op, st, d):
        kind_, name = op[0], op[1]
        p = os.path.join(d, name)
        if kind_ == "save":
            x = DS(op[2])
            (rt.save_sds(p, x) if op[2] == "1" else x.save(p))
            st[name] = ("one", op[2])
        elif kind_ == "onefile":
            DS(op[2]).save(p, onefile=True)
            st[name] = ("one", op[2])
        elif kind_ == "raw":
            sds_mod.save_sds_uncompressed(p, DS(op[2]))
            st[name] = ("one", op[2])
        elif kind_ == "refuse":
            with answers("n"):
                DS(op[2]).save(p, overwrite=False)
            if name not in st:
                st[name] = ("one", op[2])
        elif kind_ == "accept":
            with answers("y"):
                DS(op[2]).save(p, overwrite=False)
            st[name] = ("one", op[2])
        elif kind_ == "fault":
            with failing(1):
                try:
                    DS(op[2]).save(p)
                    mc.fail("injected failure was swallowed", op=op)
                except Fault:
                    pass
        elif kind_ == "append":
            DS(op[2]).save(p, append=op[3])
            old = st.get(name)
            if old is None:
                st[name] = ("sec", [(op[3], op[2])])
            elif old[0] == "sec":
                st[name] = ("sec", old[1] + [(op[3], op[2])])
            else:
                st[name] = ("sec", [("0", old[1])] + [(op[3], op[2])])
        elif kind_ == "concat":
            srcs = op[2]
            rt.sds_concat([os.path.join(d, s) + ".sds" for s in srcs], output=p + ".sds")
            tags = []
            for s in srcs:
                tags += flat(st[s])
            st[name] = ("cat", tags)

    def flat(v):
        if v[0] == "one":
            return [v[1]]
        if v[0] == "sec":
            return [t for _, t in v[1]]
        return list(v[1])

    def enabled(op, st):
        if op[0] == "append":
            o = st.get(op[1])
            if o is None:
                return True
            if o[0] == "cat":
                return False
            if o[0] == "one" and (o[1] not in ITEMS):
                return False
            secs = [s for s, _ in o[1]] if o[0] == "sec" else []
            return op[3] not in secs
        if op[0] == "concat":
            return all(s in st and all(t in ITEMS for t in flat(st[s])) for s in op[2])
        return True

    def observe(st, d, hist):
        for name, v in st.items():
            p = os.path.join(d, name)
            if v[0] == "one":
                mc.eq(fp(rt.load_sds(p)), FP(v[1]), "load", hist=hist, name=name)
                if v[1] in ITEMS:
                    inc = ITEMS[v[1]][-1]
                    r = rt.load_sds(p + ".sds", include=[inc])
                    mc.eq((list(r), vals(r[inc])), ([inc], vals(DS(v[1])[inc])), "load include", hist=hist, name=name)
            elif v[0] == "sec":
                tags = [t for _, t in v[1]]
                r = rt.load_sds(p, stack=True)
                if len(tags) > 1:
                    check_stack(r, mparts(tags), KCOL, "stacked sections", {"hist": hist}, order=False)
                    same = len({len(DS(t)) for t in tags}) == 1
                    r = rt.load_sds(p)
                    if isinstance(r, rt.Struct) and not isinstance(r, rt.Dataset):
                        mc.eq(list(r), [s for s, _ in v[1]], "section names", hist=hist)
                        for s, t in v[1]:
                            mc.eq(fp(r[s]), FP(t), "section", hist=hist, section=s)
                    else:
                        mc.op()
                else:
                    mc.eq({c: vals(r[c]) for c in r}, {c: x for c, x in mparts(tags)[0].items() if c != "#"}, "single section", hist=hist)
                    mc.eq(fp(rt.load_sds(p)), FP(tags[0]), "single section load", hist=hist)
            else:
                check_stack(rt.load_sds(p), mparts(v[1]), KCOL, "concatenated file", {"hist": hist}, order=False)
                check_stack(rt.load_sds([p], stack=True), mparts(v[1]), KCOL, "concatenated file, stack=True", {"hist": hist}, order=False)
        ok = [n for n, v in st.items() if v[0] == "one" and v[1] in ITEMS]
        if len(ok) > 1:
            check_stack(rt.load_sds([os.path.join(d, n) for n in ok], stack=True), mparts([st[n][1] for n in ok]), KCOL, "stack of files", {"hist": hist}, order=False)
            l = rt.load_sds([os.path.join(d, n) for n in ok])
            mc.eq([fp(x) for x in l], [FP(st[n][1]) for n in ok], "list of files", hist=hist)
        mc.eq(sorted(os.listdir(d)), sorted(n + ".sds" for n in st), "files in the directory", hist=hist)

    def hist(case, d):
        st = {}
        for op in case:
            if not enabled(op, st):
                mc.op()
                return
            apply(op, st, d)
            mc.op()
            observe(st, d, case)

    OPS = [("save", "p", "A"), ("save", "p", "C"), ("save", "q", "B"), ("raw", "p", "B"), ("save", "p", "S"), ("onefile", "p", "N"), ("save", "p", "1"),
           ("refuse", "p", "C"), ("accept", "p", "B"), ("fault", "p", "B"), ("append", "p", "A", "s1"), ("append", "p", "B", "s2"), ("append", "p", "C", "s3"),
           ("save", "q", "D"), ("concat", "r", ("p", "q")), ("concat", "p", ("q", "q")), ("concat", "r", ("q", "p", "q"))]
    mc.run("histories", (h for n in range(1, 5 if T else 4) for h in itertools.product(OPS, repeat=n)), within(hist))

    # ------------------------------------------------------------ Struct directories: overwrite, faults at every write, refusal, stack, flatten
    def loadstruct(p):
        return fp(rt.load_sds(p))

    def dirs(case, d):
        first, second, how = case
        p = os.path.join(d, "p")
        DS(first).save(p)
        mc.eq(loadstruct(p), FP(first), "saved Struct")
        if how == "again":
            DS(second).save(p)
            mc.eq(loadstruct(p), FP(second), "overwritten Struct", first=first, second=second)
        elif how == "refuse":
            with answers("n"):
                DS(second).save(p, overwrite=False)
            mc.eq(loadstruct(p), FP(first), "refused overwrite of a Struct", first=first)
        elif how == "accept":
            with answers("y"):
                DS(second).save(p, overwrite=False)
            mc.eq(loadstruct(p), FP(second), "accepted overwrite of a Struct", first=first)
        elif how.startswith("fault"):
            k = int(how[5:])
            other = os.path.join(d, "other")
            DS("A").save(other)
            bad = False
            with failing(k):
                try:
                    DS(second).save(p)
                except Fault:
                    bad = True
            mc.eq(loadstruct(other), FP("A"), "file not written to after a fault", k=k)
            r = rt.load_sds(p)
            # each part is old or new, never anything else; with no fault everything is new
            a, b = DS(first), DS(second)
            if not bad:
                mc.eq(fp(r), FP(second), "no fault at this point", k=k)
            else:
                for n in a:
                    mc.eq(fp(r[n]) in (fp(a[n]), fp(b[n])), True, "part of a Struct after a failed overwrite is old or new", k=k, part=n)
            DS(second).save(p)
            mc.eq(loadstruct(p), FP(second), "retry after a fault", k=k)
        elif how == "stack":
            DS(second).save(os.path.join(d, "p2"))
            r = rt.load_sds([p, os.path.join(d, "p2")], stack=True, folders=["a", "b"])
            mc.eq(list(r), ["a", "b"], "stacked directories")
            for n in ("a", "b"):
                want = {}
                check_stack(r[n], [dict({c: vals(x[n][c]) for c in x[n]}, **{"#": x[n].get_nrows()}) for x in (DS(first), DS(second))], KCOL, "stacked directory item", {"item": n}, order=False)
            r2 = rt.load_sds([p, os.path.join(d, "p2")], stack=True, include=["b"])
            mc.eq(fp(r2["b"]), fp(r["b"]), "stacked directories, include")
        elif how == "onefile_stack":
            DS(first).save(os.path.join(d, "o1"), onefile=True)
            DS(second).save(os.path.join(d, "o2"), onefile=True)
            for n in ("a", "b") if first == second else ("a",):  # riptide_cpp does not fill gaps of one-file parts
                r = rt.load_sds([os.path.join(d, "o1"), os.path.join(d, "o2")], stack=True, folders=[n])
                check_stack(r[n], [dict({c: vals(x[n][c]) for c in x[n]}, **{"#": x[n].get_nrows()}) for x in (DS(first), DS(second))], KCOL, "stacked onefile item", {"item": n}, order=False)
                mc.eq(fp(rt.load_sds(os.path.join(d, "o1"), folders=[n + "/"])), fp(DS(first)[n]), "onefile folder", item=n)
        elif how == "part":
            # loading or rewriting one part in place
            mc.eq(fp(rt.load_sds(os.path.join(p, "a"))), fp(DS(first)["a"]), "one part of a directory")
            DS(second)["a"].save(os.path.join(p, "a"))
            r = rt.load_sds(p)
            mc.eq(fp(r["a"]), fp(DS(second)["a"]), "rewritten part")
            mc.eq(fp(r["b"]), fp(DS(first)["b"]), "untouched part")
        elif how == "file_and_dir":
            # p.sds next to directory p: each name loads its own data
            DS("A").save(os.path.join(d, "p.sds"))
            mc.eq(fp(rt.load_sds(os.path.join(d, "p.sds"))), FP("A"), "file next to a directory of the same name")
            mc.eq(fp(rt.load_sds(p)), FP(first), "directory next to a file of the same name")

    HOWS = ["again", "refuse", "accept", "stack", "onefile_stack", "part", "file_and_dir"] + [f"fault{k}" for k in range(1, 6)]
    mc.run("struct_directories", [(a, b, h) for a in ("N", "N2") for b in ("N", "N2") for h in HOWS], within(dirs))

    def flatten(case, d):
        a, b = case
        S = rt.Struct({"r": FA([1, 2]), "s": rt.Struct({"p": DS(a), "q": DS(b)}), "u": rt.Struct({"z": FA([5]), "w": rt.Struct({"k": DS(a)})})})
        p = os.path.join(d, "tree")
        os.makedirs(p)
        # build a nested tree of directories: the layout sds_flatten exists for
        rt.save_sds(os.path.join(p, "top"), DS(a))
        os.makedirs(os.path.join(p, "sub"))
        DS(b).save(os.path.join(p, "sub", "inner"))
        before = {"top": fp(rt.load_sds(os.path.join(p, "top"))), "inner": fp(rt.load_sds(os.path.join(p, "sub", "inner")))}
        with contextlib.redirect_stdout(io.StringIO()):
            rt.sds_flatten(p)
        mc.eq(sorted(os.listdir(p)), ["sub!inner.sds", "top.sds"], "files after sds_flatten")
        mc.eq(fp(rt.load_sds(os.path.join(p, "top"))), before["top"], "flattened top")
        mc.eq(fp(rt.load_sds(os.path.join(p, "sub!inner"))), before["inner"], "flattened inner")

    mc.run("flatten", itertools.product("ABC", repeat=2), within(flatten))

    # ------------------------------------------------------------ refused and failing calls leave everything as it was
    def refused(case, d):
        what = case
        DS("A").save(d + "/p")
        DS("B").save(d + "/q")
        before = {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d))}
        try:
            if what == "concat-missing-output":
                mc.raises(lambda: rt.sds_concat([d + "/p.sds", d + "/q.sds"]), what, ValueError)
            elif what == "load-missing":
                mc.raises(lambda: rt.load_sds(d + "/nope"), what, Exception)
            elif what == "load-missing-list":
                mc.raises(lambda: rt.load_sds([d + "/p", d + "/nope"], mustexist=True), what, Exception)
            elif what == "stack-missing":
                mc.raises(lambda: rt.load_sds([d + "/p", d + "/nope"], stack=True, mustexist=True), what, Exception)
            elif what == "stack-skip":
                r = rt.load_sds([d + "/p", d + "/nope", d + "/q"], stack=True)
                check_stack(r, mparts("AB"), KCOL, "missing file skipped", order=False)
            elif what == "save-bad":
                mc.raises(lambda: rt.save_sds(d + "/p", 7), what, Exception)
            elif what == "save-bad-kw":
                mc.raises(lambda: rt.save_sds(d + "/p", DS("B"), onefile=True, append="s", nosuch=1), what, Exception)
            elif what == "info-stack":
                mc.raises(lambda: rt.load_sds([d + "/p", d + "/q"], stack=True, info=True), what, ValueError)
            elif what == "reserve":
                mc.raises(lambda: rt.load_sds(d + "/p", stack=False, reserve=0.5), what, ValueError)
            elif what == "makedirs":
                old = os.makedirs
                try:
                    def bad(*a, **k):
                        raise PermissionError("injected")
                    os.makedirs = bad
                    try:
                        DS("N").save(d + "/newdir")
                    except Exception:
                        pass
                finally:
                    os.makedirs = old
            elif what == "dir-vs-file":
                os.makedirs(d + "/z.sds")
                try:
                    DS("A").save(d + "/z")
                except Exception:
                    pass
                mc.eq(os.listdir(d + "/z.sds"), [], "directory named like a file stays empty")
                os.rmdir(d + "/z.sds")
        finally:
            after = {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f))}
            mc.eq(sorted(after), sorted(before), "files after " + what)
            mc.eq([f for f in before if after.get(f) != before[f]], [], "bytes of files after " + what)
            mc.eq(fp(rt.load_sds(d + "/p")), FP("A"), "data after " + what)

    mc.run("refused_calls", ["concat-missing-output", "load-missing", "load-missing-list", "stack-missing", "stack-skip", "save-bad", "save-bad-kw", "info-stack", "reserve", "makedirs", "dir-vs-file"], within(refused))

    shutil.rmtree(root, ignore_errors=True)
