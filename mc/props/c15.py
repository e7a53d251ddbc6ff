"""C15 Concatenation preserves every row and fills only the gaps."""
import itertools, warnings
import numpy as np
import riptable as rt
from ..model import *
from ..zoo import *

PROPERTY = "C15"


def explore(mc):
    T = mc.thorough
    warnings.simplefilter("ignore")
    FA = rt.FastArray

    def num(x):
        return None if x is None else (float(x) if isinstance(x, (int, float, bool)) else x)

    # ------------------------------------------------------------ arrays: every dtype pair
    def pair(case):
        ka, kb, na, nb, how = case
        a, b = item(ka, na), item(kb, nb, 1)
        want = vals(a) + vals(b)
        if how == "hstack":
            r = rt.hstack([a, b])
        elif how == "tuple":
            r = rt.hstack((a, b))
        elif how == "hstack_any":
            r = rt.hstack_any([a, b]) if hasattr(rt, "hstack_any") else rt.stack_rows([a, b])
        elif how == "stack_rows":
            r = rt.stack_rows([a, b])
        elif how == "concatenate":
            r = rt.concatenate([a, b])
        g = vals(r)
        same = ka == kb
        if same:
            mc.eq(g, want, "stacked array", a=ka, b=kb, how=how)
            mc.eq(kind(r), kind(a), "kind of stacked array", a=ka)
            if ka not in CATS and ka not in ("S", "U"):
                mc.eq(str(r.dtype), str(a.dtype), "dtype of stacked array", a=ka)
        else:
            mc.eq([num(x) for x in g], [num(x) for x in want], "stacked arrays of two dtypes", a=ka, b=kb, how=how)
        mc.eq(vals(a), vals(item(ka, na)), "first input after stacking")
        mc.eq(vals(b), vals(item(kb, nb, 1)), "second input after stacking")
        mc.observe((ka, kb, str(r.dtype)))

    def pair_cases():
        NUM = INTS + FLTS + ["bool"]
        lens = [(2, 2), (1, 2), (0, 2), (3, 0), (4, 3)] + ([(0, 0), (1, 1), (4, 4)] if T else [])
        for na, nb in lens:
            for ka, kb in itertools.product(NUM, NUM):
                for how in ("hstack", "tuple", "stack_rows"):
                    yield ka, kb, na, nb, how
                if ka == kb:
                    yield ka, kb, na, nb, "concatenate"
            for ka, kb in itertools.product(("S", "U"), repeat=2):
                for how in ("hstack", "stack_rows"):
                    yield ka, kb, na, nb, how
            for k in CATS + TIMES:
                if na == 0 or nb == 0:
                    if k in ("cat2",):
                        continue
                for how in ("hstack", "stack_rows", "tuple"):
                    yield k, k, na, nb, how

    mc.run("array_pairs", pair_cases(), pair)

    # widths of strings
    def widths(case):
        (ka, wa), (kb, wb), n = case
        a = FA(np.array(["abcdef"[:wa], "x"[:wa], ""][:n], dtype=f"{ka}{wa}"), unicode=(ka == "U"))
        b = FA(np.array(["ghijkl"[:wb], "", "y"[:wb]][:n], dtype=f"{kb}{wb}"), unicode=(kb == "U"))
        r = rt.hstack([a, b])
        mc.eq(vals(r), vals(a) + vals(b), "strings of different widths")
        ds = rt.Dataset.concat_rows([rt.Dataset({"x": a}), rt.Dataset({"x": b})])
        mc.eq(vals(ds.x), vals(a) + vals(b), "string columns of different widths")

    mc.run("string_widths", itertools.product(itertools.product("SU", (1, 2, 5)), itertools.product("SU", (1, 2, 5)), (1, 2, 3)), widths)

    # three arrays at once
    def triple(case):
        ks = case
        xs = [item(k, 2, i) for i, k in enumerate(ks)]
        r = rt.hstack(xs)
        mc.eq([num(x) for x in vals(r)], [num(v) for x in xs for v in vals(x)], "three dtypes", ks=ks)

    mc.run("array_triples", itertools.product(["int8", "int32", "int64", "uint8", "uint32", "float32", "float64", "bool"], repeat=3), triple)

    def extreme(case):
        ka, kb = case
        a = FA(np.array([np.iinfo(ka).max - (ka[0] == "u"), np.iinfo(ka).min + (ka[0] == "i")], dtype=ka))
        b = FA(np.array([np.iinfo(kb).max - (kb[0] == "u"), np.iinfo(kb).min + (kb[0] == "i")], dtype=kb))
        r = rt.hstack([a, b])
        w = a.tolist() + b.tolist()
        if {ka, kb} & {"uint64"} and {ka, kb} & {"int8", "int16", "int32", "int64"}:
            w = [float(x) for x in w]     # no integer type holds both: documented float64
        mc.eq(r.tolist(), w, "extreme integers", ka=ka, kb=kb)

    mc.run("extreme_integers", itertools.product(INTS, INTS), extreme)

    # ------------------------------------------------------------ Categoricals
    def cat_of(l, mode):
        """l over 'abc' and '.', which is a filtered row"""
        if mode == "str":
            return rt.Categorical(FA(np.array([x if x != "." else "a" for x in l], dtype="S2")), filter=FA(np.array([x != "." for x in l])))
        if mode == "uni":
            return rt.Categorical(FA(np.array([{"a": "\u00e9", "b": "b", "c": "\u4e2d", ".": "b"}[x] for x in l], dtype="U2"), unicode=True), filter=FA(np.array([x != "." for x in l])), unicode=True)
        if mode == "unsorted":
            u = []
            for x in l:
                if x != "." and x not in u:
                    u.append(x)
            u = u + ["zz"]
            return rt.Categorical(FA(np.array([u.index(x) + 1 if x != "." else 0 for x in l], dtype="int8")), FA(u))
        if mode == "base0":
            u = sorted({x for x in l}) or ["a"]
            return rt.Categorical(FA(np.array([u.index(x) for x in l], dtype="int8")), FA(u), base_index=0)
        if mode == "num":
            return rt.Categorical(FA(np.array([{"a": 30, "b": 10, "c": 20, ".": 10}[x] for x in l], dtype="int32")), filter=FA(np.array([x != "." for x in l])))
        if mode == "flt":
            return rt.Categorical(FA(np.array([{"a": 3.5, "b": 1.5, "c": 2.5, ".": 1.5}[x] for x in l], dtype="float64")), filter=FA(np.array([x != "." for x in l])))
        if mode == "multi":
            return rt.Categorical([FA(np.array([x if x != "." else "a" for x in l], dtype="S1")), FA(np.array([ord(x) % 2 for x in l], dtype="int8"))], filter=FA(np.array([x != "." for x in l])))
        if mode == "map":
            return rt.Categorical(FA(np.array([{"a": 5, "b": 9, "c": 7}[x] for x in l], dtype="int32")), {"lo": 5, "hi": 9, "md": 7} if "c" in l else {"lo": 5, "hi": 9})
        if mode == "unord":
            return rt.Categorical(FA(np.array([x if x != "." else "a" for x in l], dtype="S2")), ordered=False, filter=FA(np.array([x != "." for x in l])))

    def cats(case):
        mode, ls, how = case
        xs = [cat_of(l, mode) for l in ls]
        before = [fp(x) for x in xs]
        want = [v for x in xs for v in vals(x)]
        if how == "hstack":
            r = rt.hstack(xs)
        elif how == "cls":
            r = rt.Categorical.hstack(xs)
        else:
            r = rt.Dataset.concat_rows([rt.Dataset({"c": x, "n": FA(np.arange(len(x)))}) for x in xs]).c
        mc.eq(vals(r), want, "stacked Categorical", mode=mode, ls=ls, how=how)
        mc.eq([fp(x) for x in xs], before, "inputs of a stacked Categorical", mode=mode)
        mc.eq(int(r.base_index) if r.base_index is not None else None, int(xs[0].base_index) if xs[0].base_index is not None else None, "base index")
        # usable as a key: counts per label
        cnt = {}
        for v in want:
            if v is not None:
                cnt[v] = cnt.get(v, 0) + 1
        if mode not in ("map",):
            d = r.category_dict
            labs = [vals(v) for v in d.values()]
            labs = labs[0] if len(labs) == 1 else list(zip(*labs))
            mc.eq(len(set(labs)), len(labs), "categories are distinct", mode=mode, ls=ls)
            ng = r.grouping.ncountgroup if hasattr(r.grouping, "ncountgroup") else None
            c = r.count()
            nm = c.label_get_names()
            got = {}
            cols = [vals(c[x]) for x in nm]
            for i, v in enumerate(vals(c["Count"])):
                key = cols[0][i] if len(cols) == 1 else tuple(cc[i] for cc in cols)
                if v:
                    got[key] = v
            mc.eq(sorted(got.items(), key=repr), sorted(cnt.items(), key=repr), "counts of a stacked Categorical", mode=mode, ls=ls)
        mc.observe((mode, str(r.dtype), len(cnt)))

    def cat_cases():
        for mode in ("str", "uni", "unsorted", "base0", "num", "flt", "multi", "map", "unord"):
            al = "abc." if mode not in ("base0", "map") else "abc"
            W = ["".join(w) for n in (1, 2) for w in itertools.product(al, repeat=n)]
            for la, lb in itertools.product(W, W):
                if mode != "unsorted" and (set(la) <= {"."} or set(lb) <= {"."}) and mode not in ("base0", "map"):
                    continue
                for how in ("hstack", "cls", "concat_rows") if T else ("hstack", "concat_rows"):
                    yield mode, (la, lb), how
            W3 = ["a", "ba", "c", "bc"] + (["ab", "cb", "cc"] if T else [])
            for ls in itertools.product(W3, repeat=3):
                yield mode, ls, "hstack"

    mc.run("categoricals", cat_cases(), cats)

    # category counts across the code-width thresholds
    def cat_width(case):
        na, nb, ov, base, form = case
        la = [f"k{i:06d}" for i in range(na)]
        lb = [f"k{i:06d}" for i in range(na - ov, na - ov + nb)]
        if form == "num":
            A, B = np.arange(na), np.arange(na - ov, na - ov + nb)
        else:
            A, B = np.array(la, dtype="S7"), np.array(lb, dtype="S7")
        if base == 1:
            a, b = rt.Categorical(FA(A)), rt.Categorical(FA(B[::-1].copy()))
        else:
            a, b = rt.Categorical(FA(np.arange(na)), FA(A), base_index=0), rt.Categorical(FA(np.arange(nb)[::-1].copy()), FA(B), base_index=0)
        r = rt.hstack([a, b, a])
        want = np.concatenate([A, B[::-1], A])
        mc.eq(bool((np.asarray(r.expand_array) == want).all()), True, "labels of a wide stacked Categorical", na=na, nb=nb, ov=ov, base=base)
        mc.eq(len(r.category_array), na + nb - ov, "number of categories", na=na, nb=nb, ov=ov, base=base)

    TH = [99, 100, 101, 126, 127, 128, 129] + ([255, 256, 32766, 32767, 32768] if T else [32767])
    mc.run("code_widths", ((na, nb, ov, base, form) for na in TH for nb in (1, 27, 28, 29, 130) for ov in (0, 1) for base in (1, 0) for form in ("str", "num")), cat_width)

    # ------------------------------------------------------------ rows of Datasets: presence patterns
    GAPS = {"bool": False, "S": "", "U": ""}

    def rows(case):
        k, ns, pres, pres2, destroy = case
        parts, ds_list = [], []
        off = 0
        for n, p, p2 in zip(ns, pres, pres2):
            cols = {}
            if p2 == 2:
                cols["y"] = FA(np.arange(off, off + n, dtype="int16"))
            if p:
                cols["x"] = item(k, n, off)
            if p2 == 1:
                cols["y"] = FA(np.arange(off, off + n, dtype="int16"))
            if not cols:
                cols["z"] = FA(np.arange(n, dtype="float32"))
            ds_list.append(rt.Dataset(cols))
            parts.append(({c: vals(v) for c, v in cols.items()}, n))
            off += n
        names = []
        for p, n in parts:
            for c in p:
                if c not in names:
                    names.append(c)
        before = [fp(d) for d in ds_list]
        r = rt.Dataset.concat_rows(ds_list, destroy=True) if destroy else rt.Dataset.concat_rows(ds_list)
        mc.eq(list(r), names, "columns", ns=ns)
        mc.eq(r.get_nrows(), sum(ns), "rows", ns=ns)
        for c in names:
            w = []
            for p, n in parts:
                w += p[c] if c in p else [GAPS.get(k if c == "x" else "") if not (k == "m2" and c == "x") else [None, None]] * n
            mc.eq(vals(r[c]), w, "concatenated column", col=c, kind=k, ns=ns, pres=pres)
        if "x" in r:
            mc.eq(kind(r.x), kind(item(k, 1)), "column kind", kind=k)
            if k not in CATS:
                mc.eq(str(r.x.dtype), str(item(k, 1).dtype), "column dtype", kind=k)
        if not destroy:
            mc.eq([fp(d) for d in ds_list], before, "inputs of concat_rows", kind=k)

    def row_cases():
        lens = [(1, 1), (2, 1), (2, 3), (0, 2), (2, 0), (2, 1, 2)] + ([(1, 0, 2), (3, 2, 1), (1, 1, 1)] if T else [])
        for k in ALL + ["c128", "m2", "strided", "rev"]:
            for ns in lens:
                for pres in itertools.product((1, 0), repeat=len(ns)):
                    if not any(pres):
                        continue
                    gapped = not all(pres)
                    if gapped and k in ("cat0", "catmap", "c128"):
                        continue
                    if k == "cat2" and 0 in ns:
                        continue
                    for pres2 in ([(1,) * len(ns), (0,) * (len(ns) - 1) + (1,), (2,) + (1,) * (len(ns) - 1)]):
                        for destroy in (0, 1):
                            if destroy and pres2[0] != 1:
                                continue
                            yield k, ns, pres, pres2, destroy

    mc.run("dataset_rows", row_cases(), rows)

    # columns of two dtypes with gaps
    def rowmix(case):
        ka, kb, pat = case
        dss, want = [], []
        for i, p in enumerate(pat):
            if p == "a":
                x = item(ka, 2, i)
            elif p == "b":
                x = item(kb, 2, i)
            else:
                x = None
            d = {"y": FA([i, i])}
            if x is not None:
                d["x"] = x
                want += vals(x)
            else:
                want += [None, None]
            dss.append(rt.Dataset(d))
        r = rt.Dataset.concat_rows(dss)
        mc.eq([num(v) for v in vals(r.x)], [num(v) for v in want], "column of two dtypes with gaps", ka=ka, kb=kb, pat=pat)

    mc.run("dataset_rows_dtypes", ((a, b, p) for a in INTS + FLTS for b in INTS + FLTS for p in itertools.product("ab-", repeat=3) if set(p) >= {"a", "b"} and not ("-" in p and (a in ("uint64",) or b in ("uint64",)) and a != b and (a in INTS and b in INTS and a[0] != b[0]))), rowmix)

    # the same rule through Dataset.hstack / rt.stack_rows / rt.hstack, several Datasets
    def hows(case):
        how, n = case
        dss = [rt.Dataset({"a": FA([i, i + 1]), "s": FA([f"s{i}", "t"]), "c": rt.Categorical([f"s{i}", "t"]), "d": rt.Date([i * 40 + 1, i + 2])}) for i in range(n)]
        f = {"cr": rt.Dataset.concat_rows, "hs": rt.Dataset.hstack, "sr": rt.stack_rows, "rh": rt.hstack}[how]
        r = f(dss)
        for c in ("a", "s", "c", "d"):
            mc.eq(vals(r[c]), [v for d in dss for v in vals(d[c])], "stack of Datasets", how=how, n=n, col=c)
        mc.eq(type(r).__name__, "Dataset", "type")

    mc.run("dataset_stack_functions", itertools.product(("cr", "hs", "sr", "rh"), (1, 2, 3, 5, 40)), hows)

    # ------------------------------------------------------------ columns of Datasets
    def columns(case):
        na, nb, dup, mis, cp = case
        A = rt.Dataset({c: FA([ord(c), 1]) for c in na})
        B = rt.Dataset({c: FA([ord(c) + 100, 2]) for c in nb})
        dups = [c for c in nb if c in na]
        f = lambda: rt.Dataset.concat_columns([A, B], do_copy=cp, on_duplicate=dup, on_mismatch=mis)
        if dups and dup == "raise":
            mc.raises(f, "duplicate column", KeyError)
            return
        if dups and mis == "raise":
            mc.raises(f, "duplicate column, on_mismatch=raise", RuntimeError)
            return
        r = f()
        want = {c: vals(A[c]) for c in na}
        for c in nb:
            if c not in want or dup == "last":
                want[c] = vals(B[c])
        mc.eq({c: vals(r[c]) for c in r}, want, "concat_columns", na=na, nb=nb, dup=dup)
        for c in r:
            if cp:
                r[c][0] = -1
        mc.eq({c: vals(A[c]) for c in A}, {c: [ord(c), 1] for c in na}, "first input")
        mc.eq({c: vals(B[c]) for c in B}, {c: [ord(c) + 100, 2] for c in nb}, "second input")

    SETS = ["a", "ab", "ba", "bc", "c", "abc"]
    mc.run("dataset_columns", itertools.product(SETS, SETS, ("raise", "first", "last"), ("raise", "warn", "ignore"), (True, False)), columns)

    def columns_bad(case):
        n, m = case
        A, B = rt.Dataset({"a": FA(np.arange(n))}), rt.Dataset({"b": FA(np.arange(m))})
        if n != m:
            mc.raises(lambda: rt.Dataset.concat_columns([A, B], do_copy=True), "row count mismatch", ValueError)
        else:
            r = rt.Dataset.concat_columns([A, B], do_copy=True)
            mc.eq((list(r), vals(r.a), vals(r.b)), (["a", "b"], list(range(n)), list(range(m))), "concat_columns")

    mc.run("dataset_columns_lengths", itertools.product(range(4), repeat=2), columns_bad)

    def columns_kinds(case):
        k, n = case
        A, B = rt.Dataset({"a": item(k, n)}), {"b": item(k, n, 1)}
        for second in (rt.Dataset(B), B):
            r = rt.Dataset.concat_columns([A, second], do_copy=True)
            mc.eq((vals(r.a), vals(r.b), kind(r.b)), (vals(A.a), vals(B["b"]), kind(B["b"])), "concat_columns of kinds", kind=k)

    mc.run("dataset_columns_kinds", itertools.product(ALL, (1, 3)), columns_kinds)

    # ------------------------------------------------------------ Structs
    def structs(case):
        k, pat, how = case
        ss, want, nested = [], {}, []
        order = []
        for i, p in enumerate(pat):
            s = rt.Struct()
            for c in p:
                if c == "n":
                    s["n"] = rt.Struct({"u": FA([i]), "w": item("cat", 2, i)})
                    want.setdefault("n", []).append(i)
                elif c == "d":
                    s["d"] = rt.Dataset({"q": FA([i, i + 1]), "x": item(k, 2, i)})
                    want.setdefault("d", []).append(i)
                elif c == "k":
                    s["k"] = i
                    want.setdefault("k", []).append(i)
                else:
                    s[c] = item(k, 2, i)
                    want.setdefault(c, []).extend(vals(item(k, 2, i)))
                if c not in order:
                    order.append(c)
            ss.append(s)
        before = [fp(s) for s in ss]
        r = rt.Struct.concat_structs(ss) if how == "concat" else (rt.Struct.hstack(ss) if how == "hstack" else rt.hstack(ss))
        mc.eq(list(r), order, "items of concatenated Structs", pat=pat)
        for c in order:
            if c == "n":
                mc.eq(vals(r.n.u), want["n"], "nested Struct", pat=pat)
                mc.eq(vals(r.n.w), [v for i in want["n"] for v in vals(item("cat", 2, i))], "nested Categorical", pat=pat)
            elif c == "d":
                mc.eq(vals(r.d.q), [v for i in want["d"] for v in (i, i + 1)], "nested Dataset", pat=pat)
                mc.eq(vals(r.d.x), [v for i in want["d"] for v in vals(item(k, 2, i))], "nested Dataset column", pat=pat)
            else:
                mc.eq(vals(r[c]), want[c], "item of concatenated Structs", col=c, kind=k, pat=pat)
        mc.eq([fp(s) for s in ss], before, "inputs of concat_structs", kind=k)

    PS = ["a", "ab", "ba", "an", "ad", "nda", "ak", "k", "dn"]
    mc.run("structs", ((k, p, h) for k in ["int32", "S", "cat", "dtnNY", "date", "float64", "span", "dspan", "catnum", "bool", "U", "m2"] for p in list(itertools.product(PS, PS)) + [("a", "ab", "an"), ("dn", "dn", "dn")] for h in ("concat", "hstack", "rt")), structs)

    # ------------------------------------------------------------ dictionaries: the array and where each row came from
    def dct(case):
        k, ns = case
        d = {f"n{i}": item(k, n, i) for i, n in enumerate(ns)}
        a, c = rt.stack_rows(d)
        mc.eq(vals(a), [v for x in d.values() for v in vals(x)], "stacked dictionary", kind=k, ns=ns)
        mc.eq(vals(c), [nm for nm, x in d.items() for _ in range(len(x))], "origin of each row", kind=k, ns=ns)

    mc.run("dictionaries", ((k, ns) for k in ["int32", "float64", "S", "cat", "date", "dtn", "catf", "bool"] for m in (1, 2, 3) for ns in itertools.product((1, 2, 3), repeat=m)), dct)

    # ------------------------------------------------------------ refused mixtures
    def refused(case):
        a, b = case
        x, y = item(a, 2), item(b, 2)
        A, B = rt.Dataset({"x": x}), rt.Dataset({"x": y})
        fa, fb = fp(A), fp(B)
        try:
            r = rt.Dataset.concat_rows([A, B])
            mc.eq(vals(r.x), vals(x) + vals(y), "mixture accepted", a=a, b=b)
        except (TypeError, ValueError, NotImplementedError):
            pass
        mc.eq((fp(A), fp(B)), (fa, fb), "inputs after a refused stack", a=a, b=b)

    mc.run("refused", [(a, b) for a in ("dtn", "dtnNY", "date", "span", "cat", "cat0", "cat2", "int32", "m2") for b in ("dtn", "dtnNY", "date", "span", "cat", "cat0", "cat2", "int32", "m2") if a != b], refused)

    # vstack
    def vst(case):
        ka, kb, n = case
        a, b = item(ka, n), item(kb, n, 1)
        r = rt.vstack([a, b])
        mc.eq(r.shape, (2, n), "vstack shape")
        mc.eq([[num(v) for v in vals(FA(np.asarray(r)[i]))] for i in range(2)], [[num(v) for v in vals(a)], [num(v) for v in vals(b)]], "vstack", ka=ka, kb=kb)

    mc.run("vstack", itertools.product(INTS + FLTS, INTS + FLTS, (1, 2, 4)), vst)
