"""C06 Membership, uniqueness and search functions agree with set semantics."""
import bisect, itertools, warnings
import numpy as np
import riptable as rt
from ..model import *
from ..zoo import *

PROPERTY = "C06"


def explore(mc):
    T = mc.thorough
    warnings.simplefilter("ignore")
    FA = rt.FastArray

    def fnd(a, b, eq=lambda x, y: x == y):
        """model of ismember on lists: (mask, first position or None)"""
        m, ix = [], []
        for x in a:
            p = next((j for j, y in enumerate(b) if eq(x, y)), None)
            m.append(p is not None)
            ix.append(p)
        return m, ix

    def mk(l, k, lay="c"):
        if k == "S":
            a = np.array(l, dtype="S3")
        elif k == "U":
            a = np.array(l, dtype="U3")
        else:
            a = np.asarray(arr(l, k))
        if lay == "strided":
            b = np.empty(2 * len(a), dtype=a.dtype)
            b[::2] = a
            b[1::2] = a[::-1]
            return FA(b, unicode=(k == "U"))[::2]
        if lay == "rev":
            return FA(a[::-1].copy(), unicode=(k == "U"))[::-1]
        return FA(a, unicode=(k == "U"))

    AL = {}
    for t in INTS:
        AL[t] = [1, None, 3]
    for t in FLTS:
        AL[t] = [1.0, None, 2.5]
    AL["S"] = ["a", "", "ab"]
    AL["U"] = ["a", "", "\u4e2d"]
    ISF = set(FLTS)

    def eqv(ka, kb):
        def e(x, y):
            if x is None or y is None:
                # an integer sentinel is found in an integer haystack; NaN is never found
                return x is None and y is None and ka not in ISF and kb not in ISF
            return x == y
        return e

    # ------------------------------------------------------------ ismember, single key
    def ism(case):
        ka, kb, la, lb, laya, layb, kw = case
        a, b = mk(la, ka, laya), mk(lb, kb, layb)
        m, ix = fnd(la, lb, eqv(ka, kb))
        r = rt.ismember(a, b, **kw)
        mc.eq((vals(r[0]), vals(r[1])), (m, ix), "ismember", ka=ka, kb=kb, la=la, lb=lb, lay=(laya, layb))
        mc.eq((vals(a), vals(b)), (list(la), list(lb)), "inputs of ismember")
        mc.eq(vals(rt.assoc_index(a, b)), ix, "assoc_index", la=la, lb=lb)
        if list(lb) != [None]:
            mc.eq(vals(a.isin(b)), fnd(la, lb, eqv(ka, kb))[0], "isin", ka=ka, kb=kb, la=la, lb=lb)
        mc.observe((ka, kb, tuple(m)))

    def ism_cases():
        NUM = INTS + FLTS
        for ka, kb in itertools.product(NUM, NUM):
            A = [l for n in (0, 1, 2) for l in itertools.product(AL[ka], repeat=n)]
            B = [l for n in (0, 1, 2) for l in itertools.product(AL[kb], repeat=n)]
            for la in A[3::1] if ka != kb else A:
                for lb in B[3::2] if ka != kb and not T else B:
                    if "uint64" in (ka, kb) and ka[0] != kb[0] and (set(la) == {None} or set(lb) == {None}):
                        continue  # refused: no lossless common type
                    yield ka, kb, la, lb, "c", "c", {}
        for k in NUM + ["S", "U"]:
            n = 3
            for la in itertools.product(AL[k], repeat=3):
                for lb in itertools.product(AL[k], repeat=3):
                    yield k, k, la, lb, "c", "c", {}
            for la in itertools.product(AL[k][:2], repeat=3):
                for lb in itertools.product(AL[k][:2] + AL[k][2:], repeat=2):
                    for lays in (("strided", "c"), ("c", "strided"), ("rev", "c"), ("c", "rev"), ("rev", "strided"), ("strided", "strided")):
                        yield (k, k, la, lb) + lays + ({},)
                    yield k, k, la, lb, "c", "c", {"h": 1}
                    yield k, k, la, lb, "c", "c", {"hint_size": 64}
        for ka, kb in (("S", "U"), ("U", "S")):
            for la in itertools.product(AL[ka], repeat=2):
                for lb in itertools.product(AL[kb], repeat=2):
                    yield ka, kb, la, lb, "c", "c", {}

    mc.run("ismember", ism_cases(), ism)

    # values near the limits of each integer type against every other integer type
    def lim(case):
        ka, kb = case
        def edge(k):
            i = np.iinfo(k)
            return [i.max - 1, i.min + 1, i.max if k[0] == "i" else i.min, 0, 1, 127, 100]
        la, lb = edge(ka), edge(kb)
        if ({ka, kb} & {"uint64"}) and ka[0] != kb[0]:
            return        # no common integer type
        if ({ka, kb} <= {"int64", "uint64"}) and ka != kb:
            return
        m, ix = fnd(la, lb)
        r = rt.ismember(FA(np.array(la, dtype=ka)), FA(np.array(lb, dtype=kb)))
        mc.eq((vals(r[0]), vals(r[1])), (m, ix), "ismember at the integer limits", ka=ka, kb=kb)
        r = rt.ismember([FA(np.array(la, dtype=ka))] * 2, [FA(np.array(lb, dtype=kb))] * 2)
        mc.eq((vals(r[0]), vals(r[1])), (m, ix), "multi-key ismember at the integer limits", ka=ka, kb=kb)

    mc.run("ismember_limits", itertools.product(INTS, INTS), lim)

    # ------------------------------------------------------------ ismember, several keys
    def ism2(case):
        ks, A, B, form, lay = case
        la, lb = list(zip(*A)) or [()] * len(ks), list(zip(*B)) or [()] * len(ks)
        ac = [mk(l, k, lay) for l, k in zip(la, ks)]
        bc = [mk(l, k, lay) for l, k in zip(lb, ks)]
        if form == "cat":
            ac[0], bc[0] = rt.Categorical(ac[0]), rt.Categorical(bc[0])
        if form == "tuple":
            ac, bc = tuple(ac), tuple(bc)
        if form == "ds":
            ac, bc = rt.Dataset({f"x{i}": c for i, c in enumerate(ac)}), rt.Dataset({f"y{i}": c for i, c in enumerate(bc)})
        r = rt.ismember(ac, bc)
        m, ix = fnd(A, B)
        mc.eq((vals(r[0]), vals(r[1])), (m, ix), "multi-key ismember", ks=ks, A=A, B=B, form=form, lay=lay)

    def ism2_cases():
        for ks in [("int32", "S"), ("S", "int8"), ("int64", "int64"), ("U", "uint16"), ("float64", "int32"), ("int8", "S", "U")]:
            rows = list(itertools.product(*[[AL[k][0], AL[k][2]] for k in ks]))[: (4 if len(ks) == 2 else 5)]
            S = [s for n in range(0, 4) for s in itertools.product(rows, repeat=n)]
            for A in S:
                for B in (S if T else S[:1] + S[1::3]):
                    if not A or not B:
                        if ks[0] == "float64" or not A:
                            continue
                    yield ks, A, B, "list", "c"
            for A in itertools.product(rows[:3], repeat=2):
                for B in itertools.product(rows, repeat=2):
                    for form in ("tuple", "ds", "cat"):
                        if form == "cat" and ks[0] == "float64":
                            continue
                        yield ks, A, B, form, "c"
                    for lay in ("strided", "rev"):
                        yield ks, A, B, "list", lay

    mc.run("ismember_multikey", ism2_cases(), ism2)

    # ------------------------------------------------------------ ismember of Categoricals
    def cat_of(l, mode):
        if mode == "str":
            return rt.Categorical(FA(np.array(list(l), dtype="S2")))
        if mode == "uni":
            return rt.Categorical(FA(np.array([{"a": "\u00e9", "b": "b", "c": "\u4e2d"}[x] for x in l], dtype="U2"), unicode=True), unicode=True)
        if mode == "codes":
            u = ["c", "zz", "a", "b"]
            return rt.Categorical(FA(np.array([u.index(x) + 1 if x != "." else 0 for x in l], dtype="int8")), FA(u))
        if mode == "base0":
            u = ["c", "zz", "a", "b"]
            return rt.Categorical(FA(np.array([u.index(x) for x in l], dtype="int8")), FA(u), base_index=0)
        if mode == "num":
            return rt.Categorical(FA(np.array([{"a": 30, "b": 10, "c": 20}[x] for x in l], dtype="int32")))
        if mode == "multi":
            return rt.Categorical([FA(np.array(list(l), dtype="S1")), FA(np.array([ord(x) % 2 for x in l], dtype="int8"))])
        if mode == "sliced":
            return rt.Categorical(FA(np.array(list("b" + l + "b"), dtype="S2")))[1:-1]
        if mode == "stepped":
            return rt.Categorical(FA(np.array([y for x in l for y in (x, "b")], dtype="S2")))[::2]

    def ismc(case):
        ma, mb, la, lb = case
        a = cat_of(la, ma)
        b = cat_of(lb, mb) if mb != "arr" else (FA(np.array(list(lb), dtype="S3")) if ma != "num" else FA(np.array([{"a": 30, "b": 10, "c": 20}[x] for x in lb], dtype="int64")))
        va, vb = vals(a), vals(b)
        m, ix = fnd(va, vb, lambda x, y: x is not None and x == y)
        r = rt.ismember(a, b)
        mc.eq((vals(r[0]), vals(r[1])), (m, ix), "ismember of Categoricals", ma=ma, mb=mb, la=la, lb=lb)
        if mb == "arr":
            r = rt.ismember(b, a)
            m2, ix2 = fnd(vb, va)
            mc.eq((vals(r[0]), vals(r[1])), (m2, ix2), "ismember of an array in a Categorical", ma=ma, la=la, lb=lb)
        if mb == "arr" and ma not in ("codes",):
            mc.eq(vals(a.isin(b)), m, "Categorical.isin", ma=ma, la=la, lb=lb)
            mc.eq(vals(a.isin(list(vb))), m, "Categorical.isin list", ma=ma, la=la, lb=lb)
            mc.eq(vals(a.isin(set(vb))), m, "Categorical.isin set", ma=ma, la=la, lb=lb)
            if len(set(vb)) == 1:
                mc.eq(vals(a.isin(vb[0])), m, "Categorical.isin scalar", ma=ma, la=la, lb=lb)

    def ismc_cases():
        W = {m: ["".join(w) for n in (1, 2, 3) for w in itertools.product("abc" if m != "codes" else "ab.", repeat=n)] for m in ("str", "uni", "codes", "base0", "num", "multi", "sliced", "stepped")}
        for ma, mb in [("str", "str"), ("str", "codes"), ("codes", "str"), ("codes", "codes"), ("base0", "base0"), ("base0", "str"), ("str", "base0"), ("num", "num"), ("multi", "multi"), ("str", "arr"), ("base0", "arr"), ("num", "arr"),
                       ("codes", "arr"), ("uni", "uni"), ("sliced", "str"), ("str", "sliced"), ("stepped", "str"), ("str", "stepped"), ("stepped", "arr")]:
            wb = W[mb] if mb != "arr" else W["str"]
            for la in W[ma]:
                for lb in (wb if T else wb[:12] + wb[12::4]):
                    yield ma, mb, la, lb

    mc.run("ismember_categorical", ismc_cases(), ismc)

    # mapped Categoricals: by label, or refused when a code stands for different labels
    def ismm(case):
        ma, mb = (dict(m) for m in case)
        for la in itertools.product(list(ma), repeat=2):
            for lb in itertools.product(list(mb), repeat=2):
                A, B = rt.Categorical(list(la), ma), rt.Categorical(list(lb), mb)
                try:
                    r = rt.ismember(A, B)
                except ValueError:
                    mc.eq(any(ma[c] != mb[c] for c in ma if c in mb), True, "ismember of mapped Categoricals refused", ma=ma, mb=mb)
                    continue
                m, ix = fnd([ma[c] for c in la], [mb[c] for c in lb], lambda x, y: x == y)
                mc.eq((vals(r[0]), vals(r[1])), (m, ix), "ismember of mapped Categoricals", ma=ma, mb=mb, la=la, lb=lb)
                mc.eq(vals(A.isin(B)), m, "isin of mapped Categoricals", ma=ma, mb=mb, la=la, lb=lb)
                mc.op(2)

    MAPS = [tuple(zip(c, l)) for c in ((1, 2), (2, 1), (2, 3), (0, 1), (5, 1)) for l in (("x", "y"), ("y", "x"), ("x", "z"), ("w", "y"))]
    mc.run("ismember_mapped", itertools.product(MAPS, repeat=2), ismm)

    # ------------------------------------------------------------ isin with scalars, lists, sets
    def isin(case):
        k, l, v, form = case
        a = mk(l, k)
        x = {"list": list(v), "set": set(v), "scalar": v[0], "arr": np.array(v, dtype=("S3" if k == "S" else "U3" if k == "U" else None))}[form]
        w = [e is not None and e in v for e in l]
        mc.eq(vals(a.isin(x)), w, "isin", kind=k, l=l, v=v, form=form)
        mc.eq(vals(a.isin(x, invert=True)), [not y for y in w], "isin invert", kind=k, l=l, v=v, form=form)
        mc.eq(vals(a), list(l), "input of isin")

    def isin_cases():
        V = {}
        for t in INTS:
            V[t] = [(1,), (3,), (1, 3), (7,), (0, 1), (100, 3)] + ([(127,), (255,), (255, 1), (127, 1)] if t not in ("int8", "uint8") else [(126, 1)])
        for t in FLTS:
            V[t] = [(1.0,), (2.5,), (1.0, 2.5), (9.0,), (1, 2)]
        V["S"] = [("a",), ("ab",), ("", "a"), ("zzzzz", "a"), ("abcd",)]
        V["U"] = [("a",), ("\u4e2d",), ("", "a"), ("zzzzz", "a")]
        for k in V:
            al = AL[k] + ([255, 127] if k in INTS and k not in ("int8", "uint8") else [])
            for l in [l for n in (1, 2, 3) for l in itertools.product(al[:3 if n == 3 else 5], repeat=n)]:
                for v in V[k]:
                    for form in ("list", "set", "arr") + (("scalar",) if len(v) == 1 else ()):
                        yield k, l, v, form

    mc.run("isin", isin_cases(), isin)

    # ------------------------------------------------------------ unique
    def rank(k):
        """sort key of projected values: NaN last; integer sentinels by raw value; '' first"""
        def f(x):
            if x is None:
                return (1, 0) if (k in ISF or k[0] == "u") else (-1, 0)
            return (0, x)
        return f

    def uniq(case):
        k, l, flt, srt, lex, lay = case
        a = mk(l, k, lay)
        keep = [i for i in range(len(l)) if flt is None or flt[i]]
        u, first, cnt = [], [], []
        for i in keep:
            if l[i] in u:
                cnt[u.index(l[i])] += 1
            else:
                u.append(l[i]); first.append(i); cnt.append(1)
        if srt or lex:
            o = sorted(range(len(u)), key=lambda j: rank(k)(u[j]))
            u, first, cnt = [u[j] for j in o], [first[j] for j in o], [cnt[j] for j in o]
        inv = [u.index(l[i]) if i in keep else -1 for i in range(len(l))]
        kw = {}
        if flt is not None:
            kw["filter"] = FA(np.array(flt, dtype=bool))
        r = rt.unique(a, return_index=True, return_inverse=True, return_counts=True, sorted=srt, lex=lex, **kw)
        mc.eq([vals(x) for x in r], [u, first, inv, cnt], "unique", kind=k, l=l, flt=flt, srt=srt, lex=lex, lay=lay)
        mc.eq(vals(rt.unique(a, sorted=srt, lex=lex, **kw)), u, "unique values", kind=k, l=l)
        mc.eq(vals(a.unique(sorted=srt, lex=lex, **kw)), u, "unique method", kind=k, l=l)
        r1 = rt.unique(a, return_counts=True, sorted=srt, lex=lex, **kw)
        mc.eq(vals(r1[1]), cnt, "unique counts only", kind=k, l=l)
        r2 = rt.unique(a, return_inverse=True, sorted=srt, lex=lex, **kw)
        mc.eq(vals(r2[1]), inv, "unique inverse only", kind=k, l=l)
        if flt is None and srt and not lex:
            mc.eq(int(a.nunique()), len([x for x in u if x is not None]) - (1 if k in ("S", "U") and "" in u else 0), "nunique", kind=k, l=l)
            ds = a.count()
            mc.eq([vals(ds[c]) for c in ds], [u, cnt], "count", kind=k, l=l)
        mc.eq(vals(a), list(l), "input of unique")

    def uniq_cases():
        for k in AL:
            S = [l for n in range(0, 5 if T else 4) for l in itertools.product(AL[k], repeat=n)]
            for l in S:
                for srt in (True, False):
                    for lex in (False, True):
                        yield k, l, None, srt, lex, "c"
                if len(l) in (2, 3):
                    for lay in ("strided", "rev"):
                        yield k, l, None, True, False, lay
                        yield k, l, None, False, False, lay
                    if len(l) == 3 and k in ("int32", "S", "float64", "uint8", "U", "int64"):
                        for flt in itertools.product((True, False), repeat=3):
                            if any(flt):
                                yield k, l, flt, True, False, "c"
                                yield k, l, flt, False, False, "c"

    mc.run("unique", uniq_cases(), uniq)

    # unique of several keys / Categoricals / dates
    def uniq2(case):
        rows, srt = case
        a, b = FA(np.array([x for x, _ in rows], dtype="int16")), FA(np.array([y for _, y in rows], dtype="S1"))
        u = []
        for r in rows:
            if r not in u:
                u.append(r)
        if srt:
            u = sorted(u)
        first = [rows.index(x) for x in u]
        inv = [u.index(x) for x in rows]
        cnt = [rows.count(x) for x in u]
        r = rt.unique([a, b], return_index=True, return_inverse=True, return_counts=True, sorted=srt)
        mc.eq((list(zip(*[vals(x) for x in r[0]])), vals(r[1]), vals(r[2]), vals(r[3])), (u, first, inv, cnt), "multi-key unique", rows=rows, srt=srt)

    R = [(2, "a"), (1, "b"), (1, "a"), (2, "b")]
    mc.run("unique_multikey", ((list(s), srt) for n in range(1, 5) for s in itertools.product(R, repeat=n) for srt in (True, False)), uniq2)

    def uniqk(case):
        k, idx = case
        base = item(k, 4)
        a = base[list(idx)]
        v = vals(a)
        u = rt.unique(a)
        want = []
        for x in v:
            if x not in want and not (x is None and k in CATS):
                want.append(x)
        if k in CATS and k not in ("catmap",):
            full = [x for x in labels_all(base)]
            got = vals(u) if isinstance(u, np.ndarray) else list(zip(*[vals(c) for c in u]))
            mc.eq(sorted(got, key=repr), sorted(set(want), key=repr), "unique of an indexed Categorical", kind=k, idx=idx)
            return
        if k == "catmap":
            return
        got = vals(u)
        mc.eq(sorted(got, key=repr), sorted(want, key=repr), "unique of date/time arrays", kind=k, idx=idx)
        mc.eq(kind(u), kind(a), "kind of unique", kind=k)
        d = vals(a.duplicated())
        mc.eq(d, [x in v[:i] for i, x in enumerate(v)], "duplicated", kind=k, idx=idx)
        mc.eq(int(a.nunique()), len([x for x in want if x is not None]), "nunique of date/time arrays", kind=k, idx=idx)
        r = rt.unique(a, return_index=True, return_inverse=True, return_counts=True)
        uv = vals(r[0])
        mc.eq(uv, got, "unique values with the positions", kind=k, idx=idx)
        mc.eq(vals(r[1]), [v.index(x) for x in uv], "unique first positions", kind=k, idx=idx)
        mc.eq(vals(r[2]), [uv.index(x) for x in v], "unique inverse", kind=k, idx=idx)
        mc.eq(vals(r[3]), [v.count(x) for x in uv], "unique counts", kind=k, idx=idx)
        ds = a.count()
        mc.eq([vals(ds[c]) for c in ds], [uv, [v.count(x) for x in uv]], "count", kind=k, idx=idx)
        for sub in ([0], [1, 2], [3, 0], [2, 3, 1]):
            b = base[sub]
            w = vals(b)
            m = [x is not None and x in w for x in v]
            miss = lambda q: [q[i] if v[i] is not None else "-" for i in range(len(v))]  # whether missing is found is not claimed here
            if k != "bool":  # refused by ismember
                got_m, got_i = rt.ismember(a, b)
                mc.eq(miss(vals(got_m)), miss(m), "ismember of date/time arrays", kind=k, idx=idx, sub=sub)
                mc.eq(miss(vals(got_i)), miss([w.index(x) if f else None for x, f in zip(v, m)]), "ismember positions of date/time arrays", kind=k, idx=idx, sub=sub)
            mc.eq(miss(vals(a.isin(b))), miss(m), "isin of date/time arrays", kind=k, idx=idx, sub=sub)

    def labels_all(c):
        d = c.category_dict
        ls = [vals(x) for x in d.values()]
        return ls[0] if len(ls) == 1 else list(zip(*ls))

    def uniqmk(case):
        a, b = case
        n = len(a)
        c = rt.Cat([FA(["xyz"[i] for i in a]), FA([10 * (i + 1) for i in b])])
        for f in (None, [True] * n, [i != 0 for i in range(n)]):
            w = {(["x", "y", "z"][p], 10 * (q + 1)) for i, (p, q) in enumerate(zip(a, b)) if f is None or f[i]}
            r = rt.unique(c) if f is None else rt.unique(c, filter=FA(f))
            mc.eq(sorted(zip(vals(r[0]), vals(r[1]))), sorted(w), "unique of a multikey Categorical", a=a, b=b, f=f)
            r = rt.unique([FA(["xyz"[i] for i in a]), FA([10 * (i + 1) for i in b])], return_inverse=True, return_index=True, return_counts=True)
            rows = [("xyz"[p], 10 * (q + 1)) for p, q in zip(a, b)]
            u = list(zip(vals(r[0][0]), vals(r[0][1])))
            mc.eq(u, sorted(set(rows)), "unique of two arrays", a=a, b=b)
            mc.eq((vals(r[1]), vals(r[2]), vals(r[3])), ([rows.index(t) for t in u], [u.index(t) for t in rows], [rows.count(t) for t in u]), "unique of two arrays: index, inverse, counts", a=a, b=b)

    mc.run("unique_multikey_categorical", ((a, b) for n in (1, 2, 3) for a in itertools.product(range(3), repeat=n) for b in itertools.product(range(2), repeat=n)), uniqmk)

    mc.run("unique_kinds", ((k, idx) for k in CATS + TIMES + ["bool"] for n in (1, 2, 3) for idx in itertools.product(range(4), repeat=n)), uniqk)

    # ------------------------------------------------------------ duplicated / drop_duplicates
    def dup(case):
        k, l = case
        a = mk(l, k)
        n = len(l)
        f = [l[i] in l[:i] for i in range(n)]
        la = [l[i] in l[i + 1:] for i in range(n)]
        b = [l.count(l[i]) > 1 for i in range(n)]
        for keep, w in (("first", f), ("last", la), (False, b)):
            for hu in (False, True):
                mc.eq(vals(a.duplicated(keep=keep, high_unique=hu)), w, "FastArray.duplicated", kind=k, l=l, keep=keep)
        mc.eq(vals(a), list(l), "input of duplicated")
        ds = rt.Dataset({"k": a, "r": FA(np.arange(n))})
        for keep, w in (("first", f), ("last", la), (False, b)):
            if n:
                mc.eq(vals(ds.duplicated("k", keep=keep)), w, "Dataset.duplicated", kind=k, l=l, keep=keep)
            r = ds.drop_duplicates("k", keep=keep)
            rows = [i for i in range(n) if not w[i]]
            if keep == "last":
                rows.sort(key=lambda i: l.index(l[i]))
            mc.eq((vals(r.k), vals(r.r)), ([l[i] for i in rows], rows), "drop_duplicates", kind=k, l=l, keep=keep)
            d2 = ds.copy()
            d2.drop_duplicates("k", keep=keep, inplace=True)
            mc.eq((vals(d2.k), vals(d2.r)), ([l[i] for i in rows], rows), "drop_duplicates inplace", kind=k, l=l, keep=keep)
            mc.eq(d2.get_nrows(), len(rows), "rows after drop_duplicates inplace")
            mc.eq((vals(ds.k), vals(ds.r)), (list(l), list(range(n))), "input of drop_duplicates")

    mc.run("duplicated", ((k, list(l)) for k in AL for n in range(0, 6 if T else 5) for l in itertools.product(AL[k][:2] + (AL[k][2:] if n < 4 else []), repeat=n)), dup)

    def dup2(case):
        rows, sub, keep = case
        ds = rt.Dataset({"a": FA(np.array([x for x, _ in rows], dtype="int16")), "b": FA(np.array([y for _, y in rows], dtype="S1")), "r": FA(np.arange(len(rows), dtype="float64")), "c": rt.Categorical([y for _, y in rows])})
        names = list(sub) if sub else ["a", "b"]
        key = [tuple({"a": x, "b": y}[c] for c in names) for x, y in rows]
        n = len(rows)
        w = [{"first": key[i] in key[:i], "last": key[i] in key[i + 1:], False: key.count(key[i]) > 1}[keep] for i in range(n)]
        mc.eq(vals(ds.duplicated(names, keep=keep)), w, "duplicated on several columns", rows=rows, keep=keep)
        r = ds.drop_duplicates(names, keep=keep)
        keeprows = [i for i in range(n) if not w[i]]
        if keep == "last":
            keeprows.sort(key=lambda i: key.index(key[i]))
        mc.eq(list(r), ["a", "b", "r", "c"] if True else None, "columns of drop_duplicates", key="order", soft=True) if False else None
        mc.eq((vals(r.r), vals(r.a), vals(r.b), vals(r.c)), ([float(i) for i in keeprows], [rows[i][0] for i in keeprows], [rows[i][1] for i in keeprows], [rows[i][1] for i in keeprows]), "drop_duplicates on several columns", rows=rows, keep=keep)
        if not sub:
            d = rt.Dataset({"a": ds.a, "b": ds.b})
            mc.eq(vals(d.duplicated(keep=keep)), w, "duplicated on all columns", rows=rows, keep=keep)
            r = d.drop_duplicates(keep=keep)
            mc.eq(list(zip(vals(r.a), vals(r.b))), [rows[i] for i in keeprows], "drop_duplicates on all columns", rows=rows, keep=keep)

    mc.run("duplicated_multikey", ((list(s), sub, keep) for n in range(1, 5) for s in itertools.product(R[:3] if n > 3 else R, repeat=n) for sub in ("", "a", "b", "ab", "ba") for keep in ("first", "last", False)), dup2)

    # ------------------------------------------------------------ searchsorted / issorted / bool_to_fancy / between / masks
    def ss(case):
        k, l, v, side = case
        a = mk(l, k)
        x = mk(v, k)
        f = bisect.bisect_left if side == "left" else bisect.bisect_right
        w = [f(list(l), y) for y in v]
        mc.eq(vals(rt.searchsorted(a, x, side=side)), w, "searchsorted", kind=k, l=l, v=v, side=side)
        mc.eq(vals(a.searchsorted(x, side=side)), w, "searchsorted method", kind=k, l=l, v=v, side=side)
        mc.eq(int(rt.searchsorted(a, x[0], side=side)), w[0], "searchsorted scalar", kind=k, l=l, v=v, side=side)

    def ss_cases():
        for k in INTS + FLTS + ["S", "U"]:
            al = [1, 2, 4] if k in INTS else ([0.5, 2.0, 4.0] if k in ISF else ["a", "ab", "c"])
            q = [0, 1, 2, 3, 4, 5] if k in INTS else ([-1.0, 0.5, 1.0, 2.0, 4.0, 9.0] if k in ISF else ["", "a", "ab", "b", "c", "d"])
            for n in range(1, 5):
                for l in itertools.combinations_with_replacement(al, n):
                    for side in ("left", "right"):
                        yield k, l, tuple(q), side

    mc.run("searchsorted", ss_cases(), ss)

    def iss(case):
        k, l, lay = case
        a = mk(l, k, lay)
        w = all(x <= y for x, y in zip(l, l[1:]))
        mc.eq(bool(rt.issorted(a)), w, "issorted", kind=k, l=l, lay=lay)
        mc.eq(bool(a.issorted()), w, "issorted method", kind=k, l=l, lay=lay)

    mc.run("issorted", ((k, l, lay) for k in AL for n in range(0, 5) for l in itertools.product([x for x in AL[k] if x is not None], repeat=n) for lay in ("c",)), iss)

    def b2f(case):
        m = case
        a = FA(np.array(m, dtype=bool))
        w = [i for i, x in enumerate(m) if x]
        mc.eq(vals(rt.bool_to_fancy(a)), w, "bool_to_fancy", m=m)
        r = rt.bool_to_fancy(a, both=True)
        no = [i for i, x in enumerate(m) if not x]
        mc.eq((vals(r[0]), int(r[1])), (w + no, len(w)), "bool_to_fancy both", m=m)
        mc.eq(vals(rt.bool_to_fancy(FA(np.repeat(np.array(m, dtype=bool), 2))[::2])), w, "bool_to_fancy of a strided mask", m=m)

    mc.run("bool_to_fancy", (tuple(m) for n in range(0, 9 if T else 7) for m in itertools.product((True, False), repeat=n)), b2f)

    def btw(case):
        k, l, lo, hi, il, ih = case
        a = mk(l, k)
        w = [x is not None and (x >= lo if il else x > lo) and (x <= hi if ih else x < hi) for x in l]
        mc.eq(vals(a.between(lo, hi, include_low=il, include_high=ih)), w, "between", kind=k, l=l, lo=lo, hi=hi, il=il, ih=ih)

    mc.run("between", ((k, l, lo, hi, il, ih) for k in INTS + FLTS for l in itertools.product([1, None, 3, 2], repeat=2) for lo in (0, 1, 2, 3) for hi in (1, 2, 3, 4) for il in (True, False) for ih in (True, False)), btw)

    def msk(case):
        n, ms = case
        A = [FA(np.array(m, dtype=bool)) for m in ms]
        import functools
        ops = {"mask_or": lambda x, y: x or y, "mask_and": lambda x, y: x and y, "mask_xor": lambda x, y: x != y, "mask_andnot": lambda x, y: x and (not y)}
        for nm, f in ops.items():
            if nm == "mask_andnot" and len(ms) > 2:
                continue
            w = [functools.reduce(f, c) for c in zip(*ms)]
            mc.eq(vals(getattr(rt, nm)(*A)), w, nm, ms=ms)
            mc.eq(vals(getattr(rt, nm)(A)), w, nm + " of a list", ms=ms)
            mc.eq([vals(x) for x in A], [list(m) for m in ms], "inputs of " + nm)
            B = [x.copy() for x in A]
            r = getattr(rt, nm + "i")(*B)
            mc.eq(vals(r), w, nm + "i", ms=ms)
            mc.eq(vals(B[0]), w, nm + "i writes its first argument", ms=ms)
            mc.eq([vals(x) for x in B[1:]], [list(m) for m in ms[1:]], "other inputs of " + nm + "i")

    mc.run("mask_operations", ((n, ms) for n in (1, 2, 3) for k in (2, 3) for ms in itertools.product(list(itertools.product((True, False), repeat=n)), repeat=k) if k * n < 9), msk)

    # ------------------------------------------------------------ map / assoc_copy
    def mp(case):
        k, l, d = case
        a = mk(l, k)
        r = a.map(dict(d))
        w = [dict(d).get(x) for x in l]
        mc.eq(vals(r), w, "map", kind=k, l=l, d=d)
        mc.eq(vals(a), list(l), "input of map")

    mc.run("map", ((k, l, d) for k in ("int32", "int64", "int16", "uint8", "float64") for l in itertools.product([1, 3, 2], repeat=3) for d in (((1, 10), (3, 30)), ((1, 1.5), (2, 2.5)), ((3, 7),), ((3, 255), (1, 127)))), mp)
    mc.run("map_strings", (("S", l, d) for l in itertools.product(["a", "", "ab"], repeat=3) for d in ((("a", 10), ("ab", 30)), (("a", 1.5),), (("ab", 1), ("", 2)))), mp)

    def ac(case):
        la, lb, k = case
        key1, key2 = FA(np.array(la)), FA(np.array(lb))
        x = item(k, len(lb))
        r = rt.assoc_copy(key1, key2, x)
        ix = fnd(la, lb)[1]
        z = {"bool": False, "S": "", "U": ""}.get(k)
        mc.eq(vals(r), [vals(x)[i] if i is not None else z for i in ix], "assoc_copy", la=la, lb=lb, kind=k)
        r = rt.assoc_copy(key1, key2, rt.Dataset({"x": x, "i": FA(np.arange(len(lb)))}))
        mc.eq((vals(r.x), vals(r.i)), ([vals(x)[i] if i is not None else z for i in ix], ix), "assoc_copy of a Dataset", la=la, lb=lb, kind=k)

    mc.run("assoc_copy", ((la, lb, k) for la in itertools.product((1, 2, 3), repeat=2) for lb in itertools.product((1, 2), repeat=3) for k in PLAIN), ac)

    # ------------------------------------------------------------ larger sizes (hash table growth, chunking)
    def big(case):
        n, k, m = case
        v = (np.arange(n, dtype="int64") * 7919) % m
        h = (np.arange(m, dtype="int64") * 31) % (2 * m) // 2 * 2 % m
        if k == "S":
            tab = np.array([b"%d" % i for i in range(m)])
            a, b = FA(tab[v]), FA(tab[h])
        elif k == "mk":
            a, b = [FA(v), FA((v % 3).astype("int8"))], [FA(h), FA((h % 3).astype("int8"))]
        elif k == "cat":
            tab = np.array([b"%d" % i for i in range(m)])
            a, b = rt.Categorical(FA(tab[v])), rt.Categorical(FA(tab[h]))
        else:
            a, b = FA(v.astype(k)), FA(h.astype(k))
            if m > 120 and k in ("int8", "uint8"):
                return
        firstpos = np.full(m, -1)
        for i in range(m - 1, -1, -1):
            firstpos[h[i]] = i
        w = firstpos[v]
        r0, r1 = rt.ismember(a, b)
        mc.eq(bool((np.asarray(r0) == (w >= 0)).all()), True, "large ismember", n=n, kind=k, m=m)
        got = np.asarray(r1).astype("int64")
        mc.eq(bool((np.where(w >= 0, got, -1) == w).all()), True, "large ismember positions", n=n, kind=k, m=m)
        for srt in (True, False):
            if k == "cat":
                continue
            u = rt.unique(a, return_index=True, return_inverse=True, return_counts=True, sorted=srt)
            _, fi = np.unique(v, return_index=True)
            mc.eq(sorted(np.asarray(u[1]).tolist()), sorted(fi.tolist()), "large unique first index", n=n, kind=k, m=m)
            if not srt:
                mc.eq(np.asarray(u[1]).tolist() == sorted(fi.tolist()), True, "large unique order of appearance", n=n, kind=k)
            mc.eq(bool((v[np.asarray(u[1])][np.asarray(u[2])] == v).all()), True, "large unique inverse", n=n, kind=k, m=m)
            mc.eq(bool((np.bincount(np.asarray(u[2]), minlength=len(u[1])) == np.asarray(u[3])).all()), True, "large unique counts", n=n, kind=k, m=m)

    SZ = [100, 1023, 1024, 1025, 40000] + ([65535, 65537, 200000] if T else [])
    mc.run("sizes", ((n, k, m) for n in SZ for k in ("int8", "int16", "int32", "int64", "uint8", "uint32", "float32", "float64", "S", "mk", "cat") for m in (7, 100, 997 if n > 997 else 50)), big)

    # ------------------------------------------------------------ Grouping.ismember/isin and Dataset.isin
    def gi(case):
        l, v = case
        c = rt.Categorical(FA(np.array(list(l), dtype="S1")))
        mc.eq(vals(c.grouping.isin(list(v))), [x in v for x in l], "Grouping.isin", l=l, v=v)
        ds = rt.Dataset({"a": FA(np.array(list(l), dtype="S1")), "b": FA(np.array(list(l)[::-1], dtype="S1"))})
        r = ds.isin(list(v))
        mc.eq((vals(r.a), vals(r.b)), ([x in v for x in l], [x in v for x in l[::-1]]), "Dataset.isin", l=l, v=v)

    mc.run("grouping_isin", (("".join(l), v) for n in (1, 2, 3) for l in itertools.product("abc", repeat=n) for v in ("a", "ab", "cb", "zz", "za")), gi)
