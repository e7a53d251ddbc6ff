"""C08 Groupings are exact partitions with consistent derived indices."""
import itertools
import numpy as np
import riptable as rt
import riptable.rt_numpy as rn
from ..model import *

PROPERTY = "C08"

KT = {
    "S": ("S2", ["b", "a", "cc"], False),
    "U": ("U2", ["b", "a", "\u00e9c"], False),
    "i8": ("int8", [5, -3, 7], True),
    "i32": ("int32", [5, -3, 7], True),
    "i64": ("int64", [5, -3, 1 << 40], True),
    "u8": ("uint8", [5, 3, 200], True),
    "u64": ("uint64", [5, 3, 1 << 40], True),
    "f32": ("float32", [5.5, -3.0, 7.0], True),
    "f64": ("float64", [5.5, -3.0, 7.0], True),
    "b": ("bool", [True, False], False),
}


class P:
    """reference partition"""

    def __init__(self, keys, ok, order):
        self.n = len(keys)
        rows = {}
        for i, k in enumerate(keys):
            if ok is None or ok[i]:
                rows.setdefault(k, []).append(i)
        ks = list(rows)
        if order is not None:
            ks = sorted(ks, key=order)
        self.keys = ks
        self.rows = [rows[k] for k in ks]
        self.bin = [0] * self.n
        for b, r in enumerate(self.rows):
            for i in r:
                self.bin[i] = b + 1
        self.zero = [i for i in range(self.n) if self.bin[i] == 0]
        self.count = [len(self.zero)] + [len(r) for r in self.rows]


def sortkey(kt, nalast):
    def f(k):
        if isinstance(k, tuple):
            return tuple(f(x) for x in k)
        if k is None:
            return (1, 0) if nalast else (-1, 0)
        return (0, k)
    return f


def get(g, a):
    return getattr(g, a)


def explore(mc):
    T = mc.thorough

    def check_attr(g, p, a, what):
        if a == "ikey":
            mc.eq(codes(g.ikey), p.bin, what + " ikey")
        elif a == "unique_count":
            mc.eq(int(g.unique_count), len(p.keys), what + " unique_count")
        elif a == "uniques":
            cols = [vals(u) for u in g.uniquelist]
            mc.eq(cols[0] if len(cols) == 1 else list(zip(*cols)), p.keys, what + " unique keys")
        elif a == "ifirstkey":
            mc.eq(vals(g.ifirstkey), [r[0] for r in p.rows], what + " ifirstkey")
        elif a == "ilastkey":
            mc.eq(vals(g.ilastkey), [r[-1] for r in p.rows], what + " ilastkey")
        elif a in ("inextkey", "iprevkey"):
            w = [None] * p.n
            for r in p.rows:
                for x, y in zip(r, r[1:]):
                    if a == "inextkey":
                        w[x] = y
                    else:
                        w[y] = x
            got = vals(getattr(g, a))
            for z in p.zero:
                got[z] = None
            mc.eq(got, w, what + " " + a)
        elif a == "groups":
            ig, fg, ng = vals(g.igroup), vals(g.ifirstgroup), vals(g.ncountgroup)
            mc.eq(ng, p.count, what + " ncountgroup")
            mc.eq([ig[fg[b + 1]: fg[b + 1] + ng[b + 1]] for b in range(len(p.rows))], p.rows, what + " group rows")
        elif a == "zero":
            ig, fg, ng = vals(g.igroup), vals(g.ifirstgroup), vals(g.ncountgroup)
            mc.eq(ig[fg[0]: fg[0] + ng[0]], p.zero, what + " filtered rows")
        elif a == "ncountgroup":
            mc.eq(vals(g.ncountgroup), p.count, what + " ncountgroup")
        elif a == "ncountkey":
            mc.eq(vals(g.ncountkey), p.count[1:], what + " ncountkey")
        elif a == "reverse":
            ig, rv = vals(g.igroup), vals(g.igroupreverse)
            if len(ig) == p.n:
                mc.eq([ig[j] for j in rv], list(range(p.n)), what + " igroupreverse")
        elif a == "as_filter":
            for b in range(len(p.rows)):
                mc.eq(vals(g.as_filter(b + 1)), p.rows[b], what + " as_filter")
        elif a == "all_unique":
            mc.eq(bool(g.all_unique), len(p.keys) == p.n, what + " all_unique")

    ATTR = ["ikey", "unique_count", "uniques", "ifirstkey", "ilastkey", "inextkey", "iprevkey", "groups", "ncountgroup", "ncountkey", "reverse", "as_filter", "all_unique"]

    def routes(k, f, kt):
        """(name, grouping, order) ; order None = first appearance"""
        ks = k if isinstance(k, list) else [k]
        nalast = True
        so = sortkey(kt, np.asarray(ks[0]).dtype.kind == "f" or np.asarray(ks[0]).dtype.kind == "u")
        yield "Grouping", rt.Grouping(ks, filter=f), None
        yield "Grouping lex", rt.Grouping(ks, filter=f, lex=True), so
        yield "Categorical", rt.Categorical(ks if len(ks) > 1 else ks[0], filter=f, ordered=True).grouping, so
        yield "Categorical unordered", rt.Categorical(ks if len(ks) > 1 else ks[0], filter=f, ordered=False).grouping, None
        if f is None:
            yield "Categorical base 0", rt.Categorical(ks if len(ks) > 1 else ks[0], base_index=0, ordered=True).grouping, so
        d = rt.Dataset({f"k{i}": x for i, x in enumerate(ks)})
        yield "gbu", d.gbu(list(d.keys()), filter=f).grouping, None

    def space1():
        for kt in KT:
            nv = len(KT[kt][1])
            al = list(range(nv)) + ([None] if KT[kt][2] else [])
            for n in (1, 2, 3, 4) if not T else (1, 2, 3, 4, 5):
                if n == 4 and not T and kt not in ("S", "i32", "f64"):
                    continue
                if n == 5 and kt not in ("S", "f64"):
                    continue
                for ix in itertools.product(al, repeat=n):
                    yield kt, ix

    def run1(case):
        kt, ix = case
        dt, lab, _ = KT[kt]
        keys = [None if i is None else lab[i] for i in ix]
        n = len(ix)
        for ok in [None] + (list(masks(n)) if n < 4 else [m for m in masks(n) if sum(m) in (1, n - 1)]):
            f = None if ok is None else rt.FastArray(np.array(ok, dtype=bool))
            if ok is not None and not any(ok):
                continue
            for what, g, order in routes(arr(keys, dt), f, kt):
                p = P(keys, ok, order)
                for a in ATTR + (["zero"] if "lex" not in what else []):
                    check_attr(g, p, a, what + ("(filter)" if f is not None else ""))

    mc.run("single key", space1(), run1)

    def space2():
        for kts in (("S", "i32"), ("f64", "U"), ("i64", "i8")):
            for n in (1, 2, 3) + ((4,) if T else ()):
                al = [0, 1] + ([None] if n < 3 else [])
                A = [0, 1] if not KT[kts[0]][2] else al
                B = [0, 1] if not KT[kts[1]][2] else al
                for a in itertools.product(A, repeat=n):
                    for b in itertools.product(B, repeat=n):
                        yield kts, a, b

    def run2(case):
        kts, a, b = case
        n = len(a)
        lk = [None if i is None else KT[kts[0]][1][i] for i in a]
        rk = [None if i is None else KT[kts[1]][1][i] for i in b]
        keys = list(zip(lk, rk))
        ks = [arr(lk, KT[kts[0]][0]), arr(rk, KT[kts[1]][0])]
        hasna = None in lk or None in rk
        for ok in [None] + list(masks(n)):
            f = None if ok is None else rt.FastArray(np.array(ok, dtype=bool))
            if ok is not None and not any(ok):
                continue
            for what, g, order in routes(ks, f, None):
                if hasna and order is not None:
                    p = P(keys, ok, None)
                    # order of missing keys depends on each key's type: compare the partition only
                    got = codes(g.ikey)
                    mc.eq([[x == y for y in got] for x in got], [[x == y for y in p.bin] for x in p.bin], what + " partition")
                    continue
                p = P(keys, ok, order)
                for at in ATTR:
                    check_attr(g, p, at, what + " 2 keys" + ("(filter)" if f is not None else ""))
            # record-array grouping is the same partition
            if not hasna:
                g = rt.Grouping(ks, filter=f, rec=True)
                p = P(keys, ok, None)
                for at in ATTR:
                    check_attr(g, p, at, "rec grouping")

    mc.run("two keys", space2(), run2)

    # ---------------------------------------------------------------- request histories
    REQ = ["ikey", "ifirstkey", "ilastkey", "inextkey", "groups", "ncountgroup", "reverse", "as_filter", "first_f", "first", "sum_f", "count_f", "count", "apply_f", "pack_f", "cumcount_f",
           "first_fancy", "iter", "groupsdict", "regroup", "copy", "last_bool"]

    def space3():
        for rt_ in ("cat", "catf", "gb", "cat0", "catu"):
            for r in itertools.product(REQ, repeat=3 if T else 2):
                yield rt_, r
            if not T:
                for r in itertools.product(["first_f", "apply_f", "pack_f", "count_f"], REQ, ["groups", "as_filter", "first_fancy", "iter", "count", "first", "groupsdict", "ncountgroup", "last_bool", "regroup", "reverse"]):
                    yield rt_, r

    def run3(case):
        route, reqs = case
        keys = ["b", "a", "b", "c", "a", "b"]
        V = [1, 2, 4, 8, 16, 32]
        okc = (True, True, True, False, True, True) if route == "catf" else None
        k = rt.FastArray(np.array(keys, "S1"))
        x = arr(V, "int64")
        if route == "gb":
            obj = rt.Dataset({"k": k, "x": x}).gbu("k")
            args = ()
        else:
            obj = rt.Categorical(k, filter=None if okc is None else rt.FastArray(np.array(okc)), base_index=0 if route == "cat0" else 1, ordered=route != "catu")
            args = (x,)
        p = P(keys, okc, (lambda q: q) if route not in ("gb", "catu") else None)
        oks = [(False, True, True, True, True, False), (True, False, False, True, False, True)]
        for s, r in enumerate(reqs):
            g = obj.grouping
            ok = oks[s % 2]
            f = rt.FastArray(np.array(ok))
            if okc is not None:
                okx = tuple(a and b for a, b in zip(ok, okc))
            else:
                okx = ok
            grp = [[i for i in rows if okx[i]] for rows in p.rows]
            what = f"step {s} {r}"
            if r in ATTR:
                check_attr(g, p, r, what)
            elif r == "first_f":
                mc.eq(resvals(obj.first(*args, filter=f), p), [V[q[0]] if q else None for q in grp], what)
            elif r == "first":
                mc.eq(resvals(obj.first(*args), p), [V[q[0]] for q in p.rows], what)
            elif r == "sum_f":
                mc.eq(resvals(obj.sum(*args, filter=f), p), [sum(V[i] for i in q) for q in grp], what)
            elif r == "count_f":
                mc.eq(resvals(obj.count(filter=f), p), [len(q) for q in grp], what)
            elif r == "count":
                mc.eq(resvals(obj.count(), p), [len(q) for q in p.rows], what)
            elif r == "apply_f":
                mc.eq(resvals(obj.apply_reduce(lambda a: int(np.asarray(a).sum()), *args, filter=f), p), [sum(V[i] for i in q) if q else None for q in grp], what)
            elif r == "pack_f":
                d = obj.get_groupings(filter=f)
                ig, fg, ng = vals(d["iGroup"]), vals(d["iFirstGroup"]), vals(d["nCountGroup"])
                mc.eq([ig[fg[b + 1]: fg[b + 1] + ng[b + 1]] for b in range(len(p.rows))], grp, what)
            elif r == "cumcount_f":
                w = [None] * 6
                for q in grp:
                    for j, i in enumerate(q):
                        w[i] = j
                mc.eq(vals(obj.cumcount(filter=f)), w, what)
            elif r == "first_fancy":
                mc.eq(vals(obj.first_fancy), [q[0] for q in p.rows], what)
            elif r == "last_bool":
                ls = [q[-1] for q in p.rows]
                mc.eq(vals(obj.last_bool), [i in ls for i in range(6)], what)
            elif r == "iter":
                mc.eq({scalar(a): vals(b) for a, b in obj.iter_groups()}, dict(zip(p.keys, p.rows)), what)
            elif r == "groupsdict":
                mc.eq({scalar(a): vals(b) for a, b in obj.groups.items()}, dict(zip(p.keys, p.rows)), what)
            elif r == "regroup":
                if route != "cat0":
                    g2 = g.regroup(filter=f)
                    p2 = P(keys, okx, None)
                    lab = [vals(u) for u in g2.uniquelist][0]
                    ik = codes(g2.ikey)
                    mc.eq([lab[i - 1] if i else None for i in ik], [kk if okx[j] else None for j, kk in enumerate(keys)], what + " labels")
                    mc.eq(sorted(lab), sorted(p2.keys), what + " keys")
                    mc.eq([ik.index(b + 1) for b in range(len(lab))], vals(g2.ifirstkey), what + " ifirstkey")
            elif r == "copy":
                g2 = g.copy()
                for a in ("ikey", "groups", "uniques", "ncountgroup"):
                    check_attr(g2, p, a, what)
        for a in ATTR:
            check_attr(obj.grouping, p, a, "finally")

    def resvals(r, p):
        lab = r.label_get_names()
        xn = [q for q in r.keys() if q not in lab][0]
        d = dict(zip(vals(r[lab[0]]), vals(r[xn])))
        return [d.get(k, "missing key") for k in p.keys]

    mc.run("request histories", space3(), run3)

    # ---------------------------------------------------------------- building blocks
    def space4():
        for n in (1, 2, 3, 4):
            for a in canon(n, 3):
                for ok in [None] + (list(masks(n)) if n < 4 or T else [m for m in masks(n) if sum(m) == 2]):
                    yield a, ok

    def run4(case):
        a, ok = case
        n = len(a)
        f = None if ok is None else rt.FastArray(np.array(ok, dtype=bool))
        ik = rt.FastArray(np.array(a, dtype="int32"))
        # combine_filter
        if f is not None:
            mc.eq(codes(rn.combine_filter(ik, f)), [x if o else 0 for x, o in zip(a, ok)], "combine_filter")
        d = rn.combine_accum1_filter(ik, 2, filter=f)
        eff = [x if (ok is None or ok[j]) else 0 for j, x in enumerate(a)]
        fa = [x for x in dict.fromkeys(eff) if x]
        mc.eq(codes(d["iKey"]), [fa.index(x) + 1 if x else 0 for x in eff], "combine_accum1_filter iKey")
        mc.eq(int(d["unique_count"]), len(fa), "combine_accum1_filter count")
        mc.eq(vals(d["iFirstKey"]), [eff.index(x) for x in fa], "combine_accum1_filter first")
        pk = rn.groupbypack(ik, None, 3)
        ig, fg, ng = vals(pk["iGroup"]), vals(pk["iFirstGroup"]), vals(pk["nCountGroup"])
        mc.eq(ng, [list(a).count(b) for b in range(3)], "groupbypack counts")
        mc.eq([ig[fg[b]: fg[b] + ng[b]] for b in range(3)], [[j for j in range(n) if a[j] == b] for b in range(3)], "groupbypack rows")
        for b in canon(n, 3):
            ib = rt.FastArray(np.array(b, dtype="int32"))
            d = rn.combine2keys(ik, ib, 2, 2, filter=f)
            got = codes(d["iKey"])
            pair = [(x, y) if (ok is None or ok[j]) else None for j, (x, y) in enumerate(zip(a, b))]
            val = [q if q is not None and q[0] and q[1] else None for q in pair]
            for i in range(n):
                for j in range(n):
                    if val[i] is not None and val[j] is not None:
                        mc.op()
                        if (got[i] == got[j]) != (val[i] == val[j]):
                            mc.soft("combine2keys partition", b=b, got=got)
                    if val[i] is not None and pair[j] is None and got[i] == got[j]:
                        mc.soft("combine2keys: filtered row shares a bin", b=b, got=got)
            if n <= 3:
                # groupby over two columns
                for lex in (False, True):
                    if lex and ok is not None and not any(ok):
                        continue  # riptide_cpp's lexsort-based grouping reads out of bounds when nothing is left
                    h = rn.groupby([ik, ib], filter=f, lex=lex)
                    p = P(list(zip(a, b)), ok, (lambda q: q) if lex else None)
                    if p.keys:
                        mc.eq(codes(h["iKey"]), p.bin, f"groupby lex={lex}")
                        mc.eq(vals(h["iFirstKey"]), [r[0] for r in p.rows], f"groupby iFirstKey lex={lex}")
                        mc.eq(int(h["unique_count"]), len(p.keys), "groupby unique_count")

    mc.run("combine, pack, groupby functions", space4(), run4)

    # ---------------------------------------------------------------- slicing a Categorical's grouping keeps the labels
    def space5():
        for n in (2, 3, 4):
            for ix in canon(n, 3):
                yield ix

    def run5(ix):
        n = len(ix)
        lab = ["b", "a", "c"]
        keys = [lab[i] for i in ix]
        k = rt.FastArray(np.array(keys, "S1"))
        for base in (1, 0):
            idx = [rt.FastArray(np.array(q)) for q in ([n - 1, 0], [0], list(range(n))[::-1])] + [slice(1, None), slice(None, None, 2), rt.FastArray(np.array([j % 2 == 0 for j in range(n)]))]
            for q in idx:
                c = rt.Categorical(k, base_index=base)
                c.grouping.igroup, c.grouping.ifirstkey  # populate caches that must not survive slicing
                c2 = c[q]
                want = np.array(keys)[np.asarray(q) if not isinstance(q, slice) else q].tolist()
                mc.eq(vals(c2), want, "labels after slicing")
                g = c2.grouping
                rows = {}
                for i, w in enumerate(want):
                    rows.setdefault(w, []).append(i)
                cats = vals(c2.category_array)
                mc.eq(vals(g.ncountkey), [len(rows.get(w, [])) for w in cats], "counts after slicing")
                for b, w in enumerate(cats):
                    mc.eq(vals(g.as_filter(b + 1)), rows.get(w, []), "group rows after slicing")
                r = c2.count()
                d = dict(zip(vals(r[r.label_get_names()[0]]), vals(r["Count"])))
                mc.eq({w: d.get(w) for w in cats}, {w: len(rows.get(w, [])) for w in cats}, "count after slicing")

    mc.run("slicing", space5(), run5)

    # ---------------------------------------------------------------- thresholds
    def space6():
        for ng in (1, 126, 127, 128, 129, 255, 256, 257, 32766, 32767, 32768, 32769, 65535, 65536):
            for kt in ("int32", "S", "cat", "cat0", "two", "gb"):
                for filt in (False, True):
                    if kt == "cat0" and filt:
                        continue
                    yield ng, kt, filt

    def run6(case):
        ng, kt, filt = case
        k0 = np.concatenate([np.arange(ng)[::-1], np.arange(0, ng, 2)])
        ok = (np.arange(len(k0)) % 3 != 1) if filt else np.ones(len(k0), bool)
        f = rt.FastArray(ok) if filt else None
        key = rt.FastArray(np.char.zfill(k0.astype("S6"), 6)) if kt == "S" else rt.FastArray(k0.astype("int32"))
        if kt == "two":
            g = rt.Grouping([key, rt.FastArray((k0 % 7).astype("int16"))], filter=f)
        elif kt == "cat0":
            g = rt.Categorical(key, base_index=0).grouping
        elif kt in ("cat", "S"):
            g = rt.Categorical(key, filter=f).grouping
        elif kt == "gb":
            g = rt.Dataset({"k": key}).groupby("k", filter=f).grouping
        else:
            g = rt.Grouping([key], filter=f)
        ik = np.asarray(g.ikey).astype("int64")
        u = np.asarray(g.uniquelist[0])
        u = u.astype("S6").astype("int64") if kt == "S" else u.astype("int64")
        mc.eq(bool((ik[~ok] == 0).all()), True, "filtered rows in bin 0")
        mc.eq(bool((u[ik[ok] - 1] == k0[ok]).all()), True, "unique key of each row")
        mc.eq(int(g.unique_count), len(np.unique(k0[ok])), "unique_count")
        mc.eq(bool((ik >= 0).all()), True, "bins are not negative")
        ng_ = np.asarray(g.ncountgroup)
        mc.eq(bool((ng_ == np.bincount(ik, minlength=len(u) + 1)).all()), True, "ncountgroup")
        ig, fg = np.asarray(g.igroup), np.asarray(g.ifirstgroup)
        mc.eq(bool((np.sort(ig) == np.arange(len(k0))).all()), True, "igroup is a permutation")
        for b in {1, len(u), len(u) // 2 or 1}:
            mc.eq(ig[fg[b]: fg[b] + ng_[b]].tolist(), np.nonzero(ik == b)[0].tolist(), "group rows")

    mc.run("bin count thresholds", space6(), run6)
