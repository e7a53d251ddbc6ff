"""C07 Sorting is a stable permutation and sort views always reflect current data."""
import functools, itertools, warnings, contextlib, io
import numpy as np
import riptable as rt
from ..model import *
from ..zoo import *

PROPERTY = "C07"


def explore(mc):
    T = mc.thorough
    warnings.simplefilter("ignore")
    FA = rt.FastArray

    # ------------------------------------------------------------ oracle: stable order of raw key values, NaN last either way
    def rawkey(a):
        """list of comparable raw values (codes of a Categorical, sentinel integers as stored), None for NaN"""
        b = np.asarray(getattr(a, "_np", a))
        if b.dtype.kind == "f":
            return [None if x != x else x for x in b.tolist()]
        return b.tolist()

    def cmp1(x, y, asc):
        if x is None or y is None:
            return 0 if x is y else (1 if x is None else -1)
        if x == y:
            return 0
        return (-1 if x < y else 1) * (1 if asc else -1)

    def order(keys, ascs):
        """keys most significant first"""
        n = len(keys[0])

        def c(i, j):
            for k, a in zip(keys, ascs):
                r = cmp1(k[i], k[j], a)
                if r:
                    return r
            return i - j
        return sorted(range(n), key=functools.cmp_to_key(c))

    ALPH = {}
    for t in INTS:
        ALPH[t] = [1, None, 0 if t[0] == "u" else -1]
    for t in FLTS:
        ALPH[t] = [0.5, None, -1.0]
    ALPH["bool"] = [True, False]
    ALPH["S"] = ["b", "", "a"]
    ALPH["U"] = ["b", "", "\u4e2d"]

    def mk(l, k):
        if k == "S":
            return FA(np.array(l, dtype="S2"))
        if k == "U":
            return FA(np.array(l, dtype="U2"), unicode=True)
        if k == "cat":
            return rt.Categorical(FA(np.array(l, dtype="int8")), FA(["z", "y", "x"]))
        if k == "date":
            return rt.Date(np.array(l, dtype="int32"))
        if k == "dtn":
            return rt.DateTimeNano(np.array(l, dtype="int64"), from_tz="NYC", to_tz="NYC")
        if k == "span":
            return rt.TimeSpan(np.array(l, dtype="float64"))
        return arr(l, k)

    ALPH["cat"] = [2, 0, 3]
    ALPH["date"] = [7, 0, 3]
    ALPH["dtn"] = [7 * DAY, 0, 3 * DAY]
    ALPH["span"] = [1.5, float("nan"), -2.0]

    # ------------------------------------------------------------ one key
    def one(case):
        k, l = case
        a = mk(l, k)
        ks = rawkey(a)
        n = len(l)
        wa, wd = order([ks], [True]), order([ks], [False])
        if n:
            mc.eq(list(map(int, rt.lexsort([a]))), wa, "lexsort", kind=k)
            mc.eq(list(map(int, rt.lexsort([a], ascending=False))), wd, "lexsort descending", kind=k)
        for nm, g in (("method", a.argsort()), ("function", rt.argsort(a))):     # NumPy's default kind: not stable
            g = list(map(int, g))
            mc.eq((sorted(g), [ks[i] for i in g]), (list(range(n)), [ks[i] for i in wa]), "argsort " + nm, kind=k)
        if k in PLAIN:
            mc.eq(list(map(int, a.argsort(kind="stable"))), wa, "stable argsort", kind=k)
        if k in PLAIN:
            mc.eq(rawkey(rt.sort(a)), [ks[i] for i in wa], "sort", kind=k)
            b = a.copy()
            b.sort()
            mc.eq(rawkey(b), [ks[i] for i in wa], "sort method", kind=k)
            if None not in l:
                mc.eq(bool(rt.issorted(a)), wa == list(range(n)), "issorted", kind=k)
        ds = rt.Dataset({"k": a, "r": FA(np.arange(n))})
        for asc, w in ((True, wa), (False, wd), ([False], wd)):
            s = ds.sort_copy("k", ascending=asc)
            mc.eq(vals(s.r), w, "sort_copy", kind=k, asc=asc)
            mc.eq(rawkey(s.k), [ks[i] for i in w], "sort_copy key", kind=k, asc=asc)
            s = ds.copy()
            r = s.sort_inplace(["k"], ascending=asc)
            mc.eq(r is s, True, "sort_inplace returns the Dataset")
            mc.eq(vals(s.r), w, "sort_inplace", kind=k, asc=asc)
            mc.eq(rawkey(s.k), [ks[i] for i in w], "sort_inplace key", kind=k, asc=asc)
            s = ds.copy()
            s.sort_view("k", ascending=asc)
            mc.eq(vals(s.get_sorted_col_data("r")), w, "sort_view", kind=k, asc=asc)
            mc.eq(vals(s.r), list(range(n)), "sort_view leaves the data", kind=k)
        mc.eq(vals(ds.r), list(range(n)), "source of sort_copy")
        mc.eq(rawkey(ds.k), ks, "source key of sort_copy")
        mc.observe((k, tuple(wa)))

    mc.run("one_key", ((k, list(l)) for k in ALPH for n in range(0, 6 if T else 5) for l in itertools.product(ALPH[k], repeat=n)), one)

    # ------------------------------------------------------------ several keys, every direction pattern, every payload kind
    def multi(case):
        ks, ls, ascs, form = case
        cols = [mk(l, k) for k, l in zip(ks, ls)]
        names = [f"k{i}" for i in range(len(ks))]
        n = len(ls[0])
        d = dict(zip(names, cols))
        d["r"] = FA(np.arange(n))
        ds = rt.Dataset(d)
        raws = [rawkey(c) for c in cols]
        asc = list(ascs) if form != "arr" else FA(np.array(ascs, dtype=bool))
        if form == "scalar":
            asc = ascs[0]
        w = order(raws, ascs)
        s = ds.sort_copy(names, ascending=asc)
        mc.eq(vals(s.r), w, "sort_copy", kinds=ks, asc=ascs)
        for nm, rw in zip(names, raws):
            mc.eq(rawkey(s[nm]), [rw[i] for i in w], "sort_copy key", col=nm)
        s = ds.copy()
        s.sort_inplace(names, ascending=asc)
        mc.eq(vals(s.r), w, "sort_inplace", kinds=ks, asc=ascs)
        ds.sort_view(names, ascending=asc)
        mc.eq(vals(ds.get_sorted_col_data("r")), w, "sort_view", kinds=ks, asc=ascs)
        for nm, rw in zip(names, raws):
            mc.eq(rawkey(ds.get_sorted_col_data(nm)), [rw[i] for i in w], "sort_view key", col=nm)
        # rt.lexsort: last key is the primary one
        r = rt.lexsort(cols[::-1], ascending=(asc if form == "scalar" else np.array(ascs[::-1])))
        mc.eq(list(map(int, r)), w, "lexsort of several keys", kinds=ks, asc=ascs)
        mc.observe(tuple(w))

    def multi_cases():
        pairs = [("int32", "S"), ("S", "int32"), ("float64", "int8"), ("cat", "float32"), ("bool", "U"), ("date", "cat"), ("uint8", "int64"), ("dtn", "span"), ("U", "uint16"), ("int16", "uint32")]
        for ks in pairs:
            for n in range(1, 5 if T else 4):
                A, B = ALPH[ks[0]][:2 if n > 2 else 3], ALPH[ks[1]][:2 if n > 3 else 3]
                for la in itertools.product(A, repeat=n):
                    for lb in itertools.product(B, repeat=n):
                        for ascs in itertools.product((True, False), repeat=2):
                            yield ks, (list(la), list(lb)), ascs, "list"
                            if ascs[0] == ascs[1]:
                                yield ks, (list(la), list(lb)), ascs, "scalar"
                            elif n == 3:
                                yield ks, (list(la), list(lb)), ascs, "arr"
        for ks in [("int32", "bool", "S"), ("S", "float64", "cat"), ("bool", "bool", "bool")]:
            n = 3
            for ls in itertools.product(*[list(itertools.product(ALPH[k][:2], repeat=n)) for k in ks]):
                for ascs in itertools.product((True, False), repeat=3):
                    yield ks, tuple(map(list, ls)), ascs, "list"

    mc.run("several_keys", multi_cases(), multi)

    # ------------------------------------------------------------ every column kind travels with the rows
    def payload(case):
        k, n, perm, how = case
        key = FA(np.argsort(np.array(perm)).astype("int32"))     # sorting by key applies `perm`
        x = item(k, n)
        ds = rt.Dataset({"key": key, "x": x, "y": x.copy() if hasattr(x, "copy") else x})
        want = [vals(x)[i] for i in perm]
        if how == "copy":
            s = ds.sort_copy("key")
        elif how == "inplace":
            s = ds.copy().sort_inplace("key")
        elif how == "copy_desc":
            s = ds.sort_copy("key", ascending=False)
            want = want[::-1]
        else:
            ds.sort_view("key")
            mc.eq(vals(ds.get_sorted_col_data("x")), want, "sort_view payload", kind=k)
            return
        mc.eq(vals(s.x), want, "payload", kind=k, how=how)
        mc.eq(vals(s.y), want, "second payload", kind=k, how=how)
        mc.eq(kind(s.x), kind(x), "payload kind", kind=k)
        mc.eq(str(s.x.dtype), str(x.dtype), "payload dtype", kind=k)
        mc.eq(vals(ds.x), vals(x), "source payload", kind=k)

    mc.run("payload", ((k, n, p, h) for k in ALL + ["c128", "m2", "strided", "rev"] for n in ((1, 3, 4) if T else (3,)) for p in itertools.permutations(range(n)) for h in ("copy", "inplace", "copy_desc", "view")), payload)

    # ------------------------------------------------------------ larger sizes (deterministic), stability across kernel thresholds
    def big(case):
        n, k, asc = case
        base = (np.arange(n, dtype="int64") * 7919) % 13
        b2 = (np.arange(n, dtype="int64") * 104729) % 5
        if k == "S":
            a = FA(np.array([b"%d" % v for v in range(13)], dtype="S4")[base])
            rawa = np.argsort(np.argsort(np.array([b"%d" % v for v in range(13)])))[base]
        elif k == "cat":
            a = rt.Categorical(FA((base + 1).astype("int8")), FA([f"c{i:02d}" for i in range(13)]))
            rawa = base
        elif k == "dtn":
            a = rt.DateTimeNano(base * DAY + DAY, from_tz="GMT", to_tz="NYC")
            rawa = base
        else:
            a = FA(base.astype(k))
            rawa = base
        ds = rt.Dataset({"a": a, "b": FA(b2.astype("int16")), "r": FA(np.arange(n))})
        want = np.lexsort([b2 if asc[1] else -b2, rawa if asc[0] else -rawa])
        s = ds.sort_copy(["a", "b"], ascending=list(asc))
        mc.eq(bool((np.asarray(s.r) == want).all()), True, "large sort_copy", n=n, kind=k, asc=asc)
        mc.eq(bool((np.asarray(s.b) == b2[want]).all()), True, "large sort_copy payload", n=n, kind=k, asc=asc)
        w1 = np.argsort(rawa, kind="stable")
        g = np.asarray(a.argsort())
        mc.eq(bool((rawa[g] == rawa[w1]).all() and (np.sort(g) == np.arange(n)).all()), True, "large argsort", n=n, kind=k)
        mc.eq(bool((np.asarray(rt.lexsort([a])) == w1).all()), True, "large lexsort", n=n, kind=k)
        ds.sort_view(["a", "b"], ascending=list(asc))
        mc.eq(bool((np.asarray(ds.get_sorted_col_data("r")) == want).all()), True, "large sort_view", n=n, kind=k, asc=asc)

    SZ = [15, 16, 17, 255, 256, 257, 4095, 4096, 4097, 65535, 65537] + ([16383, 16385, 131073, 1 << 20, (1 << 20) + 1] if T else [])
    mc.run("sizes", itertools.product(SZ, ["int8", "int32", "int64", "float32", "float64", "uint8", "S", "cat", "dtn"], itertools.product((True, False), repeat=2)), big)

    # ------------------------------------------------------------ histories of views and edits
    def display_rows(ds):
        """row numbers and cells in the order the displayed table shows them"""
        txt = repr(ds).split("\n")
        body, seen = [], False
        for ln in txt[0:]:
            if set(ln.strip()) <= set("- ") and ln.strip():
                seen = True
                continue
            if seen:
                if not ln.strip():
                    break
                body.append(ln.split())
        return body

    class M:
        """model: ordered columns of raw lists + sort keys"""
        def __init__(self):
            self.cols, self.keys, self.on = {}, None, False

        def clone(self):
            m = M()
            m.cols = {c: list(v) for c, v in self.cols.items()}
            m.keys, m.on = (list(self.keys) if self.keys else None), self.on
            return m

        def n(self):
            return len(next(iter(self.cols.values()))) if self.cols else 0

        def perm(self):
            if not self.keys:
                return list(range(self.n()))
            return order([self.cols[c] for c, _ in self.keys], [a for _, a in self.keys])

    # strided: a key column which is a view with a step
    def fresh(strided):
        m = M()
        a, b = [2, 1, 2, 1], [1, 0, 3, 2]
        if strided:
            buf = np.zeros(8, dtype="int32")
            buf[::2] = a
            A = FA(buf)[::2]
        else:
            A = FA(np.array(a, dtype="int32"))
        ds = rt.Dataset({"a": A, "b": FA(np.array(b, dtype="float64")), "r": FA(np.arange(4))})
        m.cols = {"a": list(a), "b": [float(x) for x in b], "r": list(range(4))}
        return ds, m

    VIEWS = [(["a"], [True]), (["a"], [False]), (["a", "b"], [True, False]), (["b", "a"], [False, True]), (["b"], [False])]

    def rekey(m, c):
        """replacing (not editing) a key column ends the sort view"""
        if m.keys and any(k == c for k, _ in m.keys):
            m.keys = None

    def step(op, ds, m, aux):
        """returns (ds, m) after the op, or None when not enabled"""
        t = op[0]
        if t == "view":
            ks, asc = VIEWS[op[1]]
            if any(k not in m.cols for k in ks):
                return None
            ds.sort_view(ks if len(ks) > 1 else ks[0], ascending=asc if len(asc) > 1 else asc[0])
            m.keys, m.on = list(zip(ks, asc)), True
        elif t == "sorts_off":
            ds.sorts_off()
            m.keys, m.on = None, False
        elif t == "inplace":
            ks, asc = VIEWS[op[1]]
            if any(k not in m.cols for k in ks):
                return None
            ds.sort_inplace(ks, ascending=asc)
            p = order([m.cols[c] for c in ks], asc)
            m.cols = {c: [v[i] for i in p] for c, v in m.cols.items()}
            if m.on:
                m.keys, m.on = None, False
        elif t == "copysort":
            ks, asc = VIEWS[op[1]]
            if any(k not in m.cols for k in ks):
                return None
            ds = ds.sort_copy(ks, ascending=asc)
            p = order([m.cols[c] for c in ks], asc)
            m.cols = {c: [v[i] for i in p] for c, v in m.cols.items()}
            m.keys, m.on = None, False
        elif t == "setcol":
            if op[1] not in m.cols:
                return None
            v = [(3 * i + op[2]) % 4 for i in range(m.n())]
            dt = np.asarray(ds[op[1]]).dtype
            ds[op[1]] = FA(np.array(v, dtype=dt))
            m.cols[op[1]] = [float(x) for x in v] if dt.kind == "f" else v
            rekey(m, op[1])
        elif t == "elem":
            if op[1] not in m.cols or m.n() == 0:
                return None
            i = m.n() - 1
            ds[op[1]][i] = op[2]
            m.cols[op[1]][i] = float(op[2]) if isinstance(m.cols[op[1]][0], float) else op[2]
        elif t == "elem2":
            if op[1] not in m.cols or m.n() == 0:
                return None
            ds[0, op[1]] = op[2]
            m.cols[op[1]][0] = float(op[2]) if isinstance(m.cols[op[1]][0], float) else op[2]
        elif t == "swap":
            if "a" not in m.cols or "b" not in m.cols:
                return None
            x, y = ds.a, ds.b
            ds.a = y
            ds.b = x
            m.cols["a"], m.cols["b"] = m.cols["b"], m.cols["a"]
            rekey(m, "a")
            rekey(m, "b")
        elif t == "del":
            if op[1] not in m.cols:
                return None
            del ds[op[1]]
            del m.cols[op[1]]
            if m.keys and any(c == op[1] for c, _ in m.keys):
                m.keys = None
        elif t == "remove":
            if op[1] not in m.cols:
                return None
            ds.col_remove(op[1])
            del m.cols[op[1]]
            if m.keys and any(c == op[1] for c, _ in m.keys):
                m.keys = None
        elif t == "rename":
            if op[1] not in m.cols or op[2] in m.cols:
                return None
            ds.col_rename(op[1], op[2])
            m.cols = {op[2] if c == op[1] else c: v for c, v in m.cols.items()}
            if m.keys:
                m.keys = [(op[2] if c == op[1] else c, a) for c, a in m.keys]
        elif t == "str":
            old, new, mx = op[1:]
            nm = {c: c.replace(old, new, mx) for c in m.cols}
            if len(set(nm.values())) < len(nm):
                return None
            ds.col_str_replace(old, new, mx)
            m.cols = {nm[c]: v for c, v in m.cols.items()}
            if m.keys:
                m.keys = [(nm[c], a) for c, a in m.keys]
        elif t == "add":
            if op[1] in m.cols:
                return None
            v = [(m.n() - i) % 3 for i in range(m.n())]
            ds[op[1]] = FA(np.array(v, dtype="int32"))
            m.cols[op[1]] = v
        elif t == "rows":
            p = {"rev": list(range(m.n()))[::-1], "mask": [i for i in range(m.n()) if i != 1], "head": list(range(m.n()))[:2], "fancy": [i % m.n() for i in (2, 0, 2)] if m.n() else []}[op[1]]
            n = m.n()
            if n == 0:
                return None
            if op[1] == "rev":
                ds = ds[::-1, :]
            elif op[1] == "mask":
                ds = ds[FA(np.array([i != 1 for i in range(n)])), :]
            elif op[1] == "head":
                ds = ds[:2, :]
            else:
                ds = ds[p, :]
            m.cols = {c: [v[i] for i in p] for c, v in m.cols.items()}
        elif t == "select":
            keep = [c for c in op[1] if c in m.cols]
            if not keep:
                return None
            ds = ds[keep]
            m.cols = {c: list(m.cols[c]) for c in keep}
            if m.keys:
                m.keys = [(c, a) for c, a in m.keys if c in keep] or None
        elif t == "copy":
            aux.append((ds, m.clone()))
            ds = ds.copy()
        elif t == "refused":
            try:
                ds.sort_view(["a", "nosuch"])
                mc.fail("sort by an unknown column accepted")
            except ValueError:
                pass
        return ds, m

    def observe(ds, m, what):
        p = m.perm()
        for c in m.cols:
            mc.eq(vals(ds[c]), m.cols[c], what + " data", col=c)
            mc.eq(vals(ds.get_sorted_col_data(c)), [m.cols[c][i] for i in p], what + " sorted column", col=c, keys=m.keys)
        if m.n() and m.cols:
            rows = display_rows(ds)
            if "r" in m.cols and rows:
                mc.eq([int(r[0]) for r in rows], p if m.on else list(range(m.n())), what + " displayed rows", keys=m.keys)

    def hist(case):
        strided, ops = case
        ds, m = fresh(strided)
        aux = []
        for op in ops:
            r = step(op, ds, m, aux)
            if r is None:
                return
            ds, m = r
            mc.op()
            observe(ds, m, "after history")
            for d2, m2 in aux:
                observe(d2, m2, "the Dataset a copy was taken from")

    OPS = [("view", 0), ("view", 1), ("view", 2), ("view", 3), ("sorts_off",), ("inplace", 2), ("inplace", 4), ("copysort", 3), ("setcol", "a", 1), ("setcol", "b", 2), ("elem", "a", -5), ("elem", "b", 9),
           ("elem2", "a", 7), ("swap",), ("del", "a"), ("remove", "b"), ("rename", "a", "z"), ("rename", "z", "a"), ("str", "a", "zz", -1), ("str", "z", "y", 1), ("add", "a"), ("rows", "rev"), ("rows", "mask"), ("rows", "fancy"), ("select", ("r", "a")), ("select", ("b", "r")), ("copy",), ("refused",)]
    FIRST = [("view", i) for i in range(4)]

    def hist_cases():
        for strided in (False, True):
            for n in range(1, 4 if T else 3):
                for f in FIRST:
                    for ops in itertools.product(OPS, repeat=n):
                        yield strided, (f,) + ops
        # without a view first
        for ops in itertools.product(OPS, repeat=2):
            yield False, ops
        # a view, an edit, another view, an edit
        E = [("elem", "a", -5), ("setcol", "a", 1), ("swap",), ("elem", "b", 9), ("rename", "a", "z"), ("del", "a"), ("copy",), ("rows", "rev"), ("inplace", 2)]
        if not T:
            for f, e, g, h in itertools.product(FIRST, E, FIRST, E):
                yield False, (f, e, g, h)

    mc.run("view_histories", hist_cases(), hist)

    # every ordered pair (thorough: triple) of view requests on unchanged data
    VW = [(ks, asc) for ks in (("a",), ("b",), ("a", "b"), ("b", "a"), ("a", "b", "c"), ("c", "b", "a")) for asc in itertools.product((True, False), repeat=len(ks))]

    def reviews():
        for d in ((0, 0, 1, 1), (1, 0, 0, 1)):
            for e in ((0, 1, 0, 1), (1, 0, 1, 0), (0, 0, 0, 0)):
                for v in itertools.product(range(len(VW)), repeat=3 if T else 2):
                    yield d, e, v

    def review(case):
        d, e, v = case
        c = (1, 1, 0, 0)
        cols = {"a": list(d), "b": list(e), "c": list(c)}
        ds = rt.Dataset({k: FA(np.array(x, "int32" if k != "b" else "float64")) for k, x in cols.items()})
        ds.r = rt.arange(4)
        for j, i in enumerate(v):
            ks, asc = VW[i]
            ds.sort_view(list(ks), ascending=list(asc))
            w = order([cols[k] for k in ks], list(asc))
            mc.eq(vals(ds.get_sorted_col_data("r")), w, "sort_view after another sort_view", step=j)
            if j:
                mc.eq([int(r[-1]) for r in display_rows(ds)], w, "displayed order after another sort_view", step=j)
        mc.eq(vals(ds.r), [0, 1, 2, 3], "sort_view leaves the data")

    mc.run("reviews", reviews(), review)


    # ------------------------------------------------------------ views keyed by Categoricals, strings, dates whose values are edited
    def catview(case):
        k, l, e, asc = case
        ds = rt.Dataset({"k": mk(list(l), k), "r": FA(np.arange(len(l)))})
        ds.sort_view("k", ascending=asc)
        w = order([rawkey(ds.k)], [asc])
        mc.eq(vals(ds.get_sorted_col_data("r")), w, "view", kind=k)
        ds.k[:] = mk(list(e), k) if k != "cat" else ds.k
        if k == "cat":
            ds.k._fa[:] = np.array(list(e), dtype="int8")
        w = order([rawkey(ds.k)], [asc])
        mc.eq(vals(ds.get_sorted_col_data("r")), w, "view after the key column was overwritten in place", kind=k)
        mc.eq([int(r[0]) for r in display_rows(ds)], w, "displayed rows", kind=k)
        ds.k = mk(list(e), k)
        ds.sort_view("k", ascending=asc)
        i = 0
        if k == "cat":
            ds.k._fa[i] = ds.k._fa[len(l) - 1]
        else:
            ds.k[i] = ds.k[len(l) - 1]
        w = order([rawkey(ds.k)], [asc])
        mc.eq(vals(ds.get_sorted_col_data("r")), w, "view after an element was changed", kind=k)
        mc.eq([int(r[0]) for r in display_rows(ds)], w, "displayed rows after an element was changed", kind=k)

    mc.run("key_kinds", ((k, l, e, asc) for k in ALPH if k not in ("U",) for l in itertools.product(ALPH[k][:2], repeat=3) for e in itertools.product(ALPH[k][:3], repeat=3) for asc in (True, False)), catview)

    # ------------------------------------------------------------ footers and labels stay with a sorted Dataset
    def foot(case):
        how, asc = case
        ds = rt.Dataset({"a": [2, 1, 3], "b": [1.0, 2.0, 3.0]})
        ds.footer_set_values("T", {"a": 6, "b": 6.0})
        ds.label_set_names(["a"])
        s = ds.sort_copy("a", ascending=asc) if how == "copy" else (ds.copy().sort_inplace("a", ascending=asc) if how == "inplace" else ds.sort_view("a", ascending=asc))
        mc.eq(s.label_get_names(), ["a"], "labels of a sorted Dataset", how=how)
        mc.eq(list(s.footers), ["T"], "footers of a sorted Dataset", how=how)
        w = [0, 1, 2] if how == "view" else order([[2, 1, 3]], [asc])
        mc.eq(vals(s.b), [[1.0, 2.0, 3.0][i] for i in w], "data", how=how)

    mc.run("labels_footers", itertools.product(("copy", "inplace", "view"), (True, False)), foot)
