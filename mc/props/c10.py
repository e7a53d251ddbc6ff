"""C10 Categorical edits change exactly the intended labels through any history."""
import itertools, warnings
import numpy as np
import riptable as rt
from ..model import *

PROPERTY = "C10"
X = [1, 2, 4, 8]


class EndOfHistory(Exception):
    pass


def explore(mc):
    T = mc.thorough
    warnings.simplefilter("ignore")

    class M:
        """reference: row labels, category list, flags"""

        def __init__(s, rows, cats):
            s.rows, s.cats, s.auto, s.lock, s.inv = list(rows), list(cats), False, False, None

        def clone(s):
            m = M(s.rows, s.cats)
            m.inv = s.inv
            return m

    def idx(sel, m):
        """python row list and riptable indexer of a selector"""
        n = len(m.rows)
        if sel == "i0":
            return [0], 0
        if sel == "i-1":
            return [n - 1], -1
        if sel == "sl":
            return list(range(1, n)), slice(1, None)
        if sel == "mask":
            r = [i % 2 == 0 for i in range(n)]
            return [i for i in range(n) if r[i]], rt.FastArray(r)
        if sel == "fancy":
            return [n - 1, 1], rt.FastArray(np.array([n - 1, 1]))
        if sel == "list":
            return [0, 2], [0, 2]
        return [i for i in range(n) if m.rows[i] == sel], sel

    def check(c, m, base, what, groups=True):
        mc.eq(vals(c), m.rows, what + " labels")
        n = len(m.rows)
        for i in range(n):
            got = c[i]
            if m.rows[i] is not None:
                mc.eq(scalar(got), m.rows[i], what + f" item {i}")
            else:
                mc.eq(isinstance(got, str) and (got == c.filtered_name or got.startswith("!<")), True, what + f" filtered item {i}", item=got)
        if not c.isenum:
            mc.eq(sorted(vals(c.category_array)), sorted(m.cats), what + " categories")
        if groups and (base != 0 or None not in m.rows):
            if c.isenum:
                return
            x = rt.FastArray(np.array(X[:n]))
            for g in m.cats:
                mc.eq(vals(c == g), [w == g for w in m.rows], what + f" == {g}")
            r = c.sum(x)
            nm = r.label_get_names()[0]
            d = dict(zip(vals(r[nm]), vals(r[[k for k in r.keys() if k != nm][0]])))
            mc.eq(dict(sorted(d.items())), {g: sum(v for v, w in zip(X, m.rows) if w == g) for g in sorted(m.cats)}, what + " group sum")
            r = c.count()
            mc.eq(dict(sorted(zip(vals(r[nm]), vals(r.Count)))), {g: m.rows.count(g) for g in sorted(m.cats)}, what + " group count")
            r = c.first(x)
            d = dict(zip(vals(r[nm]), vals(r[[k for k in r.keys() if k != nm][0]])))
            mc.eq(dict(sorted(d.items())), {g: next((v for v, w in zip(X, m.rows) if w == g), None) for g in sorted(m.cats)}, what + " group first")
            if base == 1:
                ff = {g: m.rows.index(g) for g in m.cats if g in m.rows}
                fk = vals(c.ifirstkey)
                mc.eq({g: fk[vals(c.category_array).index(g)] for g in ff}, ff, what + " ifirstkey")

    def step(c, m, op, base, what):
        """apply op to both; returns the (possibly new) categorical, model"""
        kind_ = op[0]
        if kind_ == "set":
            _, sel, v = op
            if isinstance(sel, str) and sel in ("a", "b", "d") and sel not in m.cats:
                try:
                    before = vals(c)
                    c[sel] = v
                    mc.soft(what + ": indexing by an absent label did not raise")
                except Exception:
                    mc.eq(vals(c), before, what + " after an error")
                    if v not in m.cats and m.auto and isinstance(v, str):
                        m.cats.append(v) if v in vals(c.category_array) else None
                return c, m
            rows, ix = idx(sel, m)
            if m.lock and isinstance(v, str):
                mc.raises(lambda: c.__setitem__(ix, v), what + " locked", IndexError)
                return c, m
            if isinstance(v, int):
                lab = m.order(c)
                if v > len(lab) - 1 + base or v < 0:
                    mc.raises(lambda: c.__setitem__(ix, v), what + " code out of range", IndexError)
                    return c, m
                w = None if base == 1 and v == 0 else lab[v - base]
            else:
                w = v
                if v not in m.cats:
                    if not m.auto:
                        mc.raises(lambda: c.__setitem__(ix, v), what + " label not in categories", ValueError)
                        return c, m
                    m.cats.append(v)
            c[ix] = v
            for i in rows:
                m.rows[i] = w
            return c, m
        if kind_ == "add":
            if m.lock or op[1] in m.cats:
                mc.raises(lambda: c.category_add(op[1]), what + " refused", ValueError)
            else:
                c.category_add(op[1])
                m.cats.append(op[1])
            return c, m
        if kind_ == "rem":
            if m.lock or op[1] not in m.cats:
                mc.raises(lambda: c.category_remove(op[1]), what + " refused", ValueError)
            else:
                order0 = vals(c.category_array)
                c.category_remove(op[1])
                m.cats.remove(op[1])
                m.rows = [None if w == op[1] else w for w in m.rows]
                # what category_remove does get right: the category array, and codes that fit it
                cat = vals(c.category_array)
                mc.eq(cat, [q for q in order0 if q != op[1]], what + " category array")
                mc.eq([cat[int(k) - base] if int(k) >= base else None for k in c._fa], m.rows, what + " codes and category array")
                # known finding: the grouping keeps the old categories, so labels read through it are wrong
                K = "category_remove leaves the grouping stale"
                mc.eq(vals(c), m.rows, what + " labels", key=K)
                nm = c.count().label_get_names()
                mc.eq(sorted(vals(c.count()[nm[0]])), sorted(m.cats), what + " groups", key=K)
                raise EndOfHistory()
            return c, m
        if kind_ == "rep":
            if m.lock or op[1] not in m.cats:
                mc.raises(lambda: c.category_replace(op[1], op[2]), what + " refused", ValueError)
            else:
                c.category_replace(op[1], op[2])
                m.rows = [op[2] if w == op[1] else w for w in m.rows]
                if op[2] not in m.cats:
                    m.cats[m.cats.index(op[1])] = op[2]
            return c, m
        if kind_ == "auto":
            if op[1]:
                c.auto_add_on()
                m.auto = m.auto or not m.lock
            else:
                c.auto_add_off()
                m.auto = False
            return c, m
        if kind_ == "lock":
            (c.lock if op[1] else c.unlock)()
            m.lock = op[1]
            return c, m
        if kind_ == "read":
            check(c, m, base, what)
            if not m.lock:
                c.unlock()  # a group operation locks the Categorical
            return c, m
        if kind_ == "copy":
            c2 = c.copy()
            m2 = m.clone()
            m2.auto, m2.lock = m.auto, False
            # later edits go to the copy; the original must keep its labels
            olds.append((c, list(m.rows), list(m.cats), what))
            m2.auto = False
            c2.auto_add_off()
            return c2, m2
        if kind_ == "valid":
            if base != 1:
                return c, m
            ok = [i % 2 == 1 for i in range(len(m.rows))]
            c2 = c.set_valid(rt.FastArray(ok))
            m2 = m.clone()
            m2.rows = [w if k else None for w, k in zip(m.rows, ok)]
            m2.cats = [q for q in m.cats if q in m2.rows]
            olds.append((c, list(m.rows), list(m.cats), what))
            return c2, m2
        if kind_ == "take":
            n = len(m.rows)
            c2 = c[rt.FastArray(np.arange(n)[::-1].copy())]
            m2 = m.clone()
            m2.rows = m.rows[::-1]
            olds.append((c, list(m.rows), list(m.cats), what))
            return c2, m2
        if kind_ == "inv":
            if base == 1:
                c.fill_invalid()
                m.rows = [None] * len(m.rows)
            return c, m
        raise AssertionError(op)

    M.order = lambda s, c: vals(c.category_array)
    olds = []

    OPS = [("set", "i0", "b"), ("set", "i-1", "a"), ("set", "sl", "d"), ("set", "mask", 1), ("set", "fancy", 2), ("set", "list", "b"), ("set", "a", "b"), ("set", "i0", 0), ("set", "i0", "zz"), ("set", "mask", "new"), ("set", "b", "d"),
           ("add", "new"), ("add", "a"), ("add", "toolong"), ("rem", "a"), ("rem", "d"), ("rem", "zz"), ("rep", "a", "q"), ("rep", "a", "b"), ("rep", "b", "longer"), ("rep", "zz", "q"),
           ("auto", True), ("auto", False), ("lock", True), ("lock", False), ("read",), ("copy",), ("valid",), ("take",), ("inv",), ("set", "i0", 9)]

    def mk(route):
        lab = ["b", "a", "d", "a"]
        if route == "ordered":
            return rt.Categorical(rt.FastArray(np.array(lab))), M(lab, ["a", "b", "d"]), 1
        if route == "unordered":
            return rt.Categorical(rt.FastArray(np.array(lab)), ordered=False), M(lab, ["b", "a", "d"]), 1
        if route == "unicode":
            return rt.Categorical(rt.FastArray(np.array(lab), unicode=True), unicode=True), M(lab, ["a", "b", "d"]), 1
        if route == "codes":
            return rt.Categorical(rt.FastArray(np.array([1, 2, 3, 0], dtype="int8")), ["d", "a", "b"]), M(["d", "a", "b", None], ["d", "a", "b"]), 1
        if route == "filter":
            return rt.Categorical(rt.FastArray(np.array(lab)), filter=rt.FastArray([True, False, True, True])), M(["b", None, "d", "a"], ["a", "b", "d"]), 1
        if route == "base0":
            return rt.Categorical(rt.FastArray(np.array(lab)), base_index=0), M(lab, ["a", "b", "d"]), 0
        if route == "auto":
            c = rt.Categorical(rt.FastArray(np.array(lab)))
            c.auto_add_on()
            m = M(lab, ["a", "b", "d"])
            m.auto = True
            return c, m, 1
        if route == "sliced":
            return rt.Categorical(rt.FastArray(np.array(["d"] + lab)))[1:], M(lab, ["a", "b", "d"]), 1

    ROUTES = ["ordered", "unordered", "unicode", "codes", "filter", "base0", "auto", "sliced"]

    def space1():
        for r in ROUTES:
            for d in range(1, 3):
                for h in itertools.product(range(len(OPS)), repeat=d):
                    yield r, h
        core = [i for i, o in enumerate(OPS) if o in (("set", "i0", "b"), ("set", "mask", "new"), ("add", "new"), ("rem", "a"), ("rep", "a", "q"), ("rep", "a", "b"), ("auto", True), ("read",), ("copy",), ("valid",), ("set", "fancy", 2), ("take",))]
        for r in ROUTES if T else ("ordered", "unordered", "codes", "auto"):
            for h in itertools.product(core if not T else range(len(OPS)), repeat=3):
                yield r, h
        if T:
            for r in ("ordered", "codes", "filter", "base0"):
                for h in itertools.product(core, repeat=4):
                    yield r, h

    def run1(case):
        route, h = case
        c, m, base = mk(route)
        del olds[:]
        for s, i in enumerate(h):
            op = OPS[i]
            what = f"step {s} {op}"
            try:
                c, m = step(c, m, op, base, what)
            except EndOfHistory:
                break
            mc.eq(vals(c), m.rows, what + " labels")
        else:
            check(c, m, base, "finally")
        for o, rows, cats, w in olds:
            mc.eq(vals(o), rows, w + ": original of a copy keeps its labels")
            mc.eq(sorted(vals(o.category_array)), sorted(cats), w + ": original of a copy keeps its categories")

    mc.run("string category histories", space1(), run1)

    # ------------------------------------------------------------ mapping mode
    MOPS = [("madd", 9, "n"), ("madd", 3, "x"), ("mrem", 7), ("mrem", 9), ("mrep", 3, "q"), ("mrep", 99, "q"), ("mnew", ((3, "p"), (7, "r"), (1, "s"), (9, "t"))), ("set", "i0", "a"), ("set", "sl", 1), ("set", "i0", 99), ("set", "mask", "zz"),
            ("set", "b", "a"), ("lock", True), ("lock", False), ("copy",), ("read",), ("take",), ("sum",)]

    def space2():
        for dt in ("int32", "int8"):
            for d in range(1, 4 if T else 3):
                for h in itertools.product(range(len(MOPS)), repeat=d):
                    yield dt, h
        if not T:
            for h in itertools.product([0, 2, 4, 6, 7, 14, 17], repeat=3):
                yield "int32", h

    def run2(case):
        dt, h = case
        mp = {3: "b", 7: "a", 1: "cc"}
        cod = [3, 7, 1, 7]
        c = rt.Categorical(rt.FastArray(np.array(cod, dtype=dt)), dict(mp))
        lock = False
        old = []
        for s, i in enumerate(h):
            op = MOPS[i]
            what = f"step {s} {op}"
            k = op[0]
            if k == "madd":
                if lock or op[1] in mp:
                    mc.raises(lambda: c.mapping_add(op[1], op[2]), what + " refused", ValueError)
                else:
                    c.mapping_add(op[1], op[2])
                    mp[op[1]] = op[2]
            elif k == "mrem":
                if lock or op[1] not in mp:
                    mc.raises(lambda: c.mapping_remove(op[1]), what + " refused", ValueError)
                else:
                    c.mapping_remove(op[1])
                    del mp[op[1]]
            elif k == "mrep":
                if lock or op[1] not in mp:
                    mc.raises(lambda: c.mapping_replace(op[1], op[2]), what + " refused", ValueError)
                else:
                    c.mapping_replace(op[1], op[2])
                    mp[op[1]] = op[2]
            elif k == "mnew":
                if lock:
                    mc.raises(lambda: c.mapping_new(dict(op[1])), what + " refused", ValueError)
                else:
                    c.mapping_new(dict(op[1]))
                    mp = dict(op[1])
            elif k == "set":
                v = op[2]
                inv = {b: a for a, b in mp.items()}
                rows = {"i0": [0], "sl": [1, 2, 3], "mask": [0, 2], "b": [j for j, q in enumerate(cod) if mp.get(q) == "b"]}[op[1]]
                ix = {"i0": 0, "sl": slice(1, None), "mask": rt.FastArray([True, False, True, False]), "b": "b"}[op[1]]
                bad = (v not in inv) if isinstance(v, str) else v not in mp
                if op[1] == "b" and "b" not in inv:
                    bad = True
                if (lock and isinstance(v, str)) or bad:
                    mc.raises(lambda: c.__setitem__(ix, v), what + " refused", (ValueError, IndexError))
                else:
                    c[ix] = v
                    for j in rows:
                        cod[j] = inv[v] if isinstance(v, str) else v
            elif k == "lock":
                (c.lock if op[1] else c.unlock)()
                lock = op[1]
            elif k == "copy":
                old.append((c, list(cod), dict(mp)))
                c = c.copy()
                mp = dict(mp)
                cod = list(cod)
                lock = False
            elif k == "take":
                c = c[::-1]
                cod = cod[::-1]
                lock = False
            elif k == "sum":
                pass
            if k in ("read", "sum") or s == len(h) - 1:
                L = [mp.get(q) for q in cod]
                mc.eq([c[j] for j in range(4)], [mp.get(q, f"!<{q}>") for q in cod], what + " items")
                mc.eq({int(a): scalar(b) for a, b in sorted(c.category_mapping.items())}, dict(sorted(mp.items())), what + " mapping")
                for lab in sorted(set(mp.values())):
                    mc.eq(vals(c == lab), [w == lab for w in L], what + f" == {lab}")
                if all(q in mp for q in cod):
                    x = rt.FastArray(np.array(X))
                    r = c.sum(x)
                    nm = r.label_get_names()[0]
                    d = dict(zip(vals(r[nm]), vals(r[[q for q in r.keys() if q != nm][0]])))
                    if not lock:
                        c.unlock()
                    mc.eq({a: b for a, b in sorted(d.items()) if b}, {w: sum(v for v, q in zip(X, L) if q == w) for w in sorted(set(L))}, what + " group sum")
        for o, oc, om in old:
            mc.eq([o[j] for j in range(4)], [om.get(q, f"!<{q}>") for q in oc], "original of a copy keeps its labels")

    mc.run("mapping histories", space2(), run2)

    # ------------------------------------------------------------ numeric categories and multikey assignment
    def space3():
        for h in itertools.product(range(7), repeat=3 if T else 2):
            for kt in ("int", "float", "multi"):
                yield kt, h

    def run3(case):
        kt, h = case
        if kt == "multi":
            L = [("b", 1), ("a", 2), ("b", 2), ("a", 2)]
            c = rt.Categorical([rt.FastArray(np.array([q[0] for q in L])), rt.FastArray(np.array([q[1] for q in L]))])
            lv = [("b", 1), ("a", 2), ("b", 2)]
            bad = ("a", 1)
        elif kt == "float":
            L = [2.5, 1.5, 3.5, 1.5]
            c = rt.Categorical(rt.FastArray(np.array(L)))
            lv = [1.5, 2.5, 3.5]
            bad = 9.5
        else:
            L = [20, 10, 30, 10]
            c = rt.Categorical(rt.FastArray(np.array(L)))
            lv = [10, 20, 30]
            bad = None
        rows = list(L)
        for s, op in enumerate(h):
            what = f"step {s} op {op}"
            if op == 0:
                c[0] = 1
                rows[0] = lv[0]
            elif op == 1:
                c[1:3] = 3
                rows[1:3] = [lv[2]] * 2
            elif op == 2:
                if kt != "int":
                    c[3] = lv[1]
                    rows[3] = lv[1]
            elif op == 3:
                if kt == "float":
                    mc.raises(lambda: c.__setitem__(0, bad), what, ValueError)
                elif kt == "multi":
                    mc.raises(lambda: c.__setitem__(0, bad), what, ValueError)
            elif op == 4:
                c[rt.FastArray([True, False, False, True])] = 0
                rows[0] = rows[3] = None
            elif op == 5:
                if kt != "int":
                    c[lv[0]] = lv[1]
                    rows = [lv[1] if q == lv[0] else q for q in rows]
            elif op == 6:
                mc.raises(lambda: c.__setitem__(0, 9), what + " code out of range", IndexError)
            mc.eq(vals(c), rows, what)
            x = rt.FastArray(np.array(X))
            r = c.sum(x)
            nm = r.label_get_names()
            ks = list(zip(*[vals(r[q]) for q in nm])) if kt == "multi" else vals(r[nm[0]])
            d = dict(zip(ks, vals(r[[q for q in r.keys() if q not in nm][0]])))
            mc.eq(d, {w: sum(v for v, q in zip(X, rows) if q == w) for w in lv}, what + " group sum")
            c.unlock()

    mc.run("numeric and multikey assignment", space3(), run3)

    # ------------------------------------------------------------ assigning another Categorical / a slice view
    def space4():
        for a in canon(3, 3):
            for b in canon(2, 3):
                yield a, b

    def run4(case):
        a, b = case
        lb = ["b", "a", "d"]
        A, B = [lb[i] for i in a], [lb[i] for i in b]
        cats = rt.FastArray(np.array(lb))
        c = rt.Categorical(rt.FastArray(np.array([i + 1 for i in a], dtype="int8")), cats)
        d = rt.Categorical(rt.FastArray(np.array([i + 1 for i in b], dtype="int8")), cats)
        c[1:] = d
        mc.eq(vals(c), A[:1] + B, "assigning a Categorical with the same categories")
        mc.eq(vals(d), B, "assigned value untouched")
        c = rt.Categorical(rt.FastArray(np.array([i + 1 for i in a], dtype="int8")), cats)
        c[rt.FastArray([True, False, True])] = rt.FastArray(np.array([i + 1 for i in b], dtype="int8"))
        mc.eq(vals(c), [B[0], A[1], B[1]], "assigning codes through a mask")
        r = c.count()
        mc.eq(dict(zip(vals(r[r.label_get_names()[0]]), vals(r.Count))), {q: [B[0], A[1], B[1]].count(q) for q in lb}, "count after assigning codes")
        # editing a copy after grouping it
        c = rt.Categorical(rt.FastArray(np.array(A)))
        c.count()
        e = c.copy()
        e[0] = A[1]
        mc.eq(vals(c), A, "copy edited, original")
        mc.eq(vals(e), [A[1]] + A[1:], "copy edited")
        r = e.count()
        got = dict(zip(vals(r[r.label_get_names()[0]]), vals(r.Count)))
        mc.eq({k: v for k, v in got.items() if v}, {q: ([A[1]] + A[1:]).count(q) for q in sorted(set([A[1]] + A[1:]))}, "count of edited copy")
        r = c.count()
        mc.eq(dict(zip(vals(r[r.label_get_names()[0]]), vals(r.Count))), {q: A.count(q) for q in sorted(set(A))}, "count of original")
        # in a Dataset
        ds = rt.Dataset({"c": rt.Categorical(rt.FastArray(np.array(A))), "x": rt.FastArray([1, 2, 4])})
        ds.c.sum(ds.x)
        ds.c.unlock()
        ds.c[2] = A[0]
        W = A[:2] + [A[0]]
        r = ds.gb("c").sum()
        got = dict(zip(vals(r.c), vals(r.x)))
        mc.eq({k: v for k, v in got.items() if v}, {q: sum(v for v, w in zip([1, 2, 4], W) if w == q) for q in sorted(set(W))}, "gb after edit")

    mc.run("assigning categoricals and codes", space4(), run4)

    # ------------------------------------------------------------ assigning a Categorical with its own categories
    def mkcat(kind, rows):
        """a Categorical of the given kind that stands for rows (None = filtered), and whether it can hold None"""
        f = None if None not in rows else rt.FastArray(np.array([r is not None for r in rows]))
        num = {"a": 20, "b": 10, "d": 30}
        full = [x if x is not None else "a" for x in rows]
        if kind == "str":
            return rt.Categorical(rt.FastArray(np.array(full, "S")), filter=f)
        if kind == "unordered":
            return rt.Categorical(rt.FastArray(np.array(full, "S")), filter=f, ordered=False)
        if kind == "base0":
            return rt.Categorical(rt.FastArray(np.array(full, "S")), base_index=0)
        if kind == "U":
            return rt.Categorical(rt.FastArray(np.array(full), unicode=True), filter=f, unicode=True)
        if kind == "all":
            return rt.Categorical(full, ["d", "a", "x", "b"], filter=f)
        if kind == "enum":
            return rt.Categorical([{"a": 7, "b": 3, "d": 9}[x] for x in full], {7: "a", 3: "b", 9: "d", 11: "x"})
        if kind == "enum2":
            return rt.Categorical([{"a": 1, "b": 2, "d": 3}[x] for x in full], {1: "a", 2: "b", 3: "d"})
        if kind == "digits":
            return rt.Categorical(rt.FastArray(np.array([{"a": "2", "b": "1", "d": "3"}[x] for x in full], "S")), filter=f)
        if kind == "num":
            return rt.Categorical(rt.FastArray(np.array([num[x] for x in full])), filter=f)
        if kind == "flt":
            return rt.Categorical(rt.FastArray(np.array([num[x] / 4 for x in full])), filter=f)
        if kind == "mk":
            return rt.Categorical([rt.FastArray(np.array(full, "S")), rt.FastArray(np.array([num[x] for x in full]))], filter=f)

    DEC = {"digits": {"2": "a", "1": "b", "3": "d"}, "num": {20: "a", 10: "b", 30: "d"}, "flt": {5.0: "a", 2.5: "b", 7.5: "d"}, "mk": {("a", 20): "a", ("b", 10): "b", ("d", 30): "d"}}

    def dec(kind, c):
        v = vals(c)
        if kind in DEC:
            return [None if x is None else DEC[kind].get(x, x) for x in v]
        return v

    STRK = ["str", "unordered", "base0", "U", "all", "enum", "enum2"]

    def space5():
        for k1, k2 in list(itertools.product(STRK, repeat=2)) + [(k, k) for k in DEC]:
            for a in itertools.product("abd", repeat=3):
                for b in itertools.product(["a", "b", "d"] + ([None] if k2 not in ("base0", "enum", "enum2") else []), repeat=2):
                    yield k1, k2, a, b

    def run5(case):
        k1, k2, a, b = case
        for ix, pos in ((slice(1, None), [1, 2]), (rt.FastArray([True, False, True]), [0, 2]), ([2, 0], [2, 0])):
            c, d = mkcat(k1, list(a)), mkcat(k2, list(b))
            mc.eq((dec(k1, c), dec(k2, d)), (list(a), list(b)), "built")
            has = set(a) if k1 not in ("all", "enum", "enum2") else set("abd")
            if k1 != "base0":
                has.add(None)
            if k1 in ("enum", "enum2"):
                has.discard(None)
            if not set(b) <= has:
                mc.raises(lambda: c.__setitem__(ix, d), "a label the target does not have", Exception)
                mc.eq(dec(k1, c), list(a), "refused assignment leaves the target", kinds=[k1, k2])
            else:
                c[ix] = d
                w = list(a)
                for p, x in zip(pos, b):
                    w[p] = x
                mc.eq(dec(k1, c), w, "assigning a Categorical", kinds=[k1, k2])
            mc.eq(dec(k2, d), list(b), "assigned value untouched", kinds=[k1, k2])
            mc.op()

    mc.run("assigning categoricals of other categories", space5(), run5)
