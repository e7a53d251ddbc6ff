"""C09 A Categorical always stands for the labels it was built from."""
import itertools, enum, warnings
import numpy as np
import riptable as rt
from ..model import *

PROPERTY = "C09"
FILT = "Filtered"


class En(enum.IntEnum):
    b = 3
    a = 7
    cc = 1


LAB = {
    "S": ["b", "a", "cc"],
    "U": ["b", "a", "\u00e9c"],
    "i32": [5, -3, 7],
    "i8": [5, -3, 7],
    "u16": [5, 3, 700],
    "f64": [5.5, -3.0, 7.0],
    "i64": [5, -3, 1 << 40],
    "f32": [5.5, -3.0, 7.0],
}
DT = {"S": "S2", "U": "U2", "i32": "int32", "i8": "int8", "u16": "uint16", "f64": "float64", "i64": "int64", "f32": "float32"}


def src(labs, kt):
    return rt.FastArray(np.array(labs, dtype=DT[kt]), unicode=kt == "U")


def F(m):
    return None if m is None else rt.FastArray(np.array(m, dtype=bool))


def explore(mc):
    T = mc.thorough
    warnings.simplefilter("ignore")

    def basic(c, L, what, kt="S", cats=None, deep=True):
        """everything readable about c agrees with the label list L (None = filtered / invalid)"""
        n = len(L)
        mc.eq(len(c), n, what + " len")
        if not mc.eq(vals(c), L, what + " labels"):
            return
        multi = c.ismultikey
        isstr = kt in "SU"
        # element access
        for i in list(range(n)) + [-1] * (n > 0):
            x = c[i]
            w = L[i]
            if w is None:
                mc.eq(isinstance(x, str) and (x == FILT or x.startswith("!<")), True, what + f" item {i} of a filtered row", item=x)
            else:
                mc.eq(tuple(scalar(q) for q in x) if multi else scalar(x), w, what + f" item {i}")
        if not deep:
            return
        # expansion
        if not c.isenum:
            ex = c.expand_array
            if multi:
                got = list(zip(*[vals(e) for e in ex]))
                got = [None if w is None and all(q in (None, FILT) for q in g) else g for g, w in zip(got, L)]
                mc.eq(got, L, what + " expand_array")
                d = c.expand_dict
                mc.eq([vals(v) for v in d.values()], [vals(e) for e in ex], what + " expand_dict")
            else:
                got = vals(ex)
                got = [None if w is None and g == FILT else g for g, w in zip(got, L)]
                mc.eq(got, L, what + " expand_array")
                if c.base_index == 1:
                    d = c.expand_dict
                    mc.eq([vals(v) for v in d.values()], [vals(ex)], what + " expand_dict")
        if isstr and not multi:
            got = vals(c.as_string_array)
            mc.eq([None if w is None and g == FILT else g for g, w in zip(got, L)], L, what + " as_string_array")
        if c.base_index == 1:
            mc.eq(vals(c.isfiltered()), [w is None for w in L], what + " isfiltered")
        if not c.isenum:
            mc.eq(int(c.nunique()), len({w for w in L if w is not None}), what + " nunique")
            nc = len(vals(next(iter(c.category_dict.values()))))
            mc.eq(int(c.unique_count), nc, what + " unique_count")
        # text
        if n and n <= 10 and isstr and not multi and not c.isenum:
            mc.eq(str(c), ", ".join(FILT if w is None else w for w in L), what + " str")
        # one hot
        if not multi:
            lab, hot = c.one_hot_encode()
            if isstr:
                cl = [scalar(q) for q in lab]
                mc.eq([vals(h) for h in hot], [[float(w == q) for w in L] for q in cl], what + " one_hot")
                lab, hot = c.one_hot_encode(dtype=np.int8)
                mc.eq([vals(h) for h in hot], [[int(w == q) for w in L] for q in cl], what + " one_hot int8")
        # copy
        for c2, nm in ((c.copy(), "copy"), (rt.Categorical(c), "Categorical(cat)"), (c.copy(deep=False), "shallow copy"), (c[:], "[:]")):
            mc.eq(vals(c2), L, what + " " + nm)
            mc.eq(c2.isenum, c.isenum, what + " " + nm + " mode")

    def index(c, L, what):
        n = len(L)
        for s in [slice(None, None, -1), slice(1, None), slice(None, -1), slice(None, None, 2), slice(n, None)]:
            mc.eq(vals(c[s]), L[s], what + f" {s}")
        for m in ([i % 2 == 0 for i in range(n)], [False] * n, [True] * n):
            if n:
                mc.eq(vals(c[F(m)]), [w for w, k in zip(L, m) if k], what + " mask")
        if n:
            for ix in ([n - 1, 0], [0, 0, n - 1], [-1, 0]):
                for dt in ("int32", "int64", "int8"):
                    mc.eq(vals(c[rt.FastArray(np.array(ix, dtype=dt))]), [L[i] for i in ix], what + f" fancy {ix} {dt}")
                mc.eq(vals(c[ix]), [L[i] for i in ix], what + f" list {ix}")

    OPS = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
    import operator as O
    PY = {"==": O.eq, "!=": O.ne, "<": O.lt, "<=": O.le, ">": O.gt, ">=": O.ge}

    def compare(c, L, kt, ordered, what):
        univ = LAB[kt]
        absent = {"S": "bb", "U": "bb", "i32": 6, "i8": 6, "u16": 6, "f64": 6.25, "i64": 6, "f32": 6.25}[kt]
        for x in univ + [absent]:
            mc.eq(vals(c == x), [w == x for w in L], what + f" == {x!r}")
            mc.eq(vals(c != x), [w != x for w in L], what + f" != {x!r}")
            mc.eq(vals(c.isin(x)), [w == x for w in L], what + f" isin scalar {x!r}")
            mc.eq(vals(c.isin([x])), [w == x for w in L], what + f" isin [{x!r}]")
            if kt in "SU":
                mc.eq(vals(c[x]), [w == x for w in L], what + f" [{x!r}]")
                if kt == "S":
                    mc.eq(vals(c == x.encode()), [w == x for w in L], what + f" == bytes {x!r}")
                if ordered and None not in L:
                    for o in ("<", "<=", ">", ">="):
                        mc.eq(vals(PY[o](c, x)), [PY[o](w, x) for w in L], what + f" {o} {x!r}")
        for xs in ([univ[0], univ[2]], [univ[1], absent], [absent, absent], univ[::-1]):
            w = [q in xs for q in L]
            mc.eq(vals(c.isin(xs)), w, what + f" isin {xs}")
            mc.eq(vals(c.isin(set(xs))), w, what + f" isin set {xs}")
            mc.eq(vals(c.isin(tuple(xs))) if kt in "SU" else w, w, what + f" isin tuple {xs}")
            mc.eq(vals(c.isin(src(xs, kt))), w, what + f" isin array {xs}")
            mc.eq(vals(c.grouping.isin(src(xs, kt))), w, what + f" grouping isin {xs}")
            if kt in "SU":
                mc.eq(vals(c == xs) if len(xs) != len(L) else w, w, what + f" == list {xs}")
                mc.eq(vals(c[xs]), w, what + f" [list] {xs}")
        mc.eq(vals(c.isin([])), [False] * len(L), what + " isin []")

    # ------------------------------------------------------------ single key from values
    def space1():
        for kt in LAB:
            for n in range(1, 4 if not T else 5):
                for ix in canon(n, 3):
                    fl = [None] + (list(masks(n)) if kt in ("S", "U", "i32", "f64") else [])
                    for ok in fl:
                        yield kt, ix, ok

    def run1(case):
        kt, ix, ok = case
        lb = LAB[kt]
        L0 = [lb[i] for i in ix]
        L = [w if ok is None or ok[i] else None for i, w in enumerate(L0)]
        a = src(L0, kt)
        for ordered, lex, base in ((True, None, 1), (False, None, 1), (True, None, 0), (False, None, 0), (True, True, 1)):
            if base == 0 and ok is not None:
                continue
            if lex and (ok is not None):
                continue
            kw = {} if lex is None else {"lex": True}
            c = rt.Categorical(a, ordered=ordered, base_index=base, filter=F(ok), unicode=kt == "U", **kw)
            what = f"ordered={ordered} base={base} lex={lex}"
            used = [w for w in L if w is not None]
            want = sorted(set(used)) if ordered else list(dict.fromkeys(used))
            if ordered and kt == "U":
                pass
            mc.eq(vals(c.category_array), want, what + " categories")
            mc.eq(bool(c.ordered), bool(ordered), what + " ordered flag")
            mc.eq(c.base_index, base, what + " base")
            basic(c, L, what, kt, deep=True)
            if ok is None or sum(ok) == 1:
                index(c, L, what)
                compare(c, L, kt, ordered, what)
            mc.eq(vals(a), L0, what + " source untouched")

    mc.run("single key from values", space1(), run1)

    # ------------------------------------------------------------ empties, missing numeric keys, containers
    def space2():
        for kt in LAB:
            for ct in ("fa", "np", "list"):
                for ix in [(0,), (1, 0), (2, 2), (0, 1, 2), (2, 1, 0, 1)]:
                    yield kt, ct, ix

    def run2(case):
        kt, ct, ix = case
        L = [LAB[kt][i] for i in ix]
        a = src(L, kt)
        v = {"fa": a, "np": np.asarray(a), "list": list(L)}[ct]
        for nm, c in (("Cat", rt.Cat(v)), ("Categorical", rt.Categorical(v)), ("CatZero", rt.CatZero(v) if ct != "list" or len(L) > 1 else None), ("cat of cat list", rt.Categorical([a]) if ct == "fa" else None),
                      ("dict of one", rt.Categorical({"x": a}) if ct == "fa" else None), ("Grouping", rt.Categorical(rt.Grouping(a, categorical=True)) if ct == "fa" else None)):
            if c is None:
                continue
            basic(c, L, nm + " " + ct, kt)
        if ct == "fa":
            a2 = a.copy()
            a2.set_name("nm")
            c = rt.Categorical(a2)
            mc.eq(c.get_name(), "nm", "name kept")
            for dt in ("int16", "int32", "int64"):
                c = rt.Categorical(a, dtype=dt)
                mc.eq(str(raw(c).dtype), dt, "dtype honoured")
                basic(c, L, "dtype " + dt, kt)
        c = rt.Categorical.full(len(L), L[0])
        mc.eq(vals(c), [L[0]] * len(L), "Categorical.full")

    mc.run("containers, names and dtypes", space2(), run2)

    # ------------------------------------------------------------ codes or values plus categories
    def space3():
        for n in (1, 2, 3):
            for ix in canon(n, 4):
                for kt in ("S", "U", "i32", "f64"):
                    yield ix, kt

    def run3(case):
        ix, kt = case
        n = len(ix)
        cats = LAB[kt]
        # base 1 codes, 0 = filtered
        for dt in ("int8", "int32", "int64", "uint8") if T or kt == "S" else ("int32",):
            cod = rt.FastArray(np.array(ix, dtype=dt))
            for cc in (src(cats, kt), list(cats), np.asarray(src(cats, kt))):
                c = rt.Categorical(cod, cc, unicode=kt == "U")
                L = [None if i == 0 else cats[i - 1] for i in ix]
                basic(c, L, f"codes {dt}", kt)
                mc.eq(vals(c.category_array), cats, "codes keep category order")
            if kt == "S" and dt in ("int32", "int8"):
                index(c, L, f"codes {dt}")
                compare(c, L, kt, False, f"codes {dt}")
            if max(ix) < 3:
                c0 = rt.Categorical(cod, src(cats, kt), base_index=0, unicode=kt == "U")
                L0 = [cats[i] for i in ix]
                basic(c0, L0, f"codes base0 {dt}", kt)
                if kt == "S" and dt == "int32":
                    index(c0, L0, "codes base0")
                    compare(c0, L0, kt, False, "codes base0")
            for ok in masks(n):
                c = rt.Categorical(cod, src(cats, kt), filter=F(ok), unicode=kt == "U")
                mc.eq(vals(c), [w if k else None for w, k in zip(L, ok)], f"codes with filter {ok}")
        if kt in "SU" and max(ix) < 3:
            L = [cats[i] for i in ix]
            for extra in ([], ["zz"]):
                uc = sorted(cats + extra, reverse=True)
                c = rt.Categorical(src(L, kt), rt.FastArray(np.array(uc, dtype=DT[kt])), unicode=kt == "U")
                mc.eq(vals(c.category_array), uc, "values+categories order")
                basic(c, L, "values+categories", kt)
                c = rt.Categorical(list(L), uc, unicode=kt == "U")
                basic(c, L, "list values+categories", kt)
                c0 = rt.Categorical(src(L, kt), rt.FastArray(np.array(uc, dtype=DT[kt])), base_index=0, unicode=kt == "U")
                basic(c0, L, "values+categories base0", kt)
                for ok in masks(n):
                    c = rt.Categorical(src(L, kt), rt.FastArray(np.array(uc, dtype=DT[kt])), filter=F(ok), unicode=kt == "U")
                    mc.eq(vals(c), [w if k else None for w, k in zip(L, ok)], f"values+categories filter {ok}")
            # value not in the categories
            miss = [q for q in cats if q != L[0]]
            mc.raises(lambda: rt.Categorical(src(L, kt), rt.FastArray(np.array(miss, dtype=DT[kt])), unicode=kt == "U"), "value not among the categories", ValueError)
        if max(ix) < 3:
            # from matlab floats: NaN = filtered
            fv = rt.FastArray(np.array([np.nan if i == 0 else float(i) for i in ix]))
            c = rt.Categorical(fv, src(cats, kt), from_matlab=True)
            mc.eq(vals(c), [None if i == 0 else cats[i - 1] for i in ix], "from_matlab")
        if kt == "S":
            # invalid category: isnan/isna/notna follow the label
            L = [None if i == 0 else cats[i - 1] for i in ix]
            c = rt.Categorical(rt.FastArray(np.array(ix, dtype="int32")), src(cats, kt), invalid="a")
            for f in ("isnan", "isna"):
                mc.eq(vals(getattr(c, f)()), [w == "a" for w in L], f + " with invalid category")
            for f in ("isnotnan", "notna"):
                mc.eq(vals(getattr(c, f)()), [w != "a" for w in L], f + " with invalid category")
            c = rt.Categorical(rt.FastArray(np.array(ix, dtype="int32")), src(cats, kt))
            mc.eq(vals(c.isnan()), [False] * n, "isnan without invalid category")
            mc.eq(vals(c.isnotnan()), [True] * n, "isnotnan without invalid category")
            for i in range(1, 4):
                mc.eq(scalar(c.from_bin(i)), cats[i - 1], "from_bin")
                mc.eq(int(c.from_category(cats[i - 1])), i, "from_category")
            mc.raises(lambda: c.from_category("nope"), "from_category of an absent label", ValueError)
            mc.raises(lambda: c.from_bin(0), "from_bin(0)", ValueError)
            ci = c.copy_invalid()
            mc.eq(vals(ci), [None] * n, "copy_invalid")
            mc.eq(vals(c), L, "copy_invalid leaves the source")
            mc.eq(vals(c.fill_invalid(shape=n + 2, inplace=False)), [None] * (n + 2), "fill_invalid shape")
            c.filtered_set_name("zap")
            mc.eq([c[i] for i in range(n)], ["zap" if w is None else w for w in L], "filtered_set_name")
            mc.eq(vals(c.expand_array), ["zap" if w is None else w for w in L], "filtered_set_name expand")
            c2 = c.copy()
            mc.eq(c2.filtered_name, "zap", "filtered name survives copy")

    mc.run("codes or values plus categories", space3(), run3)

    # ------------------------------------------------------------ mappings
    def space4():
        for n in (1, 2, 3):
            for ix in canon(n, 3):
                yield ix

    def run4(ix):
        n = len(ix)
        m = {3: "b", 7: "a", 1: "cc"}
        cl = [3, 7, 1]
        L = [m[cl[i]] for i in ix]
        for dt in ("int32", "int8", "int64"):
            cod = rt.FastArray(np.array([cl[i] for i in ix], dtype=dt))
            for nm, mp in (("int2str", dict(m)), ("str2int", {v: k for k, v in m.items()}), ("enum", En)):
                c = rt.Categorical(cod, mp)
                mc.eq(c.isenum, True, nm + " mode")
                basic(c, L, nm, "S")
                mc.eq({int(k): scalar(v) for k, v in c.category_mapping.items()}, m, nm + " mapping")
                index(c, L, nm)
                for x in ("b", "a", "cc"):
                    mc.eq(vals(c == x), [w == x for w in L], f"{nm} == {x}")
                    mc.eq(vals(c != x), [w != x for w in L], f"{nm} != {x}")
                    mc.eq(vals(c.isin([x])), [w == x for w in L], f"{nm} isin [{x}]")
                    mc.eq(int(c.from_category(x)), {v: k for k, v in m.items()}[x], nm + " from_category")
                for k in cl:
                    mc.eq(vals(c == k), [w == m[k] for w in L], f"{nm} == code {k}")
                    mc.eq(scalar(c.from_bin(k)), m[k], nm + " from_bin")
                mc.eq(vals(c.isin(["a", "cc"])), [w in ("a", "cc") for w in L], nm + " isin")
                for o in (False, True):
                    s = c.as_singlekey(ordered=o)
                    mc.eq(vals(s), L, f"{nm} as_singlekey ordered={o}")
                mc.eq(vals(c.as_string_array), L, nm + " as_string_array")
                for ok in masks(n):
                    c2 = c.copy()
                    v = c2.set_valid(F(ok))
                    mc.eq([None if q == "Filtered" else q for q in vals(v)], [w if k else None for w, k in zip(L, ok)], f"{nm} set_valid {ok}")
                    mc.eq(vals(c2), L, nm + " set_valid leaves the source")
        # unmapped codes
        cod = rt.FastArray(np.array([cl[i] if i < 2 else 99 for i in ix], dtype="int32"))
        c = rt.Categorical(cod, {3: "b", 7: "a"})
        mc.eq(vals(c.isfiltered()), [i == 2 for i in ix], "unmapped isfiltered")
        for i, q in enumerate(ix):
            if q == 2:
                mc.eq(c[i], "!<99>", "unmapped item")
        mc.eq(vals(c == "b"), [i == 0 for i in ix], "unmapped ==")
        mc.eq(vals(c.as_singlekey()), [["b", "a", None][i] for i in ix], "unmapped as_singlekey")

    mc.run("mappings", space4(), run4)

    # ------------------------------------------------------------ multikey
    def space5():
        for n in (1, 2, 3):
            for ix in itertools.product(range(2), range(2), repeat=n):
                fl = [None] + list(masks(n)) if n < 3 or T else [None, (False, True, True), (True, False, True), (False, False, False)]
                for ok in fl:
                    yield ix, ok

    def run5(case):
        ix, ok = case
        a, b = ix[0::2], ix[1::2]
        n = len(a)
        for k1, k2 in (("S", "i32"), ("U", "S"), ("f64", "S"), ("date", "S"), ("cat", "i32")) if T or n < 3 else (("S", "i32"), ("date", "S")):
            A = [LAB["S" if k1 in ("cat",) else "i32" if k1 == "date" else k1][i] for i in a]
            if k1 == "date":
                A = [20000 + i for i in a]
                ca = rt.Date(np.array(A, dtype="int32"))
            elif k1 == "cat":
                ca = rt.Categorical(src(A, "S"))
            else:
                ca = src(A, k1)
            B = [LAB[k2][i] for i in b]
            cb = src(B, k2)
            L = [(x, y) if ok is None or ok[i] else None for i, (x, y) in enumerate(zip(A, B))]
            for nm, mk in (("list", lambda **k: rt.Categorical([ca, cb], **k)), ("dict", lambda **k: rt.Categorical({"x": ca, "y": cb}, **k))):
                for ordered in (False, True):
                    c = mk(filter=F(ok), ordered=ordered)
                    what = f"{nm} {k1},{k2} ordered={ordered}"
                    mc.eq(c.ismultikey, True, what)
                    mc.eq(vals(c), L, what + " labels")
                    if k1 not in ("date", "cat"):
                        basic(c, L, what, "multi")
                    if nm == "dict":
                        mc.eq(list(c.category_dict), ["x", "y"], what + " key names")
                    used = [w for w in L if w is not None]
                    cats = list(zip(*[vals(v) for v in c.category_dict.values()]))
                    mc.eq(cats, sorted(set(used)) if ordered else list(dict.fromkeys(used)), what + " categories")
                    if k1 == "date":
                        mc.eq(kind(list(c.category_dict.values())[0]), "Date", what + " key type kept")
                    index(c, L, what)
                    for t in {w for w in L if w is not None}:
                        if k1 in ("S", "U"):
                            mc.eq(vals(c == t), [w == t for w in L], what + f" == {t}")
                            mc.eq(vals(c != t), [w != t for w in L], what + f" != {t}")
                    if k1 == "S" and used:
                        s = c.as_singlekey()
                        mc.eq(vals(s), [None if w is None else f"{w[0]}_{w[1]}" for w in L], what + " as_singlekey")
                        s = c.as_singlekey(sep="-", ordered=True)
                        mc.eq(vals(s), [None if w is None else f"{w[0]}-{w[1]}" for w in L], what + " as_singlekey sep")
                    mc.eq(vals(c.isfiltered()), [w is None for w in L], what + " isfiltered")
        if ok is None:
            c = rt.Categorical([src([LAB["S"][i] for i in a], "S"), src([LAB["S"][i] for i in b], "S")], base_index=0)
            mc.eq(vals(c), [(LAB["S"][x], LAB["S"][y]) for x, y in zip(a, b)], "multikey base 0")

    mc.run("multiple keys", space5(), run5)

    # ------------------------------------------------------------ transformations on labels
    def space6():
        for kt in ("S", "U", "i32", "f64"):
            for n in (1, 2, 3):
                for ix in canon(n, 4):
                    for base in (1, 0):
                        if base == 0 and 3 in ix:
                            continue
                        yield kt, ix, base

    def run6(case):
        kt, ix, base = case
        n = len(ix)
        cats = LAB[kt]
        L = [None if i == 3 else cats[i] for i in ix]
        cod = np.array([0 if i == 3 else i + base for i in ix], dtype="int32")

        def mk():
            return rt.Categorical(rt.FastArray(cod.copy()), src(cats, kt), base_index=base, unicode=kt == "U")
        c = mk()
        # map
        full = dict(zip(cats, ["x", "yy", "z"]))
        inv = lambda v, q: q if v is None else v
        mc.eq(vals(c.map(full)), [inv(None if w is None else full[w], FILT) for w in L] if None in L else [full[w] for w in L], "map dict") if None not in L else None
        part = {cats[0]: "x", cats[2]: "z"}
        mc.eq(vals(c.map(part)), ["Inv" if w not in part else part[w] for w in L], "map partial dict")
        mc.eq(vals(c.map(part, invalid="none")), ["none" if w not in part else part[w] for w in L], "map partial dict invalid=")
        nums = {cats[0]: 10, cats[2]: 30}
        mc.eq(vals(c.map(nums)), [nums.get(w) for w in L], "map to ints")
        mc.eq(vals(c.map(nums, invalid=-1)), [nums.get(w, -1) for w in L], "map to ints invalid=")
        fn = {cats[0]: 1.5, cats[1]: 2.5, cats[2]: 3.5}
        mc.eq(vals(c.map(fn)), [fn.get(w) for w in L], "map to floats")
        mc.eq(vals(c.map(rt.FastArray([10, 20, 30]))), [None if w is None else [10, 20, 30][cats.index(w)] for w in L], "map array")
        mc.eq(vals(c.map(rt.FastArray(["p", "qq", "r"]))), ["Inv" if w is None else ["p", "qq", "r"][cats.index(w)] for w in L], "map str array")
        mc.eq(vals(c.expand_any([10, 20, 30])), [None if w is None else [10, 20, 30][cats.index(w)] for w in L], "expand_any")
        mc.eq(vals(c), L, "map leaves the source")
        # shift
        if base == 1:
            for k in (0, 1, -1, 2, -2):
                w = [None if not 0 <= i - k < n else L[i - k] for i in range(n)]
                mc.eq(vals(c.shift_cat(k)), w, f"shift_cat {k}")
        # set_valid
        if base == 1:
            for ok in list(masks(n)) + [None]:
                v = c.set_valid(F(ok))
                w = [x if ok is None or ok[i] else None for i, x in enumerate(L)]
                mc.eq(vals(v), w, f"set_valid {ok}")
                mc.eq(vals(v.category_array), [q for q in cats if q in w], f"set_valid {ok} categories")
                mc.eq(vals(c), L, "set_valid leaves the source")
                v2 = c.copy(filter=F(ok)) if ok is not None else v
                mc.eq(vals(v2), w, f"copy(filter) {ok}")
            # grouping after set_valid
            cnt = c.set_valid(F([True] * n)).count()
            mc.eq(dict(zip(vals(cnt[cnt.label_get_names()[0]]), vals(cnt.Count))), {q: L.count(q) for q in cats if q in L}, "count after set_valid")
        # shrink
        if base == 1 and kt in "SU":
            for new in ([cats[0]], [cats[2], cats[0]], [cats[1], "zz"], cats):
                nw = rt.FastArray(np.array(new, dtype=DT[kt]))
                s = mk().shrink(list(new) if len(new) > 1 else nw)
                mc.eq(vals(s), [w if w in new else None for w in L], f"shrink {new}")
                mc.eq(vals(s.category_array), new, f"shrink {new} categories")
                s = mk().shrink(nw, misc="misc")
                mc.eq(vals(s), [None if w is None else w if w in new else "misc" for w in L], f"shrink {new} misc")
                c3 = mk()
                s = c3.shrink(nw, inplace=True)
                mc.eq(vals(c3), [w if w in new else None for w in L], f"shrink {new} inplace")
        # align, compare with another Categorical over other categories
        for ix2 in [tuple(reversed(ix)), tuple((i + 1) % 3 if i < 3 else i for i in ix)]:
            if base == 0 and 3 in ix2:
                continue
            cats2 = [cats[2], cats[0], cats[1]]
            L2 = [None if i == 3 else cats[i] for i in ix2]
            cod2 = np.array([0 if w is None else cats2.index(w) + base for w in L2], dtype="int8")
            c2 = rt.Categorical(rt.FastArray(cod2), src(cats2, kt), base_index=base, unicode=kt == "U")
            if base == 1:
                mc.eq(vals(c == c2), [x == y for x, y in zip(L, L2)], "cat == cat, other category order")
                mc.eq(vals(c != c2), [x != y for x, y in zip(L, L2)], "cat != cat, other category order")
                al = rt.Categorical.align([c, c2])
                mc.eq([vals(q) for q in al], [L, L2], "align")
                mc.eq(vals(al[0].category_array), vals(al[1].category_array), "align gives one category list")
                mc.eq(bool(rt.Categorical.categories_equal([c, c2])[0]), False, "categories_equal of different")
            mc.eq(bool(rt.Categorical.categories_equal([c, mk()])[0]), True, "categories_equal of equal")
            mc.eq(vals(c == mk()), [True] * n, "cat == same cat")
            if None not in L and None not in L2:
                mc.eq(vals(c.isin(c2)), [x in L2 for x in L], "isin cat")
        # argsort puts codes in order, stably
        mc.eq(vals(c.argsort()), sorted(range(n), key=lambda i: cod[i]), "argsort")
        # duplicated labels made unique
        if base == 1:
            dup = [cats[0], cats[1], cats[0]]
            g = rt.Categorical(rt.FastArray(cod.copy()), src(dup, kt), unicode=kt == "U")
            u = g.category_make_unique()
            mc.eq(vals(u), [None if i == 3 else dup[i] for i in ix], "category_make_unique labels")
            mc.eq(sorted(vals(u.category_array)), sorted(set(dup)), "category_make_unique categories")

    mc.run("label transformations", space6(), run6)

    # ------------------------------------------------------------ pandas / arrow sources
    def space7():
        for n in (1, 2, 3):
            for ix in canon(n, 3):
                yield ix

    def run7(ix):
        import pandas as pd, pyarrow as pa
        cats = ["b", "a"]
        L = [None if i == 2 else cats[i] for i in ix]
        for ordered in (False, True):
            p = pd.Categorical.from_codes([-1 if i == 2 else i for i in ix], categories=cats, ordered=ordered)
            c = rt.Categorical(p)
            mc.eq(vals(c), L, "pandas Categorical")
            mc.eq(vals(c.category_array), cats, "pandas categories order")
            pn = pd.Categorical.from_codes([-1 if i == 2 else i for i in ix], categories=[10, 5], ordered=ordered)
            mc.eq(vals(rt.Categorical(pn)), [None if i == 2 else [10, 5][i] for i in ix], "pandas numeric Categorical")
        d = pa.DictionaryArray.from_arrays(pa.array([None if i == 2 else i for i in ix], type=pa.int8()), pa.array(cats))
        c = rt.Categorical._from_arrow(d, zero_copy_only=False)
        mc.eq(vals(c), L, "arrow dictionary")
        back = c.to_arrow()
        mc.eq(back.to_pylist(), L, "to_arrow")
        c = rt.Categorical(rt.FastArray(np.array([0 if i == 2 else i + 1 for i in ix], dtype="int8")), cats)
        mc.eq(c.to_arrow().to_pylist(), L, "to_arrow of codes")

    mc.run("pandas and arrow sources", space7(), run7)

    # ------------------------------------------------------------ category-count thresholds
    def space8():
        for k in (1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65535, 65536):
            for kt in ("S", "i32", "codes", "multi", "base0", "filter", "pd"):
                yield k, kt

    def run8(case):
        k, kt = case
        pos = np.arange(k)[::-1]
        pos = np.concatenate([pos, pos[::2]])
        s = np.char.zfill(pos.astype("S6"), 6)
        if kt == "S":
            c = rt.Categorical(rt.FastArray(s))
        elif kt == "i32":
            c = rt.Categorical(rt.FastArray(pos.astype("int32")))
        elif kt == "codes":
            dt = np.min_scalar_type(-(k + 1))
            c = rt.Categorical(rt.FastArray((pos + 1).astype(dt)), rt.FastArray(np.char.zfill(np.arange(k).astype("S6"), 6)))
        elif kt == "multi":
            c = rt.Categorical([rt.FastArray(s), rt.FastArray((pos % 3).astype("int8"))])
        elif kt == "base0":
            c = rt.Categorical(rt.FastArray(s), base_index=0)
        elif kt == "filter":
            c = rt.Categorical(rt.FastArray(s), filter=rt.FastArray(pos % 2 == 0))
        else:
            import pandas as pd
            c = rt.Categorical(pd.Categorical.from_codes(pos, categories=[f"{i:06d}" for i in range(k)]))
        want = [f"{i:06d}" for i in pos]
        if kt == "i32":
            want = pos.tolist()
        elif kt == "multi":
            want = [(f"{i:06d}", int(i % 3)) for i in pos]
        elif kt == "filter":
            want = [f"{i:06d}" if i % 2 == 0 else None for i in pos]
        got = vals(c)
        mc.eq(got == want, True, "labels", first=[(i, a, b) for i, (a, b) in enumerate(zip(got, want)) if a != b][:3])
        if kt != "multi":
            x = c[rt.FastArray(np.arange(len(pos))[::-1])]
            mc.eq(vals(x) == want[::-1], True, "labels after reversing")
            e = vals(c.expand_array)
            mc.eq([None if q == FILT else q for q in e] == want, True, "expand_array")
            if kt != "i32":
                l0 = want[0] if want[0] is not None else (want[1] if len(want) > 1 else None)
                if l0 is not None:
                    mc.eq(np.flatnonzero(np.asarray(c == l0)).tolist(), [i for i, w in enumerate(want) if w == l0], "== last category")
            cp = c.copy()
            mc.eq(vals(cp) == want, True, "copy")
            if kt in ("S", "codes", "filter"):
                m = {w: j for j, w in enumerate(dict.fromkeys(w for w in want if w is not None))}
                mc.eq(vals(c.map(m)) == [m.get(w) for w in want], True, "map")
                sh = c.shift_cat(1)
                mc.eq(vals(sh) == [None] + want[:-1], True, "shift")
                sv = c.set_valid(rt.FastArray(np.arange(len(want)) % 3 == 0))
                mc.eq(vals(sv) == [w if i % 3 == 0 else None for i, w in enumerate(want)], True, "set_valid")

    mc.run("category count thresholds", space8(), run8)
