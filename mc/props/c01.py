"""C01 Struct and Dataset column containers behave as an ordered map."""
import itertools, warnings, re
import numpy as np
import riptable as rt
from ..model import *

PROPERTY = "C01"


class M:
    """reference container: ordered map of columns plus labels, summaries, footers and the lock flag"""

    def __init__(s, cols, nrows):
        s.cols = {k: list(v) for k, v in cols.items()}
        s.nrows, s.lock = nrows, False
        s.lab, s.summ = {}, {}
        s.foot, s.flabels = {}, []

    def clone(s):
        m = M(s.cols, s.nrows)
        m.lock, m.lab, m.summ = s.lock, dict(s.lab), dict(s.summ)
        m.foot = {k: dict(v) for k, v in s.foot.items()}
        m.flabels = list(s.flabels)
        return m

    def order(s, names):
        s.cols = {k: s.cols[k] for k in names}

    def rename(s, mp):
        for n in ("cols", "lab", "summ", "foot"):
            d = getattr(s, n)
            setattr(s, n, {mp.get(k, k): v for k, v in d.items()})

    def remove(s, names):
        for n in names:
            for d in (s.cols, s.lab, s.summ, s.foot):
                d.pop(n, None)
        if not s.cols:
            s.nrows = None

    def select(s, names):
        m = s.clone()
        m.remove([k for k in s.cols if k not in names])
        m.order(names)
        return m

    def tagged(s, d):
        return [k for k, _ in sorted(d.items(), key=lambda kv: kv[1])]

    def footers(s):
        return {f: {c: s.foot[c][f] for c in s.cols if f in s.foot.get(c, {})} for f in s.flabels}


class Refused(Exception):
    """the model says the operation must raise and change nothing"""


def explore(mc):
    T = mc.thorough
    warnings.simplefilter("ignore")
    FA = rt.FastArray

    def observe_ds(ds, m, what, full=True):
        names = list(m.cols)
        mc.eq(list(ds.keys()), names, what + " names")
        nr = m.nrows if m.nrows is not None else 0
        mc.eq(tuple(ds.shape), (nr, len(names)), what + " shape")
        mc.eq(len(ds), nr, what + " len")
        mc.eq([vals(ds[k]) for k in names], list(m.cols.values()), what + " values")
        mc.eq(ds.label_get_names(), m.tagged(m.lab), what + " labels")
        mc.eq({k: dict(v) for k, v in ds.footer_get_dict().items()}, m.footers(), what + " footers")
        if not full:
            return
        mc.eq(list(ds), names, what + " iteration")
        mc.eq(list(reversed(ds)), names[::-1], what + " reversed")
        mc.eq([k for k, _ in ds.items()], names, what + " items names")
        mc.eq([vals(v) for v in ds.values()], list(m.cols.values()), what + " values()")
        mc.eq([vals(v) for v in ds.asdict().values()], list(m.cols.values()), what + " asdict")
        mc.eq((ds.get_ncols(), ds.col_get_len()), (len(names),) * 2, what + " ncols")
        mc.eq([len(ds[k]) for k in names], [nr] * len(names), what + " column lengths")
        mc.eq([vals(ds[i]) for i in range(len(names))], list(m.cols.values()), what + " by position")
        mc.eq([vals(getattr(ds, k)) for k in names], list(m.cols.values()), what + " by attribute")
        mc.eq([k in ds for k in names + ["nope"]], [True] * len(names) + [False], what + " contains")
        mc.eq([ds.col_exists(k) for k in names + ["nope"]], [True] * len(names) + [False], what + " col_exists")
        mc.eq(ds.summary_get_names(), m.tagged(m.summ), what + " summaries")
        mc.eq(list((ds.label_as_dict() or {}).keys()), m.tagged(m.lab), what + " label_as_dict")
        mc.eq(ds.is_locked(), m.lock, what + " locked")
        mc.eq({k: str(v) for k, v in ds.dtypes.items()}, {k: str(ds[k].dtype) for k in names}, what + " dtypes")
        fv = ds.footer_get_values(fill_value=-1)
        mc.eq({k: list(v) for k, v in fv.items()}, {f: [m.foot.get(c, {}).get(f, -1) for c in names] for f in m.flabels}, what + " footer values")
        if m.flabels and names:
            f = m.flabels[-1]
            mc.eq(ds.footer_get_dict(f, columns=names[-1]), {f: {c: v for c, v in m.footers()[f].items() if c == names[-1]}}, what + " footer subset")

    # ---------------------------------------------------------------- operations: each takes (ds, m) -> (ds, m)
    def need(m, cond):
        if not cond:
            raise Refused()

    def unlocked(m):
        need(m, not m.lock)

    def put(m, name, v):
        if m.nrows is None:
            m.nrows = len(v) if isinstance(v, list) else 1
        if not isinstance(v, list):
            v = [v] * m.nrows
        elif len(v) == 1 and m.nrows != 1:
            v = v * m.nrows
        need(m, len(v) == m.nrows)
        m.cols[name] = v

    def op_set(how, name, v):
        def f(ds, m):
            unlocked(m)
            n = m.nrows if m.nrows is not None else 3
            if v == "arr":
                w, r = [10 + i for i in range(n)], FA(np.arange(10, 10 + n))
            elif v == "list":
                w = [0.5 + i for i in range(n)]
                r = list(w)
            elif v == "npstr":
                w = ["s%d" % i for i in range(n)]
                r = np.array(w)
            elif v == "cat":
                w = ["u" if i % 2 else "w" for i in range(n)]
                r = rt.Categorical(FA(np.array(w, dtype="S1")))
            elif v == "short":
                w, r = [1] * (n + 2), np.arange(n + 2)
                if m.nrows is None:
                    w = list(range(n + 2))
            elif v == "shortlist":
                w = list(range(n + 2))
                r = list(w)
            elif v == "ds1":
                w = [20 + i for i in range(n)]
                r = rt.Dataset({"q": w})
            else:
                w = r = v
            m2 = m.clone()
            put(m2, name, w)
            yield m2
            if how == "attr":
                setattr(ds, name, r)
            else:
                ds[name] = r

        return f

    def op_setmany(names, kind_):
        def f(ds, m):
            unlocked(m)
            m2 = m.clone()
            n = m.nrows if m.nrows is not None else 1 if kind_ == "scalar" else 3
            m2.nrows = n
            if kind_ == "scalar":
                r = 5
                for k in names:
                    m2.cols[k] = [5] * n
            else:
                r = rt.Dataset({"x%d" % i: np.arange(n) + 100 * i for i in range(len(names))})
                for i, k in enumerate(names):
                    m2.cols[k] = [j + 100 * i for j in range(n)]
            yield m2
            ds[list(names)] = r

        return f

    def op_del(how, name):
        def f(ds, m):
            unlocked(m)
            need(m, name in m.cols)
            m2 = m.clone()
            m2.remove([name])
            yield m2
            if how == "attr":
                delattr(ds, name)
            else:
                del ds[name]

        return f

    def match(m, items, like, rx, missing):
        out = []
        if items is not None:
            its = [items] if isinstance(items, (str, int)) else list(items)
            names = list(m.cols)
            for it in its:
                if isinstance(it, int):
                    need(m, -len(names) <= it < len(names))
                    out.append(names[it])
                elif it in m.cols:
                    out.append(it)
                else:
                    need(m, missing != "raise")
        if like:
            out += [k for k in m.cols if like in k]
        if rx:
            out += [k for k in m.cols if re.search(rx, k)]
        return list(dict.fromkeys(out))

    def op_remove(items=None, like=None, rx=None, missing="warn", meth="col_remove"):
        def f(ds, m):
            unlocked(m)
            m2 = m.clone()
            m2.remove(match(m, items, like, rx, missing))
            yield m2
            getattr(ds, meth)(items, like=like, regex=rx, on_missing=missing)

        return f

    def op_filter(items=None, like=None, rx=None, missing="raise"):
        def f(ds, m):
            k = match(m, items, like, rx, missing)
            need(m, k)
            m2 = m.select(k)
            m2.lock = False
            m2.summ = m2.summ
            yield m2
            return ds.col_filter(items, like=like, regex=rx, on_missing=missing)

        return f

    def op_select(names):
        def f(ds, m):
            need(m, all(k in m.cols for k in names))
            m2 = m.select(list(names))
            m2.lock = False
            yield m2
            return ds[list(names)]

        return f

    def op_pop(spec):
        def f(ds, m):
            names = list(m.cols)
            if isinstance(spec, int):
                need(m, -len(names) <= spec < len(names))
                k = [names[spec]]
            else:
                k = [spec] if isinstance(spec, str) else list(spec)
            unlocked(m)
            need(m, all(q in m.cols for q in k))
            m2 = m.clone()
            want = [m.cols[q] for q in k]
            m2.remove(k)
            yield m2
            got = ds.col_pop(spec)
            mc.eq([vals(v) for v in got.values()] if isinstance(spec, list) else [vals(got)], want, f"col_pop {spec} value")

        return f

    def op_rename(old, new):
        def f(ds, m):
            m2 = m.clone()
            if old != new:
                unlocked(m)
                need(m, old in m.cols and new not in m.cols and not new.startswith("_") and new != "")
                m2.rename({old: new})
            yield m2
            ds.col_rename(old, new)

        return f

    def op_map(mp):
        def f(ds, m):
            unlocked(m)
            need(m, len(set(mp.values())) == len(mp))
            m2 = m.clone()
            eff = {k: v for k, v in mp.items() if k in m.cols}
            new = [eff.get(k, k) for k in m.cols]
            need(m, len(set(new)) == len(new))
            need(m, not any(v.startswith("_") for v in eff.values()))
            cyc = set(eff.values()) & set(m.cols)
            if len(eff) != len(mp):
                if not cyc and not (set(mp.values()) & set(m.cols)):
                    raise Refused()  # unknown column
            m2.rename(eff)
            # riptable exchanges the contents of the columns of a cycle, and keeps their positions
            m2.loose = True
            yield m2
            ds.col_map(dict(mp))

        return f

    def moved(m, cols, front):
        names = list(m.cols)
        if isinstance(cols, int):
            need(m, -len(names) <= cols < len(names))
            cols = [names[cols]]
        if isinstance(cols, str):
            cols = [cols]
        need(m, len(cols) <= len(names))
        sel = [c for c in dict.fromkeys(cols) if c in names]
        rest = [c for c in names if c not in sel]
        m.order(sel + rest if front else rest + sel)

    def op_move(cols, front):
        def f(ds, m):
            unlocked(m)
            m2 = m.clone()
            moved(m2, cols, front)
            yield m2
            (ds.col_move_to_front if front else ds.col_move_to_back)(cols)

        return f

    def op_move2(a, b):
        def f(ds, m):
            unlocked(m)
            m2 = m.clone()
            moved(m2, a, True)
            moved(m2, b, False)
            yield m2
            ds.col_move(a, b)

        return f

    def op_swap(a, b):
        def f(ds, m):
            unlocked(m)
            need(m, sorted(a) == sorted(b) and len(set(a)) == len(a) and (a == b or all(k in m.cols for k in a)))
            m2 = m.clone()
            for x, y in zip(b, a):
                if x in m.cols:
                    m2.cols[x] = m.cols[y]
            yield m2
            ds.col_swap(list(a), list(b))

        return f

    def op_fix(kind_, s):
        def f(ds, m):
            unlocked(m) if False else None
            if m.lock:
                yield m  # renaming a locked container by prefix/suffix: not claimed
                return None
            m2 = m.clone()
            m2.rename({k: (s + k if kind_ == "p" else k + s) for k in m.cols})
            yield m2
            (ds.col_add_prefix if kind_ == "p" else ds.col_add_suffix)(s)

        return f

    def op_repl(old, new, mx=-1):
        def f(ds, m):
            if m.lock:
                yield m
                return None
            m2 = m.clone()
            mp = {k: k.replace(old, new, mx) for k in m.cols}
            if "" in mp.values():
                yield m  # an empty column name: not claimed
                return None
            need(m, len(set(mp.values())) == len(mp))
            need(m, not any(mp[k] != k and mp[k] in m.cols for k in mp))
            m2.rename(mp)
            yield m2
            ds.col_str_replace(old, new, mx)

        return f

    def op_tag(meth, names):
        def f(ds, m):
            m2 = m.clone()
            d = {k: i for i, k in enumerate(names) if k in m.cols}
            setattr(m2, "lab" if meth == "label" else "summ", d)
            yield m2
            getattr(ds, meth + "_set_names")(list(names))

        return f

    def op_untag(meth):
        def f(ds, m):
            m2 = m.clone()
            setattr(m2, "lab" if meth == "label" else "summ", {})
            yield m2
            getattr(ds, meth + "_remove")()

        return f

    def op_foot(label, d):
        def f(ds, m):
            need(m, all(k in m.cols for k in d))
            m2 = m.clone()
            if label not in m2.flabels:
                m2.flabels.append(label)
            for k, v in d.items():
                m2.foot.setdefault(k, {})[label] = v
            yield m2
            ds.footer_set_values(label, dict(d))

        return f

    def op_unfoot(label=None, columns=None):
        def f(ds, m):
            m2 = m.clone()
            ls = list(m.flabels) if label is None else [label]
            if m.flabels and any(q in m.flabels for q in ls):
                if columns is not None:
                    need(m, columns in m.cols)
                for c in m.cols if columns is None else [columns]:
                    for q in ls:
                        m2.foot.get(c, {}).pop(q, None)
                if columns is None:
                    m2.flabels = [q for q in m2.flabels if q not in ls]
            yield m2
            ds.footer_remove(label, columns)

        return f

    def op_copy(deep):
        def f(ds, m):
            m2 = m.clone()
            m2.lock = False
            yield m2
            return ds.copy(deep=deep)

        return f

    def op_ctor():
        def f(ds, m):
            m2 = m.clone()
            m2.lock, m2.lab, m2.summ, m2.foot, m2.flabels = False, {}, {}, {}, []
            yield m2
            return rt.Dataset(ds)

        return f

    def op_rows(kind_, inplace):
        def f(ds, m):
            m2 = m.clone()
            n = m.nrows
            if n is None:
                yield m
                return None
            if kind_ == "mask":
                r = [i % 2 == 0 for i in range(n)]
                ix = [i for i in range(n) if r[i]]
                sel = FA(np.array(r, dtype=bool))
            elif kind_ == "badmask":
                raise_ = FA([True] * (n + 1))
                sel, ix = raise_, None
                need(m, False)
            else:
                ix = list(range(n))[::-1] + ([0] if n else [])
                sel = FA(np.array(ix, dtype="int64"))
            for k in m2.cols:
                m2.cols[k] = [m.cols[k][i] for i in ix]
            m2.nrows = len(ix)
            if not inplace:
                m2.lock = False
                yield m2
                return ds.filter(sel)
            yield m2
            r = ds.filter(sel, inplace=True)
            mc.eq(r is ds, True, "filter(inplace) returns the Dataset")

        return f

    def op_lock(on):
        def f(ds, m):
            m2 = m.clone()
            m2.lock = on
            yield m2
            ds._lock() if on else ds._unlock()

        return f

    def op_matrix(names):
        def f(ds, m):
            unlocked(m)
            n = m.nrows if m.nrows is not None else 3
            m2 = m.clone()
            m2.nrows = n
            k = names or ["col_0", "col_1"]
            need(m, len(k) == 2)
            for j, q in enumerate(k):
                m2.cols[q] = [2 * i + j for i in range(n)]
            yield m2
            ds.add_matrix(np.arange(2 * n).reshape(n, 2), names)

        return f

    def op_concat(extra, dup):
        def f(ds, m):
            n = m.nrows if m.nrows is not None else 0
            m2 = m.clone()
            m2.lock, m2.lab, m2.summ, m2.foot, m2.flabels = False, {}, {}, {}, []
            add = {k: [50 + i + 10 * j for i in range(n)] for j, k in enumerate(extra)}
            if m.nrows is None:
                yield m
                return None
            if set(add) & set(m.cols):
                need(m, dup != "raise")
            for k, v in add.items():
                if k not in m2.cols or dup == "last":
                    m2.cols[k] = v
            yield m2
            return rt.Dataset.concat_columns([ds, rt.Dataset({k: np.array(v, dtype="int64") for k, v in add.items()})], do_copy=True, on_duplicate=dup)

        return f

    def op_replaceall(how):
        def f(ds, m):
            m2 = m.clone()
            if m.nrows is None:
                yield m
                return None
            d = {k: [k] * m.nrows for k in reversed(list(m.cols))}
            if how == "missing":
                need(m, False) if True else None
            for k in d:
                m2.cols[k] = d[k]
            yield m2
            ds.col_replace_all({k: FA(v) for k, v in d.items()})

        return f

    OPS = {
        "attr new": op_set("attr", "d", "arr"), "attr replace": op_set("attr", "a", "arr"), "item list": op_set("item", "d", "list"), "item scalar": op_set("item", "e", 5), "item len1": op_set("item", "e", [7]),
        "item str": op_set("item", "e", "txt"), "item cat": op_set("item", "c", "cat"), "item npstr": op_set("item", "b", "npstr"), "item bad array": op_set("item", "d", "short"), "attr bad list": op_set("attr", "e", "shortlist"), "replace bad": op_set("item", "a", "short"), "item ds": op_set("item", "d", "ds1"),
        "set many scalar": op_setmany(["a", "b"], "scalar"), "set many ds": op_setmany(["b", "a"], "ds"), "set many bad": op_setmany(["a", "zz"], "scalar"),
        "del a": op_del("item", "a"), "del zz": op_del("item", "zz"), "delattr b": op_del("attr", "b"),
        "remove a": op_remove("a"), "remove [a,c]": op_remove(["a", "c"]), "remove [b,zz] warn": op_remove(["b", "zz"]), "remove [b,zz] raise": op_remove(["b", "zz"], missing="raise"), "remove [c,zz] ignore": op_remove(["c", "zz"], missing="ignore", meth="col_delete"), "remove 0": op_remove(0), "remove [-1,a]": op_remove([-1, "a"]), "remove [0,9]": op_remove([0, 9]),
        "remove like": op_remove(like="b"), "remove rx": op_remove(rx="^[ab]$"), "remove mix": op_remove(items="c", like="a", rx="b"),
        "filter [b,a]": op_filter(["b", "a"]), "filter zz": op_filter(["a", "zz"]), "filter zz ignore": op_filter(["a", "zz"], missing="ignore"), "filter like": op_filter(like="a"), "filter mix": op_filter(items=[-1], like="b"), "select [c,a]": op_select(["c", "a"]),
        "pop b": op_pop("b"), "pop [c,a]": op_pop(["c", "a"]), "pop zz": op_pop("zz"), "pop [a,zz]": op_pop(["a", "zz"]), "pop -1": op_pop(-1),
        "rename a z": op_rename("a", "z"), "rename b a": op_rename("b", "a"), "rename zz y": op_rename("zz", "y"), "rename a a": op_rename("a", "a"), "rename c _c": op_rename("c", "_c"), "rename z a": op_rename("z", "a"),
        "map swap": op_map({"a": "b", "b": "a"}), "map cycle": op_map({"a": "b", "b": "c", "c": "a"}), "map chain": op_map({"a": "b", "b": "x"}), "map plain": op_map({"a": "x", "c": "y"}), "map onto": op_map({"a": "b"}), "map same": op_map({"a": "x", "b": "x"}), "map bad name": op_map({"a": "x", "b": "_b"}), "map unknown": op_map({"b": "x", "zz": "y"}), "map mix": op_map({"a": "b", "b": "a", "c": "w"}),
        "front c": op_move("c", True), "front [c,b]": op_move(["c", "b"], True), "back a": op_move("a", False), "back [b,a]": op_move(["b", "a"], False), "front -1": op_move(-1, True), "front zz": op_move(["zz"], True), "move c,a": op_move2(["c"], ["a"]),
        "swap ab": op_swap(["a", "b"], ["b", "a"]), "swap abc": op_swap(["a", "b", "c"], ["c", "a", "b"]), "swap bad": op_swap(["a", "b"], ["a", "c"]), "swap zz": op_swap(["a", "zz"], ["zz", "a"]),
        "prefix": op_fix("p", "p_"), "suffix": op_fix("s", "a"), "str a->x": op_repl("a", "x"), "str a->b": op_repl("a", "b"), "str a->": op_repl("a", ""), "str ab max1": op_repl("a", "q", 1), "str aa->a": op_repl("aa", "a"), "str b->a": op_repl("b", "a"),
        "label a": op_tag("label", ["a"]), "label [b,a]": op_tag("label", ["b", "a"]), "label [zz,c]": op_tag("label", ["zz", "c"]), "label off": op_untag("label"), "summary c": op_tag("summary", ["c"]), "summary off": op_untag("summary"),
        "foot t": op_foot("t", {"a": 1, "b": 2}), "foot u": op_foot("u", {"c": 3, "b": 4}), "foot zz": op_foot("t", {"b": 5, "zz": 6}), "unfoot": op_unfoot(), "unfoot t": op_unfoot("t"), "unfoot t b": op_unfoot("t", "b"),
        "copy": op_copy(True), "shallow": op_copy(False), "ctor": op_ctor(), "rows mask": op_rows("mask", False), "rows mask inplace": op_rows("mask", True), "rows rev inplace": op_rows("rev", True), "rows rev": op_rows("rev", False),
        "lock": op_lock(True), "unlock": op_lock(False), "matrix": op_matrix(["a", "m"]), "matrix auto": op_matrix(None), "matrix bad": op_matrix(["a"]), "concat": op_concat(["m", "n"], "raise"), "concat dup": op_concat(["a", "n"], "raise"), "concat last": op_concat(["b", "n"], "last"), "concat first": op_concat(["n", "b"], "first"), "replace all": op_replaceall("ok"),
    }

    def start(kind_):
        if kind_ == "abc":
            d = {"a": [1, 2, 3], "b": ["x", "y", "x"], "c": [0.5, 1.5, 2.5]}
            return rt.Dataset({"a": FA(d["a"]), "b": FA(d["b"]), "c": FA(d["c"])}), M(d, 3)
        if kind_ == "empty":
            return rt.Dataset({}), M({}, None)
        if kind_ == "norows":
            return rt.Dataset({"a": FA(np.array([], dtype="int32")), "b": FA(np.array([], dtype="S2"))}), M({"a": [], "b": []}, 0)
        if kind_ == "one":
            return rt.Dataset({"a": FA([4])}), M({"a": [4]}, 1)
        if kind_ == "nested names":
            d = {"ba": [1, 2], "a": [3, 4], "baa": [5, 6], "c": ["p", "q"]}
            return rt.Dataset({k: FA(v) for k, v in d.items()}), M(d, 2)
        if kind_ == "tagged":
            d = {"b": ["x", "y"], "a": [1, 2], "c": ["u", "v"]}
            ds = rt.Dataset({"b": FA(d["b"]), "a": FA(d["a"]), "c": rt.Categorical(d["c"])})
            ds.label_set_names(["c", "b"])
            ds.footer_set_values("t", {"a": 9, "b": 8})
            m = M(d, 2)
            m.lab, m.foot, m.flabels = {"c": 0, "b": 1}, {"a": {"t": 9}, "b": {"t": 8}}, ["t"]
            return ds, m

    def step(ds, m, op, what, olds):
        f = OPS[op](ds, m)
        # phase 1: the model (generator runs up to its yield); phase 2: the implementation
        try:
            m2 = next(f)
        except Refused:
            m2 = None
        if m2 is None:
            try:
                run_impl_refused(ds, m, op)
            except Exception:
                pass
            else:
                mc.soft(what + ": should have been refused", state=list(m.cols))
            observe_ds(ds, m, what + " after a refusal", full=False)
            return ds, m
        try:
            next(f)
        except StopIteration as e:
            new = e.value
        if new is not None:
            olds.append((new is not ds and ds, m.clone(), what))
            return new, m2
        if getattr(m2, "loose", False):
            # names and the content of each name are defined; riptable may keep cycle columns in place: align order, tags
            mc.eq(sorted(ds.keys()), sorted(m2.cols), what + " names as a set")
            mc.eq([vals(ds[k]) for k in sorted(m2.cols)], [m2.cols[k] for k in sorted(m2.cols)], what + " contents by name")
            names = list(ds.keys())
            ref = list(m2.cols)
            if names != ref:
                # allowed only for cycles: every renamed column of a cycle keeps the position its new name had
                ref2 = [k if k in m2.cols and k in m.cols and m2.cols[k] is not m.cols[k] else None for k in ref]
                mc.eq(names, list(m.cols) if set(m.cols) == set(names) else aligned(m, m2, op), what + " order")
            m2.order(names)
            m2.lab = {k: i for i, k in enumerate(ds.label_get_names())} if set(ds.label_get_names()) <= set(m2.cols) else m2.lab
            m2.summ = {k: i for i, k in enumerate(ds.summary_get_names())}
            m2.foot = {}
            for fl, d in ds.footer_get_dict().items():
                for c, v in d.items():
                    m2.foot.setdefault(c, {})[fl] = v
        return ds, m2

    def aligned(m, m2, op):
        mp = {"map swap": {"a": "b", "b": "a"}, "map cycle": {"a": "b", "b": "c", "c": "a"}, "map mix": {"a": "b", "b": "a", "c": "w"}}.get(op, {})
        return [mp[k] if k in mp and mp[k] not in m.cols else k for k in m.cols]

    REF = {}

    def run_impl_refused(ds, m, op):
        """run only the implementation side of a refused operation"""
        spec = op
        n = m.nrows if m.nrows is not None else 3
        REF[spec](ds, n)

    def bad(n, k="arr"):
        return np.arange(n + 2) if k == "arr" else list(range(n + 2))

    def S(name, v):
        return lambda ds, n: ds.__setitem__(name, v(n) if callable(v) else v)

    def A(name, v):
        return lambda ds, n: setattr(ds, name, v(n) if callable(v) else v)

    REF.update({
        "attr new": A("d", lambda n: FA(np.arange(n))), "attr replace": A("a", lambda n: FA(np.arange(n))), "item list": S("d", lambda n: [0.5] * n), "item scalar": S("e", 5), "item len1": S("e", [7]), "item str": S("e", "txt"),
        "item cat": S("c", lambda n: rt.Categorical(FA(np.array(["u"] * n, dtype="S1")))), "item npstr": S("b", lambda n: np.array(["s"] * n)), "item bad array": S("d", bad), "attr bad list": A("e", lambda n: bad(n, "l")), "replace bad": S("a", bad), "item ds": S("d", lambda n: rt.Dataset({"q": np.arange(n)})),
        "set many scalar": lambda ds, n: ds.__setitem__(["a", "b"], 5), "set many ds": lambda ds, n: ds.__setitem__(["b", "a"], rt.Dataset({"x": np.arange(n), "y": np.arange(n)})), "set many bad": lambda ds, n: ds.__setitem__(["a", "zz"], 5),
        "del a": lambda ds, n: ds.__delitem__("a"), "del zz": lambda ds, n: ds.__delitem__("zz"), "delattr b": lambda ds, n: delattr(ds, "b"),
        "remove a": lambda ds, n: ds.col_remove("a"), "remove [a,c]": lambda ds, n: ds.col_remove(["a", "c"]), "remove [b,zz] warn": lambda ds, n: ds.col_remove(["b", "zz"]), "remove [b,zz] raise": lambda ds, n: ds.col_remove(["b", "zz"], on_missing="raise"), "remove [c,zz] ignore": lambda ds, n: ds.col_delete(["c", "zz"], on_missing="ignore"),
        "remove 0": lambda ds, n: ds.col_remove(0), "remove [-1,a]": lambda ds, n: ds.col_remove([-1, "a"]), "remove [0,9]": lambda ds, n: ds.col_remove([0, 9]), "remove like": lambda ds, n: ds.col_remove(like="b"), "remove rx": lambda ds, n: ds.col_remove(regex="^[ab]$"), "remove mix": lambda ds, n: ds.col_remove("c", like="a", regex="b"),
        "filter [b,a]": lambda ds, n: ds.col_filter(["b", "a"]), "filter zz": lambda ds, n: ds.col_filter(["a", "zz"]), "filter zz ignore": lambda ds, n: ds.col_filter(["a", "zz"], on_missing="ignore"), "filter like": lambda ds, n: ds.col_filter(like="a"), "filter mix": lambda ds, n: ds.col_filter([-1], like="b"), "select [c,a]": lambda ds, n: ds[["c", "a"]],
        "pop b": lambda ds, n: ds.col_pop("b"), "pop [c,a]": lambda ds, n: ds.col_pop(["c", "a"]), "pop zz": lambda ds, n: ds.col_pop("zz"), "pop [a,zz]": lambda ds, n: ds.col_pop(["a", "zz"]), "pop -1": lambda ds, n: ds.col_pop(-1),
        "rename a z": lambda ds, n: ds.col_rename("a", "z"), "rename b a": lambda ds, n: ds.col_rename("b", "a"), "rename zz y": lambda ds, n: ds.col_rename("zz", "y"), "rename a a": lambda ds, n: ds.col_rename("a", "a"), "rename c _c": lambda ds, n: ds.col_rename("c", "_c"), "rename z a": lambda ds, n: ds.col_rename("z", "a"),
        "front c": lambda ds, n: ds.col_move_to_front("c"), "front [c,b]": lambda ds, n: ds.col_move_to_front(["c", "b"]), "back a": lambda ds, n: ds.col_move_to_back("a"), "back [b,a]": lambda ds, n: ds.col_move_to_back(["b", "a"]), "front -1": lambda ds, n: ds.col_move_to_front(-1), "front zz": lambda ds, n: ds.col_move_to_front(["zz"]), "move c,a": lambda ds, n: ds.col_move(["c"], ["a"]),
        "swap ab": lambda ds, n: ds.col_swap(["a", "b"], ["b", "a"]), "swap abc": lambda ds, n: ds.col_swap(["a", "b", "c"], ["c", "a", "b"]), "swap bad": lambda ds, n: ds.col_swap(["a", "b"], ["a", "c"]), "swap zz": lambda ds, n: ds.col_swap(["a", "zz"], ["zz", "a"]),
        "str a->x": lambda ds, n: ds.col_str_replace("a", "x"), "str a->b": lambda ds, n: ds.col_str_replace("a", "b"), "str a->": lambda ds, n: ds.col_str_replace("a", ""), "str ab max1": lambda ds, n: ds.col_str_replace("a", "q", 1), "str aa->a": lambda ds, n: ds.col_str_replace("aa", "a"), "str b->a": lambda ds, n: ds.col_str_replace("b", "a"),
        "foot t": lambda ds, n: ds.footer_set_values("t", {"a": 1, "b": 2}), "foot u": lambda ds, n: ds.footer_set_values("u", {"c": 3, "b": 4}), "foot zz": lambda ds, n: ds.footer_set_values("t", {"b": 5, "zz": 6}), "unfoot t b": lambda ds, n: ds.footer_remove("t", "b"),
        "matrix": lambda ds, n: ds.add_matrix(np.arange(2 * n).reshape(n, 2), ["a", "m"]), "matrix auto": lambda ds, n: ds.add_matrix(np.arange(2 * n).reshape(n, 2)), "matrix bad": lambda ds, n: ds.add_matrix(np.arange(2 * n).reshape(n, 2), ["a"]), "concat dup": lambda ds, n: rt.Dataset.concat_columns([ds, rt.Dataset({"a": np.arange(n)})], do_copy=True),
    })
    for nm, mp in (("map swap", {"a": "b", "b": "a"}), ("map cycle", {"a": "b", "b": "c", "c": "a"}), ("map chain", {"a": "b", "b": "x"}), ("map plain", {"a": "x", "c": "y"}), ("map onto", {"a": "b"}), ("map same", {"a": "x", "b": "x"}), ("map bad name", {"a": "x", "b": "_b"}), ("map unknown", {"b": "x", "zz": "y"}), ("map mix", {"a": "b", "b": "a", "c": "w"})):
        REF[nm] = lambda ds, n, mp=mp: ds.col_map(dict(mp))

    STARTS = ["abc", "empty", "norows", "one", "nested names", "tagged"]
    CORE = ["attr new", "attr replace", "item cat", "del a", "remove [a,c]", "pop [c,a]", "rename a z", "rename z a", "map swap", "map chain", "front [c,b]", "back a", "swap ab", "suffix", "str a->x", "label [b,a]", "label off", "foot t", "unfoot t", "copy", "shallow", "select [c,a]", "rows mask inplace", "lock"]

    def space():
        for s in STARTS:
            for d in (1, 2):
                for h in itertools.product(OPS, repeat=d):
                    yield s, h
        for s in (STARTS if T else ("abc", "tagged")):
            for h in itertools.product(CORE if not T else [o for o in OPS if "bad" not in o and "zz" not in o], repeat=3):
                yield s, h
        if T:
            for h in itertools.product(CORE[:16], repeat=4):
                yield "tagged", h

    def run(case):
        s, h = case
        ds, m = start(s)
        olds = []
        for i, op in enumerate(h):
            ds, m = step(ds, m, op, f"step {i} {op}", olds)
        observe_ds(ds, m, "finally")
        for o, om, w in olds:
            if o is not False:
                observe_ds(o, om, w + ": source", full=False)

    mc.run("dataset histories", space(), run)

    # ---------------------------------------------------------------- Struct: any value types, nested
    def sval(x):
        return vals(x) if isinstance(x, np.ndarray) else {k: sval(v) for k, v in x.items()} if isinstance(x, rt.Struct) else x

    SV = {"int": lambda: 5, "str": lambda: "t", "arr": lambda: FA([1, 2]), "none": lambda: None, "list": lambda: [1, "z"], "struct": lambda: rt.Struct({"q": FA([7])}), "ds": lambda: rt.Dataset({"w": [1, 2, 3]})}
    SOPS = [("set", k, v) for k, v in (("a", "int"), ("d", "arr"), ("b", "struct"), ("d", "ds"), ("f", "none"), ("a", "list"), ("e", "str"))] + [
        ("del", "a"), ("del", "zz"), ("pop", "b"), ("pop", ["a", "b"]), ("pop", "zz"), ("ren", "a", "z"), ("ren", "a", "b"), ("map", (("a", "b"), ("b", "a"))), ("front", "c"), ("back", "a"), ("swap",), ("prefix", "p"), ("rem", ["a", "c"]), ("lock",), ("unlock",), ("copy",), ("sel", ["c", "a"]), ("multi",)]

    def sspace():
        for d in (1, 2, 3) if T else (1, 2):
            for h in itertools.product(range(len(SOPS)), repeat=d):
                yield h
        if not T:
            for h in itertools.product([0, 2, 7, 9, 11, 13, 15, 16, 19, 21], repeat=3):
                yield h

    def srun(h):
        st = rt.Struct({"a": 1, "b": FA([3, 4]), "c": rt.Struct({"n": "in"})})
        m = {"a": 1, "b": [3, 4], "c": {"n": "in"}}
        lock = False
        olds = []
        for i, oi in enumerate(h):
            op = SOPS[oi]
            k = op[0]
            w = f"step {i} {op}"
            ok = True
            m2 = dict(m)
            if k == "set":
                v = SV[op[2]]()
                f = lambda: st.__setitem__(op[1], v)
                ok = not lock
                m2[op[1]] = sval(v)
            elif k == "del":
                f = lambda: st.__delitem__(op[1])
                ok = not lock and op[1] in m
                m2.pop(op[1], None)
            elif k == "pop":
                f = lambda: st.col_pop(op[1])
                ks = [op[1]] if isinstance(op[1], str) else op[1]
                ok = not lock and all(q in m for q in ks)
                for q in ks:
                    m2.pop(q, None)
            elif k == "ren":
                f = lambda: st.col_rename(op[1], op[2])
                ok = not lock and op[1] in m and op[2] not in m
                m2 = {(op[2] if q == op[1] else q): v for q, v in m.items()}
            elif k == "map":
                f = lambda: st.col_map(dict(op[1]))
                ok = not lock and "a" in m and "b" in m
                if ok:
                    m2["a"], m2["b"] = m["b"], m["a"]
                elif not lock:
                    continue  # partial maps: covered with Datasets
            elif k == "front":
                f = lambda: st.col_move_to_front(op[1])
                ok = not lock and len(m) > 0
                m2 = {q: m[q] for q in ([op[1]] if op[1] in m else []) + [q for q in m if q != op[1]]}
            elif k == "back":
                f = lambda: st.col_move_to_back(op[1])
                ok = not lock and len(m) > 0
                m2 = {q: m[q] for q in [q for q in m if q != op[1]] + ([op[1]] if op[1] in m else [])}
            elif k == "swap":
                f = lambda: st.col_swap(["a", "c"], ["c", "a"])
                ok = not lock and "a" in m and "c" in m
                if ok:
                    m2["a"], m2["c"] = m["c"], m["a"]
            elif k == "prefix":
                if lock:
                    continue
                f = lambda: st.col_add_prefix("p")
                m2 = {"p" + q: v for q, v in m.items()}
            elif k == "rem":
                f = lambda: st.col_remove(op[1])
                ok = not lock
                m2 = {q: v for q, v in m.items() if q not in op[1]}
            elif k in ("lock", "unlock"):
                (st._lock if k == "lock" else st._unlock)()
                lock = k == "lock"
                continue
            elif k == "copy":
                olds.append((st, dict(m), w))
                st = st.copy()
                st._unlock()
                lock = False
                continue
            elif k == "sel":
                if all(q in m for q in op[1]):
                    olds.append((st, dict(m), w))
                    st = st[op[1]]
                    m = {q: m[q] for q in op[1]}
                    lock = False
                else:
                    mc.raises(lambda: st[op[1]], w)
                continue
            elif k == "multi":
                f = lambda: st.__setitem__(["a", "b"], [8, "y"])
                ok = not lock and "a" in m and "b" in m
                m2.update(a=8, b="y") if ok else None
            if ok:
                f()
                m = m2
            else:
                mc.raises(f, w + " refused")
            mc.eq(list(st.keys()), list(m), w + " names")
        for o, om, w in olds + [(st, m, "finally")]:
            mc.eq(sval(o), om, w + " content")
            mc.eq((o.get_ncols(), o.col_get_len(), len(list(o))), (len(om),) * 3, w + " count")
            mc.eq([q in o for q in ("a", "z", "q")], [q in om for q in ("a", "z", "q")], w + " contains")
            mc.eq([sval(getattr(o, q)) for q in om], list(om.values()), w + " attributes")
            mc.eq([sval(v) for v in o.tolist()], list(om.values()), w + " tolist")
        mc.eq(st.key_search("^(a|n|q)$", case_sensitive=True), search(m), "key_search")

    def search(m, path=""):
        out = [path + k for k in m if re.search("^(a|n|q)$", k)]
        for k, v in m.items():
            if isinstance(v, dict):
                sub = {q: x for q, x in v.items()}
                out += search(sub, path + k + ".")
        return out

    mc.run("struct histories", sspace(), srun)

    # ---------------------------------------------------------------- constructing Datasets: lengths must agree
    def ctor_space():
        lens = (0, 1, 2, 3)
        for ls in itertools.product(lens, repeat=3):
            for form in ("array", "list", "struct", "items"):
                yield ls, form

    def ctor(case):
        ls, form = case
        d = {k: [10 * i + j for j in range(n)] for i, (k, n) in enumerate(zip("abc", ls))}
        def make():
            if form == "array":
                return rt.Dataset({k: np.array(v, dtype="int64") for k, v in d.items()})
            if form == "list":
                return rt.Dataset({k: list(v) for k, v in d.items()})
            if form == "struct":
                return rt.Dataset(rt.Struct({k: np.array(v, dtype="int64") for k, v in d.items()}))
            ds = rt.Dataset({})
            for k, v in d.items():
                ds[k] = np.array(v, dtype="int64")
            return ds
        uniq = set(ls)
        if len(uniq) == 1:
            ds = make()
            mc.eq((list(ds.keys()), tuple(ds.shape), [vals(v) for v in ds.values()]), (list("abc"), (ls[0], 3), list(d.values())), "constructed")
        elif 0 not in uniq and len(uniq - {1}) == 1 and ls[0] != 1:
            # a later length-1 column is repeated, or refused
            try:
                ds = make()
            except ValueError:
                return mc.op()
            n = ls[0]
            mc.eq([vals(v) for v in ds.values()], [v * n if len(v) == 1 else v for v in d.values()], "repeated column")
            mc.eq(tuple(ds.shape), (n, 3), "shape")
        else:
            mc.raises(make, "columns of different length")

    mc.run("constructor lengths", ctor_space(), ctor)
