"""C25 Read-only operations never modify their inputs; copies are independent."""
import contextlib, copy, io, itertools, logging, pickle, warnings
import numpy as np
import riptable as rt
from ..model import *
from ..zoo import item, PLAIN, CATS, TIMES, DAY

PROPERTY = "C25"
warnings.simplefilter("ignore")
logging.disable(logging.WARNING)
np.seterr(all="ignore")
FA = rt.FastArray

# documented in-place / registration / file / console methods: not claimed
INPLACE = set(
    "fill itemset put partition resize setfield setflags sort byteswap fill_invalid set_name register_function register_functions dump dumps tofile save load apply_numba apply_pandas info "
    "auto_add_off auto_add_on category_add category_make_unique category_remove category_replace filtered_set_name invalid_set lock unlock mapping_add mapping_new mapping_remove mapping_replace "
    "groupby_data_clear groupby_data_set groupby_reset set_valid putmask set_timezone random random_invalid numba_apply nb_ema nb_fill_backward nb_fill_forward nb_min nb_sum nb_sum_punt "
    "newclassfrominstance from_bin key_from_bin from_arrow display_query_properties display_convert_func apply_schema map_old from_category full "
    "DEFAULT_FORMATTER get_scalar display_item view mod searchsorted conj conjugate expand_any".split()
)
DS_INPLACE = set(
    "all any apply_schema col_add_prefix col_add_suffix col_delete col_map col_move col_move_to_back col_move_to_front col_pop col_remove col_rename col_set_attribute col_set_value col_str_replace "
    "col_swap flatten flatten_undo label_remove label_set_names load make_categoricals make_matlab_categoricals make_matlab_datetimes save set_attribute set_display_callback set_fast_array "
    "summary_remove summary_set_names add_matrix col_replace_all footer_remove footer_set_values putmask sort_inplace sort_view sorts_off sorts_on apply_rows_numba "
    "from_arrow from_jagged_dict from_jagged_rows from_pandas from_rows from_tagged_rows concat_columns concat_rows concat_structs hstack info col_filter as_pandas_df show_all one_hot_encode imatrix_make imatrix_y imatrix_xy imatrix_totals".split()
) - {"all", "any", "col_filter"}


def opts():
    o = rt.rt_display.DisplayOptions if hasattr(rt.rt_display, "DisplayOptions") else None
    return sorted((k, repr(v)) for k, v in vars(o).items() if not k.startswith("__") and not callable(v) and not isinstance(v, (classmethod, staticmethod))) if o else []


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def explore(mc):
    T = mc.thorough
    N = 4

    def check(fn, inputs, what, key, **ctx):
        """fn may refuse its arguments, but may not change them"""
        before = [fp(x) if isinstance(x, (rt.Struct, np.ndarray)) else repr(x) for x in inputs]
        try:
            with quiet():
                r = fn()
            ok = True
        except RecursionError:
            raise
        except Exception as e:
            ok = False
        after = [fp(x) if isinstance(x, (rt.Struct, np.ndarray)) else repr(x) for x in inputs]
        mc.op()
        mc.observe((key, ok))
        mc.eq(after, before, what, key=key, **ctx)

    # ------------------------------------------------------------ every public array method
    def methods(cls):
        return [m for m in dir(cls) if not m.startswith("_") and m not in INPLACE and callable(getattr(cls, m, None))]

    def aspace():
        for k in PLAIN + CATS + TIMES:
            for m in methods(type(item(k, 2))):
                for ro in (False, True):
                    yield k, m, ro

    def arun(case):
        k, m, ro = case
        n = N
        for off in (0, 1, 2) if T else (0, 1):
            mask = FA([True, False, True, True])
            pool = [
                lambda: (),
                lambda: (item(k, n, off + 1),),
                lambda: (item("float64", n),),
                lambda: (item("int32", n, off),),
                lambda: (mask,),
                lambda: (2,),
                lambda: ([0, 1],),
                lambda: ([item("float64", n), item("int64", n)],),
                lambda: ("%Y-%m",) if k in TIMES else ("a",),
                lambda: (item("float64", n), item("float64", n, 1)),
                lambda: ((np.sum,) if k in CATS else (item("int64", n), mask)),
            ]
            if m in ("repeat", "tile", "reshape", "choose", "swapaxes", "transpose"):
                pool = [pool[0], pool[5], lambda: ([2, 1, 2, 1],)]
            if m.startswith("is") and m not in ("isin", "issorted"):
                pool = [pool[0]]
            elif k in CATS and (m.startswith("ema") or m.startswith("fill")):
                pool = [pool[0], pool[2]]
            elif k in CATS and len(pool) > 8:
                pool = [pool[0], pool[2], pool[5], pool[8]]
            if not T and m in ("mean", "nanmean", "std", "nanstd", "var", "nanvar", "cummin", "cummax", "sum", "nansum"):
                pool = pool[:1]  # each other argument type compiles another numba kernel
            if m in ("str_append",):
                pool = [lambda: (item(k, n, 1),), lambda: ("x",)]
            for i, mk in enumerate(pool):
                a = item(k, n, off)
                args = mk()
                if ro and type(a) is FA:
                    a.flags.writeable = False
                elif ro:
                    if k not in CATS:
                        a = a[::-1][::-1]
                    else:
                        a = rt.Dataset({"q": a}).q
                flat = [a] + [y for x in args for y in (x if isinstance(x, list) and x and isinstance(x[0], np.ndarray) else [x])]
                check(lambda: getattr(a, m)(*args), flat, "an array method changed its input", f"am-{m}", k=k, m=m, i=i, off=off)

    mc.run("arraymethods", aspace(), arun)

    # keyword variants of array methods that fill, replace or convert
    def kspace():
        fs = {
            "fillna": lambda a: a.fillna(a[:1][0] if len(a) else 0), "fillna_ff": lambda a: a.fillna(method="ffill"), "fillna_bf": lambda a: a.fillna(method="bfill"),
            "fillna_lim": lambda a: a.fillna(method="ffill", limit=1), "replacena": lambda a: a.replacena(1), "fill_forward": lambda a: a.fill_forward(0), "fill_backward": lambda a: a.fill_backward(0, limit=1),
            "copy_invalid": lambda a: a.copy_invalid(), "fill_invalid": lambda a: a.fill_invalid(inplace=False), "replace": lambda a: a.replace([1, 3], [5, 6]), "isin": lambda a: a.isin(a[:2]),
            "map": lambda a: a.map({1: 2, 3: 4}), "mapc": lambda a: a.map({"a": "b"}), "astype_f": lambda a: a.astype("float64"), "astype_same": lambda a: a.astype(a.dtype), "sort_np": lambda a: np.sort(a), "rt_sort": lambda a: rt.sort(a),
            "sorted": lambda a: sorted(a.tolist()), "unique": lambda a: rt.unique(a, return_index=True, return_inverse=True), "cut": lambda a: rt.cut(a, [0, 2, 4]), "cutn": lambda a: rt.cut(a, 2), "qcut": lambda a: rt.qcut(a, 2),
            "where": lambda a: rt.where(a == a, a, a), "where1": lambda a: rt.where(FA([True, False, True, False])[: len(a)], a, a[::-1]), "hstack": lambda a: rt.hstack([a, a]), "hstack1": lambda a: rt.hstack([a]), "concat": lambda a: rt.concatenate([a, a]), "vstack": lambda a: rt.vstack([a, a]),
            "ismember": lambda a: rt.ismember(a, a[::-1]), "ismember2": lambda a: rt.ismember([a, a], [a, a]), "cat": lambda a: rt.Cat(a), "catf": lambda a: rt.Cat(a, filter=FA([True, False, True, False])[: len(a)]), "catlex": lambda a: rt.Cat(a, lex=True), "catord": lambda a: rt.Cat(a, ordered=False),
            "cat2": lambda a: rt.Cat([a, a]), "group": lambda a: rt.Grouping(a), "lexsort": lambda a: rt.lexsort([a, a]), "argsort": lambda a: a.argsort(), "shift": lambda a: a.shift(1), "add": lambda a: a + a, "sub": lambda a: a - a, "mul": lambda a: a * 2, "radd": lambda a: 1 + a,
            "neg": lambda a: -a, "inv": lambda a: ~a, "abs": lambda a: abs(a), "lt": lambda a: a < a[::-1], "eqs": lambda a: a == a[0], "npadd": lambda a: np.add(a, a), "npmax": lambda a: np.maximum(a, 2), "nplog": lambda a: np.log(a), "npclip": lambda a: np.clip(a, 0, 2), "npround": lambda a: np.round(a, 1),
            "npwhere": lambda a: np.where(np.isnan(a), 0, a), "nan2num": lambda a: rt.nan_to_num(a), "rtsum": lambda a: rt.nansum(a), "fancy": lambda a: a[[1, 0]], "mask": lambda a: a[FA([True, False, True, False])[: len(a)]],
            "slice": lambda a: a[1:3], "sample": lambda a: a.sample(2, seed=1), "mbget": lambda a: rt.mbget(a, FA([0, 9, 1])), "interp": lambda a: rt.interp(a, FA([0.0, 5.0]), FA([1.0, 2.0])), "str": lambda a: a.str.upper(), "strrep": lambda a: a.str.replace("b", "z") if hasattr(a.str, "replace") else None,
            "sub1": lambda a: a.str.regex_replace("b", "z"), "strsub": lambda a: a.str.substr(1), "to_arrow": lambda a: a.to_arrow(), "pickle": lambda a: pickle.dumps(a), "save_mem": lambda a: rt.Dataset({"a": a}).to_pandas(), "accum2": lambda a: rt.Accum2(a, a[::-1]).sum(a), "accum2c": lambda a: rt.Accum2(rt.Cat(a), rt.Cat(a)).count(),
            "alignmk": lambda a: rt.alignmk(a, a, FA([1.0, 2.0, 3.0, 4.0])[: len(a)], FA([1.0, 2.0, 3.0, 4.0])[: len(a)]), "quantile": lambda a: a.quantile(0.5), "median": lambda a: a.nanmedian(), "percentile": lambda a: a.nanpercentile(50), "np_quantile": lambda a: np.quantile(a, 0.5), "partition2": lambda a: a.partition2(1),
            "push": lambda a: a.push(), "ema": lambda a: a.ema_decay(FA([1, 2, 3, 4])[: len(a)], 1.0), "timewin": lambda a: a.timewindow_sum(FA([1, 2, 3, 4])[: len(a)], 2), "describe": lambda a: a.describe(), "repr": lambda a: (repr(a), str(a), a._repr_html_() if hasattr(a, "_repr_html_") else 0), "applyschema": lambda a: a.apply(len),
            "stack": lambda a: rt.hstack([rt.Dataset({"a": a}), rt.Dataset({"a": a})]), "dtnadd": lambda a: a + rt.TimeSpan([1.0, 2.0, 3.0, 4.0])[: len(a)], "daterange": lambda a: rt.Date.range("20200101", days=3), "strftime": lambda a: a.strftime("%Y"), "iadd_view": lambda a: a[:].copy().__iadd__(1),
            "normalize": lambda a: (a.normalize_minmax(), a.normalize_zscore()), "bitcount": lambda a: rt.bitcount(a), "bool": lambda a: bool((a == a).all()), "iter": lambda a: list(a), "groupbyhash": lambda a: rt.groupbyhash(a), "groupbylex": lambda a: rt.groupbylex(a), "unique32": lambda a: rt.unique32([a, a]),
            "mergecats": lambda a: rt.Cat(a).shrink(rt.Cat(a).category_array[:1]), "ctcopy": lambda a: rt.Cat(a).one_hot_encode(), "isort": lambda a: rt.issorted(a), "searchsorted": lambda a: rt.searchsorted(rt.sort(a), a), "crc": lambda a: (rt.crc32c(a), rt.crc64(a)), "transpose": lambda a: rt.transpose(a),
        }
        return fs

    KF = kspace()

    def kcases():
        for k in PLAIN + CATS + TIMES:
            for f in KF:
                for n in (1, 2, 4):
                    for lay in ("c", "strided") if k in PLAIN else ("c",):
                        yield k, f, n, lay

    def krun(case):
        k, f, n, lay = case
        for off in range(4 if T else 2):
            a = item(k, n, off)
            base = None
            if lay == "strided":
                base = np.repeat(np.asarray(a), 2)
                a = FA(base, unicode=True)[::2] if k == "U" else FA(base)[::2]
            ins = [a] + ([] if base is None else [base])
            check(lambda: KF[f](a), ins, "a function changed its input", f"fn-{f}", k=k, f=f, lay=lay)

    mc.run("functions", kcases(), krun)

    # ------------------------------------------------------------ every public Dataset method
    def mkds(v):
        if v == 0:
            d = rt.Dataset({"k": FA(["a", "b", "a", "c"]), "v": FA([3.0, np.nan, 1.0, 2.0]), "i": item("int32", 4), "s": FA(["z", "", "x", "z"])})
        elif v == 1:
            d = rt.Dataset({"k": rt.Cat(["a", "b", "a", "c"]), "v": item("int64", 4), "t": item("dtn", 4), "d": item("date", 4), "c2": item("cat2", 4)})
            d.label_set_names(["k"])
        elif v == 2:
            d = rt.Dataset({"k": FA([2, 1, 2, 2]), "v": FA([1.0, 2.0, 3.0, 4.0]), "w": FA([True, False, True, False])})
            d.footer_set_values("Tot", {"v": 10.0})
            d.summary_set_names(["w"])
        else:
            d = rt.Dataset({"k": FA([3, 1, 2, 1]), "v": FA([1.0, 2.0, 3.0, 4.0]), "b": FA(["q", "p", "q", "p"])})
            d.sort_view("k")
        return d

    def mkarg(i):
        m = FA([True, False, True, True])
        return [
            (), (1,), ("k",), (["k"],), (["k", "v"],), (m,), ([0, 2],), ({"v": "vv"},), (np.sum,), (lambda x: x,), (lambda x: x.sum(),), ("v", "k"), (["k"], ["v"]), (FA([1, 0]),), (rt.Dataset({"k": FA(["a", "b"]), "z": FA([1, 2])}), "k"),
            ("float64",), ([("v", "sum")],), (0.5,), (slice(1, 3),), (rt.Dataset({"k": FA([1, 2]), "z": FA([1.5, 2.5])}), "k"), (rt.Dataset({"k": rt.Cat(["a", "c"]), "z": FA([1.5, 2.5])}), "k"), (["v", "k"], "i"), ("[kv]",),
        ][i]

    NARG = 23

    def dspace():
        for v in range(4):
            for m in [m for m in dir(rt.Dataset) if not m.startswith("_") and m not in DS_INPLACE and callable(getattr(rt.Dataset, m))]:
                for i in range(NARG):
                    yield v, m, i

    def drun(case):
        v, m, i = case
        if m == "isin" and i in (7, 9, 10, 18):
            return
        ds = mkds(v)
        cols = {c: ds[c] for c in ds.keys()}
        args = mkarg(i)
        ins = [ds] + list(cols.values()) + [x for x in args if not callable(x)]
        check(lambda: getattr(ds, m)(*args), ins, "a Dataset method changed its input", f"dm-{m}", v=v, m=m, i=i)

    mc.run("datasetmethods", dspace(), drun)

    # keyword variants of Dataset operations
    DF = {
        "getitem_cols": lambda d: d[["v", "k"]], "getitem_rows": lambda d: d[1:3, :], "getitem_mask": lambda d: d[d.v == d.v, :], "getitem_both": lambda d: d[[0, 1], ["v"]], "head": lambda d: d.head(2), "tail": lambda d: d.tail(2), "sort_copy": lambda d: d.sort_copy("v"), "sort_copy2": lambda d: d.sort_copy(["k", "v"], ascending=[False, True]),
        "filter": lambda d: d.filter(d.v == d.v), "trim": lambda d: d.trim(), "trimret": lambda d: d.trim(ret_filters=True), "dedup": lambda d: d.drop_duplicates(["k"]), "dedup_last": lambda d: d.drop_duplicates("k", keep="last"), "duplicated": lambda d: d.duplicated("k"), "keep": lambda d: d.keep(lambda c: c.isnan()), "fillna": lambda d: d.fillna(0), "fillna_m": lambda d: d.fillna(method="ffill"),
        "gbsum": lambda d: d.gb("k").sum(), "gbfirst": lambda d: d.gb(["k"]).first(), "gbapply": lambda d: d.gb("k").apply(lambda x: x), "gbagg": lambda d: d.gb("k").agg(["sum", "mean"]), "gbcum": lambda d: d.gb("k").cumsum(), "gbshift": lambda d: d.gb("k").shift(1), "gbfilt": lambda d: d.gb("k", filter=d.v == d.v).sum(), "gbtrans": lambda d: d.gb("k").sum(transform=True), "gbiter": lambda d: list(d.gb("k").iter_groups()),
        "cat": lambda d: d.cat("k").sum(d.v), "catret": lambda d: d.cat(["k", "v"]), "accum2": lambda d: d.accum2("k", "v").sum(d.v), "accum1": lambda d: d.accum1("k").sum(d.v), "pivot": lambda d: d.pivot("k", "v", "v"), "melt": lambda d: d.melt("k"), "transpose": lambda d: d.transpose(), "cat2keys": lambda d: d.cat2keys("k", "v"), "eq": lambda d: d == d, "equals": lambda d: d.equals(d), "add": lambda d: d + 1, "mul": lambda d: d * d, "neg": lambda d: -d,
        "rowsum": lambda d: d.sum(axis=1), "allsum": lambda d: d.sum(axis=None), "colmax": lambda d: d.max(), "describe": lambda d: d.describe(), "imatrix": lambda d: d.imatrix_make(inplace=False), "asmat": lambda d: d.as_matrix(), "rec": lambda d: d.as_recordarray(), "iterrows": lambda d: list(d.iterrows()), "asrows": lambda d: d.asrows(), "struct": lambda d: d.as_struct(), "pandas": lambda d: d.to_pandas(), "arrow": lambda d: d.to_arrow(),
        "outliers": lambda d: d.outliers("k"), "ct": lambda d: d.computable(), "hstack": lambda d: rt.hstack([d, d]), "concat_rows": lambda d: rt.Dataset.concat_rows([d, d]), "concat_cols": lambda d: rt.Dataset.concat_columns([d, d], do_copy=True), "concat_cols_nc": lambda d: rt.Dataset.concat_columns([d, d], do_copy=False), "merge": lambda d: d.merge(d[["k", "v"]].drop_duplicates("k"), "k"), "mlookup": lambda d: d.merge_lookup(d[["k", "v"]].drop_duplicates("k"), on="k", columns_right=["v"], suffix="_r"),
        "mlookup2": lambda d: rt.merge_lookup(d, d, on="k", suffixes=("_l", "_r"), keep="first"), "merge2": lambda d: rt.merge2(d, d, on="k", how="outer", suffixes=("_l", "_r")), "merge2l": lambda d: d.merge2(d, on="k", how="inner", suffixes=("_l", "_r"), indicator=True), "asof": lambda d: rt.merge_asof(d.sort_copy("v"), d.sort_copy("v"), on="v", by="k", suffixes=("_l", "_r")), "display": lambda d: (repr(d), str(d)), "html": lambda d: d._repr_html_(), "disp_T": lambda d: d._T, "disp_A": lambda d: d._A, "disp_H": lambda d: d._H, "make_table": lambda d: d.make_table(rt.rt_enum.DS_DISPLAY_TYPES.STR),
        "sample": lambda d: d.sample(2, seed=1), "quantile": lambda d: d.quantile(), "normalize": lambda d: d.normalize_minmax(), "reduce": lambda d: d.reduce(lambda x, y: x), "apply_cols": lambda d: d.apply_cols(lambda x: x + 1), "apply_rows": lambda d: d.apply_rows(lambda r: 1), "apply": lambda d: d.apply(lambda x: x), "len": lambda d: (len(d), d.shape, d.size, d._sizeinfo() if hasattr(d, "_sizeinfo") else 0), "dir": lambda d: dir(d), "isin": lambda d: d.isin([1, "a"]), "maskand": lambda d: d.mask_and_isnan(),
        "ds_ctor": lambda d: rt.Dataset(d), "ds_dict": lambda d: rt.Dataset(d.asdict()), "struct_ctor": lambda d: rt.Struct(d), "ms": lambda d: rt.Multiset({"a": d, "b": d}), "ms_gb": lambda d: d.gb("k").agg([np.sum, np.mean]).flatten(), "pds": lambda d: rt.PDataset([d, d]), "lock": lambda d: d.is_locked(), "label_filter": lambda d: d.label_filter("a"), "col_filter": lambda d: d.col_filter("v"), "col_match": lambda d: d.col_str_match("v"), "contains": lambda d: "v" in d, "tolist": lambda d: d.tolist(), "astype": lambda d: d.astype("float32"),
        "dhead": lambda d: d.dhead(), "meta": lambda d: d.col_get_attribute("v", "x"), "footer": lambda d: d.footer_get_values(), "summary": lambda d: d.summary_get_names(), "pickle": lambda d: pickle.loads(pickle.dumps(d)), "gbrows": lambda d: d.gbrows(), "gbu": lambda d: d.gbu("k").count(), "deep": lambda d: copy.deepcopy(d),
    }

    def dfspace():
        for v in range(4):
            for f in DF:
                for how in ("one", "twice"):
                    yield v, f, how

    def dfrun(case):
        v, f, how = case
        ds = mkds(v)
        o = opts()
        for _ in range(2 if how == "twice" else 1):
            check(lambda: DF[f](ds), [ds] + [ds[c] for c in ds.keys()], "a Dataset operation changed its input", f"df-{f}", v=v, f=f)
        mc.eq(opts(), o, "an operation changed the display options", key="dopt")
        # python argument objects are not modified either

    mc.run("datasetfuncs", dfspace(), dfrun)

    # ordered pairs of read-only operations on the same object: the second sees what the first saw
    def pairs():
        fs = list(DF)
        for v in range(4):
            for f in fs:
                for g in ("sort_copy", "gbsum", "merge", "display", "gbfirst", "accum2", "dedup", "pivot", "head", "catret"):
                    yield v, f, g

    def sig(x):
        if isinstance(x, (rt.Struct, np.ndarray)):
            return fp(x)
        if isinstance(x, (tuple, list)):
            return [sig(y) for y in x]
        return repr(x) if isinstance(x, (str, int, float, bool)) else type(x).__name__

    def call(f, d):
        try:
            with quiet():
                return sig(DF[f](d))
        except Exception as e:
            return ("raised", type(e).__name__)

    def pairrun(case):
        v, f, g = case
        w = call(g, mkds(v))
        ds = mkds(v)
        if f == "html":
            return  # displaying in a notebook ends a sort view by design
        call(f, ds)
        mc.op()
        mc.eq(call(g, ds), w, "an earlier read-only operation changed the result of a later one", key=f"pair-{f}-{g}", v=v)

    mc.run("pairs", pairs(), pairrun)

    # ------------------------------------------------------------ Categorical group operations
    def gspace():
        for k in CATS:
            for op in ("sum nansum mean min max count first last nth median mode std cumsum cumprod cummin cummax cumcount shift diff rolling_sum rolling_mean fill_forward fill_backward ema_decay rank ngroup head tail "
                       "count_uniques describe ohlc trimbr sem var nanvar apply_reduce apply_nonreduce agg iter_groups").split():
                for vk in ("float64", "int32", "S", "bool", "cat", "dtn", "ds"):
                    yield k, op, vk

    def grun(case):
        k, op, vk = case
        for off in range(3):
            c = item(k, N, off)
            x = rt.Dataset({"x": item("float64", N, off), "y": item("int32", N)}) if vk == "ds" else item(vk, N, off)
            flt = FA([True, False, True, True])
            kws = [{}, {"filter": flt}, {"transform": True}, {"showfilter": True}]
            for kw in kws:
                a = (np.sum, x) if op == "apply_reduce" else (lambda y: y, x) if op == "apply_nonreduce" else (["sum"], x) if op == "agg" else (x,) if op not in ("count", "cumcount", "ngroup", "iter_groups") else ()
                if op == "ema_decay":
                    kw = dict(kw, time=FA([1, 2, 3, 4]), decay_rate=1.0)
                check(lambda: list(getattr(c, op)(*a, **kw)), [c, x, flt], "a group operation changed its input", f"go-{op}", k=k, vk=vk, kw=str(sorted(kw)))

    mc.run("groupops", gspace(), grun)

    # ------------------------------------------------------------ two-table operations, both sides
    def m2space():
        for k1 in ("S", "int32", "cat", "int64"):
            for fn in ("merge_lookup", "merge2", "merge_asof", "merge", "alignmk"):
                for how in ("left", "inner", "outer", "right"):
                    for srt in (False, True):
                        yield k1, fn, how, srt

    def m2run(case):
        k1, fn, how, srt = case
        for lofs in range(3):
            L = rt.Dataset({"k": item(k1, 4, lofs), "t": FA([1, 2, 3, 4]), "v": FA([1.0, 2.0, 3.0, 4.0])})
            R = rt.Dataset({"k": item(k1, 3, 1), "t": FA([1, 3, 4]), "w": item("cat", 3), "v": FA([9.0, 8.0, 7.0])})
            if srt:
                L.sort_view("v", ascending=False)
                R.label_set_names(["k"])
            on = ["k"] if fn != "merge" else "k"
            suf = ("_x", "_y")
            cl, cr = ["k", "t", "v"], ["k", "t", "w", "v"]
            if fn == "merge_lookup":
                f = lambda: rt.merge_lookup(L, R, on=on, columns_left=cl, columns_right=cr, suffixes=suf, keep="first")
            elif fn == "merge2":
                f = lambda: rt.merge2(L, R, on=on, columns_left=cl, columns_right=cr, how=how, suffixes=suf, indicator=True)
            elif fn == "merge_asof":
                f = lambda: rt.merge_asof(L, R, on="t", by="k", suffixes=suf)
            elif fn == "merge":
                f = lambda: rt.merge(L, R, on=on, how=how if how != "outer" else "left")
            else:
                f = lambda: rt.alignmk(L.k, R.k, L.t, R.t)
            check(f, [L, R, on, cl, cr], "a join changed its input", f"join-{fn}", k1=k1, how=how)

    mc.run("joins", m2space(), m2run)

    # python containers given as arguments
    def argspace():
        yield from range(58)

    def argrun(i):
        d = mkds(0)
        lst, dct = ["v", "k"], {"v": "vv"}
        data = {"a": [3, 1, 2], "b": np.array([1.0, 2.0, 3.0]), "c": FA(["x", "y", "z"])}
        rows = [[1, "a"], [2, "b"]]
        names = ["p", "q"]
        tagged = [{"p": 1, "q": "a"}, {"p": 2, "q": "b"}]
        arrs = [FA([1, 2]), FA([3, 4])]
        mp = {"a": "A", "b": "B"}
        cats = ["b", "a"]
        fs = [
            lambda: rt.Dataset(data), lambda: rt.Struct(data), lambda: d.col_move_to_front(lst), lambda: d.col_move_to_back(lst), lambda: d.col_remove(lst), lambda: d.col_map(dct), lambda: d[lst], lambda: d.sort_inplace(lst), lambda: d.sort_copy(lst), lambda: d.gb(lst), lambda: d.label_set_names(lst),
            lambda: rt.Dataset.from_rows(rows, names), lambda: rt.Dataset.from_tagged_rows(tagged), lambda: rt.hstack(arrs), lambda: rt.Cat(arrs), lambda: rt.lexsort(arrs), lambda: rt.ismember(arrs, arrs), lambda: d.k.map(mp), lambda: rt.Cat(["a", "b"], cats), lambda: rt.Categorical([1, 2], mp), lambda: d.filter(FA([True, False, True, True])),
            lambda: d.footer_set_values("x", dct), lambda: rt.Dataset.concat_rows([d, d]), lambda: d.drop_duplicates(lst), lambda: d.accum2(lst[0], lst[1]), lambda: d.melt(id_vars=lst),
        ]
        y = FA([1.0, 2.0, 3.0, 4.0])
        m = FA([True, False, True, True])
        cc = {w: rt.Cat([w, "x", "x", "z"]) for w in ("Ratio", "Total", "Sum", "NotGrouped")}
        jag = [[1, 2], ["a"], FA([3, 4, 5])]
        jagd = {"a": [1, 2], "b": [3]}
        fl, fn, vs, nl = [m, ~m], ["nansum", "nanmean"], [y, (y, y), (y, "p")], ["n1", "n2", "n3"]
        qs = [0.25, 0.5]
        sub = [mkds(0), mkds(0)]
        onb = ["k"]
        bins, labs = [0, 2, 3], ["lo", "hi"]
        strs = ["a", "b", "c"]
        st = rt.Struct({"a": d.copy(), "b": rt.Struct({"c": y.copy()})})
        fs += [lambda w=w, f=f: f(w) for w in cc for f in (
            lambda w: rt.accum_ratio(d.k, cc[w], y, y), lambda w: rt.accum_ratiop(d.k, cc[w], y), lambda w: rt.accum_ratio(cc[w], d.k, y, y, filt1=m), lambda w: (lambda t: (t.__setitem__("Ratio", t.sum(y)), t.gen("Ratio")))(rt.AccumTable(cc[w], d.k)))]
        fs += [lambda: rt.accum_cols(cc["x" if "x" in cc else "Total"], vs, nl, fl[0], "nansum", True), lambda: rt.accum_cols(cc["Total"], [y, y], names, fl, fn), lambda: rt.Dataset.from_jagged_rows(jag), lambda: rt.Dataset.from_jagged_dict(jagd), lambda: rt.Dataset.concat_columns(sub, True), lambda: rt.Dataset.concat_rows(sub),
               lambda: rt.merge2(sub[0], sub[1], on=onb, columns_left=lst, suffixes=("_x", "_y")), lambda: rt.merge_lookup(sub[0], sub[1], on=onb, columns_left=lst, columns_right=lst), lambda: rt.cut(y, bins, labs), lambda: rt.qcut(y, qs), lambda: d.k.quantile(y, q=qs), lambda: d.gb(onb).agg({"v": fn}) if "v" in d else None,
               lambda: rt.Struct.concat_structs([st, st]), lambda: st.copy(deep=True), lambda: d.k.shrink(strs), lambda: d.cat(onb)]
        objs = [lst, dct, data, rows, names, tagged, arrs, mp, cats, y, m, jag, jagd, fl, fn, vs, nl, qs, onb, bins, labs, strs, st] + list(cc.values()) + sub
        check(fs[i], objs, "an argument object was modified", f"arg-{i}")

    mc.run("arguments", argspace(), argrun)

    # ------------------------------------------------------------ copies
    AED = {
        "set0": lambda a: a.__setitem__(0, a[-1]), "setall": lambda a: a.__setitem__(slice(None), a[:1][0]), "setmask": lambda a: a.__setitem__(FA([True, False, True, True])[: len(a)], a[1] if len(a) > 1 else a[0]), "sort": lambda a: a.sort(), "fillinv": lambda a: a.fill_invalid(inplace=True), "iadd": lambda a: a.__iadd__(1),
        "putmask": lambda a: rt.putmask(a, FA([True, True, False, True])[: len(a)], a[::-1].copy()), "npfill": lambda a: np.asarray(a).fill(0), "byte": lambda a: np.asarray(a).view("u1").__setitem__(slice(None), 1), "catadd": lambda a: (a.unlock(), a.category_add("new")), "catren": lambda a: a.category_replace(a.category_array[0], "zz") if hasattr(a, "category_replace") else None,
        "catrep": lambda a: a.category_array.__setitem__(0, a.category_array[-1]), "autoadd": lambda a: (a.auto_add_on(), a.__setitem__(0, "fresh")), "invset": lambda a: a.invalid_set(a.category_array[0]), "tz": lambda a: a.set_timezone("DUBLIN"), "mapadd": lambda a: a.mapping_add(77, "seven"),
    }
    DEEP = {"copy": lambda x: x.copy(), "copyT": lambda x: x.copy(True), "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}
    ACOPY = {"fancy": lambda x: x[list(range(len(x)))], "mask": lambda x: x[FA([True] * len(x))], "astype": lambda x: x.astype(x.dtype), "npcopy": lambda x: np.copy(x), "hstack1": lambda x: rt.hstack([x]), "hstack2": lambda x: rt.hstack([x, x])[: len(x)] if not isinstance(x, rt.Categorical) else rt.hstack([x, x]), "flatten": lambda x: x.flatten(),
             "rtsort": lambda x: rt.sort(x), "fillna": lambda x: x.fillna(x[:1][0]), "shift0": lambda x: x.shift(0), "filter": lambda x: x.filter(FA([True] * len(x))), "rtcopyto": lambda x: rt.where(FA([True] * len(x)), x, x), "tolist": lambda x: x.tolist(), "replacena": lambda x: x.replacena(x[:1][0]), "unique": lambda x: rt.unique(x)}

    def cspace():
        for k in PLAIN + CATS + TIMES:
            for c in DEEP:
                if c == "copyT":
                    continue
                for e1 in AED:
                    for e2 in [None] + (list(AED) if k in CATS or T else []):
                        yield k, c, e1, e2
            for c in ACOPY:
                if k in CATS and c not in ("fancy", "mask", "hstack2") or k in TIMES and c == "hstack1":
                    continue  # stacking a list of one hands that object back
                for e1 in AED:
                    yield k, c, e1, None

    def edit(fn, x):
        try:
            with quiet():
                fn(x)
        except Exception:
            pass

    def crun(case):
        k, c, e1, e2 = case
        for n in (1, N):
            for side in (0, 1):
                a = item(k, n, 1)
                f0 = fp(a)
                deep = c in DEEP
                try:
                    b = (DEEP if deep else ACOPY)[c](a)
                except Exception:
                    if deep:
                        raise
                    return
                mc.op()
                mc.eq(fp(a), f0, "copying changed the source", key=f"cp0-{c}", k=k)
                if deep and k not in ("cat2",):
                    mc.eq(fp(b), f0, "a copy has the contents of its source", key=f"cpeq-{c}", k=k)
                if not isinstance(b, np.ndarray):
                    return
                fb = fp(b)
                tgt, other, fo = (b, a, f0) if side == 0 else (a, b, fb)
                for e in (e1, e2):
                    if e and not (e.startswith("cat") and not isinstance(tgt, rt.Categorical)):
                        if not deep and isinstance(a, rt.Categorical) and e in ("catren", "catrep", "mapadd"):
                            continue  # selections share the category table of their source
                        edit(AED[e], tgt)
                        mc.op()
                mc.eq(fp(other), fo, "editing a copy leaks", key=f"leak-{c}-{e1}-{e2}", k=k, n=n, side=side)

    mc.run("arraycopies", cspace(), crun)

    DED = {
        "rename": lambda d: d.col_rename("v", "vv"), "delete": lambda d: d.col_remove("v"), "add": lambda d: setattr(d, "new", rt.arange(4)), "replace": lambda d: setattr(d, "v", rt.arange(4)), "front": lambda d: d.col_move_to_front(["v"]), "back": lambda d: d.col_move_to_back(["k"]), "swap": lambda d: d.col_swap(["k"], ["v"]), "label": lambda d: d.label_set_names(["v"]), "labelrm": lambda d: d.label_remove(),
        "footer": lambda d: d.footer_set_values("F", {"v": 1.0}), "footrm": lambda d: d.footer_remove(), "prefix": lambda d: d.col_add_prefix("p_"), "pop": lambda d: d.col_pop("k"), "colmap": lambda d: d.col_map({"k": "v", "v": "k"}), "sum": lambda d: d.summary_set_names(["v"]), "lock": lambda d: d._lock(), "attr": lambda d: d.col_set_attribute("v", "note", 5), "strrep": lambda d: d.col_str_replace("v", "q"), "set_cols": lambda d: d.col_replace_all({"z": rt.arange(4)}),
        "sortv": lambda d: d.sort_view("v"),
    }
    VED = {
        "cell": lambda d: d.__setitem__((0, "v"), d[3, "v"]), "colset": lambda d: d.v.__setitem__(slice(None), d.v[2]), "row": lambda d: d.__setitem__((slice(0, 2), ["v"]), d[2:4, ["v"]]), "sort": lambda d: d.sort_inplace("v"), "iadd": lambda d: d.v.__iadd__(1), "fillna": lambda d: d.fillna(0, inplace=True), "putmask": lambda d: d.putmask(FA([True, False, True, False]), d[::-1, :]),
        "catset": lambda d: d.k.__setitem__(0, d.k[1]), "filt": lambda d: d.filter(FA([True, False, True, True]), inplace=True), "dedup": lambda d: d.drop_duplicates("k", inplace=True), "dsiadd": lambda d: d.__iadd__(1), "colT": lambda d: np.asarray(d["v"]).fill(1), "catadd": lambda d: (d.k.unlock(), d.k.category_add("n")), "catinv": lambda d: d.k.invalid_set("a"),
    }
    SHALLOW = {"copyF": lambda d: d.copy(False), "copy.copy": copy.copy, "cols": lambda d: d[list(d.keys())], "ctor": lambda d: rt.Dataset(d.asdict()), "colslice": lambda d: d[:, :], "structsel": lambda d: d.col_filter(list(d.keys()))}
    DDEEP = dict(DEEP, rows=lambda d: d[list(range(d.get_nrows())), :], mask=lambda d: d[FA([True] * d.get_nrows()), :], sortc=lambda d: d.sort_copy("k"), filt=lambda d: d.filter(FA([True] * d.get_nrows())), concat=lambda d: rt.Dataset.concat_rows([d, d]), asdict=lambda d: rt.Dataset(d.asdict(copy=True)))

    def ccspace():
        eds = list(DED) + list(VED)
        for v in range(4):
            for c in SHALLOW:
                for e1 in DED:
                    for e2 in [None] + list(DED):
                        yield v, c, e1, e2
            for c in DDEEP:
                for e1 in eds:
                    for e2 in [None] + (eds if c in ("copy", "deepcopy", "pickle") or T else []):
                        yield v, c, e1, e2

    def ccrun(case):
        v, c, e1, e2 = case
        for side in (0, 1):
            d = mkds(v)
            f0 = fp(d)
            shallow = c in SHALLOW
            try:
                b = (SHALLOW if shallow else DDEEP)[c](d)
            except Exception:
                if c in ("copy", "copyT", "deepcopy", "pickle", "copyF", "copy.copy"):
                    raise
                return
            mc.op()
            mc.eq(fp(d), f0, "copying changed the source", key=f"dcp0-{c}", v=v)
            if c in ("copy", "copyT", "deepcopy", "copyF", "copy.copy"):
                mc.eq(fp(b), f0, "a copy has the contents of its source", key=f"dcpeq-{c}", v=v)
            fb = fp(b)
            tgt, other, fo = (b, d, f0) if side == 0 else (d, b, fb)
            for e in (e1, e2):
                if e in DED:
                    edit(DED[e], tgt)
                elif e:
                    if e in ("catadd", "catinv") and c in ("rows", "mask", "filt", "sortc", "asdict", "fillna"):
                        continue
                    edit(VED[e], tgt)
                mc.op()
            mc.eq(fp(other), fo, "editing a copied Dataset leaks", key=f"dleak-{c}-{e1}-{e2}", v=v, side=side)

    mc.run("datasetcopies", ccspace(), ccrun)

    # copies and row selections at every small size
    SZC = dict(
        copy=lambda d: d.copy(), copyT=lambda d: d.copy(deep=True), deepcopy=copy.deepcopy, rows=lambda d: d[list(range(d.get_nrows())), :], mask=lambda d: d[FA([True] * d.get_nrows()), :],
        sortc=lambda d: d.sort_copy("k"), sortc2=lambda d: d.sort_copy(["k", "v"]), sortd=lambda d: d.sort_copy("k", ascending=False), filt=lambda d: d.filter(FA([True] * d.get_nrows())), concat1=lambda d: rt.Dataset.concat_rows([d, d[:0, :]]) , concat2=lambda d: rt.Dataset.concat_rows([d, d]),
        asdict=lambda d: rt.Dataset(d.asdict(copy=True)), dedup=lambda d: d.drop_duplicates("k"), fillna=lambda d: d.fillna(0), take=lambda d: d.sample(d.get_nrows(), seed=1), merge=lambda d: rt.merge2(d, d[["k"]].drop_duplicates("k"), on="k", how="left"), lookup=lambda d: rt.merge_lookup(d, d[["k"]].drop_duplicates("k"), on="k"))
    SCOL = {
        "num": lambda n: {"k": FA(np.arange(n, 0, -1)), "v": FA(np.arange(n) + 0.5)}, "str": lambda n: {"k": FA(np.array([b"c", b"b", b"a"][:n], "S1")), "v": FA(np.arange(n, dtype="int32"))},
        "cat": lambda n: {"k": rt.Cat(FA(np.array([b"c", b"b", b"a"][:n], "S1"))), "v": FA(np.array([True, False, True][:n]))}, "dtn": lambda n: {"k": item("dtn", n), "v": item("date", n)}, "same": lambda n: {"k": FA(np.arange(n)), "v": item("int64", n)},
        "ro": lambda n: {"k": FA(np.arange(n)), "v": FA(np.arange(n) * 2)},
    }

    def szrun(case):
        c, kind, n, side = case
        d = rt.Dataset(SCOL[kind](n))
        f0 = fp(d)
        try:
            b = SZC[c](d)
        except Exception:
            return
        if c == "fillna" and kind in ("str", "cat"):
            return  # columns that cannot hold a missing value are passed through
        mc.op()
        fb = fp(b)
        tgt, other, fo = (b, d, f0) if side == 0 else (d, b, fb)
        for k in ("k", "v"):
            x = tgt[k]
            if kind == "cat" and k == "k" and not isinstance(x, rt.Categorical):
                continue  # a label column of a grouped result is the Categorical's own label array
            raw = (x._fa if isinstance(x, rt.Categorical) else x).view(np.ndarray)
            if len(raw):
                raw[0] = (1 - raw[0]) if raw.dtype.kind == "b" else (b"z" if raw.dtype.kind == "S" else (0 if kind == "cat" else 77))
        mc.eq(fp(other), fo, "editing a copied Dataset leaks", key=f"szleak-{c}-{kind}", n=n, side=side)

    mc.run("copysizes", itertools.product(SZC, SCOL, (1, 2, 3), (0, 1)), szrun)

    # Struct / Multiset trees
    def tree(v):
        d = mkds(v % 4)
        if v < 4:
            return rt.Struct({"a": FA([1, 2, 3]), "d": d, "s": rt.Struct({"x": FA([4.0, 5.0]), "n": 7}), "i": 3})
        return rt.Multiset({"a": d, "b": mkds((v + 1) % 3)})

    TED = {
        "leaf": lambda t: t.a.__setitem__(0, 99), "nest": lambda t: t.s.x.__setitem__(0, 99.0), "nestadd": lambda t: setattr(t.s, "y", 1), "nestdel": lambda t: t.s.col_remove("x"), "ds": lambda t: t.d.v.__setitem__(0, t.d.v[2]), "dsadd": lambda t: setattr(t.d, "zz", rt.arange(4)), "dsren": lambda t: t.d.col_rename("v", "vv"), "top": lambda t: t.col_rename("a", "aa"), "topdel": lambda t: t.col_remove("a"),
        "topadd": lambda t: setattr(t, "q", 5), "msv": lambda t: t.a.v.__setitem__(0, t.a.v[2]), "msadd": lambda t: setattr(t.a, "zz", rt.arange(4)), "scal": lambda t: setattr(t, "i", 9),
    }

    def tspace():
        for v in range(8):
            for c in ("copy", "copyT", "deepcopy", "copyF"):
                for e1 in TED:
                    for e2 in [None] + list(TED):
                        yield v, c, e1, e2

    def trun(case):
        v, c, e1, e2 = case
        if c == "copyF" and not set(filter(None, (e1, e2))) <= {"top", "topdel", "topadd", "scal"}:
            return
        for side in (0, 1):
            d = tree(v)
            f0 = fp(d)
            b = d.copy(False) if c == "copyF" else DEEP[c](d)
            mc.op()
            mc.eq(fp(b), f0, "a copy has the contents of its source", key=f"tcpeq-{c}", v=v)
            tgt, other = (b, d) if side == 0 else (d, b)
            for e in (e1, e2):
                if e:
                    edit(TED[e], tgt)
                    mc.op()
            mc.eq(fp(other), f0, "editing a copied tree leaks", key=f"tleak-{c}-{e1}-{e2}", v=v, side=side)

    mc.run("treecopies", tspace(), trun)
