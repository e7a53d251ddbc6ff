"""C26 Results do not depend on engine configuration, size path or memory layout."""
import contextlib, io, itertools, logging, warnings
import numpy as np
import riptable as rt
from ..model import *
from ..zoo import item, PLAIN, CATS, TIMES, DAY

PROPERTY = "C26"
warnings.simplefilter("ignore")
logging.disable(logging.WARNING)
np.seterr(all="ignore")
FA = rt.FastArray
NUM = INTS + FLTS


def sig(r):
    if isinstance(r, rt.Dataset):
        return [(k, sig(r[k])) for k in r.keys()]
    if isinstance(r, rt.Categorical):
        return ("cat", vals(r))
    if isinstance(r, np.ndarray):
        if r.ndim > 1:
            return ("nd", r.shape, plain(np.asarray(r).ravel()))
        return (kind(r) if isinstance(r, FA) else str(r.dtype.kind), vals(r) if isinstance(r, FA) else plain(r))
    if isinstance(r, (tuple, list)):
        return tuple(sig(x) for x in r)
    if isinstance(r, np.generic):
        return scalar(r)
    if isinstance(r, float) and r != r:
        return None
    return r


def sigbig(r):
    """as sig, but long arrays by their bytes"""
    if isinstance(r, rt.Dataset):
        return [(k, sigbig(r[k])) for k in r.keys()]
    if isinstance(r, np.ndarray) and r.dtype.kind == "O":
        return (r.shape, hash(tuple(r.tolist())))
    if isinstance(r, np.ndarray):
        return (type(r).__name__, r.dtype.str, r.shape, hash(np.asarray(r).tobytes()), sigbig(list(r.category_dict.values())) if isinstance(r, rt.Categorical) else None)
    if isinstance(r, (tuple, list)):
        return tuple(sigbig(x) for x in r)
    return sig(r)


LAYOUTS = ("c", "strided", "rev", "off", "ro", "rec", "col2d", "cols2f", "strided3rev")


def lay(a, how):
    """the same contents presented through another memory layout"""
    if how == "c":
        return a
    b = np.asarray(a)
    n = len(b)
    uni = {"unicode": True} if b.dtype.char == "U" else {}
    if how == "off":
        c = np.concatenate([b[:1], b, b[:1]]) if n else np.zeros(2, dtype=b.dtype)
        r = FA(c, **uni)[1 : n + 1]
    elif how == "strided":
        c = np.empty(2 * n, dtype=b.dtype)
        c[::2] = b
        c[1::2] = b[::-1]
        r = FA(c, **uni)[::2]
    elif how == "rev":
        r = FA(b[::-1].copy(), **uni)[::-1]
    elif how == "strided3rev":
        c = np.empty(3 * n, dtype=b.dtype)
        for j in range(3):
            c[j::3] = b[::-1]
        r = FA(c, **uni)[::-3]
    elif how == "ro":
        r = a.copy()
        r.flags.writeable = False
    elif how == "rec":
        c = np.zeros(n, dtype=[("x", "i4"), ("v", b.dtype), ("y", "i1")])
        c["v"] = b
        r = c["v"].view(FA)
    elif how == "col2d":
        c = np.zeros((n, 3), dtype=b.dtype)
        c[:, 1] = b
        r = c[:, 1].view(FA)
    else:
        c = np.zeros((n, 3), dtype=b.dtype, order="F")
        c[:, 2] = b
        r = c[:, 2].view(FA)
    if hasattr(a, "newclassfrominstance") and type(a) is not FA:
        r = a.newclassfrominstance(r.view(FA), a)
    return r


def ops():
    """name -> (kinds, function of two arrays, relation under tiling)
    relation: e = elementwise, r = unchanged by tiling, s = scales with the tile count, l = length-changing elementwise list, None = only layout/config checks"""
    A = PLAIN
    O = {}

    def add(name, kinds, fn, rel=None):
        O[name] = (kinds, fn, rel)

    for nm, f in {
        "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "gt": lambda a, b: a > b, "max2": lambda a, b: rt.maximum(a, b), "min2": lambda a, b: rt.minimum(a, b),
        "div": lambda a, b: a / b, "adds": lambda a, b: a + 1, "radd": lambda a, b: 1 + a, "muls": lambda a, b: a * 2, "lts": lambda a, b: a < 3, "addf": lambda a, b: a + 0.5, "neg": lambda a, b: -a, "abs": lambda a, b: abs(a), "npadd": lambda a, b: np.add(a, b), "npmul": lambda a, b: np.multiply(a, b), "npmax": lambda a, b: np.maximum(a, b),
        "nplt": lambda a, b: np.less(a, b), "clip": lambda a, b: a.clip(1, 3), "npabs": lambda a, b: np.abs(a), "npneg": lambda a, b: np.negative(a), "sqrt": lambda a, b: np.sqrt(a), "exp": lambda a, b: np.exp(a * 0), "floor": lambda a, b: np.floor(a), "fillna": lambda a, b: a.fillna(9), "replacena": lambda a, b: a.replacena(4), "round": lambda a, b: a.round(1),
        "sign": lambda a, b: np.sign(a), "floordiv": lambda a, b: a // 2, "pow": lambda a, b: a**2, "isnanorzero": lambda a, b: a.isnanorzero(), "between": lambda a, b: a.between(1, 3),
    }.items():
        add(nm, NUM, f, "e")
    for nm, f in {
        "isnan": lambda a, b: rt.isnan(a), "isnanm": lambda a, b: a.isnan(), "isnotnan": lambda a, b: a.isnotnan(), "isfinite": lambda a, b: a.isfinite(), "where": lambda a, b: rt.where(a == b, a, b), "where1": lambda a, b: rt.where(a == a, b, a), "copy": lambda a, b: a.copy(), "eqs": lambda a, b: a == a[:1][0] if len(a) else a == a,
        "tolist": lambda a, b: FA(a.tolist()) if len(a) else a.copy(), "isin": lambda a, b: a.isin(b[:2]) if len(b) else a == b, "filter_all": lambda a, b: a[a == a] if a.dtype.kind != "f" else a[np.asarray(a == a) | True], "putmask": lambda a, b: put(a.copy(), a == b, b), "setitem": lambda a, b: sett(a.copy(), b), "fancy": lambda a, b: a[rt.arange(len(a))], "astypeS": lambda a, b: a.astype(a.dtype), "view": lambda a, b: a.view(FA) if type(a) is FA else a, "notna": lambda a, b: a.notna() if hasattr(a, "notna") else 0,
    }.items():
        add(nm, A + TIMES[:5], f, "e")
    for nm, f in {"astype_f8": "float64", "astype_f4": "float32", "astype_i8": "int64", "astype_i4": "int32", "astype_i1": "int8", "astype_u8": "uint64"}.items():
        add(nm, NUM, lambda a, b, d=f: (a if a.dtype.kind != "f" else rt.where(rt.isfinite(a), a, a.inv)).astype(d), "e")
    for nm, f in {
        "nanmin": lambda a, b: rt.nanmin(a), "nanmax": lambda a, b: rt.nanmax(a), "min": lambda a, b: rt.min(a), "max": lambda a, b: rt.max(a), "nanmean": lambda a, b: rt.nanmean(a[a == a]) if a.dtype.kind == "f" else rt.nanmean(a), "unique": lambda a, b: rt.unique(a), "uniquem": lambda a, b: a.unique(),
        "nunique": lambda a, b: a.nunique(), "argmin": lambda a, b: a.nanargmin(), "argmax": lambda a, b: a.nanargmax(), "median": lambda a, b: a.nanmedian(), "issorted": lambda a, b: rt.issorted(a) if len(set(vals(a))) == 1 else 0,
        "npmin": lambda a, b: np.nanmin(a) if a.dtype.kind == "f" else np.min(a), "ptile": lambda a, b: a.nanpercentile(50),
    }.items():
        add(nm, NUM, f, "r")
    for nm, f in {"sum": lambda a, b: rt.sum(a), "nansum": lambda a, b: rt.nansum(a), "count": lambda a, b: a.count(), "nansumm": lambda a, b: a.nansum(), "npsum": lambda a, b: np.sum(a)}.items():
        add(nm, NUM, f, "s" if nm != "count" else None)
    for nm, f in {
        "uniques": lambda a, b: rt.unique(a), "unique_i": lambda a, b: rt.unique(a, return_index=True, return_inverse=True, return_counts=True), "unique_o": lambda a, b: rt.unique(a, sorted=False), "dup": lambda a, b: a.duplicated(), "sort": lambda a, b: rt.sort(a), "argsort": lambda a, b: a.argsort(), "lexsort": lambda a, b: rt.lexsort([a, b]), "lexsort2": lambda a, b: rt.lexsort([b, a]), "issorted": lambda a, b: rt.issorted(a),
        "ismember": lambda a, b: rt.ismember(a, b), "ismember_1": lambda a, b: rt.ismember(a, b, base_index=1), "ismember2": lambda a, b: rt.ismember([a, b], [b, a]), "cat": lambda a, b: rt.Cat(a), "cat_unord": lambda a, b: rt.Cat(a, ordered=False), "cat_lex": lambda a, b: rt.Cat(a, lex=True), "cat_filt": lambda a, b: rt.Cat(a, filter=FA([i % 2 == 0 for i in range(len(a))])), "cat_mk": lambda a, b: rt.Cat([a, b]), "catpre": lambda a, b: rt.Cat(a, b.unique()),
        "gbsum": lambda a, b: rt.Cat(a).sum(rt.arange(len(a))), "gbval": lambda a, b: rt.Cat(FA([i % 2 for i in range(len(a))])).last(a), "gbfirst": lambda a, b: rt.Cat(a).first(b), "gbnth": lambda a, b: rt.Cat(b).nth(a, 1), "gbcount": lambda a, b: rt.Cat(a).count(), "gbds": lambda a, b: rt.Dataset({"k": a, "v": b}).gb("k").first(), "gbshift": lambda a, b: rt.Cat(a).shift(b, window=1) if False else rt.Cat(a).shift(rt.arange(len(a))), "hstack": lambda a, b: rt.hstack([a, b]), "concat": lambda a, b: rt.concatenate([a, b]),
        "hstack3": lambda a, b: rt.hstack([b, a, a]), "shift": lambda a, b: a.shift(1), "shiftm": lambda a, b: a.shift(-2), "mask": lambda a, b: a[FA([i % 2 == 0 for i in range(len(a))])], "slice": lambda a, b: a[1:], "take": lambda a, b: a[[0, 0]] if len(a) else a, "mbget": lambda a, b: rt.mbget(a, FA([0, 7, -1, 1])), "repeat": lambda a, b: rt.repeat(a, 2), "tile": lambda a, b: rt.tile(a, 2), "reshape": lambda a, b: a.reshape(len(a), 1), "transpose": lambda a, b: rt.Dataset({"a": a})[:, ["a"]], "differs": lambda a, b: a.differs(), "transitions": lambda a, b: a.transitions(),
        "dsrows": lambda a, b: rt.Dataset({"a": a, "b": b})[[0], :] if len(a) else 0, "dssort": lambda a, b: rt.Dataset({"a": a, "b": b}).sort_copy("a"), "dsfilt": lambda a, b: rt.Dataset({"a": a, "b": b}).filter(FA([i % 2 == 1 for i in range(len(a))])), "dedup": lambda a, b: rt.Dataset({"a": a, "b": b}).drop_duplicates("a"), "lookup": lambda a, b: rt.merge_lookup(rt.Dataset({"k": a}), rt.Dataset({"k": b, "v": b}), on="k", keep="first"), "merge2": lambda a, b: rt.merge2(rt.Dataset({"k": a}), rt.Dataset({"k": b, "v": b}), on="k", how="inner"), "concat_rows": lambda a, b: rt.Dataset.concat_rows([rt.Dataset({"a": a}), rt.Dataset({"a": b})]),
        "searchsorted": lambda a, b: rt.searchsorted(rt.sort(b), a), "setmask": lambda a, b: setmask(b.copy(), a), "repr": lambda a, b: repr(FA(np.array(a))) == repr(a) if type(a) is FA else 0, "str": lambda a, b: str(rt.Dataset({"a": a})), "items": lambda a, b: list(sig(x) for x in a), "accum2": lambda a, b: rt.Accum2(rt.Cat(a), rt.Cat(b)).count(), "copyto": lambda a, b: rt.where(FA([i % 2 == 0 for i in range(len(a))]), a, b), "reduce_any": lambda a, b: (a == b).any(), "reduce_all": lambda a, b: (a == b).all(), "npunique": lambda a, b: np.unique(np.asarray(a)) if a.dtype.kind != "f" else 0, "sds": lambda a, b: rt.FA(a).copy(),
        "pickle": lambda a, b: __import__("pickle").loads(__import__("pickle").dumps(a)), "ffill": lambda a, b: a.fill_forward(a[:1][0]) if len(a) else 0, "bfill": lambda a, b: a.fill_backward(a[:1][0]) if len(a) else 0, "catff": lambda a, b: rt.Cat(FA([i % 2 for i in range(len(a))])).fill_forward(a), "gbmode": lambda a, b: rt.Cat(FA([0] * len(a))).nth(a, 0), "gbds2": lambda a, b: rt.Dataset({"k": FA([i % 2 for i in range(len(a))]), "v": a, "w": b}).gb("k").last(), "gbsort": lambda a, b: rt.Dataset({"k": a, "v": rt.arange(len(a))}).gb("k", sort=True).sum(), "gbu": lambda a, b: rt.Dataset({"k": a, "v": rt.arange(len(a))}).gbu("k").sum(),
    }.items():
        add(nm, [k for k in A if k != "bool" or nm not in ("ismember", "ismember_1", "ismember2", "merge2", "lookup", "ffill", "bfill", "catff", "searchsorted", "fill")] + (["dtn", "date", "span"] if nm in ("unique_i", "sort", "hstack", "shift", "mask", "slice", "take", "repeat", "dsrows", "dssort", "cat", "gbfirst", "lexsort", "dsfilt", "lookup", "mbget") else []), f, None)
    for nm, f in {
        "gbfsum": lambda a, b: rt.Cat(FA([i % 2 for i in range(len(a))])).nansum(a), "gbfmin": lambda a, b: rt.Cat(FA([i % 2 for i in range(len(a))])).nanmin(a), "gbmedian": lambda a, b: rt.Cat(FA([i % 2 for i in range(len(a))])).nanmedian(a), "gbcum": lambda a, b: rt.Cat(FA([i % 2 for i in range(len(a))])).cumsum(rt.nan_to_num(a) if a.dtype.kind == "f" else a), "gbroll": lambda a, b: rt.Cat(FA([i % 2 for i in range(len(a))])).rolling_sum(a[:] if a.dtype.kind != "f" else rt.nan_to_num(a), 2),
        "cumsum": lambda a, b: rt.cumsum(a), "diff": lambda a, b: a.diff(), "cummin": lambda a, b: a.cummin(), "rolling": lambda a, b: a.rolling_nansum(2), "move": lambda a, b: a.move_min(2) if len(a) > 1 else 0, "movesum": lambda a, b: a.move_sum(2) if len(a) > 1 else 0, "timewin": lambda a, b: a.timewindow_sum(FA(np.arange(len(a), dtype="int64")), 1), "timewint": lambda a, b: FA(np.arange(len(a)) + 1).timewindow_prod(a.astype("int64"), 2), "ema": lambda a, b: a.ema_decay(FA(np.arange(len(a), dtype="int64")), 0.5), "cut": lambda a, b: rt.cut(a, [0, 2, 5]), "var": lambda a, b: rt.nanvar(a), "std": lambda a, b: rt.nanstd(a), "mean": lambda a, b: rt.mean(a), "quant": lambda a, b: a.nanquantile(0.25), "bitc": lambda a, b: rt.bitcount(a) if a.dtype.kind != "f" else 0,
        "interp": lambda a, b: rt.interp(a, FA([0.0, 2.0, 9.0]), FA([1.0, 5.0, 6.0])), "norm": lambda a, b: a.normalize_minmax(), "accum2s": lambda a, b: rt.Accum2(FA([i % 2 for i in range(len(a))]), FA([i % 3 for i in range(len(a))])).nansum(a), "dssum": lambda a, b: rt.Dataset({"a": a, "b": b}).nansum(), "dsrow": lambda a, b: rt.Dataset({"a": a, "b": b}).nansum(axis=1) if a.dtype.kind == "f" else 0, "asmat": lambda a, b: rt.Dataset({"a": a, "b": b}).as_matrix(), "describe": lambda a, b: a.describe(), "map": lambda a, b: a.map({1: 5, 3: 6}), "isnotfin": lambda a, b: a.isnotfinite(), "nan2num": lambda a, b: rt.nan_to_num(a), "inplace": lambda a, b: iadd(a.copy(), b), "inplaceb": lambda a, b: iadd(b.copy(), a),
        "int_float": lambda a, b: a + b.astype("float64"), "asof": lambda a, b: rt.merge_asof(rt.Dataset({"t": rt.sort(a[rt.isnotnan(a)]), }), rt.Dataset({"t": rt.sort(b[rt.isnotnan(b)]), "v": rt.sort(b[rt.isnotnan(b)])}), on="t") if a.dtype.name in ("int32", "int64", "float64") else 0, "alignmk": lambda a, b: rt.alignmk(FA([i % 2 for i in range(len(a))]), FA([i % 2 for i in range(len(b))]), rt.sort(a), rt.sort(b)) if a.dtype.name in ("int64", "float64", "int32") else 0,
    }.items():
        add(nm, NUM, f, None)
    for nm, f in {
        "upper": lambda a, b: a.str.upper(), "strlen": lambda a, b: a.str.strlen(), "contains": lambda a, b: a.str.contains("b"), "starts": lambda a, b: a.str.startswith("b"), "substr": lambda a, b: a.str.substr(1), "regex": lambda a, b: a.str.regex_match("b+"), "char": lambda a, b: a.str.char(0), "index": lambda a, b: a.str.index("b"), "eqlit": lambda a, b: a == "b", "append": lambda a, b: a + b, "ltstr": lambda a, b: a < b, "toU": lambda a, b: a.astype("U3") if a.dtype.char == "S" else a.copy(), "split": lambda a, b: a.str.extract("(b)", names=["x"]) if hasattr(a.str, "extract") else 0,
    }.items():
        add(nm, ["S", "U"], f, "e" if nm in ("upper", "strlen", "contains", "starts", "substr", "regex", "eqlit", "index", "ltstr", "char") else None)
    for nm, f in {
        "year": lambda a, b: a.year(), "hour": lambda a, b: a.hour, "dow": lambda a, b: a.day_of_week, "strftime": lambda a, b: a.strftime("%Y%m%d"), "date": lambda a, b: rt.Date(a), "msm": lambda a, b: a.time_since_midnight(), "tsub": lambda a, b: a - b, "tlt": lambda a, b: a < b, "tmin": lambda a, b: a.min(),
    }.items():
        add(nm, ["dtn", "dtnNY", "dtnDB"], f, "e" if nm != "tmin" else "r")
    for nm, f in {"dyear": lambda a, b: a.year() if callable(a.year) else a.year, "dmonth": lambda a, b: a.month, "dsub": lambda a, b: a - b, "dlt": lambda a, b: a < b, "dadd": lambda a, b: a + 1, "dstr": lambda a, b: a.strftime("%Y%m%d")}.items():
        add(nm, ["date"], f, "e")
    for nm, f in {"bsum": lambda a, b: a.sum(), "btf": lambda a, b: rt.bool_to_fancy(a), "band": lambda a, b: a & b, "bor": lambda a, b: a | b, "binv": lambda a, b: ~a, "bmask_or": lambda a, b: rt.mask_or(a, b), "bmask_and": lambda a, b: rt.mask_and(a, b), "bany": lambda a, b: a.any(), "ball": lambda a, b: a.all(), "bidx": lambda a, b: rt.arange(len(a))[a], "bset": lambda a, b: setb(rt.arange(len(a)), a), "bwhere": lambda a, b: rt.where(a, 1, 2), "bcombine": lambda a, b: rt.combine_filter(rt.arange(len(a)) + 1, a), "bfilt": lambda a, b: rt.Cat(rt.arange(len(a)) % 2, filter=a).count(), "bsumf": lambda a, b: rt.Cat(rt.arange(len(a)) % 2).sum(rt.arange(len(a)), filter=a), "baccf": lambda a, b: rt.Accum2(rt.arange(len(a)) % 2, rt.arange(len(a)) % 3).sum(rt.arange(len(a)), filter=a), "baccf2": lambda a, b: rt.Accum2(rt.arange(len(a)) % 2, rt.arange(len(a)) % 3, filter=a).count(), "blex": lambda a, b: rt.Cat(rt.arange(len(a)) % 2, lex=True, filter=a) if a.any() else 0, "bnth": lambda a, b: rt.Cat(rt.arange(len(a)) % 2).nth(rt.arange(len(a)), 0, filter=a), "bcum": lambda a, b: rt.Cat(rt.arange(len(a)) % 2).cumcount(filter=a), "bnan": lambda a, b: rt.nansum(rt.arange(len(a)), filter=a) if a.any() else 0, "bimax": lambda a, b: rt.Cat(rt.arange(len(a)) % 2).imax(rt.arange(len(a)), filter=a) if hasattr(rt.Categorical, "imax") else 0, "buniq": lambda a, b: rt.unique(rt.arange(len(a)) % 2, filter=a), "bds": lambda a, b: rt.Dataset({"x": rt.arange(len(a))})[a, :], "bgb": lambda a, b: rt.Dataset({"x": rt.arange(len(a)) % 2, "y": rt.arange(len(a))}).gb("x", filter=a).sum()}.items():
        add(nm, ["bool"], f, "e" if nm in ("band", "bor", "binv", "bmask_or", "bmask_and", "bwhere") else None)
    return O


def put(a, m, b):
    rt.putmask(a, m, b)
    return a


def sett(a, b):
    a[rt.arange(len(a))] = b
    return a


def setmask(a, b):
    m = FA([i % 2 == 0 for i in range(len(a))])
    a[m] = b[m]
    return a


def setb(x, m):
    x[m] = -5
    return x


def iadd(a, b):
    a += b
    return a


OPS = ops()

CFG = {
    "threads": (lambda: FA._TOFF(), lambda: FA._TON()), "recycle": (lambda: FA._ROFF(True), lambda: FA._RON(True)), "ledger": (lambda: FA._LON(), lambda: (FA._LOFF(), FA._LCLEAR())), "fast": (lambda: FA._OFF(), lambda: FA._ON()), "gc": (lambda: FA._GCNOW(0), lambda: None),
}


@contextlib.contextmanager
def config(names):
    with contextlib.redirect_stdout(io.StringIO()):
        for n in names:
            CFG[n][0]()
        try:
            yield
        finally:
            for n in reversed(names):
                CFG[n][1]()


def clean(k, n, off=0):
    """no missing values, small positive numbers"""
    if k in NUM:
        return FA(np.array([[3, 1, 2, 7, 1][(i + off) % 5] for i in range(n)], dtype=k))
    return item(k, n, off)


def explore(mc):
    T = mc.thorough

    def call(f, a, b, sig=sig):
        try:
            return sig(f(a, b))
        except (ValueError, TypeError, AttributeError, IndexError, NotImplementedError, KeyError, ZeroDivisionError, UserWarning, RuntimeError) as e:
            return ("raised",)

    # ------------------------------------------------------------ memory layouts
    def lspace():
        for o, (kinds, f, rel) in OPS.items():
            for k in kinds:
                if o == "sqrt" and k == "uint64":
                    continue
                for n in (0, 1, 2, 3, 4, 5) if T else (0, 2, 3, 4):
                    yield o, k, n

    def lrun(case):
        o, k, n = case
        f = OPS[o][1]
        for off in range(4 if T else 2):
            a, b = item(k, n, off), item(k, n, off + 1)
            w = call(f, a, b)
            if w == ("raised",):
                mc.observe((o, "raised"))
                return
            for how in LAYOUTS[1:]:
                if n == 1 and how not in ("off", "ro", "cols2f"):
                    continue
                if how == "rec" and k in TIMES:
                    continue
                for side in (0, 1, 2):
                    x = lay(a, how) if side != 1 else a
                    y = lay(b, how) if side != 0 else b
                    mc.op()
                    g = call(f, x, y)
                    if g == ("raised",) and how not in ("off", "ro", "cols2f"):
                        mc.observe((o, how, "refused"))
                        continue
                    mc.eq(g, w, "same data in another memory layout gives another result", key=f"lay-{o}-{how}", k=k, how=how, side=side)
                    if how in ("strided", "ro") and side == 2:
                        mc.eq((vals(x), vals(y)), (vals(a), vals(b)), "the view is unchanged", key="lay-in")

    mc.run("layouts", lspace(), lrun)

    # ------------------------------------------------------------ engine configurations
    CFGS = [c for r in range(0, 5 if T else 3) for c in itertools.combinations(CFG, r) if "gc" not in c or c == ("gc",) or (T and "threads" not in c)]  # threads off + forced collection crashes inside riptide_cpp

    def cspace():
        for o, (kinds, f, rel) in OPS.items():
            for k in kinds:
                for n in (5, 40000):
                    if n == 40000 and o in ("items", "tolist", "str", "repr"):
                        continue
                    yield o, k, n

    def crun(case):
        o, k, n = case
        f = OPS[o][1]
        big = n > 100
        a, b = clean(k, n), clean(k, n, 1)
        if big and o in ("describe", "merge2", "gbshift", "asof", "cat_lex"):
            return
        sg = sigbig if big else sig
        w = call(f, a, b, sg)
        for c in CFGS if not big else [("threads",), ("recycle",)]:
            if "gc" in c and k != OPS[o][0][0] and not T:
                continue
            with config(c):
                g = call(f, a, b, sg)
            mc.op()
            if "fast" in c:
                if w == ("raised",) or g == ("raised",) or o in ("floordiv", "exp", "sqrt", "sign", "pow"):
                    continue
                g, w2 = loose(g), loose(w)
            else:
                w2 = w
            mc.eq(g, w2, "an engine switch changes a result", key=f"cfg-{o}-{c}", k=k, n=n)
            if not big:
                mc.eq(call(f, a, b), w, "restoring the setting restores the result", key=f"cfgr-{o}", c=c)

    def loose(s):
        """values only: kinds may be NumPy's when interception is off"""
        if isinstance(s, tuple) and len(s) == 2 and isinstance(s[0], str) and isinstance(s[1], list):
            return [float(x) if isinstance(x, (int, float, bool)) else x for x in s[1]]
        if isinstance(s, (tuple, list)):
            return [loose(x) for x in s]
        return float(s) if isinstance(s, (int, float, bool)) else s

    mc.run("configs", cspace(), crun)

    # ------------------------------------------------------------ size paths
    SIZES = (1, 7, 4099, 16397, 70001) if not T else (1, 2, 7, 63, 1025, 4099, 8193, 16397, 32771, 70001, 300007)

    def sspace():
        for o, (kinds, f, rel) in OPS.items():
            if rel and o not in ("tolist",):
                for k in kinds:
                    for t in SIZES:
                        yield o, k, t

    def tile(a, t):
        b = np.tile(np.asarray(a), t)
        r = FA(b, unicode=True) if b.dtype.char == "U" else FA(b)
        return a.newclassfrominstance(r, a) if type(a) is not FA else r

    def srun(case):
        o, k, t = case
        kinds, f, rel = OPS[o]
        for off in range(2):
            for mk in (item, clean):
                n = 4 if mk is item else 5
                a, b = mk(k, n, off), mk(k, n, off + 1)
                if rel == "r" and k in FLTS and mk is item and o in ("median", "ptile", "argmax", "nanmean"):
                    continue
                if o in ("median", "ptile") and mk is item:
                    continue
                try:
                    r = f(a, b)
                    R = f(tile(a, t), tile(b, t))
                except (ValueError, TypeError, AttributeError, NotImplementedError, RuntimeError):
                    mc.observe((o, "raised"))
                    continue
                mc.op()
                if rel == "e":
                    x, y = raw(r) if isinstance(r, FA) else np.asarray(r), raw(R) if isinstance(R, FA) else np.asarray(R)
                    ok = type(r) is type(R) and len(y) == len(x) * t and np.array_equal(np.tile(x, t).view("V%d" % x.dtype.itemsize) if False else np.tile(x, t), y, equal_nan=x.dtype.kind == "f")
                    if not ok:
                        i = int(np.nonzero(~((np.tile(x, t) == y) | ((y != y) & (np.tile(x, t) != np.tile(x, t)))))[0][0]) if len(y) == len(x) * t else -1
                        mc.fail(f"element {i} of a long array differs from the same element in a short one", key=f"size-{o}", k=k, t=t)
                elif rel == "r":
                    g, w = sig(R), sig(r)
                    if isinstance(g, float) and isinstance(w, float):
                        g, w = round(g, 5), round(w, 5)
                    mc.eq(g, w, "a reduction depends on the array length path", key=f"sizer-{o}", k=k, t=t)
                else:
                    g, w = sig(R), sig(r)
                    if isinstance(w, (int, float)) and w not in (float("inf"), float("-inf")) and not (k == "float32"):
                        if mk is item and o in ("sum", "npsum"):
                            continue
                        mc.eq(float(g), float(w) * t, "a sum over a long array is not the multiple of the short one", key=f"sizes-{o}", k=k, t=t)

    mc.run("sizes", sspace(), srun)

    # grouping, sorting, matching of long arrays against the short pattern
    def gspace():
        for k in PLAIN + ["dtn", "date"]:
            for t in SIZES:
                for o in range(13):
                    yield k, t, o

    def grun(case):
        k, t, o = case
        for off in range(2):
            a = item(k, 4, off)
            A = tile(a, t)
            mc.op()
            if o == 0:
                c, C = rt.Cat(a), rt.Cat(A)
                mc.eq((codes(C)[:8], len(C), plain(C.category_array)), ((codes(c) * 2)[: min(8, 4 * t)], 4 * t, plain(c.category_array)), "Categorical of a long array", key="g-cat", k=k)
                mc.eq(bool((np.asarray(C) == np.tile(np.asarray(c), t)).all()), True, "codes of a long array", key="g-codes", k=k)
            elif o == 1:
                c, C = rt.Cat(a, ordered=False), rt.Cat(A, ordered=False)
                mc.eq((bool((np.asarray(C) == np.tile(np.asarray(c), t)).all()), plain(C.category_array)), (True, plain(c.category_array)), "unordered Categorical of a long array", key="g-catu", k=k)
            elif o == 2:
                g, w = rt.Cat(A).count(), rt.Cat(a).count()
                mc.eq([int(v) for v in g.Count], [int(v) * t for v in w.Count], "group counts of a long array", key="g-count", k=k)
            elif o == 3 and k in PLAIN:
                s, S = rt.sort(a), rt.sort(A)
                mc.eq(bool(np.array_equal(np.repeat(raw(s), t), raw(S), equal_nan=k in FLTS)), True, "sort of a long array", key="g-sort", k=k)
            elif o == 4 and k != "bool":
                h = item(k, 3, off + 1)
                m, i = rt.ismember(a, h)
                M, I = rt.ismember(A, h)
                mc.eq((bool((np.asarray(M) == np.tile(np.asarray(m), t)).all()), vals(I[:4])), (True, vals(i)), "ismember of a long array", key="g-ism", k=k)
                m2, i2 = rt.ismember(h, A)
                m1, i1 = rt.ismember(h, a)
                mc.eq((vals(m2), vals(i2)), (vals(m1), vals(i1)), "ismember against a long haystack", key="g-ism2", k=k)
            elif o == 5 and k in PLAIN:
                u, ui, uv = rt.unique(a, return_index=True, return_inverse=True)
                U, UI, UV = rt.unique(A, return_index=True, return_inverse=True)
                mc.eq((vals(U), vals(UI), bool((np.asarray(UV) == np.tile(np.asarray(uv), t)).all())), (vals(u), vals(ui), True), "unique of a long array", key="g-uniq", k=k)
            elif o == 6 and k in PLAIN:
                I = rt.lexsort([A])
                s = rt.argsort(a) if False else rt.lexsort([a])
                want = np.concatenate([j + 4 * np.arange(t) for j in order(a, s)]) if t > 1 else np.asarray(s)
                mc.eq(sorted(np.asarray(I)[:50].tolist()) == sorted(want[:50].tolist()) or np.array_equal(raw(A)[np.asarray(I)], raw(A)[want], equal_nan=k in FLTS), True, "lexsort of a long array", key="g-lex", k=k)
                # stability
                x = raw(A)[np.asarray(I)]
                same = (x[1:] == x[:-1]) | ((x[1:] != x[1:]) & (x[:-1] != x[:-1]))
                d = np.diff(np.asarray(I).astype("int64"))
                mc.eq(bool((d[same] > 0).all()), True, "lexsort of a long array is stable", key="g-stable", k=k)
            elif o == 7 and k in NUM and k not in ("int8", "uint8"):
                key = FA(np.tile(np.array([0, 1, 0, 1]), t))
                g = rt.Cat(key).nansum(A)
                w = rt.Cat(FA([0, 1, 0, 1])).nansum(a)
                if k not in FLTS:
                    mc.eq([v for v in vals(col(g))], [None if v is None else v * t for v in vals(col(w))], "group sums of a long array", key="g-sum", k=k)
                g, w = rt.Cat(key).nanmax(A), rt.Cat(FA([0, 1, 0, 1])).nanmax(a)
                mc.eq(vals(col(g)), vals(col(w)), "group max of a long array", key="g-max", k=k)
            elif o == 8:
                ds, DS = rt.Dataset({"k": a, "v": rt.arange(4)}), rt.Dataset({"k": A, "v": rt.arange(4 * t)})
                g, w = DS.gb("k").first(), ds.gb("k").first()
                mc.eq((vals(g.k), vals(g.v)), (vals(w.k), vals(w.v)), "group first of a long table", key="g-first", k=k)
                g, w = DS.gb("k").last(), ds.gb("k").last()
                mc.eq((vals(g.k), vals(g.v)), (vals(w.k), [v + 4 * (t - 1) for v in vals(w.v)]), "group last of a long table", key="g-last", k=k)
            elif o == 9 and k != "bool":
                R = rt.Dataset({"k": item(k, 4, 0), "w": rt.arange(4)}).drop_duplicates("k")
                L = rt.merge_lookup(rt.Dataset({"k": A}), R, on="k")
                l = rt.merge_lookup(rt.Dataset({"k": a}), R, on="k")
                mc.eq(bool((np.asarray(L.w) == np.tile(np.asarray(l.w), t)).all()), True, "lookup from a long table", key="g-lookup", k=k)
            elif o == 10:
                m = FA(np.tile(np.array([True, False, True, True]), t))
                mc.eq(bool(np.array_equal(raw(A[m]), np.tile(raw(a)[[0, 2, 3]], t), equal_nan=k in FLTS)), True, "mask of a long array", key="g-mask", k=k)
                mc.eq(bool(np.array_equal(np.asarray(rt.bool_to_fancy(m)), np.nonzero(np.asarray(m))[0])), True, "bool_to_fancy of a long mask", key="g-btf")
                i = FA(np.arange(4 * t)[::-1].copy())
                mc.eq(bool(np.array_equal(raw(A[i]), raw(A)[::-1], equal_nan=k in FLTS)), True, "fancy index of a long array", key="g-fancy", k=k)
                ds = rt.Dataset({"a": A, "i": rt.arange(4 * t)})
                d = ds[m, :]
                mc.eq(bool(np.array_equal(raw(d.a), raw(A)[np.asarray(m)], equal_nan=k in FLTS) and np.array_equal(np.asarray(d.i), np.nonzero(np.asarray(m))[0])), True, "row mask of a long table", key="g-rows", k=k)
            elif o == 11:
                H = rt.hstack([A, a])
                mc.eq((vals(H[-4:]), len(H), bool(np.array_equal(raw(H)[: 4 * t], raw(A), equal_nan=k in FLTS))), (vals(a), 4 * t + 4, True), "stack of a long array", key="g-hstack", k=k)
                B = A.copy()
                B[FA(np.tile(np.array([True, False, False, False]), t))] = a[1]
                mc.eq(vals(B[:4]) + vals(B[-4:]), (vals(a)[1:2] + vals(a)[1:]) * 2, "masked assignment on a long array", key="g-set", k=k)
            elif o == 12:
                c, C = rt.Cat([a, FA([0, 0, 1, 1])]), rt.Cat([A, FA(np.tile(np.array([0, 0, 1, 1]), t))])
                mc.eq((bool((np.asarray(C) == np.tile(np.asarray(c), t)).all()), len(C.category_dict), C.unique_count), (True, 2, c.unique_count), "multi-key Categorical of a long array", key="g-mk", k=k)
                X = rt.arange(4 * t)
                mc.eq(int(col(C.sum(X)).sum()), int((np.arange(4 * t)).sum()), "multi-key group sums cover every row", key="g-mks", k=k)

    def col(ds):
        return ds[[x for x in ds.keys() if not x.startswith("key_")][0]]

    def order(a, s):
        """positions grouped by equal value, in sorted order"""
        return list(np.asarray(s))

    mc.run("longgroups", gspace(), grun)
