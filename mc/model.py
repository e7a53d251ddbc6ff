"""Reference-model helpers: missing value = None; every riptable object is projected to plain Python values.

Projection uses only NumPy-level views plus documented attributes (category_array/category_dict/base_index ...), so
that the model does not depend on how riptable computes anything.
"""
import itertools, math, statistics
import numpy as np

NA = None
SENT = {}
for _t in ("int8", "int16", "int32", "int64"):
    SENT[np.dtype(_t).num] = np.iinfo(_t).min
    SENT[np.dtype(_t).newbyteorder("=").num] = np.iinfo(_t).min
for _t in ("uint8", "uint16", "uint32", "uint64"):
    SENT[np.dtype(_t).num] = np.iinfo(_t).max
for _c in "lq":
    SENT[np.dtype(_c).num] = np.iinfo(np.int64).min
for _c in "LQ":
    SENT[np.dtype(_c).num] = np.iinfo(np.uint64).max

INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
FLTS = ["float32", "float64"]


def sent(dt):
    return SENT.get(np.dtype(dt).num)


def plain(a):
    """list of python scalars of a plain (non-categorical, non-date) ndarray; missing -> None."""
    a = np.asarray(a)
    if a.ndim == 0:
        return scalar(a[()])
    if a.ndim > 1:
        return [plain(r) for r in a]
    k = a.dtype.kind
    l = a.tolist()
    if k == "f":
        return [None if x != x else x for x in l]
    if k in "iu":
        s = SENT[a.dtype.num]
        return [None if x == s else x for x in l]
    if k == "S":
        return [x.decode("latin1") for x in l]
    if k == "c":
        return [None if x != x else x for x in l]
    return l


def scalar(x):
    """project one scalar (None for missing)."""
    if x is None:
        return None
    if isinstance(x, np.generic):
        k = x.dtype.kind
        if k == "f":
            return None if x != x else float(x)
        if k in "iu":
            return None if int(x) == SENT[x.dtype.num] else int(x)
        if k == "b":
            return bool(x)
        if k == "S":
            return bytes(x).decode("latin1")
        if k == "U":
            return str(x)
        if k == "M" or k == "m":
            return str(x)
        return x.item()
    if isinstance(x, bytes):
        return x.decode("latin1")
    if isinstance(x, float):
        return None if x != x else x
    return x


def raw(a):
    """the bare numpy data of any FastArray subclass"""
    return np.asarray(a.view(np.ndarray) if isinstance(a, np.ndarray) else a)


def codes(c):
    return raw(c).tolist()


def labels(c):
    """labels of every row of a Categorical; None where filtered/invalid (base-1 code 0 or sentinel)."""
    import riptable as rt

    cod = codes(c)
    dt = raw(c).dtype
    s = SENT[dt.num]
    if c.issinglekey or c.ismultikey:
        d = c.category_dict
        cols = [vals(v) for v in d.values()]
        base = c.base_index
        out = []
        n = len(cols[0])
        for x in cod:
            i = x - (base or 0)
            if x == s or i < 0 or i >= n:
                out.append(None)
            elif len(cols) == 1:
                out.append(cols[0][i])
            else:
                out.append(tuple(col[i] for col in cols))
        return out
    # enum / mapping mode
    m = c.category_mapping
    return [mm(m, x) for x in cod]


def mm(m, x):
    for k, v in m.items():
        if v == x and not isinstance(v, str):
            return scalar(k)
        if k == x and isinstance(v, (str, bytes)):
            return scalar(v)
    return None if x == np.iinfo(np.int32).min else ("code", x)


def vals(a):
    """Project any array-like of riptable to a list of python values."""
    import riptable as rt

    if isinstance(a, rt.Categorical):
        return labels(a)
    if isinstance(a, (rt.Date,)):
        return [None if x in (0, -2147483648) else x for x in raw(a).tolist()]
    if isinstance(a, rt.DateTimeNano):
        return [None if x in (0, -9223372036854775808) else x for x in raw(a).tolist()]
    if isinstance(a, np.ndarray):
        return plain(raw(a))
    if isinstance(a, (list, tuple)):
        return [scalar(x) for x in a]
    return scalar(a)


def dsvals(ds, order=True):
    """Dataset -> {name: values} in column order"""
    return {k: vals(ds[k]) for k in ds.keys()}


def kind(a):
    """coarse type tag of an array, for 'keeps its type' checks"""
    import riptable as rt

    if isinstance(a, rt.Categorical):
        return "cat"
    for t in (rt.Date, rt.DateTimeNano, rt.TimeSpan, rt.DateSpan):
        if isinstance(a, t):
            return t.__name__
    k = raw(a).dtype.kind
    return {"i": "int", "u": "int", "f": "float", "b": "bool", "S": "S", "U": "U"}.get(k, k)


def arr(values, dt):
    """FastArray of dtype dt with None -> that dtype's missing value."""
    import riptable as rt

    d = np.dtype(dt)
    if d.kind in "iu":
        s = SENT[d.num]
        return rt.FastArray(np.array([s if v is None else v for v in values], dtype=d))
    if d.kind == "f":
        return rt.FastArray(np.array([np.nan if v is None else v for v in values], dtype=d))
    if d.kind in "SU":
        w = max([len(v) for v in values if v] + [1])
        return rt.FastArray(np.array(["" if v is None else v for v in values], dtype=f"{d.kind}{w}"))
    return rt.FastArray(np.array(values, dtype=d))


def seqs(alpha, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(alpha, repeat=n)


def canon(n, k):
    """all assignments of n rows to at most k labels (every assignment, not only restricted growth)"""
    return itertools.product(range(k), repeat=n)


def masks(n):
    return itertools.product((False, True), repeat=n)


# ---- reference reductions over a list of python values where None = missing
def r_sum(v):
    return None if any(x is None for x in v) else sum(v)


def r_nansum(v):
    return sum(x for x in v if x is not None)


def r_mean(v):
    return None if (not v or any(x is None for x in v)) else sum(v) / len(v)


def r_nanmean(v):
    v = [x for x in v if x is not None]
    return sum(v) / len(v) if v else None


def _var(v):
    if len(v) < 2:
        return None
    m = sum(v) / len(v)
    return sum((x - m) ** 2 for x in v) / (len(v) - 1)


def r_var(v):
    return None if any(x is None for x in v) else _var(v)


def r_nanvar(v):
    return _var([x for x in v if x is not None])


def r_std(v):
    x = r_var(v)
    return None if x is None else math.sqrt(x)


def r_nanstd(v):
    x = r_nanvar(v)
    return None if x is None else math.sqrt(x)


def r_min(v):
    return None if (not v or any(x is None for x in v)) else min(v)


def r_max(v):
    return None if (not v or any(x is None for x in v)) else max(v)


def r_nanmin(v):
    v = [x for x in v if x is not None]
    return min(v) if v else None


def r_nanmax(v):
    v = [x for x in v if x is not None]
    return max(v) if v else None


def r_median(v):
    return None if (not v or any(x is None for x in v)) else statistics.median(v)


def r_nanmedian(v):
    v = [x for x in v if x is not None]
    return statistics.median(v) if v else None


def r_first(v):
    return v[0] if v else None


def r_last(v):
    return v[-1] if v else None


def first_pos(seq):
    d = {}
    for i, x in enumerate(seq):
        d.setdefault(x, i)
    return d


def fp(x, dtype=True, order=True):
    """Complete observable fingerprint of any riptable object as nested plain tuples (types, names, order, dtypes,
    values, categories, time zone, labels, footers)."""
    import riptable as rt

    if isinstance(x, rt.Multiset):
        return ("Multiset", [(k, fp(v, dtype)) for k, v in x.items()])
    if isinstance(x, rt.Struct):
        t = "Dataset" if isinstance(x, rt.Dataset) else "Struct"
        if isinstance(x, rt.PDataset):
            t = "PDataset"
        items = [(k, fp(x[k], dtype)) for k in x.keys()]
        out = (t, items, list(x.label_get_names() or []))
        if t != "Struct":
            out += (x.get_nrows(),)
        return out
    if isinstance(x, rt.Categorical):
        if x.issinglekey or x.ismultikey:
            cats = [(k, fp(v, dtype)) for k, v in x.category_dict.items()]
            if x.issinglekey:
                cats = [cats[0][1]]
        else:
            cats = sorted((str(scalar(k)), str(scalar(v))) for k, v in x.category_mapping.items())
        return ("Categorical", str(raw(x).dtype) if dtype else None, codes(x), x.base_index, bool(x.ordered), cats)
    if isinstance(x, rt.DateTimeNano):
        return ("DateTimeNano", x.shape, raw(x).tolist(), x._timezone._to_tz, x._timezone._from_tz)
    if isinstance(x, np.ndarray):
        a = raw(x)
        nm = type(x).__name__ if isinstance(x, rt.FastArray) else "FastArray"
        if a.dtype.kind == "f":
            v = [("nan" if q != q else q) for q in a.ravel().tolist()]
        else:
            v = a.ravel().tolist()
        return (nm, str(a.dtype) if dtype else a.dtype.kind, a.shape, v)
    if isinstance(x, (rt.DateTimeNanoScalar, rt.DateScalar, rt.TimeSpanScalar, rt.DateSpanScalar)):
        return (type(x).__name__, x.item() if not isinstance(x, float) else float(x))
    if isinstance(x, np.generic):
        k = x.dtype.kind
        v = x.item()
        return ("scalar", {"i": "int", "u": "int", "f": "float", "b": "bool", "S": "str", "U": "str"}.get(k, k), (v.decode("latin1") if isinstance(v, bytes) else ("nan" if v != v else v)))
    if isinstance(x, (bool, int, float, str, bytes)):
        return ("scalar", {bool: "bool", int: "int", float: "float", str: "str", bytes: "str"}[type(x)], x.decode("latin1") if isinstance(x, bytes) else ("nan" if x != x else x))
    if isinstance(x, dict):
        return ("dict", [(k, fp(v, dtype)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [fp(v, dtype) for v in x])
    if x is None:
        return None
    return (type(x).__name__, str(x))
