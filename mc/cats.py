"""the same rows grouped through every way a Categorical or groupby can be made"""
import numpy as np
import riptable as rt

NMS = ["b", "a", "c"]

def made(how, ix):
    """a Categorical of the labels NMS[i], None for a row in no group; the labels its reduction lists"""
    lab = [None if i is None else NMS[i] for i in ix]
    used = sorted({x for x in lab if x is not None})
    if how == "strings":
        if None in ix:
            return None
        return rt.Categorical(rt.FastArray(lab)), used
    if how == "filter":
        c = rt.Categorical(rt.FastArray([x or "b" for x in lab]), filter=rt.FastArray([x is not None for x in lab]))
        return c, used
    if how == "codes1":
        return rt.Categorical(rt.FastArray([0 if i is None else i + 1 for i in ix]), NMS), NMS
    if how == "edited":
        c = rt.Categorical(rt.FastArray([1 if i is None else i + 1 for i in ix]), NMS)
        if None in ix:
            c[rt.FastArray([j for j, i in enumerate(ix) if i is None])] = 0
        return c, NMS
    if how == "numbers":
        c = rt.Categorical(rt.FastArray([x and {"a": 1.5, "b": 2.5, "c": 3.5}[x] or 2.5 for x in lab]), filter=rt.FastArray([x is not None for x in lab]))
        return c, [{"a": 1.5, "b": 2.5, "c": 3.5}[x] for x in used]
    if how == "two keys":
        c = rt.Categorical([rt.FastArray([x or "b" for x in lab]), rt.FastArray([x or "b" for x in lab])], filter=rt.FastArray([x is not None for x in lab]))
        return c, [x for j, x in enumerate(lab) if x is not None and x not in lab[:j]]
    if how == "slice":
        c = rt.Categorical(rt.FastArray([0] + [0 if i is None else i + 1 for i in ix] + [2]), NMS)
        return c[1:-1], NMS
    if None in ix:
        return None
    if how == "codes0":
        return rt.Categorical(rt.FastArray(list(ix)), NMS, base_index=0), NMS
    if how == "strings0":
        return rt.Categorical(rt.FastArray(lab), base_index=0), used
    if how == "ordered0":
        return rt.Categorical(rt.FastArray(lab), NMS, base_index=0), NMS
    if how == "mapped":
        return rt.Categorical(rt.FastArray([(i + 1) * 10 for i in ix]), {10: "b", 20: "a", 30: "c"}), None
    if how == "sorted gb":
        return rt.Categorical(rt.FastArray([i + 1 for i in ix]), NMS, sort_gb=True), sorted(NMS)
    if how.startswith("gb"):
        return GB(how, lab), None
    raise KeyError(how)

class GB:
    """a groupby of the same rows behind the Categorical's calling convention"""

    def __init__(self, how, lab):
        self.how, self.lab = how, lab

    def gb(self, d):
        lab = self.lab
        ds = d if isinstance(d, rt.Dataset) else rt.Dataset({"col": d})
        ds["k"] = rt.FastArray([x or "b" for x in lab])
        ds["m"] = rt.FastArray([ord(x or "b") * (-1 if self.how == "gb2r" else 1) for x in lab])
        f = rt.FastArray([x is not None for x in lab])
        kw = {} if all(x is not None for x in lab) else {"filter": f}
        keys = "k" if self.how in ("gb", "gb unsorted", "gb lex") else ["m", "k"]
        if self.how == "gb unsorted":
            return ds.gbu(keys, **kw)
        if self.how == "gb lex":
            return ds.groupby(keys, lex=True, **kw)
        if self.how == "gb2u":
            return ds.gbu(keys, **kw)
        return ds.groupby(keys, **kw)

    def __getattr__(self, fn):
        def call(*a, **kw):
            if fn == "count":
                return self.gb(rt.Dataset({"x": rt.FastArray(range(len(self.lab)))})).count(**kw)
            if fn == "apply_reduce":
                return self.gb(a[1])[["x", "y"]].apply_reduce(a[0], **kw)
            if fn == "nth":
                return self.gb(a[0])[["x", "y"]].nth(n=a[1], **kw)
            g = self.gb(a[0])
            return getattr(g[["x", "y"]] if isinstance(a[0], rt.Dataset) else g["col"], fn)(**kw)

        return call

HOWS = ["gb", "gb unsorted", "gb lex", "gb2", "gb2r", "gb2u", "strings", "filter", "codes1", "edited", "numbers", "two keys", "slice", "codes0", "strings0", "ordered0", "mapped", "sorted gb"]
