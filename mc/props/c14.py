"""C14 as-of joins: merge_asof and merge_asof2 against the definition."""
import itertools, datetime
import numpy as np
from mc.model import *

PROPERTY = "C14"
T0 = 1_600_000_000_000_000_000


def asof(lon, ron, lby, rby, direction, exact=True, tol=None):
    """expected right row per left row. rows may be unsorted; duplicates: backward takes the last, forward the first
    (in on-order, ties in row order); nearest prefers backward on equal distance."""
    order = sorted((j for j in range(len(ron)) if ron[j] is not None), key=lambda j: ron[j])
    out = []
    for i, t in enumerate(lon):
        b = f = None
        if t is None:  # a missing time matches nothing
            out.append(None)
            continue
        for j in order:
            if lby is not None and lby[i] != rby[j]:
                continue
            if ron[j] < t or (exact and ron[j] == t):
                b = j
            if f is None and (ron[j] > t or (exact and ron[j] == t)):
                f = j
        if tol is not None:
            if b is not None and t - ron[b] > tol:
                b = None
            if f is not None and ron[f] - t > tol:
                f = None
        if direction == "backward":
            out.append(b)
        elif direction == "forward":
            out.append(f)
        elif b is None or (f is not None and ron[f] - t < t - ron[b]):
            out.append(f)
        else:
            out.append(b)
    return out


def oncol(rt, xs, ot):
    if ot == "dtn":
        return rt.DateTimeNano(np.array([T0 + x for x in xs], dtype=np.int64), from_tz="NYC", to_tz="NYC")
    if ot == "date":
        return rt.Date(np.array([18000 + x for x in xs], dtype=np.int32))
    if ot == "ts":
        return rt.TimeSpan(np.array([float(x) for x in xs]))
    if ot.startswith("float"):
        return rt.FastArray(np.array([x + 0.25 for x in xs], dtype=ot))
    return rt.FastArray(np.array(xs, dtype=ot))


def bycol(rt, ys, bt):
    if bt == "S":
        return rt.FastArray(np.array(["p", "qq", "rrr"])[list(ys)] if len(ys) else np.array([], dtype="U3")).astype("S")
    if bt == "U":
        return rt.FastArray(np.array(["p", "qq", "rrr"])[list(ys)] if len(ys) else np.array([], dtype="U3"))
    if bt == "cat":
        return rt.Categorical(np.array([y + 1 for y in ys], dtype=np.int8), ["p", "qq", "rrr"])
    return rt.FastArray(np.array(ys, dtype=bt))


def nondecr(alpha, n, m=0):
    for k in range(m, n + 1):
        yield from itertools.combinations_with_replacement(alpha, k)


def mkds(rt, lon, ron, ot, lby=None, rby=None, bt="int32", two=False):
    otl, otr = ot if isinstance(ot, tuple) else (ot, ot)
    dl = {"t": oncol(rt, lon, otl)}
    dr = {"t": oncol(rt, ron, otr)}
    if lby is not None:
        dl["b"] = bycol(rt, lby, bt)
        dr["b"] = bycol(rt, rby, bt)
    dl["li"] = np.arange(len(lon), dtype=np.int32)
    dl["v"] = np.arange(len(lon)) * 10.0
    dr["ri"] = np.arange(len(ron), dtype=np.int32)
    dr["v"] = np.arange(len(ron)) + 100.0
    dr["s"] = np.array(["r%d" % i for i in range(len(ron))], dtype="S3")
    return rt.Dataset(dl), rt.Dataset(dr)


def verify(mc, out, dl, dr, want, what, matched=None):
    if not mc.eq(vals(out["ri"]), want, what):
        return False
    n = len(want)
    mc.eq(vals(out["li"]), list(range(n)), what + " left rows")
    mc.eq(vals(out["v_l"]), [10.0 * i for i in range(n)], what + " left values")
    mc.eq(vals(out["v_r"]), [None if j is None else 100.0 + j for j in want], what + " right values")
    mc.eq(vals(out["s"]), ["" if j is None else "r%d" % j for j in want], what + " right strings")
    mc.eq(vals(out["t"]), vals(dl["t"]), what + " on column")
    if "b" in dl:
        mc.eq(vals(out["b"]), vals(dl["b"]), what + " by column")
    if matched:
        rv = vals(dr["t"])
        mc.eq(vals(out[matched]), [None if j is None else rv[j] for j in want], what + " matched_on")
    return True


DIRS = ("backward", "forward", "nearest")


def explore(mc):
    import riptable as rt

    from riptable.rt_merge_asof import merge_asof2
    big = mc.thorough
    X = [1, 2, 4, 5]

    # ---- merge_asof (kernel in riptide_cpp; everything around it is Python)
    def caseA(c):
        ot, lon, ron = c
        dl, dr = mkds(rt, lon, ron, ot)
        for d in DIRS:
            for ex in (True, False):
                out = rt.merge_asof(dl, dr, on="t", direction=d, allow_exact_matches=ex, suffixes=("_l", "_r"), matched_on=True)
                verify(mc, out, dl, dr, asof(lon, ron, None, None, d, ex), f"merge_asof {ot} {d} exact={ex}", "matched_on")
        srt = list(lon) == sorted(lon) and list(ron) == sorted(ron)
        f = lambda: rt.merge_asof(dl, dr, on="t", suffixes=("_l", "_r"), action_on_unsorted="raise", matched_on="m")
        if srt:
            verify(mc, f(), dl, dr, asof(lon, ron, None, None, "backward"), "merge_asof sorted", "m")
        else:
            mc.raises(f, "merge_asof unsorted must raise", ValueError)

    onts = ["int32", "int64", "float64", "dtn", "date", "float32", "ts", "uint32"]
    mc.run("merge_asof no by", ((ot, l, r) for ot in onts for l in (seqs(X, 3, 1) if ot == "int64" else nondecr(X, 3, 1)) for r in (seqs(X, 3, 1) if ot == "int64" else nondecr(X, 3, 1))), caseA)
    mc.run("merge_asof empty sides", ((ot, l, r) for ot in ("int64", "float64") for l, r in (((), (1,)), ((), ()), ((1, 2), ()))), caseA)

    def caseNA(c):
        ot, lon, ron = c
        s = np.nan if ot == "float64" else SENT[np.dtype(ot).num]
        dl, dr = mkds(rt, [0 if x is None else x for x in lon], [0 if x is None else x for x in ron], ot)
        for d_, o in ((dl, lon), (dr, ron)):
            for i, x in enumerate(o):
                if x is None:
                    d_["t"][i] = s
        for d in DIRS:
            out = rt.merge_asof(dl, dr, on="t", direction=d, suffixes=("_l", "_r"), matched_on=True)
            verify(mc, out, dl, dr, asof(lon, ron, None, None, d), f"merge_asof missing {ot} {d}", "matched_on")

    mc.run("merge_asof missing on", ((ot, l, r) for ot in ("float64", "int64", "int32") for l in seqs([1, 3, None], 3, 1) for r in seqs([1, 2, None], 3, 1) if None in l + r), caseNA)

    def caseB(c):
        bt, lon, lby, ron, rby = c
        dl, dr = mkds(rt, lon, ron, "int64", lby, rby, bt)
        for d in DIRS:
            for ex in (True, False):
                out = rt.merge_asof(dl, dr, on="t", by="b", direction=d, allow_exact_matches=ex, suffixes=("_l", "_r"), matched_on=True)
                verify(mc, out, dl, dr, asof(lon, ron, lby, rby, d, ex), f"merge_asof by {bt} {d} exact={ex}", "matched_on")

    R3 = list(seqs([1, 2, 4], 3, 3)) if big else list(nondecr([1, 2, 4], 3, 3)) + [(4, 1, 2), (2, 4, 1), (4, 2, 1), (2, 1, 2)]
    L2 = list(seqs([1, 2, 4], 2, 1))
    mc.run("merge_asof by", ((bt, l, lb, r, rb) for bt in ("int32", "S", "U", "cat", "float64") for l in L2 for lb in itertools.product((0, 1, 2) if len(l) == 1 else (0, 1), repeat=len(l)) for r in R3 for rb in itertools.product((0, 1), repeat=3)
                              if bt == "int32" or (len(l) == 2 and r in ((1, 2, 4), (4, 1, 2), (2, 2, 4)))), caseB)

    def caseB2(c):
        lon, lby, ron, rby = c
        dl, dr = mkds(rt, lon, ron, "int64")
        dl["b1"] = np.array([b[0] for b in lby]); dl["x2"] = np.array(["uv"[b[1]] for b in lby])
        dr["b1"] = np.array([b[0] for b in rby]); dr["y2"] = np.array(["uv"[b[1]] for b in rby])
        for d in DIRS:
            for kw in (dict(by=["b1", ("x2", "y2")]), dict(left_by=["b1", "x2"], right_by=["b1", "y2"])):
                out = rt.merge_asof(dl, dr, on="t", direction=d, suffixes=("_l", "_r"), **kw)
                want = asof(lon, ron, lby, rby, d)
                verify(mc, out, dl, dr, want, f"merge_asof two by {d}")
                mc.eq(vals(out["x2"]), vals(dl["x2"]), "left by column")

    B2 = [(0, 0), (0, 1), (1, 0)]
    mc.run("merge_asof two by", ((l, lb, r, rb) for l in ((2, 4), (4, 2), (3, 3)) for lb in itertools.product(B2, repeat=2) for r in ((1, 2, 5), (2, 2, 4), (5, 1, 3)) for rb in itertools.product(B2, repeat=3)), caseB2)

    # names
    def caseN(c):
        l, r = c
        dl, dr = mkds(rt, l, r, "int64")
        dl.col_rename("t", "lt"); dr.col_rename("t", "rt_")
        want = asof(l, r, None, None, "backward")
        for kw in (dict(on=("lt", "rt_")), dict(left_on="lt", right_on="rt_")):
            for fn in (rt.merge_asof,):
                out = fn(dl, dr, suffixes=("_l", "_r"), **kw)
                mc.eq(list(out.keys()), ["lt", "li", "v_l", "rt_", "ri", "v_r", "s"], "columns")
                mc.eq(vals(out["ri"]), want, "rows")
                rv = vals(dr["rt_"])
                mc.eq(vals(out["rt_"]), [None if j is None else rv[j] for j in want], "right on")
                out = fn(dl, dr, columns_left=["li"], columns_right=["ri", "v"], **kw)
                mc.eq(list(out.keys()), ["li", "ri", "v"], "selected columns")
                mc.eq(vals(out["v"]), [None if j is None else 100.0 + j for j in want], "selected values")
                out = fn(dl, dr, suffixes=("_l", "_r"), copy=False, **kw)
                mc.eq(vals(out["ri"]), want, "copy=False")
                mc.raises(lambda: fn(dl, dr, **kw), "overlap without suffixes", ValueError)
                mc.raises(lambda: fn(dl, dr, suffixes=("_l", "_r"), matched_on="li", **kw), "matched_on collision", ValueError)
        out = dl.merge_asof(dr, on=("lt", "rt_"), suffixes=("_l", "_r"), direction="forward")
        mc.eq(vals(out["ri"]), asof(l, r, None, None, "forward"), "Dataset.merge_asof")

    mc.run("merge_asof names", itertools.product(nondecr([1, 2, 4], 2, 1), nondecr([1, 2, 4], 3, 1)), caseN)

    # ---- merge_asof2: compiled kernels; one case = one kernel signature, explored over all data
    def case2(c):
        ot, bt, tolk, ex, d = c
        Y = X if (big or not bt) else [1, 2, 4]
        L = list(nondecr(Y, 3 if not bt else 2, 1))
        Rr = list(nondecr(Y, 3, 1 if not bt else 2))
        tols = [None] if tolk is None else [0, 1, 2]
        for lon in L:
            for ron in Rr:
                for lby in (itertools.product((0, 1, 2) if len(lon) < 2 else (0, 1), repeat=len(lon)) if bt else [None]):
                    for rby in (itertools.product((0, 1), repeat=len(ron)) if bt else [None]):
                        dl, dr = mkds(rt, lon, ron, ot, lby, rby, bt or "int32")
                        for tol in tols:
                            if tol is None:
                                tv = None
                            elif ot == "dtn":
                                tv = rt.TimeSpan([tol])[0] if tolk == "ts" else datetime.timedelta(microseconds=0) if tol == 0 else datetime.timedelta(microseconds=1)
                            else:
                                tv = float(tol) if tolk == "float" else tol
                            mt = tol
                            if ot == "dtn" and tolk == "td" and tol:
                                mt = 1000
                            out = merge_asof2(dl, dr, on="t", by="b" if bt else None, direction=d, allow_exact_matches=ex, tolerance=tv, suffixes=("_l", "_r"), matched_on=True)
                            if not verify(mc, out, dl, dr, asof(lon, ron, lby, rby, d, ex, mt), f"merge_asof2 {c} l={lon} r={ron} lby={lby} rby={rby} tol={tol}", "matched_on"):
                                return
        mc.raises(lambda: merge_asof2(*mkds(rt, (1,), (1,), ot), on="t", tolerance=-1, direction=d, suffixes=("_l", "_r")), "negative tolerance", ValueError)

    sigs = [(ot, bt, tk, ex, d) for ot, tks in (("int64", (None, "int")), ("float64", (None, "float"))) for bt in (None, "int32") for tk in tks for ex in (True, False) for d in ("nearest",)]
    sigs += [("int64", bt, None, True, d) for bt in (None, "int32", "S", "cat") for d in ("backward", "forward")]
    sigs += [("int64", bt, None, False, d) for bt in (None, "int32") for d in ("backward", "forward")]
    sigs += [("dtn", None, "ts", True, "nearest"), ("dtn", "S", "td", True, "backward")]
    if big:
        sigs = [(ot, bt, tk, ex, d) for ot, tks in (("int64", (None, "int")), ("float64", (None, "float")), ("dtn", (None, "ts", "td")), ("int32", (None, "int")), ("date", (None,))) for bt in (None, "int32", "S", "cat") for tk in tks for ex in (True, False) for d in DIRS]
    mc.run("merge_asof2 kernels", sigs, case2)

    def case3(c):
        n, m, d = c
        lon = [i // 2 for i in range(n)]
        ron = [i for i in range(m)]
        dl, dr = mkds(rt, lon, ron, "int64")
        for f in (rt.merge_asof, merge_asof2):
            out = f(dl, dr, on="t", direction=d, suffixes=("_l", "_r"))
            want = [min(t, m - 1) if d != "forward" else (t if t < m else None) for t in lon]
            mc.eq(vals(out["ri"]) == want, True, f"{f.__name__} sizes {c}")

    mc.run("as-of size thresholds", ((n, m, d) for d in DIRS for n in (127, 300, 70000) for m in (126, 127, 128, 129, 255, 256, 32767, 32768, 32769)), case3)
