"""C13 joins: merge2 / merge_indices / merge_lookup / merge against the relational definition."""
import itertools
import numpy as np
from mc.model import *

PROPERTY = "C13"
MODES = True

T0 = 1_600_000_000_000_000_000


def keycol(rt, letters, kt):
    """letters: ints 0..; None = missing.  kt: key type."""
    if kt == "bool":
        return rt.FastArray(np.array([bool(x) for x in letters], dtype=bool))
    if kt in ("S", "U"):
        return arr([None if x is None else "abcdefgh"[x] * (x + 1) for x in letters], kt + "3")
    if kt == "date":
        return rt.Date(np.array([0 if x is None else 18000 + 31 * x for x in letters], dtype=np.int32))
    if kt == "dtn":
        return rt.DateTimeNano(np.array([0 if x is None else T0 + x for x in letters], dtype=np.int64), from_tz="NYC", to_tz="NYC")
    if kt == "cat":
        return rt.Categorical(np.array(["abcdefgh"[x] * (x + 1) for x in letters], dtype="U3"))
    if kt == "catx":  # a Categorical with an unused category and base index 1; None -> code 0
        return rt.Categorical(np.array([0 if x is None else x + 1 for x in letters], dtype=np.int8), ["a", "bb", "ccc", "dddd"])
    if kt == "catn":  # numeric categories
        return rt.Categorical(np.array([0 if x is None else x + 1 for x in letters], dtype=np.int8), np.array([30, 10, 20, 40]))
    if kt == "float64" or kt == "float32":
        return arr([None if x is None else x + 0.5 for x in letters], kt)
    if kt == "fwhole":
        return arr([None if x is None else float(x + 1) for x in letters], "float64")
    if kt.startswith("u"):
        return arr([None if x is None else (x + 1) for x in letters], kt)
    return arr([None if x is None else (x - 1) for x in letters], kt)


def dedup(keys, keep):
    """row ids kept; missing keys form no group here (callers exclude them with keep)"""
    n = len(keys)
    if keep is None:
        return list(range(n))
    first, last = {}, {}
    for i, k in enumerate(keys):
        first.setdefault(k, i)
        last[k] = i
    d = first if keep == "first" else last
    return [d[k] for k in first]  # order of first appearance of the key


def relational(L, R, how, keep=(None, None)):
    l = dedup(L, keep[0])
    r = dedup(R, keep[1])

    def eq(a, b):
        if isinstance(a, tuple):
            return a == b and None not in a
        return a is not None and a == b

    if how in ("left", "inner", "outer"):
        out = []
        for i in l:
            m = sorted(j for j in r if eq(L[i], R[j]))
            out += [(i, j) for j in m] or ([] if how == "inner" else [(i, None)])
        if how == "outer":
            out += [(None, j) for j in sorted(r) if not any(eq(x, R[j]) for x in L)]
        return out
    out = []
    for j in r:
        m = sorted(i for i in l if eq(L[i], R[j]))
        out += [(i, j) for i in m] or [(None, j)]
    return out


def build(rt, L, R, kt, lname="k", rname="k"):
    ktl, ktr = kt if isinstance(kt, tuple) else (kt, kt)
    nl, nr = len(L), len(R)
    dl = rt.Dataset({lname: keycol(rt, L, ktl), "li": np.arange(nl, dtype=np.int32), "v": np.array([10.0 * i for i in range(nl)]), "ls": np.array(["l%d" % i for i in range(nl)], dtype="S3")})
    dr = rt.Dataset({rname: keycol(rt, R, ktr), "ri": np.arange(nr, dtype=np.int16), "v": np.array([100.0 + i for i in range(nr)]), "rs": np.array(["r%d" % i for i in range(nr)], dtype="U3")})
    return dl, dr


def check_result(mc, rt, out, dl, dr, pairs, what, lkey=None, rkey=None, ordered=True, how="left", sfx=("_l", "_r")):
    gl, gr = vals(out["li"]), vals(out["ri"])
    got = list(zip(gl, gr))
    want = pairs
    if not ordered:
        got2, want2 = sorted(got, key=repr), sorted(want, key=repr)
    else:
        got2, want2 = got, want
    if not mc.eq(got2, want2, what + " row pairs"):
        return False
    L = {c: vals(dl[c]) for c in dl.keys()}
    R = {c: vals(dr[c]) for c in dr.keys()}
    ok = True

    def col(src, c, idx):
        miss = "" if kind(src[c]) in ("S", "U") else None
        V = L if src is dl else R
        return [miss if i is None else V[c][i] for i in idx]

    for name, src, c, idx in (("v" + sfx[0], dl, "v", gl), ("v" + sfx[1], dr, "v", gr), ("ls", dl, "ls", gl), ("rs", dr, "rs", gr)):
        if name in out:
            ok &= mc.eq(vals(out[name]), col(src, c, idx), what + " column " + name)
    if lkey is not None and lkey == rkey and lkey in out:
        want = [L[lkey][i] if (i is not None and not (how == "right" and j is not None)) else R[rkey][j] for i, j in got]
        ok &= mc.eq(vals(out[lkey]), want, what + " key column")
    elif lkey is not None:
        if lkey in out:
            ok &= mc.eq(vals(out[lkey]), col(dl, lkey, gl), what + " left key")
        if rkey in out:
            ok &= mc.eq(vals(out[rkey]), col(dr, rkey, gr), what + " right key")
    return ok


HOWS = ("left", "right", "inner", "outer")
KEEPS = list(itertools.product((None, "first", "last"), repeat=2))


def explore(mc):
    import riptable as rt

    big = mc.thorough
    # ---- A: every pair of key columns, every how and keep (no missing keys with keep)
    N = 4 if big else 3

    def caseA(c):
        L, R = c
        dl, dr = build(rt, L, R, "int32")
        for how in HOWS:
            for keep in KEEPS:
                if how == "outer" and keep[0] is not None:
                    continue
                out = rt.merge2(dl, dr, on="k", how=how, keep=keep, suffixes=("_l", "_r"), indicator=True)
                pairs = relational(L, R, how, keep)
                if not check_result(mc, rt, out, dl, dr, pairs, f"merge2 {how} keep={keep}", "k", "k", how=how, ordered=not (how == "outer" and keep[1] and not L)):
                    return
                ind = ["both" if (a is not None and b is not None) else "left_only" if b is None else "right_only" for a, b in pairs]
                mc.eq(vals(out["merge_indicator"]), ind, f"indicator {how} keep={keep}")
                mc.eq(sorted(out.keys()), sorted(["k", "li", "v_l", "ls", "ri", "v_r", "rs", "merge_indicator"]), "columns")
                mc.eq(list(out.keys())[1:], ["li", "v_l", "ls", "ri", "v_r", "rs", "merge_indicator"], "column order")

    A = [0, 1, None]
    mc.run("merge2 keys x how x keep", itertools.product(list(seqs(A, N)), list(seqs(A, N))), caseA)
    mc.run("merge2 3 keys x how x keep", ((l, r) for l in seqs([0, 1, 2], N, 2) for r in seqs([0, 1, 2], N, 2) if 2 in l + r and 0 in l + r), caseA)
    if big:
        mc.run("merge2 4 keys", ((l, r) for l in itertools.permutations(range(4)) for r in seqs([0, 1, 2, 3], 5, 5)), caseA)

    # ---- B: key types
    types = ["int8", "int16", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "S", "U", "date", "dtn", "cat", "catx", "catn",
             ("int32", "int64"), ("int64", "int8"), ("S", "U"), ("U", "S"), ("cat", "catx"), ("float32", "float64"), ("S", "cat"), ("cat", "U")]
    nomiss = {"S", "U", "bool", "cat"}

    def caseB(c):
        kt, L, R = c
        dl, dr = build(rt, L, R, kt)
        kl, kr = kt if isinstance(kt, tuple) else (kt, kt)
        iscat = "cat" in kl or "cat" in kr
        for how in HOWS:
            out = rt.merge2(dl, dr, on="k", how=how, suffixes=("_l", "_r"))
            if not check_result(mc, rt, out, dl, dr, relational(L, R, how), f"merge2 {kt} {how}", "k" if kl == kr else None, "k", how=how):
                return
        if None not in L + R:
            for keep in (("first", "first"), ("last", None), (None, "last")):
                for how in ("left", "right", "inner"):
                    out = rt.merge2(dl, dr, on="k", how=how, keep=keep, suffixes=("_l", "_r"))
                    if not check_result(mc, rt, out, dl, dr, relational(L, R, how, keep), f"merge2 {kt} {how} keep={keep}", ordered=not iscat):
                        return

    def alpha(kt):
        ks = kt if isinstance(kt, tuple) else (kt, kt)
        return [0, 1] if any(k in nomiss for k in ks) else [0, 1, None]

    mc.run("merge2 key types", ((kt, l, r) for kt in types for l in seqs(alpha(kt), 3 if big else 2) for r in seqs(alpha(kt), 3)
                                if not ((("cat" in str(kt)) and (len(l) == 0 or len(r) == 0)))), caseB)

    # ---- C: two and three key columns
    P2 = [(0, 0), (0, 1), (1, 0), (1, 1), (0, None)]

    def caseC(c):
        kts, L, R = c
        nl, nr = len(L), len(R)

        def side(X, n, who):
            d = {"k%d" % i: keycol(rt, [x[i] for x in X], kts[i]) for i in range(len(kts))}
            if who == "l":
                d.update(li=np.arange(n, dtype=np.int32), v=np.arange(n) * 10.0, ls=np.array(["l%d" % i for i in range(n)], dtype="S3"))
            else:
                d.update(ri=np.arange(n, dtype=np.int16), v=np.arange(n) + 100.0, rs=np.array(["r%d" % i for i in range(n)], dtype="U3"))
            return rt.Dataset(d)

        dl, dr = side(L, nl, "l"), side(R, nr, "r")
        on = ["k%d" % i for i in range(len(kts))]
        hasna = any(None in x for x in L + R)
        for how in HOWS:
            for keep in ((None, None), ("first", "last"), (None, "first"), ("last", None)):
                if keep != (None, None) and (hasna or (how == "outer" and keep[0])):
                    continue
                out = rt.merge2(dl, dr, on=on, how=how, keep=keep, suffixes=("_l", "_r"))
                pairs = relational(L, R, how, keep)
                if not check_result(mc, rt, out, dl, dr, pairs, f"merge2 {kts} {how} {keep}", how=how):
                    return
                for q in on:
                    VL, VR = vals(dl[q]), vals(dr[q])
                    want = [VL[i] if (i is not None and not (how == "right" and j is not None)) else VR[j] for i, j in pairs]
                    mc.eq(vals(out[q]), want, f"key {q} {how}")

    tts = [("int32", "float64"), ("S", "int16"), ("int64", "date")] + ([("int32", "int32", "U")] if big else [])
    mc.run("merge2 two keys", ((t, l, r) for t in tts[:3] for l in seqs(P2 if t[1] != "S" else P2[:4], 2) for r in seqs(P2, 3 if big else 2) if l and r), caseC)
    P3 = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0)]
    mc.run("merge2 three keys", ((("int32", "int8", "U"), l, r) for l in seqs(P3, 3, 1) for r in seqs(P3, 2, 1)), caseC)

    # ---- D: options: validate, require_match, names, columns, copy, merge_lookup
    K4 = [k for k in seqs([0, 1], 3)]

    def caseD(c):
        L, R = c
        dl, dr = build(rt, L, R, "int32", "lk", "rk")
        pairs = relational(L, R, "left")
        dupL, dupR = len(set(L)) < len(L), len(set(R)) < len(R)
        for v, bad in (("1:1", dupL or dupR), ("one_to_one", dupL or dupR), ("1:m", dupL), ("one_to_many", dupL), ("m:1", dupR), ("many_to_one", dupR), ("m:m", False), ("many_to_many", False)):
            f = lambda: rt.merge2(dl, dr, left_on="lk", right_on="rk", validate=v, suffixes=("_l", "_r"))
            if bad:
                mc.raises(f, f"validate={v} must reject", ValueError)
            else:
                check_result(mc, rt, f(), dl, dr, pairs, f"validate={v}", "lk", "rk")
            # keep makes the corresponding side unique
            for keep in ((None, "first"), ("last", None), ("first", "last")):
                b2 = (v in ("1:1", "one_to_one", "1:m", "one_to_many") and dupL and not keep[0]) or (v in ("1:1", "one_to_one", "m:1", "many_to_one") and dupR and not keep[1])
                f = lambda: rt.merge2(dl, dr, left_on="lk", right_on="rk", validate=v, keep=keep, suffixes=("_l", "_r"))
                if b2:
                    mc.raises(f, f"validate={v} keep={keep} must reject", ValueError)
                else:
                    check_result(mc, rt, f(), dl, dr, relational(L, R, "left", keep), f"validate={v} keep={keep}", "lk", "rk")
        # require_match
        f = lambda: rt.merge2(dl, dr, left_on="lk", right_on="rk", require_match=True, suffixes=("_l", "_r"))
        if any(b is None for a, b in pairs):
            mc.raises(f, "require_match must reject", ValueError)
        else:
            check_result(mc, rt, f(), dl, dr, pairs, "require_match", "lk", "rk")
        # the same join written in different ways
        for kw in (dict(on=("lk", "rk")), dict(on=[("lk", "rk")]), dict(left_on=["lk"], right_on=["rk"]), dict(left_on="lk", right_on="rk", copy=False),
                   dict(left_on="lk", right_on="rk", high_card=True), dict(left_on="lk", right_on="rk", high_card=(False, True)), dict(left_on="lk", right_on="rk", hint_size=5)):
            for how in HOWS:
                out = rt.merge2(dl, dr, how=how, suffixes=("_l", "_r"), **kw)
                check_result(mc, rt, out, dl, dr, relational(L, R, how), f"merge2 {kw} {how}", "lk", "rk", how=how)
        # column selection and names
        for cl, cr in itertools.product((None, ["li"], ["lk", "li"], "li"), (None, ["ri"], ["ri", "rk"], "ri")):
            out = rt.merge2(dl, dr, on=("lk", "rk"), columns_left=cl, columns_right=cr, suffixes=("_a", "_b"))
            nl = ["lk", "li", "v", "ls"] if cl is None else [cl] if isinstance(cl, str) else cl
            nr = ["rk", "ri", "v", "rs"] if cr is None else [cr] if isinstance(cr, str) else cr
            both = set(nl) & set(nr)
            want = [x + "_a" if x in both else x for x in nl] + [x + "_b" if x in both else x for x in nr]
            mc.eq(list(out.keys()), want, f"columns {cl} {cr}")
            check_result(mc, rt, out, dl, dr, pairs, f"columns {cl} {cr}", "lk", "rk", sfx=("_a", "_b"))
        # suffix only on one side, empty and missing suffix
        out = rt.merge2(dl, dr, on=("lk", "rk"), suffixes=("", "_b"))
        mc.eq(list(out.keys()), ["lk", "li", "v", "ls", "rk", "ri", "v_b", "rs"], "left suffix empty")
        check_result(mc, rt, out, dl, dr, pairs, "suffix", "lk", "rk", sfx=("", "_b"))
        mc.raises(lambda: rt.merge2(dl, dr, on=("lk", "rk")), "overlap without suffix", ValueError)
        mc.raises(lambda: rt.merge2(dl, dr, on=("lk", "rk"), suffixes=("_s", "_s")), "overlap with equal suffixes", ValueError)
        mc.raises(lambda: rt.merge2(dl, dr, on=("lk", "rk"), suffixes=("", "")), "overlap with empty suffixes", ValueError)
        # indicator name
        out = rt.merge2(dl, dr, on=("lk", "rk"), suffixes=("_l", "_r"), indicator="src", how="outer")
        po = relational(L, R, "outer")
        mc.eq(vals(out["src"]), ["both" if (a is not None and b is not None) else "left_only" if b is None else "right_only" for a, b in po], "indicator")
        mc.raises(lambda: rt.merge2(dl, dr, on=("lk", "rk"), suffixes=("_l", "_r"), indicator="li"), "indicator collision", ValueError)
        # merge_lookup
        for keep in (None, "first", "last"):
            f = lambda: rt.merge_lookup(dl, dr, on=("lk", "rk"), keep=keep, suffixes=("_l", "_r"))
            if keep is None and dupR:
                mc.raises(f, "merge_lookup duplicate right keys", ValueError)
            else:
                check_result(mc, rt, f(), dl, dr, relational(L, R, "left", (None, keep)), f"merge_lookup {keep}", "lk", "rk")
            g = lambda: rt.merge_lookup(dl, dr, on=("lk", "rk"), keep=keep, require_match=True, suffixes=("_l", "_r"))
            if (keep is None and dupR) or any(b is None for a, b in pairs):
                mc.raises(g, "merge_lookup require_match", ValueError)
            else:
                check_result(mc, rt, g(), dl, dr, relational(L, R, "left", (None, keep)), f"merge_lookup req {keep}", "lk", "rk")
        # Dataset methods
        out = dl.merge2(dr, on=("lk", "rk"), suffixes=("_l", "_r"), how="inner")
        check_result(mc, rt, out, dl, dr, relational(L, R, "inner"), "Dataset.merge2", "lk", "rk")
        out = dl.merge_lookup(dr, on=("lk", "rk"), keep="last", suffixes=("_l", "_r"))
        check_result(mc, rt, out, dl, dr, relational(L, R, "left", (None, "last")), "Dataset.merge_lookup", "lk", "rk")
        cp = dl.copy()
        cp.merge_lookup(dr, on=("lk", "rk"), keep="first", suffix="_r", inplace=True)
        pf = relational(L, R, "left", (None, "first"))
        mc.eq(vals(cp["ri"]), [b for a, b in pf], "merge_lookup inplace")
        mc.eq(vals(cp["li"]), [a for a, b in pf], "merge_lookup inplace left")
        mc.eq(list(cp.keys()), ["lk", "li", "v", "ls", "rk", "ri", "v_r", "rs"], "merge_lookup inplace columns")
        mc.eq(vals(cp["v_r"]), [None if b is None else 100.0 + b for a, b in pf], "merge_lookup inplace values")
        mc.eq(vals(cp["v"]), [10.0 * a for a, b in pf], "merge_lookup inplace left values")
        # merge_indices
        for how in HOWS:
            ji = rt.rt_merge.merge_indices(dl, dr, on=("lk", "rk"), how=how)
            p = relational(L, R, how)
            for ix, n, side in ((ji.left_index, len(L), 0), (ji.right_index, len(R), 1)):
                if ix is None:
                    g = list(range(n))
                elif ix.dtype == bool:
                    g = np.flatnonzero(ix).tolist()
                else:
                    g = vals(ix)
                mc.eq(g, [x[side] for x in p], f"merge_indices {how} side {side}")

    mc.run("merge2 options", itertools.product(K4, K4), caseD)

    # ---- E: merge (single-match)
    def caseE(c):
        kt, L, R = c
        for lk, rk in (("k", "k"), ("lk", "rk")):
            dl, dr = build(rt, L, R, kt, lk, rk)
            fl, fr = first_pos(L), first_pos(R)
            for how in HOWS:
                out = rt.merge(dl, dr, left_on=lk, right_on=rk, how=how, suffixes=("_l", "_r"), indicator=True)
                if how == "left":
                    p = [(i, fr.get(k)) for i, k in enumerate(L)]
                elif how == "right":
                    p = [(fl.get(k), j) for j, k in enumerate(R)]
                elif how == "inner":
                    p = [(fl[k], fr[k]) for k in L if k in fr]
                else:
                    p = [(fl.get(k), fr.get(k)) for k in first_pos(L + R)]
                if not check_result(mc, rt, out, dl, dr, p, f"merge {kt} {how}", lk, rk, how=how):
                    return
                mc.eq(vals(out["merge_indicator"]), ["both" if (a is not None and b is not None) else "left_only" if b is None else "right_only" for a, b in p], f"merge indicator {how}")
        out = dl.merge(dr, left_on="lk", right_on="rk", columns_left=["li"], columns_right=["ri", "v"])
        mc.eq(list(out.keys()), ["li", "ri", "v"], "merge columns")
        mc.eq(vals(out["ri"]), [fr.get(k) for k in L], "merge columns ri")

    mc.run("merge single match", ((kt, l, r) for kt in ("int32", "S", "U", "int64", "uint8", "float64", "date") for l in seqs([0, 1, 2], 3, 1) for r in seqs([0, 1, 2] if big else [0, 1], 3, 1)), caseE)

    def caseE2(c):
        L, R = c

        def side(X, n, who):
            d = {"k1": keycol(rt, [x[0] for x in X], "int32"), "k2": keycol(rt, [x[1] for x in X], "S")}
            d.update({"li": np.arange(n, dtype=np.int32), "v": np.arange(n) * 10.0} if who == "l" else {"ri": np.arange(n, dtype=np.int16), "v": np.arange(n) + 100.0})
            return rt.Dataset(d)

        dl, dr = side(L, len(L), "l"), side(R, len(R), "r")
        fl, fr = first_pos(L), first_pos(R)
        for how in HOWS:
            out = rt.merge(dl, dr, on=["k1", "k2"], how=how, suffixes=("_l", "_r"))
            p = {"left": [(i, fr.get(k)) for i, k in enumerate(L)], "right": [(fl.get(k), j) for j, k in enumerate(R)],
                 "inner": [(fl[k], fr[k]) for k in L if k in fr], "outer": [(fl.get(k), fr.get(k)) for k in first_pos(L + R)]}[how]
            check_result(mc, rt, out, dl, dr, p, f"merge 2 keys {how}", how=how)
            for q in ("k1", "k2"):
                VL, VR = vals(dl[q]), vals(dr[q])
                mc.eq(vals(out[q]), [VL[i] if i is not None else VR[j] for i, j in p], f"merge key {q} {how}")

    Q = [(0, 0), (0, 1), (1, 0)]
    mc.run("merge two keys", itertools.product(seqs(Q, 3, 1), seqs(Q, 3, 1)), caseE2)

    # ---- F: sizes around the index-dtype thresholds
    def caseF(c):
        n, nkeys, m, how, shape = c
        L = [(i * 7 + 3) % nkeys for i in range(n)]
        R = [((m - 1 - i) * 5) % nkeys for i in range(m)] if shape else [(i + nkeys // 2) % (nkeys + 3) for i in range(m)]
        dl = rt.Dataset({"k": np.array(L, dtype=np.int32), "li": np.arange(n), "v": np.arange(n) * 10.0})
        dr = rt.Dataset({"k": np.array(R, dtype=np.int32), "ri": np.arange(m), "v": np.arange(m) + 100.0})
        for keep in ((None, None), (None, "last"), ("first", "first")):
            if how == "outer" and keep[0]:
                continue
            pos = {}
            l, r = dedup(L, keep[0]), dedup(R, keep[1])
            out = rt.merge2(dl, dr, on="k", how=how, keep=keep, suffixes=("_l", "_r"), indicator=True)
            pairs = []
            a, A, b, B = (l, L, r, R) if how != "right" else (r, R, l, L)
            for j in b:
                pos.setdefault(B[j], []).append(j)
            for i in a:
                ms = sorted(pos.get(A[i], []))
                pairs += [(i, j) for j in ms] or ([] if how == "inner" else [(i, None)])
            if how == "right":
                pairs = [(j, i) for i, j in pairs]
            if how == "outer":
                s = set(L)
                pairs += [(None, j) for j in sorted(r) if R[j] not in s]
            got = list(zip(vals(out["li"]), vals(out["ri"])))
            mc.eq(got == pairs, True, f"merge2 size {how} {keep} n={n} m={m}")
            mc.eq(vals(out["k"]) == [L[i] if i is not None else R[j] for i, j in pairs], True, f"size key {how} {keep}")
            mc.eq(vals(out["merge_indicator"]) == ["both" if (x is not None and y is not None) else "left_only" if y is None else "right_only" for x, y in pairs], True, "size indicator")

    sizes = [(126, 120), (127, 127), (128, 128), (129, 129), (130, 90), (255, 255), (256, 256), (257, 200)]
    mc.run("merge2 size thresholds", ((n, k, m, how, s) for n, k in sizes for m in (1, 2, 126, 127, 128, 129, 130, 255, 256) for how in HOWS for s in (0, 1)), caseF)
    # many-to-many results whose row count crosses the unsigned index thresholds (one shared key)
    def caseG(c):
        n, m, extra, how = c
        L = [5] * n + [9] * extra
        R = [5] * m + [7] * extra
        dl = rt.Dataset({"k": np.array(L, dtype=np.int32), "li": np.arange(len(L))})
        dr = rt.Dataset({"k": np.array(R, dtype=np.int32), "ri": np.arange(len(R))})
        out = rt.merge2(dl, dr, on="k", how=how, indicator=True)
        if how == "right":
            want = [(i, j) for j in range(m) for i in range(n)] + [(None, m + e) for e in range(extra)]
        else:
            want = [(i, j) for i in range(n) for j in range(m)] + ([(n + e, None) for e in range(extra)] if how != "inner" else []) + ([(None, m + e) for e in range(extra)] if how == "outer" else [])
        mc.eq(list(zip(vals(out["li"]), vals(out["ri"]))) == want, True, f"merge2 m:n {c}")

    prods = [(127, 1), (127, 2), (51, 5), (5, 51), (128, 2), (16, 16), (15, 17), (1, 255), (255, 1), (64, 2), (2, 64), (129, 1), (1, 127), (1, 128)]
    mc.run("merge2 row count thresholds", ((n, m, e, how) for n, m in prods for e in (0, 1, 2) for how in HOWS), caseG, mode="both" if big else None)
    mc.run("merge2 row count thresholds 16 bit", ((n, m, e, how) for n, m in ((255, 257), (257, 255), (2, 32767), (32767, 2), (256, 256)) for e in (0, 1) for how in HOWS), caseG, mode="jit")
    mc.run("merge2 keys compiled", itertools.product(list(seqs([0, 1, None], 2)), list(seqs([0, 1, None], 3 if big else 1, 1))), caseA, mode="jit")
    mc.run("merge2 two keys compiled", ((tts[0], l, r) for l in seqs(P2, 2, 1) for r in seqs(P2, 1, 1)), caseC, mode="jit")
    mc.run("merge2 large sizes", ((n, k, m, how, s) for n, k in ((32766, 32766), (32767, 32767), (32768, 32768), (32769, 500)) for m in (300, 32767, 32768, 32769) for how in HOWS for s in (0, 1)
                                  if not (k == 500 and m > 300) and (big or s == 1)), caseF, mode="jit")
