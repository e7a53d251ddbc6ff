"""C19 Date and time arithmetic is type-correct, exact and keeps missing missing."""
import itertools, operator as O, warnings
import numpy as np
import riptable as rt
from ..model import *

PROPERTY = "C19"
NS = 10 ** 9
DAYNS = 86400 * NS
I32, I64 = -(2 ** 31), -(2 ** 63)


def explore(mc):
    T = mc.thorough
    warnings.simplefilter("ignore")
    FA = rt.FastArray

    # value alphabets in natural units (days for Date/DateSpan, nanoseconds otherwise); None is missing
    AL = {
        "Date": [1, 10957, 17000, 24860, None],
        "DateSpan": [0, 1, -3, 400, None],
        "DTN": [DAYNS + 1, 10957 * DAYNS - 1, 17000 * DAYNS, 17000 * DAYNS + 5, None],
        "TS": [0, 1, -3 * NS, 2 * DAYNS, None],
        "int": [1, 0, -2, 400],
    }
    SP = {"Date", "DateSpan", "DTN", "TS"}
    UNIT = {"Date": DAYNS, "DateSpan": DAYNS, "DTN": 1, "TS": 1}

    def mk(k, l, scalar=False, tz="UTC", lay="c", miss=0):
        if k == "Date":
            raw_ = np.array([(0, I32)[miss] if x is None else x for x in l], dtype=np.int32)
            f = lambda r: rt.Date(FA(r))
        elif k == "DateSpan":
            raw_ = np.array([I32 if x is None else x for x in l], dtype=np.int32)
            f = lambda r: rt.DateSpan(FA(r))
        elif k == "DTN":
            raw_ = np.array([(0, I64)[miss] if x is None else x for x in l], dtype=np.int64)
            f = lambda r: rt.DateTimeNano(FA(r), from_tz="UTC", to_tz=tz)
        elif k == "TS":
            raw_ = np.array([np.nan if x is None else x for x in l], dtype=np.float64)
            f = lambda r: rt.TimeSpan(FA(r))
        elif k == "int":
            if scalar:
                return l[0]
            return FA(np.array(l, dtype=np.int64))
        if lay == "strided":
            b = np.zeros(2 * len(raw_), dtype=raw_.dtype)
            b[::2] = raw_
            a = f(b)[::2]
        else:
            a = f(raw_)
        return a[0] if scalar else a

    def out(r):
        """(kind, values in natural units)"""
        n = type(r).__name__
        k = {"Date": "Date", "DateScalar": "Date", "DateSpan": "DateSpan", "DateSpanScalar": "DateSpan", "DateTimeNano": "DTN",
             "DateTimeNanoScalar": "DTN", "TimeSpan": "TS", "TimeSpanScalar": "TS"}.get(n, n)
        v = np.asarray(r).ravel()
        if k in ("Date", "DTN"):
            v = [None if x in (0, I32, I64) else int(x) for x in v]
        elif k == "DateSpan":
            v = [None if x == I32 else int(x) for x in v]
        else:
            v = [None if np.isnan(x) else float(x) for x in v]
        return k, v

    # result kind of a (op) b; None: must be refused
    ADD = {("Date", "DateSpan"): "Date", ("Date", "TS"): "DTN", ("Date", "int"): "Date", ("DateSpan", "Date"): "Date", ("DateSpan", "DateSpan"): "DateSpan",
           ("DateSpan", "DTN"): "DTN", ("DateSpan", "TS"): "TS", ("DateSpan", "int"): "DateSpan", ("DTN", "DateSpan"): "DTN", ("DTN", "TS"): "DTN", ("DTN", "int"): "DTN",
           ("TS", "Date"): "DTN", ("TS", "DateSpan"): "TS", ("TS", "DTN"): "DTN", ("TS", "TS"): "TS", ("TS", "int"): "TS",
           ("int", "Date"): "Date", ("int", "DTN"): "DTN", ("int", "TS"): "TS"}
    SUB = {("Date", "Date"): "DateSpan", ("Date", "DateSpan"): "Date", ("Date", "TS"): "DTN", ("Date", "DTN"): "TS", ("Date", "int"): "Date",
           ("DateSpan", "DateSpan"): "DateSpan", ("DateSpan", "TS"): "TS", ("DateSpan", "int"): "DateSpan",
           ("DTN", "Date"): "TS", ("DTN", "DTN"): "TS", ("DTN", "DateSpan"): "DTN", ("DTN", "TS"): "DTN", ("DTN", "int"): "DTN",
           ("TS", "DateSpan"): "TS", ("TS", "TS"): "TS", ("TS", "int"): "TS", ("int", "TS"): "TS"}
    NOADD = [("Date", "Date"), ("Date", "DTN"), ("DTN", "Date"), ("DTN", "DTN")]
    NOSUB = [("DateSpan", "Date"), ("DateSpan", "DTN"), ("TS", "Date"), ("TS", "DTN"), ("int", "Date"), ("int", "DTN")]

    def unit(k, other):
        if k == "int":
            return {"Date": DAYNS, "DateSpan": DAYNS, "DTN": 1, "TS": 1}[other]
        return UNIT[k]

    def model(op, ka, kb, a, b, kr):
        r = []
        for x, y in zip(a, b):
            if x is None or y is None:
                r.append(None)
                continue
            v = x * unit(ka, kb) + (1 if op == "add" else -1) * y * unit(kb, ka)
            q, m = divmod(v, UNIT[kr])
            assert m == 0
            r.append(float(q) if kr == "TS" else q)
        return r

    def rng_ok(kr, l):
        # results that are representable: dates and instants after the epoch
        return all(x is None or kr in ("TS", "DateSpan") or 0 < x < (2 ** 31 - 1 if kr == "Date" else 2 ** 62) for x in l)

    LEFTSCALAR = {"Date", "DateSpan", "DTN", "TS", "int"}

    def arith(case):
        op, ka, kb, la, lb, shape, lay, miss = case
        kr = (ADD if op == "add" else SUB)[ka, kb]
        sa, sb = shape[0] == "s", shape[1] == "s"
        n = max(len(la), len(lb))
        A = la * n if sa or shape[0] == "1" else la
        B = lb * n if sb or shape[1] == "1" else lb
        w = model(op, ka, kb, A, B, kr)
        if not rng_ok(kr, w):
            return
        a, b = mk(ka, la, sa, lay=lay, miss=miss), mk(kb, lb, sb, lay=lay, miss=miss)
        r = getattr(O, op)(a, b)
        g = out(r)
        mc.eq(g, (kr, w), f"{ka} {op} {kb}", key=(op, ka, kb, shape), a=la, b=lb, shape=shape, lay=lay)
        if shape == "ss" and "int" not in (ka, kb):
            mc.eq(np.ndim(r), 0, f"{ka} {op} {kb} of scalars is a scalar", a=la, b=lb)
        if not sa and ka in SP:
            mc.eq(out(a), (ka, [float(x) if ka == "TS" and x is not None else x for x in la]), "left operand unchanged", op=op, ka=ka, kb=kb)
        if not sb and kb in SP:
            mc.eq(out(b), (kb, [float(x) if kb == "TS" and x is not None else x for x in lb]), "right operand unchanged", op=op, ka=ka, kb=kb)
        # in place
        if shape == "aa" and kr == ka and ka in SP and lay == "c" and kb != "int":
            c = mk(ka, la, miss=miss)
            try:
                d = getattr(O, "i" + op)(c, b)
            except (TypeError, NotImplementedError):
                d = None
            if d is not None:
                mc.eq(out(d), (kr, w), f"{ka} i{op} {kb}", key=("i" + op, ka, kb), a=la, b=lb)
        mc.observe((op, ka, kb, shape))

    def arith_cases():
        for op, tab in (("add", ADD), ("sub", SUB)):
            for ka, kb in tab:
                for x in AL[ka]:
                    for y in AL[kb]:
                        for shape in ("11", "s1", "1s", "ss"):
                            if "s" in shape:
                                if shape[0] == "s" and (ka not in LEFTSCALAR or kb == "int" and ka in ("Date", "DateSpan")):
                                    continue
                                if shape == "ss" and "int" in (ka, kb):
                                    continue
                                if ka == "int" and shape == "1s":
                                    continue
                            yield op, ka, kb, [x], [y], shape, "c", 0
                            if x is None or y is None:
                                yield op, ka, kb, [x], [y], shape, "c", 1
                pairs = list(itertools.product(AL[ka], AL[kb]))
                yield op, ka, kb, [p[0] for p in pairs], [p[1] for p in pairs], "aa", "c", 0
                for p in itertools.product(pairs, repeat=2) if T else itertools.combinations(pairs, 2):
                    l = list(p)
                    yield op, ka, kb, [q[0] for q in l], [q[1] for q in l], "aa", "c", 0
                    yield op, ka, kb, [q[0] for q in l], [q[1] for q in l], "aa", "strided", 1
                for la in itertools.permutations(AL[ka], 2):
                    for y in AL[kb]:
                        if not (ka == "int"):
                            yield op, ka, kb, list(la), [y], "as", "c", 0
                        yield op, ka, kb, list(la), [y], "a1", "c", 0
                for x in AL[ka]:
                    for lb in itertools.permutations(AL[kb], 2):
                        if ka in LEFTSCALAR and not (kb == "int" and ka in ("Date", "DateSpan")):
                            yield op, ka, kb, [x], list(lb), "sa", "c", 0
                        yield op, ka, kb, [x], list(lb), "1a", "c", 0

    mc.run("addition and subtraction", arith_cases(), arith)

    def refuse(case):
        op, ka, kb, shape = case
        for l in ([2, 3], [2, None]):
            a = None if ka == "int" else mk(ka, l if shape[0] == "a" else l[:1], shape[0] == "s")
            b = FA([2, 3]) if kb == "int" and shape[1] == "a" else mk(kb, l if shape[1] == "a" else l[:1], shape[1] == "s")
            if ka == "int":
                a = FA([2, 3]) if shape[0] == "a" else 2
            mc.raises(lambda: getattr(O, op)(a, b), f"{ka} {op} {kb} {shape}", (TypeError, NotImplementedError))

    mc.run("refused operand pairs", ([(op, a, b, s) for op, t in (("add", NOADD), ("sub", NOSUB)) for a, b in t for s in ("aa", "as", "sa", "ss") if (a, s) not in (("int", "as"), ("int", "ss"))]
                                     + [(op, a, b, "aa") for op in ("mul",) for a in ("Date", "TS") for b in ("Date", "DTN", "TS", "DateSpan")]
                                     + [(op, "TS", "int", s) for op in ("floordiv",) for s in ("aa", "as")]), refuse)

    # ---------------------------------------------------------------- scaling of TimeSpans
    def scale(case):
        x, y, lay = case
        xs = [x, None, -x if x else 0]
        a = mk("TS", xs, lay=lay)
        f = lambda g: [None if v is None else g(v) for v in xs]
        for q in (y, float(y), np.float64(y), np.int64(y)):
            mc.eq(out(a * q), ("TS", f(lambda v: float(v * y))), "TimeSpan * number", x=x, y=y)
            mc.eq(out(q * a), ("TS", f(lambda v: float(v * y))), "number * TimeSpan", x=x, y=y, t=type(q).__name__) if not isinstance(q, np.generic) else None
            if y:
                mc.eq(out(a / q), ("TS", f(lambda v: v / y)), "TimeSpan / number", x=x, y=y)
        ya = FA(np.array([y, y, y], dtype=np.int64))
        mc.eq(out(a * ya), ("TS", f(lambda v: float(v * y))), "TimeSpan * array", x=x, y=y)
        mc.eq(out(ya * a), ("TS", f(lambda v: float(v * y))), "array * TimeSpan", x=x, y=y)
        if y:
            mc.eq(out(a / ya), ("TS", f(lambda v: v / y)), "TimeSpan / array", x=x, y=y)
            b = mk("TS", [y, y, y])
            mc.eq(vals(a / b), f(lambda v: v / y), "TimeSpan / TimeSpan", x=x, y=y)
            mc.eq(vals(a // b), f(lambda v: float(v // y)), "TimeSpan // TimeSpan", x=x, y=y)
            mc.eq(vals(a / b[0]), f(lambda v: v / y), "TimeSpan / scalar TimeSpan", x=x, y=y)
            mc.eq(vals(a // b[0]), f(lambda v: float(v // y)), "TimeSpan // scalar TimeSpan", x=x, y=y)
        mc.eq(out(abs(a)), ("TS", f(lambda v: float(abs(v)))), "abs", x=x)
        mc.eq(out(a.abs()), ("TS", f(lambda v: float(abs(v)))), "abs", x=x)
        mc.eq(out(-a), ("TS", f(lambda v: float(-v))), "neg", x=x)
        s = a[0]
        mc.eq((out(s * y), out(-s), out(abs(s))), (("TS", [float(x * y)]), ("TS", [float(-x)]), ("TS", [float(abs(x))])), "scalar TimeSpan", x=x, y=y)
        ok = [v for v in xs if v is not None]
        for nm, w in (("nansum", sum(ok)), ("nanmin", min(ok)), ("nanmax", max(ok)), ("nanmean", sum(ok) / len(ok))):
            mc.eq(out(getattr(a, nm)()), ("TS", [float(w)]), nm, x=x)
        b = mk("TS", ok)
        for nm, w in (("sum", sum(ok)), ("min", min(ok)), ("max", max(ok)), ("mean", sum(ok) / len(ok)), ("median", sum(ok) / 2)):
            mc.eq(out(getattr(b, nm)()), ("TS", [float(w)]), nm, x=x)

    mc.run("scaling TimeSpans", itertools.product([0, 1, 7, 3 * NS, 2 * DAYNS + 5], [0, 1, 2, -3, 1000], ["c", "strided"]), scale)

    # ---------------------------------------------------------------- comparisons
    CMP = {"eq": O.eq, "ne": O.ne, "lt": O.lt, "le": O.le, "gt": O.gt, "ge": O.ge}
    CK = [("Date", "Date"), ("DTN", "DTN"), ("TS", "TS"), ("DateSpan", "DateSpan"), ("Date", "DTN"), ("DTN", "Date"), ("TS", "DateSpan"), ("DateSpan", "TS")]

    def cmp_(case):
        ka, kb, la, lb, shape = case
        a = mk(ka, la, shape[0] == "s")
        b = mk(kb, lb, shape[1] == "s")
        n = max(len(la), len(lb))
        B = lb * n if shape in ("as", "a1") else lb
        if shape == "sa":
            la = la * n
        for nm, f in CMP.items():
            w = []
            for x, y in zip(la, B):
                if x is None:
                    w.append(nm == "ne")
                else:
                    w.append(f(x * UNIT[ka], y * UNIT[kb]))
            r = f(a, b)
            mc.eq([bool(r)] if shape == "ss" else vals(r), w, f"{ka} {nm} {kb}", key=(nm, ka, kb, shape), a=la, b=lb, shape=shape)
        if shape[0] == "s":
            return
        mc.eq(out(a)[1], [float(x) if ka == "TS" and x is not None else x for x in la], "operand of a comparison unchanged")

    def cmp_cases():
        for ka, kb in CK:
            A = [x for x in AL[ka] if x is not None or ka in ("Date", "DTN", "TS")]
            B = [y for y in AL[kb] if y is not None]
            for la in itertools.product(A, repeat=2):
                for lb in itertools.product(B, repeat=2):
                    yield ka, kb, list(la), list(lb), "aa"
                for y in B:
                    yield ka, kb, list(la), [y], "as"
                    yield ka, kb, list(la), [y], "a1"
            for x in A:
                for y in B:
                    yield ka, kb, [x], [y], "aa"
                    yield ka, kb, [x], [y], "as"
                    yield ka, kb, [x], [y], "ss"
                for lb in itertools.product(B, repeat=2):
                    yield ka, kb, [x], list(lb), "sa"

    mc.run("comparisons", cmp_cases(), cmp_)

    def cmps(case):
        ka, kb = case
        A, B = mk(ka, [2]), mk(kb, [2, 2])
        for nm, f in CMP.items():
            if nm in ("eq", "ne"):
                continue
            for a_, b_ in ((A, B), (A, B[0]), (A[0], B), (A[0], B[0])):
                mc.raises(lambda: f(a_, b_), f"{ka} {nm} {kb}", TypeError)

    mc.run("refused comparisons", [("Date", "DateSpan"), ("Date", "TS"), ("DTN", "TS"), ("DTN", "DateSpan"), ("TS", "DTN"), ("TS", "Date"), ("DateSpan", "Date"), ("DateSpan", "DTN")], cmps)

    # dates and times against strings
    def cstr(case):
        d, e = case
        import datetime as D
        iso = lambda x: (D.date(1970, 1, 1) + D.timedelta(days=x)).isoformat()
        a = mk("Date", [d, e, None])
        for nm, f in CMP.items():
            w = [f(d, e), f(e, e), nm == "ne"]
            mc.eq(vals(f(a, iso(e))), w, "Date vs string " + nm, d=d, e=e)
            mc.eq(vals(f(a, FA([iso(e)] * 3))), w, "Date vs array of strings " + nm, d=d, e=e)
        t = mk("TS", [3600 * NS, 7200 * NS, None])
        for nm, f in CMP.items():
            mc.eq(vals(f(t, "02:00:00")), [f(1, 2), f(2, 2), nm == "ne"], "TimeSpan vs string " + nm)

    mc.run("comparisons with strings", itertools.product([1, 10957, 17000], repeat=2), cstr)

    # ---------------------------------------------------------------- diff, shift, min/max, fill_invalid, resample, isin, reductions
    def seq(case):
        k, l, lay = case
        a = mk(k, l, lay=lay)
        n = len(l)
        kd = {"Date": "DateSpan", "DTN": "TS"}.get(k)
        F = float if kd == "TS" or k == "TS" else (lambda x: x)
        for p in (1, 2, -1) if kd else ():
            w = []
            for i in range(n):
                j = i - p
                w.append(None if not 0 <= j < n or l[i] is None or l[j] is None else F(l[i] - l[j]))
            mk_ok = all(x is not None for x in l)
            if mk_ok:
                mc.eq(out(a.diff(periods=p)), (kd, w), "diff", k=k, l=l, p=p)
        for p in (0, 1, 2, -1, 5):
            w = [l[i - p] if 0 <= i - p < n else None for i in range(n)]
            w = [x if x is None or k != "TS" else float(x) for x in w]
            mc.eq(out(a.shift(p)), (k, w), "shift", k=k, l=l, p=p)
        if n and all(x is not None for x in l):
            mc.eq(out(a.min()), (k, [F(min(l))]), "min", k=k, l=l)
            mc.eq(out(a.max()), (k, [F(max(l))]), "max", k=k, l=l)
        c = a.copy()
        mc.eq(out(c), (k, [x if x is None or k != "TS" else float(x) for x in l]), "copy")
        r = c.fill_invalid(inplace=False)
        mc.eq(out(r), (k, [None] * n), "fill_invalid", k=k)
        mc.eq(out(c), out(a), "fill_invalid(inplace=False) leaves the array")
        c.fill_invalid(inplace=True)
        mc.eq(out(c), (k, [None] * n), "fill_invalid inplace", k=k)
        if k != "DateSpan":
            mc.eq(vals(a.isnan()), [x is None for x in l], "isnan", k=k, l=l)
            mc.eq(vals(a.isnotnan()), [x is not None for x in l], "isnotnan", k=k, l=l)
        mc.eq([out(a[i]) for i in range(n)], [(k, [x if x is None or k != "TS" else float(x)]) for x in l], "scalars", k=k, l=l)
        for i in range(n):
            if l[i] is not None:
                mc.eq(out(a[i].repeat(2)), (k, [F(l[i])] * 2 if k != "TS" else [float(l[i])] * 2), "repeat of a scalar", k=k)
        mc.eq(out(rt.hstack([a, a])), (k, [x if x is None or k != "TS" else float(x) for x in l + l]), "hstack", k=k)
        for i, j in itertools.product(range(n), repeat=2):
            b = a.copy()
            b[i] = a[j]
            w = list(l)
            w[i] = l[j]
            mc.eq(out(b), (k, [x if x is None or k != "TS" else float(x) for x in w]), "assignment of a scalar", k=k, l=l)

    mc.run("sequences", ((k, list(l), lay) for k in ("Date", "DateSpan", "DTN", "TS") for n in (1, 2, 3) for l in itertools.product(AL[k] if n < 3 or T else AL[k][1:], repeat=n) for lay in ("c", "strided")), seq)

    # zone of results
    def zones(case):
        tz, x = case
        a = mk("DTN", [x, x + 1, None], tz=tz)
        z = lambda r: str(r.astimezone(tz)) == str(r)
        for nm, r in (("add TimeSpan", a + mk("TS", [1, 2, 3])), ("TimeSpan add", mk("TS", [1, 2, 3]) + a), ("add DateSpan", a + mk("DateSpan", [1, 2, 3])), ("DateSpan add", mk("DateSpan", [1, 2, 3]) + a),
                      ("sub TimeSpan", a - mk("TS", [1, 2, 3])), ("add int", a + 1), ("shift", a.shift(1)), ("copy", a.copy()), ("slice", a[:2]), ("fancy", a[[0, 1]]), ("mask", a[FA([True, False, True])]),
                      ("min", a[:2].min()), ("max", a[:2].max()), ("hstack", rt.hstack([a, a])), ("fill_invalid", a.fill_invalid(inplace=False)), ("resample", a[:2].resample("1H"))):
            mc.eq(type(r).__name__, "DateTimeNano", nm + " type", tz=tz)
            mc.eq(z(r), True, "zone kept by " + nm, key=("zone", nm), tz=tz)
        # the zone an instant is shown in has no part in differences
        day = x // DAYNS
        for dd in (day - 1, day, day + 200):
            w = [float(x - dd * DAYNS), float(x + 1 - dd * DAYNS), None]
            D3 = mk("Date", [dd, dd, dd])
            mc.eq(out(a - D3), ("TS", w), "DateTimeNano - Date in a zone", tz=tz, x=x, dd=dd)
            mc.eq(out(D3 - a), ("TS", [None if v is None else -v for v in w]), "Date - DateTimeNano in a zone", tz=tz, x=x, dd=dd)
            mc.eq(out(D3[0] - a), ("TS", [None if v is None else -v for v in w]), "Date scalar - DateTimeNano in a zone", tz=tz, x=x, dd=dd)
            mc.eq(out(D3[:1] - a[0]), ("TS", [-w[0]]), "Date - DateTimeNano scalar in a zone", tz=tz, x=x, dd=dd)
            mc.eq(out(a[1] - D3[0]), ("TS", [w[1]]), "DateTimeNano scalar - Date scalar in a zone", tz=tz, x=x, dd=dd)
            b = mk("DTN", [dd * DAYNS] * 3, tz="NYC")
            mc.eq(out(a - b), ("TS", w), "DateTimeNano - DateTimeNano across zones", tz=tz, x=x, dd=dd)

    mc.run("display zone of results", itertools.product(["UTC", "NYC", "Europe/Dublin", "Asia/Tokyo", "Asia/Kolkata", "Australia/Sydney"], [17000 * DAYNS + 5, 17180 * DAYNS - 1]), zones)

    # ---------------------------------------------------------------- resample
    def resample(case):
        l, rule, step = case
        a = mk("DTN", l)
        r = out(a.resample(rule, dropna=True))
        mc.eq(r, ("DTN", [x - x % step for x in l]), "resample(dropna=True)", l=l, rule=rule)
        lo, hi = min(l), max(l)
        if (hi - lo) // step < 500:
            w = list(range(lo - lo % step, hi - hi % step + step, step))
            mc.eq(out(a.resample(rule)), ("DTN", w), "resample", l=l, rule=rule)

    B = 17000 * DAYNS
    rules = [("H", 3600 * NS), ("2H", 7200 * NS), ("T", 60 * NS), ("30T", 1800 * NS), ("15min", 900 * NS), ("S", NS), ("0.5S", NS // 2), ("L", 10 ** 6), ("250ms", 250 * 10 ** 6), ("U", 1000), ("N", 1), ("1.5H", 5400 * NS)]
    pts = [B, B + 1, B + 3600 * NS - 1, B + 3600 * NS, B + 5400 * NS + 7, B + 7200 * NS]
    mc.run("resample", ((list(l), r, s) for n in (1, 2, 3) for l in itertools.product(pts if n < 3 else pts[1:5], repeat=n) for r, s in rules), resample)

    # ---------------------------------------------------------------- cut_time
    def cutt(case):
        tz, off, pts_, kind_, lab, pre, post = case
        base = 17000 * DAYNS
        a = rt.DateTimeNano(FA(np.array([base + off + p for p in pts_], dtype=np.int64)), from_tz=tz, to_tz=tz)
        if kind_ == "list":
            b = [(9, 30), (10, 0), (11, 0)]
            cuts = [34200, 36000, 39600]
            c = a.cut_time(b, label=lab, add_pre_bucket=pre, add_post_bucket=post)
        elif kind_ == "int":
            cuts = [34200, 36000, 37800, 39600]
            c = a.cut_time(30, start_time=(9, 30), end_time=(11, 0), label=lab, add_pre_bucket=pre, add_post_bucket=post)
        else:
            cuts = [34200, 37200, 39600]
            c = a.cut_time(rt.TimeSpan(50, "m"), start_time=(9, 30), end_time=(11, 0), label=lab, add_pre_bucket=pre, add_post_bucket=post)
        cs = [x * NS for x in cuts]
        if pre:
            cs = [0] + cs
        if post:
            cs = cs + [86400 * NS]
        f = lambda s: "%02d:%02d" % (s // NS // 3600, s // NS % 3600 // 60)
        labs = [f(x) for x in (cs[:-1] if lab == "left" else cs[1:])]
        if pre:
            labs[0] = "pre"
        if post:
            labs[-1] = "post"
        w = []
        for p in pts_:
            t = (off + p) % DAYNS
            i = next((i for i in range(len(cs) - 1) if cs[i] < t <= cs[i + 1]), None)
            w.append(None if i is None else labs[i])
        mc.eq([x if x != "Filtered" else None for x in vals(c)], w, "cut_time", key=("cut", kind_, pre, post), case=case)

    offs = [34200, 36000, 37200, 37800, 39600]
    P = sorted({x * NS + d for x in offs for d in (-1, 0, 1)} | {1, 5 * 3600 * NS, 86399 * NS})
    mc.run("cut_time", ((tz, 0, P, k, lab, pre, post) for tz in ("NYC", "UTC", "Asia/Tokyo") for k in ("list", "int", "ts") for lab in ("left", "right") for pre in (False, True) for post in (False, True)), cutt)
