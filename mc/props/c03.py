"""C03 Elementwise operators equal NumPy's elementwise result; missing values are recognised consistently."""
import itertools, math, operator as O, warnings
import numpy as np
import riptable as rt
from ..model import *

PROPERTY = "C03"
warnings.simplefilter("ignore")
np.seterr(all="ignore")
NAN, INF = float("nan"), float("inf")
DTS = ["bool"] + INTS + FLTS


def alpha(dt):
    if dt == "bool":
        return [True, False]
    i = None if dt[0] == "f" else np.iinfo(dt)
    if dt[0] == "i":
        return [0, 1, -1, 2, 5, 100, -100, i.max, i.min + 1, i.min]
    if dt[0] == "u":
        return [0, 1, 2, 5, 100, 200, i.max - 1, i.max]
    return [0.0, 1.0, -1.0, 1.5, -2.5, 5.0, 100.0, 3e5, NAN, INF, -INF]


def rng(dt, v):
    if np.dtype(dt).kind in "iu":
        i = np.iinfo(dt)
        return i.min <= v <= i.max
    return True


def safe(f, *a):
    try:
        return f(*a)
    except ZeroDivisionError:
        return None
    except OverflowError:
        return None


SKIP = object()


def fdiv(a, b):
    if b == 0:
        return NAN if (a == 0 or a != a) else math.copysign(INF, a) * math.copysign(1, b)
    if math.isinf(a) and math.isinf(b):
        return NAN
    return a / b


def mn(a, b):
    return NAN if a != a or b != b else min(a, b)


def mx(a, b):
    return NAN if a != a or b != b else max(a, b)


def fmn(a, b):
    return b if a != a else a if b != b else min(a, b)


def fmx(a, b):
    return b if a != a else a if b != b else max(a, b)


CMP = {"eq": (O.eq, np.equal), "ne": (O.ne, np.not_equal), "lt": (O.lt, np.less), "le": (O.le, np.less_equal), "gt": (O.gt, np.greater), "ge": (O.ge, np.greater_equal)}
BIT = {"and": (O.and_, np.bitwise_and), "or": (O.or_, np.bitwise_or), "xor": (O.xor, np.bitwise_xor)}
ARI = {"add": (O.add, np.add, O.add), "sub": (O.sub, np.subtract, O.sub), "mul": (O.mul, np.multiply, O.mul), "div": (O.truediv, np.true_divide, fdiv), "minimum": (None, np.minimum, mn), "maximum": (None, np.maximum, mx), "fmin": (None, np.fmin, fmn), "fmax": (None, np.fmax, fmx), "fdiv": (O.floordiv, np.floor_divide, None), "pow": (O.pow, np.power, None), "mod": (O.mod, np.remainder, None)}
LOG = {"land": np.logical_and, "lor": np.logical_or, "lxor": np.logical_xor}
LOGP = {"land": lambda a, b: bool(a) and bool(b), "lor": lambda a, b: bool(a) or bool(b), "lxor": lambda a, b: bool(a) != bool(b)}
INPL = {"add": O.iadd, "sub": O.isub, "mul": O.imul, "div": O.itruediv, "and": O.iand, "or": O.ior, "xor": O.ixor}


def ref(op, a, b, d1, d2, res):
    """value of a op b; SKIP outside the claimed domain; res: the dtype in which the result has to be exact"""
    fl = np.dtype(res).kind == "f"
    k1, k2 = np.dtype(d1).kind, np.dtype(d2).kind
    if k1 in "iu" and a == sent(d1) or k2 in "iu" and b == sent(d2):
        if op in CMP or op in LOG or op in BIT:
            return SKIP
        return NAN if fl and op in ("add", "sub", "mul") and (k1 == "f" or k2 == "f") else SKIP
    if op in CMP:
        return bool(CMP[op][0](a, b))
    if op in LOG:
        return LOGP[op](a, b)
    if op in BIT:
        if fl or k1 == "f" or k2 == "f":
            return SKIP
        v = BIT[op][0](int(a), int(b))
        return v if rng(res, v) and not (k1 != k2 and "u" in (k1, k2) and (a < 0 or b < 0)) else SKIP
    if k1 == k2 == "b":
        return {"add": a or b, "mul": a and b, "minimum": a and b, "maximum": a or b}.get(op, SKIP)
    if op == "fdiv":
        if b == 0 or not abs(a) < 2**20 or not abs(b) < 2**20:
            return SKIP
        v = a // b
    elif op == "mod":
        if not (a >= 0 and b > 0 and abs(a) < 2**20 and abs(b) < 2**20) or "b" in (k1, k2):
            return SKIP
        v = a % b
    elif op == "pow":
        if not (0 <= b <= 5 and abs(a) <= 100 and math.isfinite(a)) or b != int(b):
            return SKIP
        v = a**b
    else:
        f = ARI[op][2]
        v = f(float(a), float(b)) if op == "div" else safe(f, a, b)
    if v is None:
        return SKIP
    if np.dtype(res).kind in "iu" and op != "div" and not rng(res, v):
        return SKIP
    return v


def close(g, w, tol):
    if isinstance(w, float) or isinstance(g, float):
        if w != w or g != g:
            return w != w and g != g
        if math.isinf(w) or math.isinf(g):
            return w == g
        return abs(g - w) <= tol * max(1.0, abs(w))
    return g == w


def lay(a, how):
    if how == "strided":
        b = np.zeros(2 * len(a), dtype=a.dtype)
        b[::2] = a
        return rt.FastArray(b)[::2]
    if how == "rev":
        return rt.FastArray(a[::-1].copy())[::-1]
    if how == "np":
        return a.copy()
    return rt.FastArray(a.copy())


def explore(mc):
    T = mc.thorough
    OPS = list(ARI) + list(CMP) + list(BIT) + list(LOG)

    def cmp(got, want, what, tol, **ctx):
        idx = [i for i, w in enumerate(want) if w is not SKIP]
        mc.eq(len(got), len(want), what + " length", **ctx)
        if len(got) == len(want):
            bad = [(i, got[i], want[i]) for i in idx if not close(got[i], want[i], tol)]
            mc.eq(bad, [], what, **ctx)
        mc.op()

    # ------------------------------------------------ array op array, every dtype pair and layout
    def run1(case):
        d1, d2, op = case
        p = list(itertools.product(alpha(d1), alpha(d2)))
        if op in ("mod", "fdiv"):
            # an integer remainder by zero is undefined in riptide_cpp
            p = [(a, b) for a, b in p if b not in (0, -1)]
        if op == "pow":
            p = [(a, b) for a, b in p if not b < 0]
        x, y = np.array([a for a, b in p], d1), np.array([b for a, b in p], d2)
        xs, ys = x.tolist(), y.tolist()
        res = np.result_type(d1, d2)
        want = [ref(op, a, b, d1, d2, res) for a, b in zip(xs, ys)]
        tol = 1e-5 if "float32" in (d1, d2) else 1e-12
        if all(w is SKIP for w in want):
            return
        pyop = ARI[op][0] if op in ARI else CMP[op][0] if op in CMP else BIT[op][0] if op in BIT else None
        npop = ARI[op][1] if op in ARI else CMP[op][1] if op in CMP else BIT[op][1] if op in BIT else LOG[op]
        for h1, h2 in (("c", "c"), ("c", "np"), ("np", "c"), ("strided", "c"), ("c", "strided"), ("rev", "c"), ("c", "rev"), ("strided", "rev")):
            for form, f in (("operator", pyop), ("ufunc", npop)):
                if f is None:
                    continue
                A, B = lay(x, h1), lay(y, h2)
                g = f(A, B)
                ctx = dict(d1=d1, d2=d2, op=op, h=(h1, h2), form=form)
                mc.eq(isinstance(g, rt.FastArray), True, "result is a FastArray", **ctx)
                mc.eq(raw(g).dtype.kind == "b", op in CMP or op in LOG or (d1 == d2 == "bool" and op != "div" and op not in ("pow", "fdiv", "mod")), "boolean result exactly for comparisons, logical and boolean operations", **ctx)
                if op in ("add", "sub", "mul", "and", "or", "xor", "minimum", "maximum") and d1 == d2:
                    mc.eq(str(raw(g).dtype), d1, "same dtype in and out", **ctx)
                cmp(raw(g).tolist(), want, "array op array", tol, **ctx)
                mc.eq(fp(A) == fp(rt.FastArray(x)) and fp(B) == fp(rt.FastArray(y)), True, "operands unchanged", **ctx)
        # out= and in place
        A = rt.FastArray(x.copy())
        o = rt.FastArray(np.zeros(len(x), raw(npop(A, rt.FastArray(y.copy()))).dtype))
        g = npop(A, rt.FastArray(y.copy()), out=o)
        mc.eq(np.shares_memory(raw(g), raw(o)), True, "out= returns the output", d1=d1, d2=d2, op=op)
        cmp(raw(o).tolist(), want, "out=", tol, d1=d1, d2=d2, op=op)
        if op in INPL and np.can_cast(res, d1, "same_kind") and d1 != "bool" and not (op == "div" and d1[0] != "f"):
            w2 = [w if w is SKIP or rng(d1, w if w == w and not math.isinf(w) else 0) else SKIP for w in want]
            for h1 in ("c", "strided", "rev"):
                for h2 in ("c", "rev"):
                    A = lay(x, h1)
                    keep = A
                    A = INPL[op](A, lay(y, h2))
                    if d1 == d2:
                        mc.eq(str(raw(A).dtype) == d1 and np.shares_memory(raw(A), raw(keep)), True, "in place keeps array and dtype", d1=d1, d2=d2, op=op, h=(h1, h2))
                    w3 = w2 if h1 == "c" else [SKIP if d2[0] in "iu" and b == sent(d2) else w for b, w in zip(ys, w2)]
                    cmp(raw(A).tolist(), w3, "in place", 1e-5 if d1 == "float32" else tol, d1=d1, d2=d2, op=op, h=(h1, h2))

    mc.run("array op array", [(a, b, o) for a in DTS for b in DTS for o in OPS], run1)

    # ------------------------------------------------ array op scalar (python and numpy scalars, either side)
    def run2(case):
        d1, op = case
        vals1 = alpha(d1)
        pyop = ARI[op][0] if op in ARI else CMP[op][0] if op in CMP else BIT[op][0] if op in BIT else None
        npop = ARI[op][1] if op in ARI else CMP[op][1] if op in CMP else BIT[op][1] if op in BIT else LOG[op]
        scal = [("py", True), ("py", False)] + [("py", v) for v in (0, 1, 2, 5, -1, -100, 127, 128, 200, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, -(2**31) + 1, 2**40, 2**53)] + [("py", float(v)) for v in (0, 1, 1.5, -2.5, 300, INF, NAN)]
        for d in DTS:
            scal += [(d, v) for v in alpha(d) if v == v and abs(v) < 2**60]
        x = np.array(vals1, d1)
        for sk, s in scal:
            if op in ("mod", "fdiv") and s in (0, -1) or op == "pow" and (s < 0 or d1[0] == "i"):
                continue
            d2 = sk if sk != "py" else "bool" if isinstance(s, bool) else "int64" if isinstance(s, int) else "float64"
            if sk != "py" and "uint64" in (d1, d2) and "i" in (d1[0], d2[0]):
                continue  # riptide_cpp computes these in float32
            sv = np.array([s], d2)[0] if sk != "py" else s
            k = "biuf".index(np.dtype(d1).kind)
            # the result is exact in the array's own dtype when the scalar is of the same or a lower kind
            tol = 1e-5 if "float32" in (d1, d2) else 1e-12
            if d1 == "float32":
                tol = 1e-5
            si = s if not isinstance(s, np.generic) else s.item()
            if d2 == "float32":
                si = float(np.float32(si))
            res = d1 if (k >= "biuf".index(np.dtype(d2).kind) and np.dtype(d1).kind != "u") or (np.dtype(d1).kind in "iu" and isinstance(si, int)) else np.result_type(d1, d2)
            for side in ("as", "sa"):
                want = []
                for a in x.tolist():
                    if isinstance(si, int) and not isinstance(si, bool) and np.dtype(d1).kind in "iu" and not (rng(d1, si) and si != sent(d1)) and op not in CMP:
                        want.append(SKIP)
                    elif d1 == "bool" and op not in CMP and op not in LOG:
                        want.append(SKIP if d2 != "bool" or op in ("sub", "div", "fdiv", "mod", "pow") else ref(op, *((a, si) if side == "as" else (si, a)), d1, d2, "bool"))
                    elif sk != "py" and d2[0] in "iu" and si == sent(d2):
                        want.append(SKIP)
                    elif sk == "py" and d2 == "int64" or d2 == "bool":
                        # a Python integer has no dtype: it is never missing
                        want.append(ref(op, a, si, d1, "bool" if isinstance(si, bool) else "object", res) if side == "as" else ref(op, si, a, "object", d1, res))
                    else:
                        want.append(ref(op, a, si, d1, d2, res) if side == "as" else ref(op, si, a, d2, d1, res))
                if op in ("mod", "fdiv") and side == "sa":
                    continue
                if all(w is SKIP for w in want):
                    continue
                for form, f in (("operator", pyop), ("ufunc", npop)):
                    if f is None:
                        continue
                    for h in ("c", "strided"):
                        A = lay(x, h)
                        g = f(A, sv) if side == "as" else f(sv, A)
                        ctx = dict(d1=d1, s=repr(sv), sk=sk, op=op, side=side, form=form, h=h)
                        mc.eq(isinstance(g, rt.FastArray), True, "result is a FastArray", **ctx)
                        cmp(raw(g).tolist(), want, "array op scalar", tol, **ctx)

    mc.run("array op scalar", [(a, o) for a in DTS for o in OPS], run2)

    # ------------------------------------------------ every length around the vector widths; broadcasting of one element
    def run3(case):
        d1, op, n = case
        al = [v for v in alpha(d1) if v == v and abs(v) <= 5] if d1 != "bool" else [True, False]
        x = np.array([al[(i * 7 + i // 3) % len(al)] for i in range(n)], d1)
        y = np.array([al[(i * 5 + 1 + i // 5) % len(al)] for i in range(n)], d1)
        npop = ARI[op][1] if op in ARI else CMP[op][1] if op in CMP else BIT[op][1] if op in BIT else LOG[op]
        res = d1
        want = [ref(op, a, b, d1, d1, res) for a, b in zip(x.tolist(), y.tolist())]
        for h in ("c", "strided", "rev"):
            cmp(raw(npop(lay(x, h), lay(y, "c"))).tolist(), want, "any length", 1e-5, op=op, d1=d1, n=n, h=h)
        if n:
            want = [ref(op, a, y.tolist()[0], d1, d1, res) for a in x.tolist()]
            cmp(raw(npop(lay(x, "c"), lay(y[:1], "c"))).tolist(), want, "broadcast of one element", 1e-5, op=op, d1=d1, n=n)
            want = [ref(op, y.tolist()[0], a, d1, d1, res) for a in x.tolist()]
            cmp(raw(npop(lay(y[:1], "c"), lay(x, "c"))).tolist(), want, "broadcast of one element on the left", 1e-5, op=op, d1=d1, n=n)
        # slices at every offset
        for k in range(min(n, 3)):
            want = [ref(op, a, b, d1, d1, res) for a, b in zip(x.tolist()[k:], y.tolist()[k:])]
            cmp(raw(npop(rt.FastArray(x)[k:], rt.FastArray(y)[k:])).tolist(), want, "offset slices", 1e-5, op=op, d1=d1, n=n, k=k)

    LEN = (0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65) if not T else tuple(range(0, 140))
    mc.run("lengths", [(d, o, n) for d in DTS for o in ("add", "mul", "eq", "lt", "and", "lor", "maximum") if not (o == "and" and d[0] == "f") for n in LEN], run3)

    # ------------------------------------------------ unary
    def sgn(v):
        return v if v != v else (v > 0) - (v < 0)

    def rnd(v):
        return v if not math.isfinite(v) else SKIP if v % 1 == 0.5 else float(np.round(v))

    UN = {
        "negative": (np.negative, O.neg, lambda v: -v, "if"), "absolute": (np.absolute, abs, abs, "iuf"), "invert": (np.invert, O.invert, lambda v: ~v, "i"),
        "floor": (np.floor, rt.floor, lambda v: v if not math.isfinite(v) else math.floor(v), "f"), "ceil": (np.ceil, rt.ceil, lambda v: v if not math.isfinite(v) else math.ceil(v), "f"),
        "trunc": (np.trunc, rt.trunc, lambda v: v if not math.isfinite(v) else math.trunc(v), "f"), "rint": (np.rint, None, rnd, "f"),
        "sign": (np.sign, lambda a: a.sign(), sgn, "iuf"), "sqrt": (np.sqrt, None, lambda v: SKIP if v != v else NAN if v < 0 else math.sqrt(v), "iuf"),
        "exp": (np.exp, None, lambda v: SKIP if v > 50 else NAN if v != v else math.exp(v), "f"), "log": (np.log, rt.log, lambda v: NAN if v != v or v < 0 else -INF if v == 0 else math.log(v), "f"),
        "log10": (np.log10, rt.log10, lambda v: NAN if v != v or v < 0 else -INF if v == 0 else math.log10(v), "f"),
        "logical_not": (np.logical_not, None, lambda v: not v, "biuf"), "signbit": (np.signbit, None, lambda v: SKIP if v != v else v < 0, "f"), "positive": (np.positive, O.pos, lambda v: v, "iuf"),
        "square": (np.square, None, lambda v: v * v, "iuf"), "reciprocal": (np.reciprocal, None, lambda v: SKIP if v == 0 else 1 / v, "f"), "cbrt": (np.cbrt, None, lambda v: SKIP if not math.isfinite(v) else float(np.cbrt(v)), "f"), "log2": (np.log2, None, lambda v: NAN if v != v or v < 0 else -INF if v == 0 else math.log2(v) if v < INF else INF, "f"), "exp2": (np.exp2, None, lambda v: SKIP if v > 50 else 2.0**v, "f"),
    }

    def run4(case):
        d, u = case
        npf, rf, pf, kinds = UN[u]
        if np.dtype(d).kind not in kinds:
            return
        al = alpha(d)
        if d[0] in "iu":
            al = [v for v in al if v != sent(d)]
        if u == "sqrt":
            al = [v for v in al if v < 2**40 and (d[0] == "f" or v >= 0)]
        if u == "square":
            al = [v for v in al if rng(d, v * v)]
        tol = 1e-2 if u == "sqrt" and d[0] != "f" else 1e-5 if d == "float32" or u == "cbrt" else 1e-12
        for n in (0, 1, len(al), 5 * len(al)):
            x = np.array((al * 5)[:n] if n != 1 else al[1:2], d)
            want = [pf(v) for v in x.tolist()]
            if d[0] in "iu" and u in ("floor", "ceil", "trunc", "rint"):
                continue
            for h in ("c", "strided", "rev"):
                for form, f in (("ufunc", npf), ("function", rf)):
                    if f is None:
                        continue
                    A = lay(x, h)
                    g = f(A)
                    mc.eq(isinstance(g, rt.FastArray), True, "unary result is a FastArray", u=u, d=d)
                    cmp(raw(g).tolist(), want, "unary", tol, u=u, d=d, h=h, form=form, n=n)
                    mc.eq(raw(A).tobytes() == x.tobytes(), True, "unary: operand unchanged", u=u, d=d, h=h)
                if n and u not in ("positive",):
                    o = rt.FastArray(np.zeros(n, raw(npf(rt.FastArray(x))).dtype))
                    mc.eq(np.shares_memory(raw(npf(lay(x, h), out=o)), raw(o)), True, "unary out=", u=u, d=d, h=h)
                    cmp(raw(o).tolist(), want, "unary out=", tol, u=u, d=d, h=h)

    mc.run("unary", [(d, u) for d in DTS for u in UN], run4)

    # ------------------------------------------------ isnan family
    FAM = {
        "isnan": lambda v, m: m, "isnotnan": lambda v, m: not m, "isnanorzero": lambda v, m: m or v == 0, "isfinite": lambda v, m: not m and not (isinstance(v, float) and math.isinf(v)),
        "isnotfinite": lambda v, m: m or (isinstance(v, float) and math.isinf(v)), "isinf": lambda v, m: isinstance(v, float) and math.isinf(v), "isnotinf": lambda v, m: not (isinstance(v, float) and math.isinf(v)),
    }

    def run5(case):
        d, x = case
        a = np.array(x, d)
        for how in ("c", "np") + (("strided", "rev") if len(x) > 1 else ()):
            A = lay(a, how)
            for n, f in FAM.items():
                want = [bool(f(v, v != v or (d[0] in "iu" and v == sent(d)))) for v in a.tolist()]
                g = getattr(rt, n)(A)
                mc.eq(raw(g).tolist(), want, n, d=d, how=how, x=x)
                if how != "np":
                    mc.eq(raw(getattr(A, n)()).tolist(), want, n + " method", d=d, how=how)
                    mc.eq(vals(getattr(A, n)(fancy=True)), [i for i, w in enumerate(want) if w], n + " fancy", d=d, how=how)
                mc.op(3)
            if how != "np":
                mis = [v != v or (d[0] in "iu" and v == sent(d)) for v in a.tolist()]
                mc.eq(raw(A.isna()).tolist(), mis, "isna", d=d, how=how)
                mc.eq(raw(A.notna()).tolist(), [not m for m in mis], "notna", d=d, how=how)
                if how != "c":
                    continue  # on a strided view np.isnan is NumPy's own
                mc.eq(raw(np.isnan(A)).tolist(), mis, "np.isnan", d=d, how=how)
                mc.eq(raw(np.isfinite(A)).tolist(), [not m and not (isinstance(v, float) and math.isinf(v)) for m, v in zip(mis, a.tolist())], "np.isfinite", d=d, how=how)
        if d[0] == "f":
            for v in a:
                for s in (v, float(v)):
                    for n, f in FAM.items():
                        mc.eq(bool(getattr(rt, n)(s)), bool(f(float(v), v != v)), n + " of a scalar", v=float(v), d=d)

    def space5():
        for d in INTS:
            al = (0, 1, sent(d), (np.iinfo(d).max if d[0] == "i" else 0))
            for n in range(0, 4):
                for x in itertools.product(al, repeat=n):
                    yield d, x
        for d in FLTS:
            for n in range(0, 4):
                for x in itertools.product((0.0, 1.5, NAN, INF, -INF), repeat=n):
                    yield d, x

    mc.run("isnan family", list(space5()), run5)

    # ------------------------------------------------ where
    def run6(case):
        cond, dx, dy, kx, ky, ck = case
        n = len(cond)

        def operand(d, k, off):
            if d in ("S", "U"):
                base = [f"{'ab'[off]}{'x' * (i % (2 + off))}" for i in range(n)]
                if k == "s":
                    return base[0] if d == "U" else base[0].encode(), [base[0]] * n
                a = rt.FastArray(np.array(base, d), unicode=True)
                return (a if k != "1" else a[:1]), (base if k != "1" else base[:1] * n)
            al = [v for v in alpha(d) if v == v and abs(v) < 2**40 and not (d[0] in "iu" and v == sent(d))] if d != "bool" else [True, False]
            base = [al[(i * 3 + off) % len(al)] for i in range(n)]
            a = np.array(base, d)
            if k == "s":
                return base[0], [base[0]] * n
            if k == "1":
                return rt.FastArray(a[:1]), base[:1] * n
            if k == "l":
                return base, base
            return lay(a, k), a.tolist()

        X, xs = operand(dx, kx, 0)
        Y, ys = operand(dy, ky, 1)
        c = np.array(cond, bool)
        C = {"b": rt.FastArray(c), "np": c, "i": rt.FastArray(c.astype("int32") * 3), "l": list(map(bool, cond)), "strided": lay(c, "strided")}[ck]
        want = [a if m else b for m, a, b in zip(cond, xs, ys)]
        g = rt.where(C, X, Y)
        mc.eq(isinstance(g, np.ndarray), True, "where returns an array")
        gl = [v.decode() if isinstance(v, bytes) else v for v in raw(g).tolist()]
        mc.eq(len(gl), n, "where length", case=case)
        mc.eq([i for i in range(min(n, len(gl))) if not close(gl[i], want[i], 1e-6)], [], "where", case=case, g_=gl, w_=want)
        if ky != "l" and isinstance(X, rt.FastArray) and len(X) == n and n > 1:
            gl = [v.decode() if isinstance(v, bytes) else v for v in raw(X.where(C, Y)).tolist()]
            mc.eq([i for i in range(n) if not close(gl[i], want[i], 1e-6)], [], "FastArray.where", case=case, g_=gl, w_=want)
        mc.op(2)

    def space6():
        conds = [c for n in (1, 2, 3) for c in itertools.product((True, False), repeat=n)]
        num = ["bool", "int8", "int32", "int64", "uint8", "uint64", "float32", "float64"] if not T else DTS
        for c in conds:
            for dx in num:
                for dy in num:
                    if {dx, dy} == {"uint64", "int64"} or (dx == "bool") != (dy == "bool"):
                        continue
                    for kx, ky in (("c", "c"), ("c", "s"), ("s", "c"), ("c", "1"), ("1", "c"), ("s", "s"), ("strided", "c"), ("c", "rev"), ("l", "c")):
                        yield c, dx, dy, kx, ky, "b"
            for d in ("S", "U"):
                for e in ("S", "U"):
                    for kx, ky in (("c", "c"), ("c", "s"), ("s", "c"), ("s", "s"), ("c", "1")):
                        yield c, d, e, kx, ky, "b"
            for ck in ("np", "i", "l", "strided"):
                for d in ("int32", "float64", "U"):
                    yield c, d, d, "c", "c", ck
                    yield c, d, d, "s", "c", ck
        for n in (16, 33, 65):
            for d in num:
                for k in range(4):
                    yield tuple((i * 5 + k) % 3 == 0 for i in range(n)), d, d, "c", "c", "b"

    mc.run("where", list(space6()), run6)

    def run6b(case):
        cond, xs, ys = case
        C = rt.FastArray(np.array(cond, bool))
        want = [a if m else b for m, a, b in zip(cond, xs, ys)]
        g = rt.where(C, rt.Cat(list(xs)), rt.Cat(list(ys)))
        mc.eq(vals(g), want, "where of two Categoricals", case=case)
        mc.eq(isinstance(g, rt.Cat), True, "where of two Categoricals is a Categorical")
        mc.eq(vals(rt.where(C, rt.Cat(list(xs)), rt.FastArray(list(ys)))), want, "where of a Categorical and strings", case=case)
        mc.eq(vals(rt.where(C, rt.FastArray(list(xs)), rt.Cat(list(ys)))), want, "where of strings and a Categorical", case=case)
        mc.op(3)

    L = ("a", "b", "cc")
    mc.run("where Categorical", [(c, x, y) for n in (2, 3) for c in itertools.product((True, False), repeat=n) for x in itertools.product(L, repeat=n) for y in itertools.product(L[:2] + ("d",), repeat=n)][:: 1 if T else 3], run6b)

    # ------------------------------------------------ masks
    MO = {"mask_or": lambda v: any(v), "mask_and": lambda v: all(v), "mask_xor": lambda v: sum(v) % 2 == 1, "mask_andnot": lambda v: v[0] and not any(v[1:])}

    def run7(case):
        ms = case
        n = len(ms[0])
        for nm, f in MO.items():
            want = [bool(f([m[i] for m in ms])) for i in range(n)]
            for how in ("c", "np"):
                A = [lay(np.array(m, bool), how) for m in ms]
                mc.eq(raw(getattr(rt, nm)(*A)).tolist(), want, nm, case=ms)
                mc.eq(raw(getattr(rt, nm)(A)).tolist(), want, nm + " list", case=ms)
                mc.eq(raw(getattr(rt, nm)(tuple(A))).tolist(), want, nm + " tuple", case=ms)
                if len(ms) > 1:
                    mc.eq([raw(a).tolist() for a in A], [list(m) for m in ms], nm + ": operands unchanged", case=ms)
            A = [rt.FastArray(np.array(m, bool)) for m in ms]
            g = getattr(rt, nm + "i")(*A)
            mc.eq(g is A[0], True, nm + "i returns its first argument")
            mc.eq(raw(A[0]).tolist(), want, nm + "i", case=ms)
            mc.eq([raw(a).tolist() for a in A[1:]], [list(m) for m in ms[1:]], nm + "i: other operands unchanged", case=ms)
            mc.op(4)

    def space7():
        for n in (0, 1, 2, 3):
            for k in (1, 2, 3, 4):
                if n * k <= (6 if not T else 9):
                    for b in itertools.product((False, True), repeat=n * k):
                        yield tuple(tuple(b[j * n : (j + 1) * n]) for j in range(k))

    mc.run("masks", list(space7()), run7)

    # ------------------------------------------------ strings
    W = ["", "a", "b", "ab", "ba", "abc"]

    def run8(case):
        x, y, dx, dy = case
        for A in (rt.FastArray(np.array(x, dx), unicode=True), lay2(np.array(x, dx))):
            for nm, (pf, nf) in CMP.items():
                want = [pf(a, b) for a, b in zip(x, y)]
                B = rt.FastArray(np.array(y, dy), unicode=True)
                if dx == dy:
                    mc.eq(raw(pf(A, B)).tolist(), want, "string compare", case=case, nm=nm)
                    mc.eq(raw(getattr(A, nm)(B)).tolist(), want, "string compare method", case=case, nm=nm)
                if nm in ("eq", "ne"):
                    for s in W:
                        w = [pf(a, s) for a in x]
                        mc.eq(raw(pf(A, s)).tolist(), w, "string compare to str", case=case, nm=nm, s=s)
                        if dx[0] == "S":
                            mc.eq(raw(pf(A, s.encode())).tolist(), w, "string compare to bytes", case=case, nm=nm, s=s)
                mc.op()
        A = rt.FastArray(np.array(x, dx), unicode=True)
        if dx == dy:
            g = A + rt.FastArray(np.array(y, dy), unicode=True)
            mc.eq(vals(g), [a + b for a, b in zip(x, y)], "string concatenation", case=case)
            mc.eq(vals(A + "zz"), [a + "zz" for a in x], "string concatenation with a str", case=case)

    def lay2(a):
        b = np.zeros(2 * len(a), dtype=a.dtype)
        b[::2] = a
        return rt.FastArray(b, unicode=True)[::2]

    mc.run("strings", [((a, b), (c, e), dx, dy) for a in W for b in W for c in W for e in W for dx, dy in (("S3", "S3"), ("U3", "U3"))][:: 1 if T else 1], run8)

    # ------------------------------------------------ between, clip, reduce
    def run9(case):
        d, x = case
        a = np.array(x, d)
        A = rt.FastArray(a.copy())
        al = sorted(set(v for v in x if v == v) | {0, 1})
        for lo, hi in itertools.product(al, repeat=2):
            for il, ih in itertools.product((True, False), repeat=2):
                want = [(v >= lo if il else v > lo) and (v <= hi if ih else v < hi) for v in x]
                mc.eq(raw(A.between(lo, hi, il, ih)).tolist(), want, "between", x=x, lo=lo, hi=hi, il=il, ih=ih, d=d)
                mc.eq(raw(A.between([lo] * len(x), np.array([hi] * len(x)), il, ih)).tolist(), want, "between arrays", x=x, lo=lo, hi=hi, d=d)
            mc.eq(raw(A.between(lo, hi)).tolist(), [lo <= v < hi for v in x], "between default", x=x, lo=lo, hi=hi, d=d)
            if lo <= hi:
                w = [v if v != v else min(max(v, lo), hi) for v in x]
                cmp(raw(A.clip(lo, hi)).tolist(), w, "clip", 1e-6, x=x, lo=lo, hi=hi, d=d)
            cmp(raw(A.clip_lower(lo)).tolist(), [v if v != v else max(v, lo) for v in x], "clip_lower", 1e-6, x=x, lo=lo, d=d)
            cmp(raw(A.clip_upper(lo)).tolist(), [v if v != v else min(v, lo) for v in x], "clip_upper", 1e-6, x=x, lo=lo, d=d)
            mc.op(7)
        if x:
            for nm, f, pf in (("add", np.add, lambda l: sum(l)), ("maximum", np.maximum, lambda l: NAN if any(v != v for v in l) else max(l)), ("minimum", np.minimum, lambda l: NAN if any(v != v for v in l) else min(l)), ("multiply", np.multiply, lambda l: math.prod(l))):
                mc.eq(close(float(f.reduce(A)), float(pf(list(x))), 1e-6), True, nm + ".reduce", x=x, d=d)
                mc.eq(close(float(f.reduce(A, keepdims=True)[0]), float(pf(list(x))), 1e-6), True, nm + ".reduce keepdims", x=x, d=d)
                w = [float(pf(list(x[: i + 1]))) for i in range(len(x))]
                cmp([float(v) for v in f.accumulate(A)], w, nm + ".accumulate", 1e-6, x=x, d=d)
            mc.eq([[bool(c) for c in r] for r in np.equal.outer(A, A)], [[p == q for q in x] for p in x], "equal.outer", x=x)
            msk = np.array([i % 2 == 0 for i in range(len(x))])
            g = np.add(A, 1, where=rt.FastArray(msk), out=A.copy())
            cmp(raw(g).tolist(), [v + 1 if m else v for v, m in zip(x, msk)], "where= keyword", 1e-6, x=x, d=d)
        # bitcount
        if d[0] in "iu":
            mc.eq(raw(rt.bitcount(A)).tolist(), [bin(int(v) & (2 ** (8 * a.itemsize) - 1)).count("1") for v in x], "bitcount", x=x, d=d)
            mc.eq(raw(rt.logical(A)).tolist(), [bool(v) for v in x], "logical", x=x, d=d)

    def space9():
        for d, al in (("int32", (0, 1, -3, 5)), ("int8", (0, 2, -3, 4)), ("uint8", (0, 1, 5)), ("int64", (0, 1, -3)), ("uint64", (0, 1, 9)), ("float64", (0.0, 1.5, -3.0, NAN, INF)), ("float32", (0.0, 1.5, NAN))):
            for n in range(0, 4 if not T else 5):
                for x in itertools.product(al, repeat=n):
                    yield d, x

    mc.run("between, clip and ufunc methods", list(space9()), run9)

    # ------------------------------------------------ whole-Dataset operators
    DARITH = ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor", "lshift", "rshift")
    DCMP = ("eq", "ne", "lt", "le", "gt", "ge")

    def scal(x):
        return None if isinstance(x, float) and x != x else float(x) if not isinstance(x, (bool, np.bool_, str, bytes)) else x

    def lst(a):
        return [scal(x) for x in raw(a).tolist()]

    def run10(case):
        kind, form, op, x, y = case
        n = len(x)
        D = {"i": ("int32", "int64"), "f": ("float64", "float32"), "b": ("bool", "bool")}[kind]
        mk = lambda: {"a": np.array(x, D[0]), "s": np.array([b"p", b"q", b"r", b"p"][:n]), "b": np.array(x[::-1], D[1]), "c": None}
        def make():
            d = {}
            for k, v in mk().items():
                d[k] = rt.Categorical(["u", "v", "u", "v"][:n]) if k == "c" else rt.FastArray(v.copy())
            return rt.Dataset(d)
        ya, yb = np.array(y, D[0]), np.array(y[::-1], D[1])
        if op in DCMP:
            other = rt.Dataset({"b": rt.FastArray(yb.copy()), "a": rt.FastArray(ya.copy()), "s": rt.FastArray(np.array([b"p", b"p", b"zz", b"q"][:n]))})
            ds = make()
            r = getattr(O, op)(ds, other)
            for k, v, o in (("a", mk()["a"], ya), ("b", mk()["b"], yb), ("s", mk()["s"], np.array([b"p", b"p", b"zz", b"q"][:n]))):
                mc.eq(raw(r[k]).tolist(), [bool(getattr(O, op)(p, q)) for p, q in zip(v.tolist(), o.tolist())], f"Dataset {op} Dataset", k=k, case=case)
            mc.op()
            return
        if form == "scalar":
            lhs, ta, tb = y[0], y[0], y[0]
        elif form == "list":
            lhs, ta, tb = list(y), np.array(list(y)), np.array(list(y))
        elif form == "array":
            lhs, ta, tb = ya.copy(), ya, ya
        elif form == "FastArray":
            lhs, ta, tb = rt.FastArray(ya.copy()), ya, ya
        elif form == "column":
            lhs, ta, tb = ya.copy().reshape(n, 1), ya, ya
        elif form == "Dataset":
            lhs, ta, tb = rt.Dataset({"b": rt.FastArray(yb.copy()), "z": rt.FastArray(ya.copy()), "a": rt.FastArray(ya.copy())}), ya, yb
        else:
            lhs, ta, tb = rt.Struct({"b": y[0], "q": 3}), None, y[0]
        f = getattr(O, op + "_" if op in ("and", "or") else op)
        for dirn in ("fwd", "refl", "in"):
            if dirn == "refl" and op in ("lshift", "rshift"):
                continue
            ds = make()
            m = mk()
            want = {}
            ok = True
            for k, t in (("a", ta), ("b", tb)):
                if t is None:
                    want[k] = [scal(v) for v in m[k].tolist()]
                    continue
                with np.errstate(all="ignore"):
                    try:
                        w = f(m[k], t) if dirn != "refl" else f(t, m[k])
                        fa = rt.FastArray(m[k].copy())
                        fb = rt.FastArray(t.copy()) if isinstance(t, np.ndarray) else t
                        z = getattr(fa, f"__{'r' if dirn == 'refl' else ''}{op}__")(fb)
                        if z is NotImplemented:
                            ok = False
                            break
                    except (TypeError, ValueError):
                        ok = False
                        break
                if dirn == "in" and np.asarray(w).dtype.kind == "f" and m[k].dtype.kind != "f":
                    ok = False
                    break
                if dirn == "in" and w.dtype != m[k].dtype:
                    w = w.astype(m[k].dtype)
                want[k] = lst(z) if dirn != "in" else [scal(v) for v in w.tolist()]
            if not ok:
                continue
            for k in ("s",):
                want[k] = [v for v in m[k].tolist()]
            b4 = dsvals(lhs) if isinstance(lhs, rt.Dataset) else None
            if dirn == "fwd":
                r = f(ds, lhs)
            elif dirn == "refl":
                r = getattr(ds, f"__r{op}__")(lhs)
            else:
                r = getattr(O, "i" + op)(ds, lhs)
            mc.eq(list(r.keys()), ["a", "s", "b", "c"], f"columns after Dataset {op} {dirn}", case=case)
            got = {k: lst(r[k]) if k != "s" else raw(r[k]).tolist() for k in want}
            mc.eq(got, want, f"Dataset {op} {dirn} {form}", case=case)
            mc.eq([str(v) for v in r["c"].expand_array.astype("U")], ["u", "v", "u", "v"][:n], "Categorical column untouched", case=case)
            if dirn != "in":
                mc.eq({k: lst(ds[k]) for k in ("a", "b")}, {k: [scal(v) for v in m[k].tolist()] for k in ("a", "b")}, f"operand of Dataset {op} {dirn}", case=case)
            if b4 is not None:
                mc.eq(dsvals(lhs), b4, "other operand", case=case)
            mc.op()
        if form == "scalar" and op == "add":
            for u in ("neg", "pos", "abs", "invert"):
                if (u == "invert") == (kind == "f") or (kind == "b" and u != "invert"):
                    continue
                r = getattr(O, u)(make())
                for k in ("a", "b"):
                    mc.eq(lst(r[k]), [scal(v) for v in getattr(O, u)(mk()[k]).tolist()], f"Dataset {u}", case=case, k=k)
                mc.eq(raw(r["s"]).tolist(), mk()["s"].tolist(), f"Dataset {u} string", case=case)
                mc.op()

    def space10():
        AL = {"i": (1, 2, 5), "f": (0.5, 3.0, -2.0, NAN), "b": (False, True)}
        for kind in "ifb":
            for op in DARITH + DCMP:
                if kind == "f" and op in DARITH[7:] or kind == "b" and op not in ("and", "or", "xor") + DCMP:
                    continue
                for form in ("scalar", "list", "array", "FastArray", "column", "Dataset", "Struct") if op in DARITH else ("Dataset",):
                    if kind == "f" and form not in ("scalar", "array", "Dataset"):
                        continue
                    n = 2 if kind != "b" else 3
                    xs = list(itertools.product(AL[kind], repeat=n))
                    for x in xs:
                        for y in xs:
                            yield kind, form, op, x, y

    mc.run("Dataset operators", list(space10()), run10)
