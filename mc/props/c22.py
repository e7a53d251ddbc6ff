"""C22 Vectorised string operations equal the per-element string operation."""
import itertools, re, warnings
import numpy as np
import riptable as rt
from ..model import *

PROPERTY = "C22"
warnings.simplefilter("ignore")


def words(alpha, n, lo=0):
    return ["".join(p) for k in range(lo, n + 1) for p in itertools.product(alpha, repeat=k)]


def up(s):
    return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)


def low(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def mk(l, k, lay="c"):
    """array of the strings; k: 'S', 'U' (natural width) or e.g. 'S6' (padded)"""
    a = np.array(l, dtype=k if l or len(k) > 1 else k + "2")
    if lay == "strided":
        b = np.empty(2 * len(l), dtype=a.dtype)
        b[:] = "zz"
        b[::2] = a
        return rt.FastArray(b, unicode=True)[::2]
    if lay == "rev":
        return rt.FastArray(a[::-1].copy(), unicode=True)[::-1]
    return rt.FastArray(a, unicode=True)


def width(l, k):
    return int(k[1:]) if len(k) > 1 else (max([len(x) for x in l] + [1]) if l else 2)


def any_of(s, p):
    return min([i for i, c in enumerate(s) if c in p], default=-1)


REGEX = ["a", "^a", "b$", "a|b", "ab+", "[^a]", "(?i)B", "a.b", ".", "b*", "^$", "(a)b"]
REPL = ["", "X", "ab", "[\\g<0>]"]
EXTRACT = ["a", "(a)", "(a)(b)", "(?P<p>a)(b)?", "([ab]+)", "(?P<q>b)", "(a)|(b)", "a(b?)", "(a*)(b*)"]


class Subject:
    """one way to present a list of strings, with the projection of the results"""

    def __init__(self, mc, l, k, lay):
        self.mc, self.l, self.k, self.lay = mc, l, k, lay
        self.a = mk(l, k, lay)

    def s(self):
        return self.a.str

    def eq(self, got, f, what, **ctx):
        mc = self.mc
        w = [f(x) for x in self.l]
        mc.eq(vals(got), w, what, key=(what.split("(")[0], self.k[0], self.lay, "e" if not self.l else ""), l=self.l[:8], k=self.k, lay=self.lay, **ctx)


def explore(mc):
    th = mc.thorough

    def base_ops(S):
        l = S.l
        S.eq(S.s().upper, up, "upper")
        S.eq(S.s().lower, low, "lower")
        S.eq(S.s().reverse, lambda x: x[::-1], "reverse")
        S.eq(S.s().strlen, len, "strlen")
        S.eq(S.s().removetrailing(), lambda x: x.rstrip(" "), "removetrailing()")
        for c in ("b", "a"):
            S.eq(S.s().removetrailing(ord(c)), lambda x: x.rstrip(c), f"removetrailing({c})")

    def pattern_ops(S, p):
        for q in ((p, p.encode()) if S.k[0] == "S" and p else (p,)):
            S.eq(S.s().contains(q), lambda x: p in x, f"contains({p})")
            S.eq(S.s().startswith(q), lambda x: x.startswith(p), f"startswith({p})")
            S.eq(S.s().endswith(q), lambda x: x.endswith(p), f"endswith({p})")
            if p:
                S.eq(S.s().index(q), lambda x: x.find(p), f"index({p})")
                S.eq(S.s().index_any_of(q), lambda x: any_of(x, p), f"index_any_of({p})")

    def replace_ops(S, p, news):
        for n in news:
            S.eq(S.s().replace(p, n), lambda x: x.replace(p, n), f"replace({p},{n})")

    def char_ops(S, poss):
        w = width(S.l, S.k)
        for p in poss:
            if all((-len(x) <= p < 0) or (0 <= p < len(x)) for x in S.l) and S.l:
                S.eq(S.s().char(p), lambda x: x[p], f"char({p})")
                S.eq(S.s().substr[p], lambda x: x[p], f"substr[{p}]")
            elif p >= w and S.l:
                S.mc.raises(lambda: S.s().char(p), f"char({p}) beyond the width", ValueError)

    def substr_ops(S, bounds):
        for i in bounds:
            S.eq(S.s().substr(i), lambda x: x[:i], f"substr({i})")
            S.eq(S.s().substr[i:], lambda x: x[i:], f"substr[{i}:]")
            S.eq(S.s().substr[:i], lambda x: x[:i], f"substr[:{i}]")
            for j in bounds:
                S.eq(S.s().substr(i, j), lambda x: x[i:j], f"substr({i},{j})")
                S.eq(S.s().substr[i:j], lambda x: x[i:j], f"substr[{i}:{j}]")

    def regex_ops(S, au=(True, False)):
        for r in REGEX:
            for u in au:
                kw = {} if u is None else {"apply_unique": u}
                S.eq(S.s().regex_match(r, **kw), lambda x: bool(re.search(r, x)), f"regex_match({r})", u=u)
                for n in REPL:
                    S.eq(S.s().regex_replace(r, n, **kw), lambda x: re.sub(r, n, x), f"regex_replace({r},{n})", u=u)

    def grp(r, x, i, fill):
        m = re.search(r, x)
        if not m:
            return fill
        if re.compile(r).groups == 0:
            return m.group(0)
        return fill if m.group(i + 1) is None else m.group(i + 1)

    def extract_ops(S, au=(True, False), blank=lambda v: v):
        for r in EXTRACT:
            c = re.compile(r)
            n = max(c.groups, 1)
            nm = [f"group_{i}" for i in range(n)]
            for a, b in c.groupindex.items():
                nm[b - 1] = a
            for u in au:
                kw = {} if u is None else {"apply_unique": u}
                for fill in ("", "zz"):
                    for ex in (None, True, False):
                        for names in (None, ["n%d" % i for i in range(n)]):
                            if ex is False and n > 1:
                                S.mc.raises(lambda: S.s().extract(r, expand=ex, fillna=fill, names=names, **kw), "extract(expand=False) of several groups", ValueError)
                                continue
                            got = S.s().extract(r, expand=ex, fillna=fill, names=names, **kw)
                            wide = ex if ex is not None else (n > 1 or names is not None or bool(c.groupindex))
                            S.mc.eq(isinstance(got, rt.Dataset), bool(wide), "extract result type", r=r, ex=ex)
                            if isinstance(got, rt.Dataset):
                                S.mc.eq(list(got.keys()), names or nm, "extract column names", r=r)
                                for i, col in enumerate(got.values()):
                                    S.eq(col, lambda x: grp(r, x, i, fill), f"extract({r})", i=i, fill=fill, u=u)
                            else:
                                S.eq(got, lambda x: grp(r, x, 0, fill), f"extract({r})", fill=fill, u=u)

    # ------------------------------------------------------------ every small array
    W2 = words("ab", 2)
    LISTS = [list(x) for x in seqs(W2, 2)] + [["a", "", "bba"], ["", "", ""], ["abab", "b"], ["aaa", "aa", "a", ""]]
    if th:
        LISTS += [list(x) for x in itertools.product(words("ab", 2, 1), repeat=3)] + [[x] for x in words("ab", 5)]
    PATS = words("ab", 3, 1) if th else words("ab", 2, 1) + ["aba", "abb", "bbbbbbb"]

    def small(case):
        l, k, lay = case
        S = Subject(mc, l, k, lay)
        before = plain(S.a)
        base_ops(S)
        for p in [""] + PATS:
            pattern_ops(S, p)
        for p in PATS:
            replace_ops(S, p, ("", "a", "b", "ab", "bab"))
        char_ops(S, range(-4, 8))
        substr_ops(S, (-3, -1, 0, 1, 2, 5))
        for p in ("a", "b", "ab"):
            for inc in (False, True):
                S.eq(S.s().substr_char_stop(p, inclusive=inc), lambda x: x if p not in x else x[: x.find(p) + (len(p) if inc else 0)], f"substr_char_stop({p})", inc=inc)
        mc.eq(plain(S.a), before, "input unchanged", l=l, k=k, lay=lay)
        mc.raises(lambda: S.s().replace("", "a"), "replace of the empty string", ValueError)

    KS = ["S", "U", "S6", "U6"]
    mc.run("small arrays", ((l, k, lay) for l in LISTS for k in KS for lay in ("c", "strided", "rev")
                            if lay == "c" or (k in ("S", "U") and len(l) in (0, 1, 2, 3) and (th or sum(map(len, l)) % 2 == 0))), small)

    # ------------------------------------------------------------ per-element bounds
    def vector(case):
        l, k, lo, hi = case
        S = Subject(mc, l, k, "c")
        a = S.a
        mc.eq(plain(a.str.substr(list(lo), list(hi))), [x[i:j] for x, i, j in zip(l, lo, hi)], "substr(arrays)", l=l, lo=lo, hi=hi)
        mc.eq(plain(a.str.substr[np.array(lo): np.array(hi)]), [x[i:j] for x, i, j in zip(l, lo, hi)], "substr[arrays]", l=l, lo=lo, hi=hi)
        mc.eq(plain(a.str.substr[np.array(lo):]), [x[i:] for x, i in zip(l, lo)], "substr[array:]", l=l, lo=lo)
        mc.eq(plain(a.str.substr(2, np.array(hi))), [x[2:j] for x, j in zip(l, hi)], "substr(int, array)", l=l, hi=hi)
        if all(-len(x) <= i < len(x) for x, i in zip(l, lo)):
            mc.eq(plain(a.str.char(list(lo))), [x[i] for x, i in zip(l, lo)], "char(list)", l=l, lo=lo)
            mc.eq(plain(a.str.substr[np.array(lo)]), [x[i] for x, i in zip(l, lo)], "substr[array]", l=l, lo=lo)
        mc.raises(lambda: a.str.char([0] * (len(l) + 1)), "char with a vector of the wrong length", ValueError)

    B = (-3, -1, 0, 1, 2, 4)
    mc.run("per-element positions", ((l, k, lo, hi) for l in (["abc", "d"], ["ab", "bcde"]) for k in ("S", "U") for lo in itertools.product(B, repeat=2) for hi in itertools.product(B, repeat=2)), vector)

    # ------------------------------------------------------------ regular expressions
    RL = [list(x) for x in seqs(["", "a", "ab", "ba"], 2)] + [["ab", "ab", "b", "ab"], ["aXb", "abb", "bAb", "B"]]

    def regex(case):
        l, k, lay = case
        S = Subject(mc, l, k, lay)
        regex_ops(S, (True, False, None))
        extract_ops(S, (True, False, None))

    mc.run("regular expressions", ((l, k, lay) for l in RL for k in ("S", "U", "S5") for lay in ("c", "strided") if lay == "c" or k == "S"), regex)

    # ------------------------------------------------------------ character classes
    def chars(case):
        k, lo = case
        top = 256 if k == "U" else 127
        cs = [chr(c) for c in range(lo, min(lo + 32, top)) if c]
        l = [x for c in cs for x in (c, "m" + c, c + "M")]
        if k == "U":
            l += ["\u4e2d", "\u0436Z", "\U0001f600z"]
        S = Subject(mc, l, k, "c")
        base_ops(S)
        for c in cs[::1]:
            if c.strip() == c:
                S.eq(S.s().contains(c), lambda x: c in x, f"contains chr", c=ord(c))
                S.eq(S.s().index(c), lambda x: x.find(c), f"index chr", c=ord(c))
                S.eq(S.s().replace(c, "qq"), lambda x: x.replace(c, "qq"), "replace chr", c=ord(c))
        substr_ops(S, (0, 1, -1))

    mc.run("every character", ((k, lo) for k, top in (("S", 128), ("U", 256)) for lo in range(0, top, 32)), chars)

    # ------------------------------------------------------------ arrays on both sides of the parallel threshold
    ALLW = words("ab", 3) + ["aB c", " ", "Ab "]

    def big(case):
        k, n, op = case
        l = [ALLW[i % len(ALLW)] for i in range(n)]
        S = Subject(mc, l, k, "c")
        if op == "base":
            base_ops(S)
        elif op == "sub":
            substr_ops(S, (0, 1, -1))
            S.eq(S.s().char(0) if False else S.s().substr_char_stop("b"), lambda x: x if "b" not in x else x[: x.find("b")], "substr_char_stop")
        elif op == "re":
            S.eq(S.s().regex_match("^a"), lambda x: bool(re.search("^a", x)), "regex_match")
            S.eq(S.s().regex_replace("a", "xy"), lambda x: x.replace("a", "xy"), "regex_replace")
        else:
            pattern_ops(S, op)
            replace_ops(S, op, ("", "b", "bab"))

    SIZES = (2499, 2500, 2501, 3333, 10000, 10001) if not th else (2499, 2500, 2501, 3333, 9999, 10000, 10001, 40003)
    mc.run("size thresholds", ((k, n, op) for k in ("S", "U") for n in SIZES for op in ("base", "sub", "re", "a", "ab", "bb", "aba")), big)

    # ------------------------------------------------------------ Categoricals
    class CS(Subject):
        def __init__(self, l, k, how):
            self.mc, self.k, self.lay = mc, k, how
            lab = [x for x in l if x is not None]
            if how == "filter":
                self.a = rt.Categorical(mk([x if x is not None else "zz" for x in l], k), filter=rt.FastArray([x is not None for x in l]))
            elif how == "codes":
                u = sorted(set(lab)) + ["unused"]
                self.a = rt.Categorical(np.array([0 if x is None else u.index(x) + 1 for x in l], dtype="int8"), mk(u, k))
            elif how == "base0":
                self.a = rt.Categorical(mk(l, k), base_index=0)
            else:
                u = sorted(set(lab), reverse=True)
                self.a = rt.Categorical(mk(l, k), mk(u, k) if u else None, ordered=False)
            self.l = l

        def eq(self, got, f, what, **ctx):
            g = vals(got)
            isb = isinstance(got, np.ndarray) and got.dtype == bool
            w = [(False if isb else None) if x is None else f(x) for x in self.l]
            mc.eq(g, w, "Categorical " + what, key=(what.split("(")[0], self.k[0], self.lay), l=self.l, k=self.k, how=self.lay, **ctx)

    def cat(case):
        l, k, how = case
        S = CS(l, k, how)
        before = vals(S.a)
        base_ops(S)
        for p in ("a", "b", "ab", "aa"):
            pattern_ops(S, p)
            replace_ops(S, p, ("", "a", "bab"))
        substr_ops(S, (-2, 0, 1, 2))
        lab = [x for x in l if x is not None]
        cats = [x.decode() if isinstance(x, bytes) else x for x in S.a.category_array.tolist()]
        for p in (-1, 0, 1):
            if cats and all(-len(x) <= p < len(x) for x in cats):
                S.eq(S.s().char(p), lambda x: x[p], f"char({p})")
        for r in ("a", "^b", "ab?"):
            S.eq(S.s().regex_match(r), lambda x: bool(re.search(r, x)), f"regex_match({r})")
            for n in ("", "xy"):
                S.eq(S.s().regex_replace(r, n), lambda x: re.sub(r, n, x), f"regex_replace({r},{n})")
        extract_ops(S, (None,))
        mc.eq(vals(S.a), before, "Categorical unchanged", l=l, how=how)

    CL = [list(x) for x in seqs(["a", "ab", "bba", None], 3, 1)] + [["", "a", "b", ""], ["aa", "b", "aa", None, "b"]]
    mc.run("Categoricals", ((l, k, how) for l in CL for k in ("S", "U") for how in ("filter", "codes", "base0", "given")
                            if ((None in l) == (how in ("filter", "codes")) or how == "codes") and any(x is not None for x in l)), cat)

    # ------------------------------------------------------------ in-place variants
    def inplace(case):
        l, k = case
        a = mk(l, k)
        r = a.str.upper_inplace
        mc.eq((plain(r), plain(a)), ([up(x) for x in l], [up(x) for x in l]), "upper_inplace", l=l, k=k)
        a = mk(l, k)
        r = a.str.reverse_inplace
        mc.eq((plain(r), plain(a)), ([x[::-1] for x in l], [x[::-1] for x in l]), "reverse_inplace", l=l, k=k)

    mc.run("in-place", ((list(l), k) for l in seqs(["", "a", "abC", "Zz"], 3) for k in ("S", "U", "S6")), inplace)
