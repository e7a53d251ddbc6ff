"""C18 Calendar fields and time-zone conversion match the civil calendar."""
import bisect, calendar, datetime as D, itertools, warnings, zoneinfo
import numpy as np
import riptable as rt
from riptable.rt_datetime import parse_epoch
from ..model import *

PROPERTY = "C18"

NS = 10 ** 9
DAYNS = 86400 * NS
I64 = -(2 ** 63)
EPOCH = D.date(1970, 1, 1)
MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
ZONES = ["America/New_York", "Europe/Dublin", "Australia/Sydney", "Asia/Hong_Kong", "Asia/Tokyo", "Asia/Seoul", "Asia/Kolkata", "UTC", "GMT"]
ALIAS = {"NYC": "America/New_York", "DUBLIN": "Europe/Dublin", "Sydney": "Australia/Sydney", "Hongkong": "Asia/Hong_Kong",
         "Tokyo": "Asia/Tokyo", "Seoul": "Asia/Seoul", "US/Eastern": "America/New_York"}
LAST = 2040


class Zone:
    """transitions of a tz database zone over 1970..2041, found by bisection on the standard library's zoneinfo"""

    def __init__(self, name):
        zi = zoneinfo.ZoneInfo(name)

        def off(s):
            t = D.datetime.fromtimestamp(s, D.timezone.utc).astimezone(zi)
            return int(t.utcoffset().total_seconds())

        self.name = name
        self.trans, self.offs = [], [off(0)]
        s, end, step = 0, 71 * 366 * 86400, 6 * 86400
        cur = self.offs[0]
        while s < end:
            n = s + step
            o = off(n)
            if o != cur:
                lo, hi = s, n
                while hi - lo > 1:
                    m = (lo + hi) // 2
                    if off(m) == cur:
                        lo = m
                    else:
                        hi = m
                self.trans.append(hi)
                self.offs.append(off(hi))
                o = off(hi)
                s = hi
                cur = o
                continue
            s = n
        self.std = {"America/New_York": -18000, "Europe/Dublin": 0, "Australia/Sydney": 36000, "Asia/Hong_Kong": 28800,
                    "Asia/Tokyo": 32400, "Asia/Seoul": 32400, "Asia/Kolkata": 19800, "UTC": 0, "GMT": 0}[name]

    def off(self, sec):
        return self.offs[bisect.bisect_right(self.trans, sec)]

    def from_local(self, lsec):
        """first instant with that wall clock reading, None in a gap"""
        c = sorted({lsec - o for o in self.offs if self.off(lsec - o) == o})
        return c[0] if c else None


_Z = {}


def zone(n):
    if n not in _Z:
        _Z[n] = Zone(n)
    return _Z[n]


def fields(ns, z):
    """civil fields of one instant (nanoseconds since the epoch) or None"""
    o = z.off(ns // NS)
    l = ns + o * NS
    days, rem = divmod(l, DAYNS)
    d = EPOCH + D.timedelta(days=days)
    soy = l - (D.date(d.year, 1, 1) - EPOCH).days * DAYNS
    sow = days - d.weekday()
    return dict(off=o, local=l, days=days, rem=rem, d=d, soy=soy, sow=sow, dst=o != z.std)


def explore(mc):
    T = mc.thorough
    warnings.simplefilter("ignore")
    FA = rt.FastArray

    # ------------------------------------------------------------------ Date
    def date_oracle(dd):
        ds = [None if x is None else EPOCH + D.timedelta(days=x) for x in dd]
        f = lambda g: [None if d is None else g(d) for d in ds]
        return {
            "year": f(lambda d: d.year), "month": f(lambda d: d.month), "day_of_month": f(lambda d: d.day),
            "day_of_year": f(lambda d: d.timetuple().tm_yday), "day_of_week": f(lambda d: d.weekday()),
            "yyyymmdd": f(lambda d: d.year * 10000 + d.month * 100 + d.day),
            "is_weekend": [d is not None and d.weekday() > 4 for d in ds],
            "is_weekday": [d is not None and d.weekday() < 5 for d in ds],
            "seconds_since_epoch": f(lambda d: (d - EPOCH).days * 86400),
            "start_of_month": f(lambda d: (d.replace(day=1) - EPOCH).days or None),
            "start_of_week": f(lambda d: (d - EPOCH).days - d.weekday()),
        }, ds

    def raw32(x):
        return [None if v in (0, -(2 ** 31)) else int(v) for v in np.asarray(x)]

    def check_date(dd, how, strs=True):
        miss = [0, -(2 ** 31)]
        raws = [miss[i % 2] if x is None else x for i, x in enumerate(dd)]
        a = rt.Date(FA(np.array(raws, dtype=np.int32)))
        if how == "strided":
            b = np.zeros(2 * len(raws), dtype=np.int32)
            b[::2] = raws
            b[1::2] = 9999
            a = rt.Date(FA(b))[::2]
        want, ds = date_oracle(dd)
        for nm, w in want.items():
            v = getattr(a, nm)
            mc.op()
            if nm.startswith("start_"):
                g = raw32(v)
                mc.eq(type(v).__name__, "Date", nm + " type")
                # days on or before the epoch have no Date of their own
                g, w = zip(*[(x, y) for x, y in zip(g, w) if y is None or y > 0]) if any(y is None or y > 0 for y in w) else ((), ())
            else:
                g = vals(v)
            mc.eq(list(g), list(w), "Date." + nm, key=("Date." + nm, how), n=len(dd), first=dd[0] if dd else None)
        mc.eq([bool(x) for x, d in zip(a.is_leapyear, ds) if d is not None], [calendar.isleap(d.year) for d in ds if d is not None], "Date.is_leapyear")
        ok = [i for i, d in enumerate(ds) if d is not None]
        if strs:
            my = vals(a.monthyear)
            mc.eq([my[i] for i in ok], [MON[ds[i].month - 1] + str(ds[i].year) for i in ok], "Date.monthyear")
            mc.eq([str(a[i]) for i in range(len(ds))], ["Inv" if d is None else d.isoformat() for d in ds], "str(Date scalar)")
            b = a[np.array(ok, dtype=np.int64)] if ok else a[:0]
            mc.eq(list(b.strftime("%d/%m/%Y")), [ds[i].strftime("%d/%m/%Y") for i in ok], "Date.strftime")
            mc.eq(raw32(rt.Date([ds[i].isoformat() for i in ok])) if ok else [], [dd[i] for i in ok], "Date parses ISO strings")
            mc.eq(raw32(rt.Date([ds[i].strftime("%Y%m%d") for i in ok])) if ok else [], [dd[i] for i in ok], "Date parses YYYYMMDD")
            mc.eq(raw32(rt.Date([ds[i].strftime("%m/%d/%y") for i in ok], format="%m/%d/%y")) if ok else [], [dd[i] for i in ok], "Date parses a format") if all(ds[i].year < 2069 for i in ok) else None
            mc.eq(raw32(rt.Date(FA(np.array([dd[i] + 719529 for i in ok], dtype=np.int64)), from_matlab=True)) if ok else [], [dd[i] for i in ok], "Date from matlab days")
            t = rt.DateTimeNano(a)
            mc.eq([0 if x is None else int(y) for x, y in zip(dd, np.asarray(t))], [0 if x is None else x * DAYNS for x in dd], "DateTimeNano of a Date")
            mc.eq([x for x in raw32(rt.Date(t))], list(dd), "Date of a UTC DateTimeNano")
        mc.eq([bool(x) for x in a.isnan()], [d is None for d in ds], "Date.isnan")

    def date_year(case):
        y, how = case
        d0 = (D.date(y, 1, 1) - EPOCH).days
        n = 366 if calendar.isleap(y) else 365
        dd = [x for x in range(max(d0, 1), d0 + n)]
        if how == "missing":
            dd = [None if i % 5 == 3 else x for i, x in enumerate(dd)]
        check_date(dd, how, strs=(how == "plain" and (T or y % 5 == 0)))

    mc.run("Date: every day of a year", itertools.product(range(1970, 2099), ("plain", "missing", "strided")), date_year)

    def date_small(dd):
        check_date(list(dd), "plain")

    edge = [1, 31, 58, 59, 364, 365, 789, 790, 11015, 11016, 11017, 16800, 16801, 24855, 24856, 25568, 36524, None]
    mc.run("Date: arrays of length 0-2", [()] + [(a,) for a in edge] + list(itertools.product(edge, edge)), date_small)

    def drange(case):
        s, e, step, kw = case
        S = EPOCH + D.timedelta(days=s)
        E = EPOCH + D.timedelta(days=e)
        for fs in (lambda d: d.isoformat(), lambda d: int(d.strftime("%Y%m%d"))):
            for closed in (None, "left", "right"):
                g = raw32(rt.Date.range(fs(S), fs(E), closed=closed))
                lo = s + (closed == "right")
                hi = e + (closed != "left")
                mc.eq(g, list(range(lo, hi)), "Date.range", s=s, e=e, closed=closed)
            for st in (1, 2, 7):
                mc.eq(raw32(rt.Date.range(fs(S), days=e - s, step=st)), [s + i * st for i in range(e - s)], "Date.range(days, step)", s=s, n=e - s, st=st)

    mc.run("Date.range", [(s, s + k, 1, {}) for s in (10, 58, 364, 11015, 18261) for k in range(1, 8)], drange)

    # ------------------------------------------------------------------ DateTimeNano fields
    def mkdt(ns, z, lay="c"):
        a = np.array(ns, dtype=np.int64)
        if lay == "strided":
            b = np.zeros(2 * len(a), dtype=np.int64)
            b[::2] = a
            b[1::2] = 10 ** 18
            return rt.DateTimeNano(FA(b), from_tz="UTC", to_tz=z)[::2]
        return rt.DateTimeNano(FA(a), from_tz="UTC", to_tz=z)

    def dt_oracle(ns, z):
        F = [None if x is None else fields(x, z) for x in ns]
        f = lambda g: [None if r is None else g(r) for r in F]
        H = 3600 * NS
        sub = lambda m: f(lambda r: r["rem"] % m)
        W = {
            "year": f(lambda r: r["d"].year), "month": f(lambda r: r["d"].month), "day_of_month": f(lambda r: r["d"].day),
            "day_of_year": f(lambda r: r["d"].timetuple().tm_yday), "day_of_week": f(lambda r: r["d"].weekday()),
            "yyyymmdd": f(lambda r: r["d"].year * 10000 + r["d"].month * 100 + r["d"].day),
            "is_weekend": [r is not None and r["d"].weekday() > 4 for r in F],
            "is_weekday": [r is not None and r["d"].weekday() < 5 for r in F],
            "nanos_since_midnight": f(lambda r: r["rem"]),
            "hour": f(lambda r: r["rem"] / H), "day": f(lambda r: r["rem"] / DAYNS),
            "minute": f(lambda r: r["rem"] % H / (60 * NS)),
            "second": f(lambda r: r["rem"] % (60 * NS) / NS),
            "millisecond": f(lambda r: r["rem"] % NS / 10 ** 6),
            "microsecond": f(lambda r: r["rem"] % 10 ** 6 / 10 ** 3),
            "nanosecond": f(lambda r: float(r["rem"] % 10 ** 3)),
            "millis_since_midnight": f(lambda r: r["rem"] / 10 ** 6),
            "hour_span": f(lambda r: float(r["rem"])), "time_since_midnight": f(lambda r: float(r["rem"])),
            "minute_span": f(lambda r: float(r["rem"] % H)), "second_span": f(lambda r: float(r["rem"] % (60 * NS))),
            "millisecond_span": f(lambda r: float(r["rem"] % NS)), "microsecond_span": f(lambda r: float(r["rem"] % 10 ** 6)),
            "nanosecond_span": f(lambda r: float(r["rem"] % 10 ** 3)),
        }
        # fields whose value for a missing time is not part of the claim
        V = {
            "is_dst": f(lambda r: r["dst"]), "tz_offset": f(lambda r: r["off"] / 3600),
            "days_since_epoch": f(lambda r: r["days"]), "seconds_since_epoch": f(lambda r: r["local"] // NS),
            "nanos_since_start_of_year": f(lambda r: r["soy"]), "time_since_start_of_year": f(lambda r: float(r["soy"])),
            "monthyear": f(lambda r: MON[r["d"].month - 1] + str(r["d"].year)),
        }
        return F, W, V

    def get(a, nm):
        v = getattr(a, nm)
        return v() if callable(v) and not isinstance(v, np.generic) else v

    def lst(v):
        return [None if x is None else x for x in vals(v)]

    def check_dt(ns, zn, lay="c", miss=(0, I64), few=False):
        z = zone(zn)
        raws = [miss[i % len(miss)] if x is None else x for i, x in enumerate(ns)]
        a = mkdt(raws, zn, lay)
        F, W, V = dt_oracle(ns, z)
        for nm, w in W.items():
            mc.op()
            v = get(a, nm)
            if nm.endswith("_span") or nm == "time_since_midnight":
                g = [None if np.isnan(x) else float(x) for x in np.asarray(v)]
                mc.eq(type(v).__name__, "TimeSpan", nm + " type")
            else:
                g = vals(v)
            mc.eq(g, w, nm, key=(nm, zn, lay), zone=zn, n=len(ns), first=ns[0] if ns else None)
        ok = [i for i, x in enumerate(ns) if x is not None]
        for nm, w in V.items():
            mc.op()
            v = np.asarray(get(a, nm))
            g = [x.decode() if isinstance(x, bytes) else x for x in v.tolist()]
            mc.eq([g[i] for i in ok], [w[i] for i in ok], nm, key=(nm, zn, lay), zone=zn)
        # local midnight, as an instant of the same zone
        d = a.date()
        want = [None if r is None else z.from_local(r["days"] * 86400) for r in F]
        g = [int(x) for x in np.asarray(d)]
        mc.eq([(g[i] if want[i] else 0) for i in ok], [(want[i] * NS if want[i] else 0) for i in ok], "date()", key=("date", zn), zone=zn)
        mc.eq(bool(d.isnan()[[i for i in range(len(ns)) if i not in set(ok)]].all()) if len(ok) < len(ns) else True, True, "date() of missing", zone=zn)
        sow = a.start_of_week
        mc.eq([int(x) for x in np.asarray(sow)[ok]], [F[i]["sow"] for i in ok], "start_of_week", key=("sow", zn), zone=zn)
        mc.eq([bool(x) for x in a.isnan()], [x is None for x in ns], "isnan")
        if few:
            return
        iso = [x.decode() for x in np.asarray(a.to_iso()).tolist()]
        loc = lambda r: (D.datetime(1970, 1, 1) + D.timedelta(seconds=r["local"] // NS))
        mc.eq(iso, ["NaT" if r is None else loc(r).strftime("%Y-%m-%dT%H:%M:%S") + ".%09d" % (r["local"] % NS) for r in F], "to_iso", key=("iso", zn), zone=zn)
        mc.eq([str(a[i]) for i in range(len(ns))], ["Inv" if r is None else loc(r).strftime("%Y%m%d %H:%M:%S") + ".%09d" % (r["local"] % NS) for r in F], "str", key=("str", zn), zone=zn)
        secs = [i for i in ok if ns[i] % 10 ** 6 == 0]
        if secs:
            b = a[np.array(secs)]
            mc.eq(list(b.strftime("%Y-%m-%d %H:%M:%S")), [loc(F[i]).strftime("%Y-%m-%d %H:%M:%S") for i in secs], "strftime", key=("strftime", zn), zone=zn)
        # every other zone shows the same instant
        for z2 in ZONES:
            c = a.astimezone(z2)
            mc.eq([int(x) for x in np.asarray(c)[ok]], [raws[i] for i in ok], "astimezone keeps the instant", zone=(zn, z2))
            mc.eq(vals(c.yyyymmdd), [None if x is None else int((fields(x, zone(z2))["d"]).strftime("%Y%m%d")) for x in ns], "yyyymmdd after astimezone", zone=(zn, z2))
        mc.eq(([int(x) for x in np.asarray(a)], a._timezone._to_tz if hasattr(a, "_timezone") else zn), (raws, zn), "astimezone leaves its operand alone")
        c = a.copy()
        c.set_timezone("Asia/Tokyo")
        mc.eq([int(x) for x in np.asarray(c)], raws, "set_timezone keeps the instant")
        mc.eq([x for x in vals(a.hour)], W["hour"], "set_timezone of a copy leaves the original alone", zone=zn)
        # reading the displayed strings back gives the same instant (first of two in an ambiguous hour)
        txt = [x for x, i in zip(iso, range(len(ns))) if i in set(ok)]
        if txt:
            back = rt.DateTimeNano(txt, from_tz=zn, to_tz=zn)
            mc.eq([int(x) for x in np.asarray(back)], [z.from_local(F[i]["local"] // NS) * NS + ns[i] % NS for i in ok], "parsing to_iso strings in the same zone", key=("back", zn), zone=zn)
            utc = rt.DateTimeNano(FA(np.array([F[i]["local"] for i in ok], dtype=np.int64)), from_tz=zn, to_tz="UTC")
            mc.eq([int(x) for x in np.asarray(utc)], [z.from_local(F[i]["local"] // NS) * NS + ns[i] % NS for i in ok], "from_tz with integers", key=("fromint", zn), zone=zn)

    def year_instants(y, zn, dense):
        z = zone(zn)
        a = (D.date(y, 1, 1) - EPOCH).days * 86400
        b = (D.date(y + 1, 1, 1) - EPOCH).days * 86400
        out = []
        for t in z.trans:
            if a <= t < b:
                for dlt in (-7200, -3601, -3600, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 5400, 7200, 10800):
                    out.append((t + dlt) * NS)
                out += [t * NS - 1, t * NS + 1]
        days = range(a, b, 86400) if dense else [(D.date(y, m, 1) - EPOCH).days * 86400 for m in range(1, 13)] + \
            [(D.date(y, 2, 28) - EPOCH).days * 86400, (D.date(y, 3, 1) - EPOCH).days * 86400 - 86400, b - 86400, b - 2 * 86400]
        for d in days:
            u = d - z.off(d)  # local midnight (up to the offset of the day)
            out += [u * NS - 1, u * NS, u * NS + 1, u * NS + 43200 * NS + 123456789, d * NS, d * NS - 1]
        return sorted({x for x in out if x > DAYNS})

    def dt_year(case):
        zn, y, how = case
        ns = year_instants(y, zn, T or how == "dense")
        if how == "missing":
            ns = [None if i % 7 == 2 else x for i, x in enumerate(ns)]
        check_dt(ns, zn, "strided" if how == "strided" else "c", few=(how in ("dense", "strided")))

    def dt_cases():
        for zn in ZONES:
            for y in range(1970, LAST + 1):
                if T or zn in ("America/New_York", "Europe/Dublin", "Australia/Sydney") or y % 4 == 0 or y < 1980 or 1986 < y < 1990:
                    yield zn, y, "missing"
                if T or (y % 8 == 0):
                    yield zn, y, "dense"
                if y in (1972, 2020):
                    yield zn, y, "strided"

    mc.run("DateTimeNano: years x zones", dt_cases(), dt_year)

    def dt_small(case):
        zn, ns = case
        check_dt(list(ns), zn)
        check_dt(list(ns), zn, miss=(I64,))

    def dt_small_cases():
        for zn in ZONES:
            tr = [t for t in zone(zn).trans if t > 86400]
            pts = [(t + d) * NS for t in (tr[-2:] + tr[:2]) for d in (-1, 0)] + [2 * DAYNS, 1577836800 * NS - 1, 1583020799 * NS, None]
            yield zn, ()
            for p in pts:
                yield zn, (p,)
            for p in itertools.product(pts[:4] + [None], repeat=2):
                yield zn, p

    mc.run("DateTimeNano: arrays of length 0-2", dt_small_cases(), dt_small)

    # scalars agree with one-row arrays
    def dt_scalar(case):
        zn, x = case
        z = zone(zn)
        a = mkdt([x, 10 ** 18], zn)
        s = a[0]
        F, W, V = dt_oracle([x], z)
        for nm in ("year", "month", "day_of_week", "is_weekend", "is_weekday", "nanos_since_midnight", "hour", "minute", "second",
                   "millisecond", "microsecond", "nanosecond", "day", "millis_since_midnight", "days_since_epoch", "seconds_since_epoch", "hour_span", "minute_span", "second_span"):
            w = (W.get(nm) or V.get(nm))[0]
            v = get(s, nm)
            v = np.asarray(v).ravel()
            mc.eq(len(v), 1, nm + " of a scalar")
            mc.eq(v.tolist()[0], w, nm + " of a scalar", key=(nm, zn), zone=zn, x=x)
        r = F[0]
        mc.eq(str(s), (D.datetime(1970, 1, 1) + D.timedelta(seconds=r["local"] // NS)).strftime("%Y%m%d %H:%M:%S") + ".%09d" % (r["local"] % NS), "str of a scalar", zone=zn)
        mc.eq(int(s.start_of_week), r["sow"], "start_of_week of a scalar", zone=zn)
        w = z.from_local(r["days"] * 86400)
        if w is not None:
            mc.eq(int(s.date()), w * NS, "date() of a scalar", zone=zn)
        if x % 10 ** 6 == 0:
            mc.eq(s.strftime("%Y%m%d%H%M%S"), (D.datetime(1970, 1, 1) + D.timedelta(seconds=r["local"] // NS)).strftime("%Y%m%d%H%M%S"), "strftime of a scalar", zone=zn)
        # a scalar taken from an array that was built from local strings
        b = rt.DateTimeNano([r["local"], r["local"]], from_tz=zn, to_tz=zn)
        i = z.from_local(r["local"] // NS) * NS + x % NS
        mc.eq(int(b[0]), i, "scalar from local integers", zone=zn)
        mc.eq([int(q) for q in np.asarray(b[0].repeat(3))], [i] * 3, "repeat of a scalar keeps the instant", zone=zn)

    def sc_cases():
        for zn in ZONES:
            z = zone(zn)
            pts = [2 * DAYNS, 1577836800 * NS - 1, 1583020799 * NS, 1588000000 * NS + 123456789, 1567300000 * NS]
            pts += [t * NS + d for t in z.trans if t > 86400 and (T or t > 1500000000 or t < 600000000) for d in (-1, 0, NS)]
            for p in pts:
                yield zn, p

    mc.run("DateTimeNano scalars", sc_cases(), dt_scalar)

    # ------------------------------------------------------------------ local text and numbers to instants
    def local(case):
        zn, alias, y = case
        z = zone(zn)
        ls = []
        for i, t in enumerate(z.trans):
            if D.datetime.fromtimestamp(t, D.timezone.utc).year == y and t > 2 * 86400:
                for o in (z.offs[i], z.offs[i + 1]):
                    ls += [t + o + d for d in (-3601, -3600, -1, 0, 1, 1800, 3599, 3600, 7200)]
        d0 = (D.date(y, 1, 1) - EPOCH).days * 86400
        ls += [d0 + 86400 * 2, d0 + 45 * 86400 + 12345, d0 + 180 * 86400 + 86399, d0 + 364 * 86400 + 86399]
        ls = [l for l in ls if z.from_local(l) is not None]
        want = [z.from_local(l) * NS for l in ls]
        mk = lambda l: D.datetime(1970, 1, 1) + D.timedelta(seconds=l)
        for f in ("%Y-%m-%d %H:%M:%S", "%Y%m%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S"):
            s = [mk(l).strftime(f) for l in ls]
            for dtp in ("U", "S"):
                mc.eq([int(x) for x in np.asarray(rt.DateTimeNano(np.array(s, dtype=dtp), from_tz=alias, to_tz="UTC"))], want, "DateTimeNano of strings", key=("dtn", zn, f), zone=zn, f=f)
        mc.eq([int(x) for x in np.asarray(rt.DateTimeNano([mk(l).strftime("%d.%m.%Y %H.%M.%S") for l in ls], from_tz=alias, to_tz="UTC", format="%d.%m.%Y %H.%M.%S"))], want, "DateTimeNano with a format", key=("fmt", zn), zone=zn)
        dd, tt = [mk(l).strftime("%Y%m%d") for l in ls], [mk(l).strftime("%H:%M:%S") for l in ls]
        mc.eq([int(x) for x in np.asarray(rt.datestring_to_nano(FA(dd), time=FA(tt), from_tz=alias))], want, "datestring_to_nano", key=("ds", zn), zone=zn)
        mc.eq([int(x) for x in np.asarray(rt.timestring_to_nano(FA(tt), date=FA(dd), from_tz=alias))], want, "timestring_to_nano", key=("ts", zn), zone=zn)
        c = rt.Categorical([mk(l).strftime("%Y-%m-%d %H:%M:%S") for l in ls])
        mc.eq([int(x) for x in np.asarray(rt.DateTimeNano(c, from_tz=alias, to_tz="UTC"))], want, "DateTimeNano of a Categorical of strings", key=("cat", zn), zone=zn)
        dates = rt.Date(FA(np.array([l // 86400 for l in ls], dtype=np.int32)))
        sp = rt.TimeSpan(FA(np.array([l % 86400 * NS for l in ls], dtype=np.int64)))
        mc.eq([int(x) for x in np.asarray(rt.DateTimeNano(sp, from_tz=alias, to_tz="UTC", start_date=dates))], want, "DateTimeNano(TimeSpan, start_date)", key=("sd", zn), zone=zn)
        for l, w in list(zip(ls, want))[:6]:
            mc.eq([int(x) for x in np.asarray(rt.DateTimeNano([mk(l).strftime("%H:%M:%S")], from_tz=alias, to_tz="UTC", start_date=mk(l).strftime("%Y%m%d")))], [w], "DateTimeNano([time], start_date=str)", zone=zn)
        m = [l / 86400 + 719529 for l in ls]
        g = np.asarray(rt.DateTimeNano(FA(np.array(m)), from_tz=alias, to_tz="UTC", from_matlab=True))
        # doubles carry about 20 microseconds at this magnitude; whole half-hours only, away from transitions
        keep = [i for i, l in enumerate(ls) if l % 43200 == 0]
        mc.eq([round(int(g[i]) / 1e6) for i in keep], [round(want[i] / 1e6) for i in keep], "DateTimeNano from matlab days", key=("ml", zn), zone=zn)
        # explicit datetime objects and datetime64
        d64 = np.array([mk(l) for l in ls], dtype="datetime64[s]")
        mc.eq([int(x) for x in np.asarray(rt.DateTimeNano(d64, from_tz=alias, to_tz="UTC"))], want, "DateTimeNano of datetime64", key=("d64", zn), zone=zn)
        mc.eq([int(x) for x in np.asarray(rt.DateTimeNano([mk(l) for l in ls], from_tz=alias, to_tz="UTC"))], want, "DateTimeNano of datetime objects", key=("dto", zn), zone=zn)
        # display zone does not matter
        for z2 in ZONES[:3]:
            t = rt.DateTimeNano([l * NS for l in ls], from_tz=alias, to_tz=z2)
            mc.eq([int(x) for x in np.asarray(t)], want, "display zone does not move the instant", key=("disp", zn), zone=(zn, z2))
            e = parse_epoch(np.asarray(t), to_tz=z2)
            F = [fields(w, zone(z2)) for w in want]
            mc.eq(([int(x) for x in e[0]], [float(x) for x in e[1]]), ([r["days"] for r in F], [r["rem"] / 10 ** 6 for r in F]), "parse_epoch", key=("pe", zn), zone=z2)

    def local_cases():
        names = [(z, z) for z in ZONES] + [(b, a) for a, b in ALIAS.items()]
        for zn, al in names:
            for y in range(1971, LAST + 1):
                if T or al == zn and (y % 3 == 0 or y < 1990) or y in (1979, 1988, 2007, 2024):
                    yield zn, al, y

    mc.run("local text and numbers to instants", local_cases(), local)

    # ------------------------------------------------------------------ TimeSpan fields
    def spans(case):
        v = case
        a = rt.TimeSpan(FA(np.array([v, -v, np.nan], dtype=np.float64)))
        for nm, q in (("days", DAYNS), ("hours", 3600 * NS), ("minutes", 60 * NS), ("seconds", NS), ("milliseconds", 10 ** 6), ("microseconds", 10 ** 3), ("nanoseconds", 1)):
            mc.eq(vals(getattr(a, nm)), [v / q, -v / q, None], "TimeSpan." + nm, v=v)
            mc.eq(float(getattr(a[0], nm)), v / q, "TimeSpanScalar." + nm, v=v)
        b = rt.TimeSpan(FA(np.array([v, v], dtype=np.float64)))
        s = int(v) // NS
        mc.eq(vals(b.hhmmss), [s // 3600 * 10000 + s // 60 % 60 * 100 + s % 60] * 2, "hhmmss", v=v)
        txt = ("%dd " % (v // DAYNS) if v >= DAYNS else "") + "%02d:%02d:%02d.%09d" % (s // 3600 % 24, s // 60 % 60, s % 60, int(v) % NS)
        mc.eq((str(a[0]), str(a[1]), str(a[2])), (txt, "-" + txt if v else txt, "Inv"), "str(TimeSpan)", v=v)
        if v < DAYNS and v % NS == 0:
            mc.eq(list(b.strftime("%H:%M:%S")), [txt[:8]] * 2, "TimeSpan.strftime", v=v)
            if v:
                mc.eq(list(a[:2].strftime("%H-%M-%S")), [txt[:8].replace(":", "-"), "-" + txt[:8].replace(":", "-")], "strftime of a negative TimeSpan", v=v)
            mc.eq([float(x) for x in np.asarray(rt.TimeSpan([txt[:8], txt[:8]]))], [float(v)] * 2, "TimeSpan of strings", v=v)
            mc.eq([float(x) for x in np.asarray(rt.timestring_to_nano(FA([txt[:8]])))], [float(v)], "timestring_to_nano", v=v)
        for u, q in (("h", 3600 * NS), ("m", 60 * NS), ("s", NS), ("ms", 10 ** 6), ("us", 10 ** 3), ("ns", 1)):
            if v % q == 0:
                mc.eq([float(x) for x in np.asarray(rt.TimeSpan(FA(np.array([v // q, 0], dtype=np.int64)), unit=u))], [float(v), 0.0], "TimeSpan of units", v=v, u=u)

    pts = sorted({h * 3600 * NS + m * 60 * NS + s * NS + n for h in (0, 1, 9, 10, 23, 24, 25, 48, 240) for m in (0, 1, 59) for s in (0, 1, 59) for n in (0, 1, 999, 10 ** 6, 500000000, 999000000)})
    mc.run("TimeSpan fields", pts, spans)
