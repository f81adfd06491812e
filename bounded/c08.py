"""Bounded contracts: calendar and clock fields of Date and DateTimeNano (oracle: Python's datetime and zoneinfo)."""
import datetime as dt, zoneinfo
import numpy as np
from .common import section

ZONES = {
    "NYC": "America/New_York",
    "DUBLIN": "Europe/Dublin",
    "Australia/Sydney": "Australia/Sydney",
    "Asia/Hong_Kong": "Asia/Hong_Kong",
    "Asia/Tokyo": "Asia/Tokyo",
    "Asia/Seoul": "Asia/Seoul",
    "Asia/Kolkata": "Asia/Kolkata",
    "UTC": "UTC",
    "GMT": "UTC",
}
U = dt.timezone.utc
EPOCH = dt.datetime(1970, 1, 1)
EPOCHD = dt.date(1970, 1, 1)
LO, HI = 2 * 86400, 2208902400 - 3 * 86400  # 1970-01-03 .. end of 2039 in seconds
NS = 10**9
DAY = 86400 * NS
_TR = {}


def transitions(zone):
    """UTC seconds at which the zone's offset changes, 1970..2039"""
    if zone not in _TR:
        z = zoneinfo.ZoneInfo(ZONES[zone])
        off = lambda s: dt.datetime.fromtimestamp(s, U).astimezone(z).utcoffset()
        out, s, step = [], LO, 86400 * 3
        while s < HI:
            e = min(s + step, HI)
            if off(s) != off(e):
                a, b = s, e
                while b - a > 1:
                    m = (a + b) // 2
                    if off(m) == off(a):
                        a = m
                    else:
                        b = m
                out.append(b)
            s = e
        _TR[zone] = out
    return _TR[zone]


def local(ns, zone):
    """(naive local datetime truncated to the second, nanoseconds within the second, offset seconds)"""
    s, f = divmod(ns, NS)
    d = dt.datetime.fromtimestamp(s, U).astimezone(zoneinfo.ZoneInfo(ZONES[zone]))
    return d.replace(tzinfo=None), f, int(d.utcoffset().total_seconds())


def rnd_instant(rng, zone):
    w = rng.random()
    if w < 0.25 and transitions(zone):
        s = rng.choice(transitions(zone)) + rng.choice([-3600, -1, 0, 0, 1, 3599, 3600, 7200, -7200])
        return s * NS + rng.choice([0, 0, 1, -1, 5 * 10**8])
    if w < 0.6:
        y = rng.randrange(1970, 2040)
        m = rng.choice([1, 2, 3, 12, rng.randrange(1, 13)])
        d = dt.datetime(y, m, 1) + dt.timedelta(days=rng.choice([0, -1, 27, 28, 29, 30]))
        s = int((d - EPOCH).total_seconds()) + rng.choice([0, 0, -1, 1, 3600 * rng.randrange(-14, 15), rng.randrange(86400)])
        ns = s * NS + rng.choice([0, -1, 1, 123456789])
    else:
        ns = rng.randrange(LO * NS, HI * NS)
    return min(max(ns, LO * NS), HI * NS)


def rnd_day(rng):
    if rng.random() < 0.5:
        y = rng.randrange(1970, 2100)
        d = dt.date(y, rng.choice([1, 2, 3, 12, rng.randrange(1, 13)]), 1) + dt.timedelta(days=rng.choice([0, -1, 27, 28, 29, 30]))
        n = (d - EPOCHD).days
    else:
        n = rng.randrange(1, 47482)
    return min(max(n, 1), 47481)


def mark(xs, inv, bad):
    return [bad if i else x for x, i in zip(xs, inv)]


def chk(ctx, key, got, exp, inv, info, tol=None):
    """valid rows equal exp; rows that are invalid must read as invalid"""
    if hasattr(got, "_fa"):
        got = got._fa
    g = np.asarray(got).tolist()
    if not isinstance(g, list):
        g = [g]
    ctx.evals += 1
    if len(g) != len(exp):
        ctx.fail(key, f"{key} {info}: {len(g)} results for {len(exp)} rows")
        return
    dtp = np.asarray(got).dtype
    for j, (a, b, i) in enumerate(zip(g, exp, inv)):
        if i is None:
            continue
        if i:
            if isinstance(a, float):
                ok = a != a
            elif isinstance(a, bool):
                ok = a is False
            elif isinstance(a, int):
                ok = a == np.iinfo(dtp).min or (dtp == np.int64 and a == -(2**63))
            else:
                ok = True
            what = "an invalid"
        else:
            ok = a == b if tol is None else abs(a - b) <= tol
            what = repr(b)
        if not ok:
            ctx.fail(key + (":invalid" if i else ""), f"{key}\n input: {info}\n row {j}: got {a!r}, expected {what}")
            return


def dates(ctx, rt, allow_inv=True, lo=0):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 5, 8, 40])
    v = [rnd_day(rng) for _ in range(n)]
    inv = [allow_inv and rng.random() < 0.15 for _ in v]
    arr = np.array([0 if i else x for x, i in zip(v, inv)], dtype=np.int32)
    return v, inv, arr


@section("date", bound="Date arrays 1..40 rows, every day 1970-01-02..2099-12-31 reachable, invalid rows: year, month, day_of_year/month/week, yyyymmdd, leap, weekend, start_of_*, construction from integers/strings")
def s_date(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(4000, 30000):
        it += 1
        v, inv, arr = dates(ctx, rt)
        D = rt.Date(rt.FastArray(arr))
        ds = [EPOCHD + dt.timedelta(days=x) for x in v]
        info = ("Date", [str(d) if not i else "Inv" for d, i in zip(ds, inv)])
        ctx.at(info)
        before = D._fa._np.copy()
        fields = dict(
            year=[d.year for d in ds],
            month=[d.month for d in ds],
            day_of_year=[d.timetuple().tm_yday for d in ds],
            day_of_month=[d.day for d in ds],
            day_of_week=[d.weekday() for d in ds],
            is_weekend=[d.weekday() > 4 for d in ds],
            is_weekday=[d.weekday() < 5 for d in ds],
            seconds_since_epoch=[x * 86400 for x in v],
        )
        for f, e in fields.items():
            ok, r = ctx.call(f, lambda: (lambda x: x() if callable(x) else x)(getattr(D, f)), info)
            if ok:
                chk(ctx, "Date." + f, r, e, inv, info)
        valid = [None if i else False for i in inv]
        ok, r = ctx.call("yyyymmdd", lambda: D.yyyymmdd, info)
        if ok:
            chk(ctx, "Date.yyyymmdd", r, [d.year * 10000 + d.month * 100 + d.day for d in ds], valid, info)
        ok, r = ctx.call("is_leapyear", lambda: D.is_leapyear, info)
        if ok:
            chk(ctx, "Date.is_leapyear", r, [d.year % 4 == 0 and (d.year % 100 != 0 or d.year % 400 == 0) for d in ds], valid, info)
        if not any(inv):
            ok, r = ctx.call("monthyear", lambda: D.monthyear, info)
            if ok:
                chk(ctx, "Date.monthyear", r.astype("U"), [d.strftime("%b%Y") for d in ds], inv, info)
        ok, r = ctx.call("start_of_month", lambda: D.start_of_month, info)
        if ok:
            chk(ctx, "Date.start_of_month", r, [(d.replace(day=1) - EPOCHD).days for d in ds], [None if i or d.replace(day=1) <= EPOCHD else False for d, i in zip(ds, inv)], info)
            ctx.ok("Date.start_of_month:invalid", all(bool(x) for x, i in zip(r.isnan(), inv) if i), info)
        ok, r = ctx.call("start_of_week", lambda: D.start_of_week, info)
        if ok:
            e = [(d - EPOCHD).days - d.weekday() for d in ds]
            chk(ctx, "Date.start_of_week", r, e, [None if i or x <= 0 else False for x, i in zip(e, inv)], info)
            ctx.ok("Date.start_of_week:invalid", all(bool(x) for x, i in zip(r.isnan(), inv) if i), info)
        # construction
        for how, mk in (
            ("str", lambda: rt.Date([d.strftime("%Y-%m-%d") for d in ds])),
            ("str8", lambda: rt.Date([d.strftime("%Y%m%d") for d in ds])),
            ("fmt", lambda: rt.Date([d.strftime("%d/%m/%Y") for d in ds], format="%d/%m/%Y")),
            ("matlab", lambda: rt.Date(rt.FastArray([x + 719529.0 for x in v]), from_matlab=True)),
            ("dtn", lambda: rt.Date(rt.DateTimeNano(rt.FastArray([x * DAY + 5 for x in v]), from_tz="UTC", to_tz="UTC"))),
        ):
            ok, r = ctx.call("Date(" + how + ")", mk, info)
            if ok:
                chk(ctx, "Date(" + how + ")", r, v, [False] * len(v), info)
        ok, r = ctx.call("strftime", lambda: D.strftime("%Y/%m/%d"), info)
        if ok:
            chk(ctx, "Date.strftime", r, [d.strftime("%Y/%m/%d") for d in ds], valid, info)
        ctx.ok("Date:input untouched", (D._fa._np == before).all(), info)


@section("date-range", bound="Date.range over random starts/ends/days/steps/closed")
def s_range(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(3000, 20000):
        it += 1
        a = rnd_day(rng)
        k = rng.randrange(0, 40)
        d0 = EPOCHD + dt.timedelta(days=a)
        d1 = d0 + dt.timedelta(days=k)
        if a + 40 * 7 > 47000:
            continue
        step = rng.choice([1, 1, 2, 3, 7])
        if rng.random() < 0.5:
            cl = rng.choice([None, "left", "right"])
            step = 1
            info = ("Date.range", str(d0), str(d1), cl)
            ok, r = ctx.call("range", lambda: rt.Date.range(d0.strftime("%Y%m%d"), d1.strftime("%Y%m%d"), closed=cl), info)
            e = list(range(a + (cl == "right"), a + k + (cl != "left")))
        else:
            info = ("Date.range", str(d0), "days", k, "step", step)
            if k == 0:
                continue
            ok, r = ctx.call("range", lambda: rt.Date.range(d0.strftime("%Y%m%d"), days=k, step=step), info)
            e = [a + step * j for j in range(k)]
        if ok:
            ctx.eq("Date.range", r._fa._np.tolist(), e, info)


@section("datetime", bound="DateTimeNano arrays 1..40 rows in 9 timezones, 1970-01-03..2039, biased to year/month/day and daylight-saving boundaries, invalid rows: calendar and clock fields in the displayed zone")
def s_datetime(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(6000, 40000):
        it += 1
        zone = rng.choice(list(ZONES))
        n = rng.choice([1, 2, 3, 5, 8, 40])
        v = [rnd_instant(rng, zone) for _ in range(n)]
        inv = [rng.random() < 0.12 for _ in v]
        T = rt.DateTimeNano(rt.FastArray(np.array([0 if i else x for x, i in zip(v, inv)], dtype=np.int64)), from_tz="GMT", to_tz=zone)
        L = [local(x, zone) for x in v]
        info = (zone, ["Inv" if i else f"{l[0]}.{l[1]:09d}" for l, i in zip(L, inv)], v)
        ctx.at(info)
        before = T._fa._np.copy()
        days = [(l[0] - EPOCH).days for l in L]
        nod = [((l[0] - EPOCH).seconds) * NS + l[1] for l in L]
        valid = [None if i else False for i in inv]
        get = lambda f: (lambda x: x() if callable(x) else x)(getattr(T, f))
        exact = dict(
            year=([l[0].year for l in L], inv),
            month=([l[0].month for l in L], inv),
            nanos_since_midnight=(nod, inv),
            days_since_epoch=(days, inv),
            seconds_since_epoch=([d * 86400 + x // NS for d, x in zip(days, nod)], inv),
            day_of_year=([l[0].timetuple().tm_yday for l in L], inv),
            day_of_month=([l[0].day for l in L], inv),
            day_of_week=([l[0].weekday() for l in L], inv),
            is_weekday=([l[0].weekday() < 5 for l in L], inv),
            is_weekend=([l[0].weekday() > 4 for l in L], inv),
            yyyymmdd=([l[0].year * 10000 + l[0].month * 100 + l[0].day for l in L], inv),
            nanos_since_start_of_year=([(l[0] - dt.datetime(l[0].year, 1, 1)).days * DAY + x for l, x in zip(L, nod)], inv),
        )
        for f in rng.sample(list(exact), 6):
            ok, r = ctx.call(f, lambda: get(f), info)
            if ok:
                chk(ctx, f, r, exact[f][0], exact[f][1], info)
        close = dict(
            millis_since_midnight=([x / 10**6 for x in nod], 1e-3),
            day=([x / DAY for x in nod], 1e-9),
            hour=([x / (3600 * NS) for x in nod], 1e-9),
            minute=([x % (3600 * NS) / (60 * NS) for x in nod], 1e-9),
            second=([x % (60 * NS) / NS for x in nod], 1e-9),
            millisecond=([x % NS / 10**6 for x in nod], 1e-6),
            microsecond=([x % 10**6 / 10**3 for x in nod], 1e-6),
            nanosecond=([x % 1000 for x in nod], 0),
        )
        for f in rng.sample(list(close), 4):
            ok, r = ctx.call(f, lambda: get(f), info)
            if ok:
                chk(ctx, f, r, close[f][0], inv, info, tol=close[f][1])
        spans = dict(
            hour_span=nod,
            minute_span=[x % (3600 * NS) for x in nod],
            second_span=[x % (60 * NS) for x in nod],
            millisecond_span=[x % NS for x in nod],
            microsecond_span=[x % 10**6 for x in nod],
            nanosecond_span=[x % 1000 for x in nod],
            time_since_midnight=nod,
            time_since_start_of_year=exact["nanos_since_start_of_year"][0],
        )
        for f in rng.sample(list(spans), 3):
            ok, r = ctx.call(f, lambda: get(f), info)
            if ok:
                ctx.ok(f + ":type", isinstance(r, rt.TimeSpan), f"{f} returned {type(r)}")
                chk(ctx, f, r, spans[f], inv, info, tol=64)
        if rng.random() < 0.4:
            ok, r = ctx.call("start_of_week", lambda: get("start_of_week"), info)
            if ok:
                chk(ctx, "start_of_week", r, [d - l[0].weekday() for d, l in zip(days, L)], valid, info)
            ok, r = ctx.call("date()", lambda: T.date(), info)
            if ok:
                # local midnight of the same local day (where that midnight exists exactly once)
                z = zoneinfo.ZoneInfo(ZONES[zone])
                e, vv = [], []
                for l, i in zip(L, inv):
                    m = l[0].replace(hour=0, minute=0, second=0)
                    a, b = m.replace(tzinfo=z, fold=0), m.replace(tzinfo=z, fold=1)
                    e.append(int((a.astimezone(U).replace(tzinfo=None) - EPOCH).total_seconds()) * NS)
                    vv.append(None if i or a.utcoffset() != b.utcoffset() else False)
                chk(ctx, "date()", r, e, vv, info)
                ctx.ok("date():invalid", all(bool(x) for x, i in zip(r.isnan(), inv) if i), info)
            if not any(inv):
                ok, r = ctx.call("monthyear", lambda: get("monthyear"), info)
                if ok:
                    chk(ctx, "monthyear", np.asarray(r).astype("U"), [l[0].strftime("%b%Y") for l in L], inv, info)
            ok, r = ctx.call("strftime", lambda: T.strftime("%Y%m%d %H:%M:%S"), info)
            if ok:
                chk(ctx, "strftime", r, [l[0].strftime("%Y%m%d %H:%M:%S") for l in L], valid, info)
        # a scalar taken from the array has the same fields
        j = rng.randrange(n)
        if not inv[j]:
            S = T[j]
            l = L[j]
            sc = dict(year=l[0].year, month=l[0].month, day_of_month=l[0].day, day_of_week=l[0].weekday(), yyyymmdd=l[0].year * 10000 + l[0].month * 100 + l[0].day, nanos_since_midnight=nod[j], day_of_year=l[0].timetuple().tm_yday, days_since_epoch=days[j], is_weekend=l[0].weekday() > 4)
            f = rng.choice(list(sc))
            ok, r = ctx.call("scalar." + f, lambda: (lambda x: x() if callable(x) else x)(getattr(S, f)), info)
            if ok:
                r = np.asarray(r).ravel()
                ctx.ok("scalar." + f, len(r) == 1 and r[0] == sc[f], lambda: f"scalar {f} of {info[1][j]} {zone}: got {r}, expected {sc[f]}")
        ctx.ok("input untouched", (T._fa._np == before).all(), info)
