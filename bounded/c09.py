"""Bounded contracts: timezone conversion of DateTimeNano (oracle: Python's zoneinfo)."""
import datetime as dt, zoneinfo
import numpy as np
from .common import section
from .c08 import ZONES, U, EPOCH, EPOCHD, NS, DAY, local, rnd_instant, transitions, LO, HI, chk


def unamb(naive, zone):
    z = zoneinfo.ZoneInfo(ZONES[zone])
    a, b = naive.replace(tzinfo=z, fold=0), naive.replace(tzinfo=z, fold=1)
    return a.utcoffset() == b.utcoffset() and a.astimezone(U).astimezone(z).replace(tzinfo=None) == naive


def draw(ctx, zone, n=None):
    """instants whose local time in the zone is unambiguous"""
    rng = ctx.rng
    n = n or rng.choice([1, 2, 3, 5, 8, 30])
    out = []
    while len(out) < n:
        v = rnd_instant(rng, zone)
        if unamb(local(v, zone)[0], zone):
            out.append(v)
    return out


def ns_of(l):
    return int((l[0] - EPOCH).total_seconds()) * NS + l[1]


@section("construct", bound="1..30 instants 1970-01-03..2039 per case in 9 zones, biased to daylight-saving changes, unambiguous local times: construction from strings (ISO, with fraction, strptime format), integers, Date+TimeSpan start_date, matlab days, datetime64, with from_tz and to_tz independent")
def s_construct(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(4000, 30000):
        it += 1
        fz, tz = rng.choice(list(ZONES)), rng.choice(list(ZONES))
        v = draw(ctx, fz)
        L = [local(x, fz) for x in v]
        info = ("from", fz, "to", tz, [f"{l[0]}.{l[1]:09d}" for l in L])
        ctx.at(info)
        kw = dict(from_tz=fz, to_tz=tz)
        iso = [l[0].strftime("%Y-%m-%d %H:%M:%S") + f".{l[1]:09d}" for l in L]
        how = rng.choice(["iso", "isoT", "bytes", "int", "sec", "fmt", "start", "startdate", "cat", "dt64", "date", "matlab"])
        exp = v
        if how == "iso":
            mk = lambda: rt.DateTimeNano(iso, **kw)
        elif how == "isoT":
            mk = lambda: rt.DateTimeNano([s.replace(" ", "T") for s in iso], **kw)
        elif how == "bytes":
            mk = lambda: rt.DateTimeNano(rt.FastArray([s.encode() for s in iso]), **kw)
        elif how == "int":
            src = rt.FastArray([ns_of(l) for l in L])
            mk = lambda: rt.DateTimeNano(src, **kw)
        elif how == "sec":
            mk = lambda: rt.DateTimeNano([l[0].strftime("%Y-%m-%d %H:%M:%S") for l in L], **kw)
            exp = [x // NS * NS for x in v]
        elif how == "fmt":
            mk = lambda: rt.DateTimeNano([l[0].strftime("%d/%m/%Y %H:%M:%S") for l in L], format="%d/%m/%Y %H:%M:%S", **kw)
            exp = [x // NS * NS for x in v]
        elif how in ("start", "startdate"):
            exp = [x // 1000 * 1000 for x in v]
            span = [(l[0] - l[0].replace(hour=0, minute=0, second=0)).seconds * NS + l[1] // 1000 * 1000 for l in L]
            if how == "startdate":
                D = rt.Date([l[0].strftime("%Y%m%d") for l in L])
                mk = lambda: rt.DateTimeNano(rt.TimeSpan(span), start_date=D, **kw)
            else:
                d0 = L[0][0].date()
                keep = [j for j, l in enumerate(L) if l[0].date() == d0]
                L = [L[j] for j in keep]
                exp = [exp[j] for j in keep]
                v = [v[j] for j in keep]
                span = [span[j] for j in keep]
                mk = lambda: rt.DateTimeNano(rt.TimeSpan(span), start_date=d0.strftime("%Y%m%d"), **kw)
        elif how == "cat":
            mk = lambda: rt.DateTimeNano(rt.Categorical([s.encode() for s in iso]), **kw)
        elif how == "dt64":
            mk = lambda: rt.DateTimeNano(np.array([ns_of(l) for l in L], dtype="datetime64[ns]"), **kw)
        elif how == "date":
            ds = [l[0].date() for l in L]
            keep = [j for j, d in enumerate(ds) if unamb(dt.datetime(d.year, d.month, d.day), fz)]
            if not keep:
                continue
            ds = [ds[j] for j in keep]
            z = zoneinfo.ZoneInfo(ZONES[fz])
            exp = [int(dt.datetime(d.year, d.month, d.day, tzinfo=z).timestamp()) * NS for d in ds]
            mk = lambda: rt.DateTimeNano(rt.Date([d.strftime("%Y%m%d") for d in ds]), **kw)
        else:
            # matlab day numbers with whole half days (exact in a double)
            L2 = [l[0].replace(hour=12, minute=0, second=0) for l in L]
            if not all(unamb(x, fz) for x in L2):
                continue
            z = zoneinfo.ZoneInfo(ZONES[fz])
            exp = [int(x.replace(tzinfo=z).timestamp()) * NS for x in L2]
            mk = lambda: rt.DateTimeNano(rt.FastArray([(x - EPOCH).days + 719529.5 for x in L2]), from_matlab=True, **kw)
        ok, r = ctx.call("construct:" + how, mk, info)
        if not ok:
            continue
        ctx.eq("construct:" + how, r._fa._np.tolist(), exp, info)
        if how == "int":
            ctx.eq("construct:source", src._np.tolist(), [ns_of(l) for l in L], info)
        # what is displayed is the local time in to_tz
        loc = [local(x, tz) for x in exp]
        ok, s = ctx.call("isoformat", lambda: [str(x) for x in r.strftime("%Y%m%d %H:%M:%S")], info)
        if ok:
            ctx.eq("construct:" + how + ":display", s, [l[0].strftime("%Y%m%d %H:%M:%S") for l in loc], info)
        ok, s = ctx.call("to_iso", lambda: [x.decode() for x in r.to_iso()._np.tolist()] if hasattr(r.to_iso(), "_np") else [x.decode() for x in r.to_iso().tolist()], info)
        if ok:
            ctx.eq("to_iso", s, [l[0].strftime("%Y-%m-%dT%H:%M:%S") + f".{l[1]:09d}" for l in loc], info)


@section("zones", bound="1..30 instants per case: set_timezone/astimezone/slices/copies/views keep the instants, tz_offset and is_dst against the tz database, the timezone of one array is independent of others'")
def s_zones(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(4000, 30000):
        it += 1
        z0, z1, z2 = (rng.choice(list(ZONES)) for _ in range(3))
        n = rng.choice([1, 2, 3, 5, 8, 30])
        v = [rnd_instant(rng, rng.choice([z0, z1])) for _ in range(n)]
        T = rt.DateTimeNano(rt.FastArray(np.array(v, dtype=np.int64)), from_tz="UTC", to_tz=z0)
        info = (z0, z1, z2, v)
        ctx.at(info)

        def disp(x):
            return [str(s) for s in x.strftime("%Y%m%d %H:%M:%S")]

        want = lambda z, vs=v: [local(x, z)[0].strftime("%Y%m%d %H:%M:%S") for x in vs]
        ctx.eq("display", disp(T), want(z0), info)
        ok, A = ctx.call("astimezone", lambda: T.astimezone(z1), info)
        if ok:
            ctx.eq("astimezone:instants", A._fa._np.tolist(), v, info)
            ctx.eq("astimezone:display", disp(A), want(z1), info)
            ctx.eq("astimezone:original", disp(T), want(z0), info)
            ok2, r = ctx.call("tz_offset", lambda: A.tz_offset, info)
            if ok2:
                ctx.eq("tz_offset", np.asarray(r).tolist(), [local(x, z1)[2] / 3600 for x in v], info)
            if z1 not in ("DUBLIN",):  # the tz database counts Irish winter time as the daylight-saving period
                ok2, r = ctx.call("is_dst", lambda: A.is_dst, info)
                if ok2:
                    zi = zoneinfo.ZoneInfo(ZONES[z1])
                    base = {"NYC": -18000, "Australia/Sydney": 36000, "Asia/Hong_Kong": 28800, "Asia/Tokyo": 32400, "Asia/Seoul": 32400, "Asia/Kolkata": 19800, "UTC": 0, "GMT": 0}[z1]
                    ctx.eq("is_dst", [bool(x) for x in np.asarray(r).tolist()], [local(x, z1)[2] != base for x in v], info)
        # derived arrays keep the displayed zone, and are independent of it afterwards
        k = rng.randrange(n)
        derived = {
            "slice": (lambda: T[k:], v[k:]),
            "mask": (lambda: T[rt.FastArray([x % 2 == 0 for x in range(n)])], v[::2]),
            "fancy": (lambda: T[rt.FastArray([k, 0])], [v[k], v[0]]),
            "copy": (lambda: T.copy(), v),
            "hstack": (lambda: rt.hstack([T, T]), v + v),
            "unique": (lambda: T.unique(), sorted(set(v))),
        }
        nm = rng.choice(list(derived))
        mk, vs = derived[nm]
        ok, B = ctx.call("derived:" + nm, mk, info)
        if ok:
            ctx.eq("derived:" + nm + ":instants", B._fa._np.tolist(), vs, info)
            ctx.eq("derived:" + nm + ":display", disp(B), want(z0, vs), info)
            ok, _ = ctx.call("set_timezone", lambda: B.set_timezone(z2), info)
            if ok:
                ctx.eq("set_timezone:instants", B._fa._np.tolist(), vs, info)
                ctx.eq("set_timezone:display", disp(B), want(z2, vs), info)
                ctx.eq("set_timezone:original", disp(T), want(z0), info)
                ctx.eq("set_timezone:original:year", np.asarray(T.year()).tolist(), [local(x, z0)[0].year for x in v], info)
        ok, _ = ctx.call("set_timezone", lambda: T.set_timezone(z1), info)
        if ok:
            ctx.eq("set_timezone:self", disp(T), want(z1), info)
            # a scalar taken from the array displays like its row
            S = T[k]
            ctx.eq("scalar:display", str(S.strftime("%Y%m%d %H:%M:%S")), want(z1)[k], info)
            ctx.eq("scalar:tz_offset", float(np.asarray(T.tz_offset)[k]), local(v[k], z1)[2] / 3600, info)
