"""Contracts for timezone conversion (riptable/rt_timezone.py) and lemmas that tie the daylight-saving tables of the
tree to the tz database (Python's zoneinfo) for every instant from 1970-01-03 to the end of 2039."""
import datetime as dt, zoneinfo
import z3
from pyvc.vec import VC, Lemma, Row, Sc, Cell, Obj, RNG, SymTable, DTM, TZM, data, Unsupported

data()
NS = 10**9
HOUR = 3600 * NS
N = z3.Int("rows")
X = z3.Int("x")
OFF = z3.Int("offset")
FIX = z3.Int("fix_offset")
REV = SymTable("rev")
CUT = SymTable("cut")
C = []
PRE = [N >= 1, X > -(2**62), X < 2**62, OFF > -(10**15), OFF < 10**15, FIX > -(10**15), FIX < 10**15]


def odd(tab, x):
    return tab.right(x) % 2 == 1


def symname(name):
    ident = z3.Int(name + "_id")
    s = Obj("symstr", id=ident)
    s.attrs["is"] = lambda v: ident == z3.Int("zone_" + v)
    return s, ident


def tz(rev, cut):
    f, fid = symname("from")
    t, tid = symname("to")
    o = Obj("TimeZone", _dst_reverse=rev, _dst_cutoffs=cut, _offset=Sc("i64", OFF, py=True), _fix_offset=Sc("i64", FIX, py=True), _from_tz=f, _to_tz=t)
    return o, fid, tid


def arr():
    return Row(Cell("i64", X), N)


def add(name, meth, build, post):
    def setup(ex):
        a = arr()
        args, pre = build(a)
        return dict(args=args, pre=PRE + pre, post=lambda r: post(r), inputs={"arr": a})

    C.append(VC(name, f"{TZM}::TimeZone.{meth}", setup))


def boolrow(expr):
    def post(r):
        if not isinstance(r, Row) or r.dt != "b":
            return [("a boolean per row", False)]
        return [("one result per row", r.mask is None and r.ln.eq(N)), ("true exactly in daylight saving", r.t == expr)]

    return post


def introw(expr, label):
    def post(r):
        if not isinstance(r, Row) or r.dt != "i64" or r.cls is not None:
            return [("an int64 array", False)]
        return [("one result per row", r.mask is None and r.ln.eq(N)), (label, r.t == expr)]

    return post


def flrow(expr):
    def post(r):
        if not isinstance(r, Row) or r.dt != "f64":
            return [("a float array", False)]
        return [("one result per row", r.mask is None and r.ln.eq(N)), ("hours from UTC", z3.And(z3.Not(r.n), r.t == expr))]

    return post


F = z3.BoolVal(False)
add("_mask_dst(cutoffs)", "_mask_dst", lambda a: ([tz(REV, CUT)[0], a, REV], []), boolrow(odd(REV, X)))
add("_mask_dst()", "_mask_dst", lambda a: ([tz(REV, CUT)[0], a], []), boolrow(odd(CUT, X)))
add("_mask_dst(no table)", "_mask_dst", lambda a: ([tz(REV, None)[0], a], []), boolrow(F))
add("_is_dst", "_is_dst", lambda a: ([tz(REV, CUT)[0], a], []), boolrow(odd(REV, X)))
OFFH = z3.ToReal(-OFF) / HOUR
add("_tz_offset", "_tz_offset", lambda a: ([tz(REV, CUT)[0], a], []), flrow(z3.If(odd(REV, X), OFFH + 1, OFFH)))
add("_tz_offset(no table)", "_tz_offset", lambda a: ([tz(None, None)[0], a], []), flrow(OFFH))
add("fix_dst", "fix_dst", lambda a: ([tz(REV, CUT)[0], a], []), introw(X - OFF + z3.If(odd(REV, X), HOUR, 0), "the local time"))
add("fix_dst(no table)", "fix_dst", lambda a: ([tz(None, None)[0], a], []), introw(X - OFF, "the local time"))
add("fix_dst(cutoffs)", "fix_dst", lambda a: ([tz(REV, CUT)[0], a, CUT], []), introw(X - OFF + z3.If(odd(CUT, X), HOUR, 0), "the local time"))
GMT, UTC_ = z3.Int("zone_GMT"), z3.Int("zone_UTC")


def b_to_utc(utc, cut, mask):
    def build(a):
        o, fid, _ = tz(REV, cut)
        isutc = z3.Or(fid == GMT, fid == UTC_)
        pre = [isutc if utc else z3.Not(isutc)]
        args = [o, a]
        if mask:
            args.append(Row(Cell("b", z3.Bool("inv")), N))
        return args, pre

    return build


for cut, cn in ((CUT, ""), (None, ",no table")):
    loc = X + FIX - (z3.If(odd(CUT, X), HOUR, 0) if cut is not None else 0)
    add(f"to_utc(zone{cn})", "to_utc", b_to_utc(False, cut, False), introw(z3.If(X == 0, 0, loc), "the UTC instant, 0 stays 0"))
    add(f"to_utc(zone,inv_mask{cn})", "to_utc", b_to_utc(False, cut, True), introw(z3.If(z3.Bool("inv"), 0, loc), "the UTC instant, invalid rows 0"))
add("to_utc(UTC)", "to_utc", b_to_utc(True, CUT, False), introw(X, "unchanged"))

# ------------------------------------------------------------------ the tables of the tree against the tz database
U = dt.timezone.utc
LO, HI = 2 * 86400, 2208902400 - 3 * 86400
ZONES = {
    "America/New_York": "America/New_York",
    "Europe/Dublin": "Europe/Dublin",
    "Australia/Sydney": "Australia/Sydney",
    "Asia/Hong_Kong": "Asia/Hong_Kong",
    "Asia/Tokyo": "Asia/Tokyo",
    "Asia/Seoul": "Asia/Seoul",
    "Asia/Kolkata": "Asia/Kolkata",
    "UTC": "UTC",
    "GMT": "UTC",
    "NYC": "America/New_York",
    "DUBLIN": "Europe/Dublin",
}
_SEG = {}


def segments(z):
    """[(first second, end second, utc offset seconds)] of the tz database"""
    if z not in _SEG:
        zi = zoneinfo.ZoneInfo(z)
        off = lambda s: int(dt.datetime.fromtimestamp(s, U).astimezone(zi).utcoffset().total_seconds())
        cuts, s = [LO], LO
        while s < HI:
            e = min(s + 86400, HI)
            if off(s) != off(e):
                a, b = s, e
                while b - a > 1:
                    m = (a + b) // 2
                    if off(m) == off(a):
                        a = m
                    else:
                        b = m
                cuts.append(b)
            s = e
        cuts.append(HI)
        _SEG[z] = [(a, b, off(a)) for a, b in zip(cuts, cuts[1:])]
    return _SEG[z]


def count(tab, t, lo, hi):
    """number of entries <= t, for lo <= t <= hi"""
    k, terms = 0, []
    for v in tab or []:
        if v <= lo:
            k += 1
        elif v <= hi:
            terms.append(z3.If(t >= v, 1, 0))
    return z3.Sum([z3.IntVal(k)] + terms)


def facts_for(alias, z):
    def facts():
        d = data()["zones"].get(alias)
        if d is None:
            yield f"{alias}: is a supported zone", [], False
            return
        if "error" in d:
            yield f"{alias}: can be constructed ({d['error']})", [], False
            return
        for nm in ("rev", "cut"):
            t = d[nm]
            yield f"{alias}: {nm} table ascending", [], t is None or all(a <= b for a, b in zip(t, t[1:]))
        segs = segments(z)
        x = z3.Int("x")
        for i, (a, b, o) in enumerate(segs):
            lo, hi = a * NS, b * NS - 1
            loc = x - d["off"] + HOUR * (count(d["rev"], x, lo, hi) % 2)
            yield f"{alias}: local time of instants in [{a},{b})", [x >= lo, x <= hi], loc == x + o * NS
            yield f"{alias}: offset is whole half hours", [], o % 1800 == 0 and abs(o) < 86400
            op = segs[i - 1][2] if i else o
            on = segs[i + 1][2] if i + 1 < len(segs) else o
            a2, b2 = max(a, a + op - o), min(b, b + on - o)
            if a2 < b2:
                lo, hi = a2 * NS, b2 * NS - 1
                u = x + o * NS
                back = u + d["fix"] - HOUR * (count(d["cut"], u, lo + o * NS, hi + o * NS) % 2)
                yield f"{alias}: unambiguous local times in [{a2},{b2}) convert back", [x >= lo, x <= hi], back == x

    return facts


for alias, z in ZONES.items():
    C.append(Lemma(f"zone table {alias}", f"{TZM}::TimeZone({alias}) tables", facts_for(alias, z)))
