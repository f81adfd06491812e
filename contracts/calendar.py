"""Contracts for the calendar and clock fields of Date and DateTimeNano (riptable/rt_datetime.py).

Specification: the proleptic Gregorian calendar as Python's datetime computes it.  For a DateTimeNano every field is
the field of local(x), the displayed zone's local time, where local is the contract of TimeZone.fix_dst (proved
separately against the zone's table in contracts/timezone.py); the zone itself is arbitrary."""
import datetime as dt
import z3
from pyvc.vec import VC, Row, Sc, Cell, Obj, RNG, tzobj, Unsupported, DTM, TZM, data

data()

NS = 10**9
DAY = 86400 * NS
E0 = dt.date(1970, 1, 1)
Y1 = 2100  # first year beyond the tables
START = {y: (dt.date(y, 1, 1) - E0).days for y in range(1970, Y1 + 1)}
MSTART = {leap: [(dt.date(y, m, 1) - dt.date(y, 1, 1)).days for m in range(1, 13)] for leap, y in ((False, 2001), (True, 2000))}
N = z3.Int("rows")
X = z3.Int("x")
C = []


def leap(y):
    return START[y + 1] - START[y] == 366


def fix_dst(ex, args, kw):
    """contract of TimeZone.fix_dst on an int64 array: the local time of every row, in a new array"""
    tz, a = args[0], args[1]
    if kw or len(args) != 2 or not isinstance(tz, Obj) or "local" not in tz.attrs:
        return NotImplemented
    if not isinstance(a, Row) or a.cls is not None or a.dt != "i64":
        raise Unsupported("fix_dst of something other than an int64 array")
    return Row(Cell("i64", tz.attrs["local"](a.t)), a.ln, a.mask)


USES = {"TimeZone.fix_dst": fix_dst}


class Cal:
    """the calendar of one case (a year, or an invalid row)"""

    def __init__(self, L, unit):
        self.L, self.unit = L, unit

    def day(self):
        return self.L if self.unit == 1 else self.L / self.unit

    def doy0(self, y):
        return self.day() - START[y]

    def month(self, y):
        d = self.doy0(y)
        return z3.Sum([z3.If(d >= s, 1, 0) for s in MSTART[leap(y)]])

    def dom(self, y):
        d = self.doy0(y)
        r = d
        for s in MSTART[leap(y)]:
            r = z3.If(d >= s, d - s, r)
        return r + 1


def int_result(r, expr, inv=True):
    if not isinstance(r, Row) or r.mask is not None or r.dt not in RNG:
        return False
    return expr(r)


def mk(cls, name, expect, kind="int", invalid="nan", prop=False, perday=False, meth_args=(), nocase=False):
    """expect(cal, y) -> specified term for a row in year y"""
    memo = {}

    def setup(ex):
        unit = 1 if cls == "Date" else DAY
        inv = z3.Or(X == 0, X == RNG["i32" if cls == "Date" else "i64"][0])
        if cls == "Date":
            me = Row(Cell("i32", X), N, None, "Date")
            L = X
            hi = START[Y1] - 1
            pre = [N >= 1, z3.Or(inv, z3.And(X >= 1, X <= hi))]
        else:
            tz = tzobj("tz")
            me = Row(Cell("i64", X), N, None, "DateTimeNano", {"_timezone": tz.obj, "_display_length": 0})
            L = tz.local(X)
            hi = START[Y1] * DAY - 1
            # every zone's offset is a whole number of half hours below 24 h (lemma in contracts/timezone.py)
            K = z3.Int("halfhours")
            pre = [N >= 1, z3.Or(inv, z3.And(X >= 1, L >= 0, L <= hi)), L == X + K * (1800 * NS), K > -48, K < 48]
        cal = Cal(L, unit)
        cases = memo.get("cases")
        if cases is not None:
            pass
        elif nocase:
            cases = [("(invalid row)", [inv], [])]
            cases.append(("(valid row)", [z3.Not(inv)], [(L, 0 if cls != "Date" else 1, hi)] + ([(X, 1, 2**62)] if cls != "Date" else [])))
        else:
            cases = [("(invalid row)", [inv], [])]
            for y in range(1970, Y1):
                lo_, hi_ = START[y] * unit, START[y + 1] * unit - 1
                if cls == "Date":
                    lo_ = max(lo_, 1)
                cases.append((f"(year {y})", [z3.Not(inv), L >= lo_, L <= hi_], [(L, lo_, hi_)]))
        memo["cases"] = cases
        state = {}

        def post(r):
            out = []
            ys = state["y"]
            if isinstance(r, Row):
                out.append(("one result per row", r.mask is None and r.ln.eq(N)))
            if kind == "int":
                if not isinstance(r, Row) or r.dt not in RNG or r.cls is not None:
                    return out + [("an integer array", False)]
                bad = z3.IntVal(RNG[r.dt][0])
                if ys is None:
                    out.append(("invalid row gives invalid", (r.t == bad) if invalid == "nan" else True))
                else:
                    out.append(("field of the row's date", r.t == expect(cal, ys)))
            elif kind == "bool":
                if not isinstance(r, Row) or r.dt != "b":
                    return out + [("a boolean array", False)]
                if ys is None:
                    out.append(("invalid row gives False", z3.Not(r.t) if invalid == "nan" else True))
                else:
                    out.append(("field of the row's date", r.t == expect(cal, ys)))
            elif kind in ("float", "span"):
                if not isinstance(r, Row) or r.dt != "f64" or (r.cls == "TimeSpan") != (kind == "span"):
                    return out + [("a float array" if kind == "float" else "a TimeSpan", False)]
                if ys is None:
                    out.append(("invalid row gives NaN", r.n))
                else:
                    out.append(("field of the row's time", z3.And(z3.Not(r.n), r.t == expect(cal, ys))))
            elif kind == "Date":
                if not isinstance(r, Row) or r.cls != "Date" or r.dt != "i32":
                    return out + [("a Date", False)]
                if ys is None:
                    out.append(("invalid row gives an invalid Date", z3.Or(r.t == 0, r.t == RNG["i32"][0])))
                else:
                    e = expect(cal, ys)
                    out.append(("field of the row's date", z3.Implies(e >= 1, r.t == e)))
            return out

        return dict(args=[me] + list(meth_args), pre=pre, cases=cases, post=post, inputs={"self": me}, state=state)

    v = CalVC(f"{cls}.{name}", f"{DTM}::{cls}.{name}", setup, uses=USES)
    C.append(v)


class CalVC(VC):
    """binds the case's concrete year for the postcondition"""

    def __init__(self, name, target, setup, uses=None):
        cache = {}

        def wrapped(ex):
            S = setup(ex)
            orig = S["post"]

            def post(r):
                # the year of the case is the one whose bounds are registered
                S["state"]["y"] = None
                for k, lo, hi in ex.vc_bounds:
                    unit = 1 if name.startswith("Date.") else DAY
                    if hi // unit // 366 > 200 or lo // unit == hi // unit:
                        pass
                    d0 = hi // unit
                    if len(S["cases"]) == 2:
                        S["state"]["y"] = 0
                    else:
                        S["state"]["y"] = (E0 + dt.timedelta(days=d0)).year
                    break
                return orig(r)

            S["post"] = post
            return S

        super().__init__(name, target, wrapped, uses=uses)


c = mk
# ---- Date
c("Date", "year", lambda k, y: z3.IntVal(y))
c("Date", "month", lambda k, y: k.month(y))
c("Date", "day_of_year", lambda k, y: k.doy0(y) + 1)
c("Date", "day_of_month", lambda k, y: k.dom(y))
c("Date", "day_of_week", lambda k, y: (k.day() + 3) % 7, nocase=True)
c("Date", "is_weekend", lambda k, y: (k.day() + 3) % 7 >= 5, kind="bool", nocase=True)
c("Date", "is_weekday", lambda k, y: (k.day() + 3) % 7 < 5, kind="bool", nocase=True)
c("Date", "is_leapyear", lambda k, y: z3.BoolVal(leap(y)), kind="bool", invalid="any")
c("Date", "seconds_since_epoch", lambda k, y: k.L * 86400, nocase=True)
c("Date", "start_of_month", lambda k, y: k.L - k.dom(y) + 1, kind="Date")
c("Date", "start_of_week", lambda k, y: k.L - (k.day() + 3) % 7, kind="Date", nocase=True)
# ---- DateTimeNano
c("DateTimeNano", "year", lambda k, y: z3.IntVal(y))
c("DateTimeNano", "month", lambda k, y: k.month(y))
c("DateTimeNano", "day_of_year", lambda k, y: k.doy0(y) + 1)
c("DateTimeNano", "day_of_month", lambda k, y: k.dom(y))
c("DateTimeNano", "yyyymmdd", lambda k, y: y * 10000 + k.month(y) * 100 + k.dom(y))
c("DateTimeNano", "nanos_since_start_of_year", lambda k, y: k.L - START[y] * DAY)
c("DateTimeNano", "time_since_start_of_year", lambda k, y: z3.ToReal(k.L - START[y] * DAY), kind="span")
c("DateTimeNano", "day_of_week", lambda k, y: (k.day() + 3) % 7, nocase=True)
c("DateTimeNano", "is_weekend", lambda k, y: (k.day() + 3) % 7 >= 5, kind="bool", nocase=True)
c("DateTimeNano", "is_weekday", lambda k, y: (k.day() + 3) % 7 < 5, kind="bool", nocase=True)
c("DateTimeNano", "days_since_epoch", lambda k, y: k.L / DAY, nocase=True)
c("DateTimeNano", "seconds_since_epoch", lambda k, y: k.L / NS, nocase=True)
c("DateTimeNano", "start_of_week", lambda k, y: k.day() - (k.day() + 3) % 7, kind="Date", nocase=True)
H, M, S_ = 3600 * NS, 60 * NS, NS
for nm, mod, div in (("day", DAY, DAY), ("hour", DAY, H), ("minute", H, M), ("second", M, S_), ("millisecond", S_, 10**6), ("microsecond", 10**6, 1000), ("nanosecond", 1000, 1)):
    c("DateTimeNano", nm, lambda k, y, mod=mod, div=div: z3.ToReal(k.L % mod) / div, kind="float", nocase=True)
for nm, mod in (("hour", DAY), ("minute", H), ("second", M), ("millisecond", S_), ("microsecond", 10**6), ("nanosecond", 1000)):
    c("DateTimeNano", nm + "_span", lambda k, y, mod=mod: z3.ToReal(k.L % mod), kind="span", nocase=True)
c("DateTimeNano", "time_since_midnight", lambda k, y: z3.ToReal(k.L % DAY), kind="span", nocase=True)
