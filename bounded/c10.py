"""Bounded contracts: arithmetic and comparison of Date, DateSpan, DateTimeNano and TimeSpan (arrays, one-row arrays, scalars)."""
import datetime as dt
import numpy as np
from .common import section
from .c08 import NS, DAY, rnd_day, EPOCHD

I32, I64 = -(2**31), -(2**63)


def rnd(rng, kind, inv_p):
    """a value of a kind, None = invalid"""
    if rng.random() < inv_p:
        return None
    if kind == "Date":
        return rng.choice([rnd_day(rng), rng.randrange(9000, 9010)])
    if kind == "DateSpan":
        return rng.choice([0, 1, -1, 2, 7, rng.randrange(-4000, 4000)])
    if kind == "DateTimeNano":
        return rng.choice([rng.randrange(9000, 9010) * DAY, rng.randrange(9000 * DAY, 9003 * DAY), rng.randrange(4000 * DAY, 25000 * DAY)])
    if kind == "TimeSpan":
        return rng.choice([0, 1, -1, DAY, -DAY, 3600 * NS, rng.randrange(-(2**50), 2**50)])
    raise AssertionError


def build(rt, kind, vals, tz="UTC"):
    if kind == "Date":
        return rt.Date(rt.FastArray(np.array([0 if v is None else v for v in vals], dtype=np.int32)))
    if kind == "DateSpan":
        return rt.DateSpan(rt.FastArray(np.array([I32 if v is None else v for v in vals], dtype=np.int32)))
    if kind == "DateTimeNano":
        return rt.DateTimeNano(rt.FastArray(np.array([0 if v is None else v for v in vals], dtype=np.int64)), from_tz="UTC", to_tz=tz)
    return rt.TimeSpan(rt.FastArray(np.array([np.nan if v is None else float(v) for v in vals], dtype=np.float64)))


def read(rt, x):
    """(kind, values with None for invalid)"""
    for nm in ("DateTimeNano", "DateSpan", "TimeSpan", "Date"):
        if isinstance(x, getattr(rt, nm)):
            k = nm
            break
        sc = getattr(rt.rt_datetime, nm + "Scalar")
        if isinstance(x, sc):
            k = nm + "Scalar"
            break
    else:
        a = np.asarray(x)
        return type(x).__name__, a.tolist() if a.ndim else [a.item()]
    a = np.atleast_1d(np.asarray(x._np if hasattr(x, "_np") else x))
    out = []
    for v in a.tolist():
        base = k.replace("Scalar", "")
        if base == "Date":
            out.append(None if v in (0, I32) else v)
        elif base == "DateTimeNano":
            out.append(None if v in (0, I64) else v)
        elif base == "DateSpan":
            out.append(None if v == I32 else v)
        else:
            out.append(None if v != v else v)
    return k, out


# (left, op, right): (result kind, function of the plain values)
RULES = {
    ("Date", "+", "DateSpan"): ("Date", lambda a, b: a + b),
    ("DateSpan", "+", "Date"): ("Date", lambda a, b: a + b),
    ("Date", "-", "DateSpan"): ("Date", lambda a, b: a - b),
    ("Date", "-", "Date"): ("DateSpan", lambda a, b: a - b),
    ("DateSpan", "+", "DateSpan"): ("DateSpan", lambda a, b: a + b),
    ("DateSpan", "-", "DateSpan"): ("DateSpan", lambda a, b: a - b),
    ("Date", "+", "TimeSpan"): ("DateTimeNano", lambda a, b: a * DAY + b),
    ("Date", "-", "TimeSpan"): ("DateTimeNano", lambda a, b: a * DAY - b),
    ("TimeSpan", "+", "Date"): ("DateTimeNano", lambda a, b: a + b * DAY),
    ("DateTimeNano", "+", "TimeSpan"): ("DateTimeNano", lambda a, b: a + b),
    ("TimeSpan", "+", "DateTimeNano"): ("DateTimeNano", lambda a, b: a + b),
    ("DateTimeNano", "-", "TimeSpan"): ("DateTimeNano", lambda a, b: a - b),
    ("DateTimeNano", "+", "DateSpan"): ("DateTimeNano", lambda a, b: a + b * DAY),
    ("DateTimeNano", "-", "DateSpan"): ("DateTimeNano", lambda a, b: a - b * DAY),
    ("DateSpan", "+", "DateTimeNano"): ("DateTimeNano", lambda a, b: a * DAY + b),
    ("DateTimeNano", "-", "DateTimeNano"): ("TimeSpan", lambda a, b: a - b),
    ("DateTimeNano", "-", "Date"): ("TimeSpan", lambda a, b: a - b * DAY),
    ("Date", "-", "DateTimeNano"): ("TimeSpan", lambda a, b: a * DAY - b),
    ("TimeSpan", "+", "TimeSpan"): ("TimeSpan", lambda a, b: a + b),
    ("TimeSpan", "-", "TimeSpan"): ("TimeSpan", lambda a, b: a - b),
    ("TimeSpan", "+", "DateSpan"): ("TimeSpan", lambda a, b: a + b * DAY),
    ("TimeSpan", "-", "DateSpan"): ("TimeSpan", lambda a, b: a - b * DAY),
    ("DateSpan", "+", "TimeSpan"): ("TimeSpan", lambda a, b: a * DAY + b),
    ("DateSpan", "-", "TimeSpan"): ("TimeSpan", lambda a, b: a * DAY - b),
}
INVALID_OPS = [("Date", "+", "Date"), ("DateTimeNano", "+", "DateTimeNano"), ("Date", "+", "DateTimeNano"), ("DateTimeNano", "+", "Date"), ("DateSpan", "-", "Date"), ("DateSpan", "-", "DateTimeNano")]


def ap(op, a, b):
    return a + b if op == "+" else a - b


@section("arith", bound="24 operand-kind pairs, arrays of 1..8 rows with arrays of the same length, one-row arrays and scalars; invalid rows on either side; results against the nanosecond/day arithmetic, operands untouched, displayed zone kept")
def s_arith(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    keys = list(RULES)
    while ctx.more() and it < ctx.scale(12000, 80000):
        it += 1
        ka, op, kb = rng.choice(keys)
        kr, f = RULES[(ka, op, kb)]
        n = rng.choice([1, 2, 3, 8])
        p = rng.choice([0, 0.25, 0.25, 1.0])
        m = rng.choice([n, n, n, 1])
        if rng.random() < 0.2:
            la, lb = m, n
        else:
            la, lb = n, m
        va = [rnd(rng, ka, rng.choice([p, 0])) for _ in range(la)]
        vb = [rnd(rng, kb, rng.choice([p, 0])) for _ in range(lb)]
        tz = rng.choice(["UTC", "NYC", "Asia/Tokyo"]) if "Date" not in (ka, kb) else "UTC"
        A, B = build(rt, ka, va, tz), build(rt, kb, vb, tz)
        sa = sb = False
        if la == 1 and rng.random() < 0.25 and va[0] is not None:
            A, sa = A[0], True
        if lb == 1 and rng.random() < 0.25 and vb[0] is not None:
            B, sb = B[0], True
        # Date and DateSpan scalars are not part of the statement: they are plain day numbers
        if sa and ka in ("Date", "DateSpan"):
            continue
        if sb and kb in ("Date", "DateSpan"):
            continue
        if (sa and ka == "TimeSpan") or (sb and kb == "TimeSpan"):
            if not (ka, kb) in (("DateTimeNano", "TimeSpan"), ("TimeSpan", "TimeSpan"), ("TimeSpan", "DateTimeNano")):
                continue
        N = max(la, lb)
        xa, xb = (va * N if la == 1 else va), (vb * N if lb == 1 else vb)
        exp = [None if a is None or b is None else f(a, b) for a, b in zip(xa, xb)]
        if kr in ("Date", "DateTimeNano") and any(e is not None and e <= 0 for e in exp):
            continue
        if kr == "Date" and any(e is not None and e > 47481 for e in exp):
            continue
        info = (f"{ka}{'(scalar)' if sa else ''} {op} {kb}{'(scalar)' if sb else ''}", va, vb, tz)
        key = f"{ka}{op}{kb}" + ("" if la == lb else ":broadcast") + (":scalar" if sa or sb else "")
        ctx.at(info)
        a0, b0 = read(rt, A), read(rt, B)
        ok, r = ctx.call(key, lambda: ap(op, A, B), info)
        if not ok:
            continue
        k, got = read(rt, r)
        want = kr + ("Scalar" if (sa and sb) else "")
        if not (k == want or (sa and sb and k == kr)):
            ctx.fail(key + ":type", f"{info}: result is {k}, expected {kr}")
            continue
        # floating TimeSpan results are exact below 2**53
        if kr == "TimeSpan":
            okv = len(got) == len(exp) and all((g is None) == (e is None) and (e is None or abs(g - e) <= max(2, abs(e) * 2**-50)) for g, e in zip(got, exp))
        else:
            okv = got == exp
        ctx.ok(key, okv, lambda: f"{info}\n got {got}\n expected {exp}")
        if kr == "DateTimeNano" and "DateTimeNano" in (ka, kb) and k == kr:
            ctx.ok(key + ":zone", r._timezone._to_tz == {"NYC": "America/New_York"}.get(tz, tz), lambda: f"{info}: displayed zone {r._timezone._to_tz}")
        ctx.ok(key + ":operands", read(rt, A) == a0 and read(rt, B) == b0, lambda: f"{info}: an operand changed")


@section("forbidden", bound="operand kinds whose sum or difference has no meaning raise TypeError")
def s_forbidden(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(300, 2000):
        it += 1
        ka, op, kb = rng.choice(INVALID_OPS)
        n = rng.choice([1, 2, 5])
        A, B = (build(rt, k, [rnd(rng, k, 0.1) for _ in range(n)]) for k in (ka, kb))
        try:
            r = ap(op, A, B)
            ctx.fail(f"{ka}{op}{kb}:allowed", f"{ka} {op} {kb} returned {r!r}")
        except TypeError:
            ctx.ok(f"{ka}{op}{kb}", True, "")
        except Exception as e:
            ctx.fail(f"{ka}{op}{kb}:error", f"{ka} {op} {kb} raised {e!r}, expected TypeError")


@section("numbers", bound="Date/DateSpan/DateTimeNano/TimeSpan with integer scalars and integer arrays; TimeSpan times and divided by numbers; TimeSpan / TimeSpan; diff; in-place addition")
def s_numbers(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(5000, 30000):
        it += 1
        ka = rng.choice(["Date", "DateSpan", "DateTimeNano", "TimeSpan"])
        n = rng.choice([1, 2, 3, 8])
        va = [rnd(rng, ka, rng.choice([0.25, 0])) for _ in range(n)]
        tz = rng.choice(["UTC", "NYC"])
        A = build(rt, ka, va, tz)
        what = rng.choice(["scalar", "array", "mul", "div", "ratio", "diff", "iadd"])
        k = rng.choice([0, 1, 2, 7, 300])
        op = rng.choice("+-")
        info = (ka, va, what, op, k)
        ctx.at(info)
        if what == "scalar":
            if ka == "TimeSpan":
                continue
            e = [None if a is None else ap(op, a, k) for a in va]
            g = lambda: ap(op, A, k)
        elif what == "array":
            ks = [rng.choice([0, 1, 5, 100]) for _ in va]
            info += (ks,)
            e = [None if a is None else ap(op, a, b) for a, b in zip(va, ks)]
            arr = rt.FastArray(ks).astype(np.int64 if ka == "DateTimeNano" else np.int32)
            if ka == "TimeSpan":
                continue
            g = lambda: ap(op, A, arr)
        elif what == "mul":
            if ka != "TimeSpan":
                continue
            e = [None if a is None else a * k for a in va]
            g = lambda: A * k
        elif what == "div":
            if ka != "TimeSpan" or k == 0:
                continue
            e = [None if a is None else a / k for a in va]
            g = lambda: A / k
        elif what == "ratio":
            if ka != "TimeSpan":
                continue
            vb = [rnd(rng, ka, 0.2) for _ in va]
            vb = [v if v != 0 else 3 for v in vb]
            info += (vb,)
            B = build(rt, ka, vb)
            ok, r = ctx.call("TimeSpan/TimeSpan", lambda: A / B, info)
            if ok:
                got = np.asarray(r).tolist()
                e = [None if a is None or b is None else a / b for a, b in zip(va, vb)]
                ctx.ok("TimeSpan/TimeSpan", all((x != x) == (y is None) and (y is None or abs(x - y) <= 1e-9 * max(1, abs(y))) for x, y in zip(got, e)), lambda: f"{info}: got {got}, expected {e}")
            continue
        elif what == "diff":
            if ka not in ("Date", "DateTimeNano"):
                continue
            e = [None] + [None if a is None or b is None else b - a for a, b in zip(va, va[1:])]
            ok, r = ctx.call(ka + ".diff", lambda: A.diff(), info)
            if ok:
                kk, got = read(rt, r)
                if ka == "DateTimeNano":
                    got = [None if x is None else int(x) for x in got]
                    ok2 = all((x is None) == (y is None) and (y is None or abs(x - y) <= max(2, abs(y) * 2**-50)) for x, y in zip(got, e))
                else:
                    ok2 = got == e
                ctx.ok(ka + ".diff", ok2 and len(got) == len(e), lambda: f"{info}: got {kk} {got}, expected {e}")
            continue
        else:
            if ka not in ("DateTimeNano", "Date"):
                continue
            sp = rnd(rng, "TimeSpan" if ka == "DateTimeNano" else "DateSpan", 0)
            sp = abs(sp) % (2000 * DAY if ka == "DateTimeNano" else 2000)
            vb = [sp if rng.random() > 0.2 else None for _ in va]
            info += (vb,)
            B = build(rt, "TimeSpan" if ka == "DateTimeNano" else "DateSpan", vb)
            e = [None if a is None or b is None else a + b for a, b in zip(va, vb)]
            if ka == "Date" and any(x is not None and x > 47481 for x in e):
                continue

            def g():
                C = A.copy()
                C += B
                return C

        if ka in ("Date", "DateTimeNano") and any(x is not None and x <= 0 for x in e):
            continue
        if ka == "Date" and any(x is not None and x > 47481 for x in e):
            continue
        ok, r = ctx.call(f"{ka}:{what}", g, info)
        if not ok:
            continue
        kk, got = read(rt, r)
        if ka == "TimeSpan":
            okv = len(got) == len(e) and all((x is None) == (y is None) and (y is None or abs(x - y) <= 1e-9 * max(1, abs(y))) for x, y in zip(got, e))
        else:
            okv = got == e
        ctx.ok(f"{ka}:{what}", okv and kk == ka, lambda: f"{info}\n got {kk} {got}\n expected {e}")


@section("compare", bound="six comparisons between Date, DateTimeNano and TimeSpan arrays (1..8 rows, same length, one-row, scalar), invalid rows on either side: false (true for !=)")
def s_compare(ctx):
    import riptable as rt
    import operator

    rng = ctx.rng
    ops = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
    it = 0
    while ctx.more() and it < ctx.scale(8000, 50000):
        it += 1
        ka, kb = rng.choice([("Date", "Date"), ("DateTimeNano", "DateTimeNano"), ("TimeSpan", "TimeSpan"), ("Date", "DateTimeNano"), ("DateTimeNano", "Date"), ("DateSpan", "DateSpan"), ("Date", "str")])
        n = rng.choice([1, 2, 3, 8])
        m = rng.choice([n, n, 1])
        p = 0.25 if ka != "DateSpan" else 0
        va = [rnd(rng, ka, p) for _ in range(n)]
        if kb == "str":
            vb = [rnd_day(rng)]
            B = str(EPOCHD + dt.timedelta(days=vb[0]))
        else:
            vb = [rnd(rng, kb, p) for _ in range(m)]
            if ka == kb and rng.random() < 0.5:
                vb = [va[j % n] if rng.random() < 0.5 else b for j, b in enumerate(vb)]
            B = build(rt, kb, vb)
        A = build(rt, ka, va)
        sc = False
        if len(vb) == 1 and kb in ("DateTimeNano",) and vb[0] is not None and rng.random() < 0.3:
            B, sc = B[0], True
        sym = rng.choice(list(ops))
        sa = DAY if (ka, kb) == ("Date", "DateTimeNano") else 1
        sb = DAY if (ka, kb) == ("DateTimeNano", "Date") else 1
        xb = vb * n if len(vb) == 1 else vb
        exp = [(sym == "!=") if a is None or b is None else ops[sym](a * sa, b * sb) for a, b in zip(va, xb)]
        info = (f"{ka} {sym} {kb}", va, vb, "scalar" if sc else "")
        ctx.at(info)
        key = f"{ka}{sym}{kb}" + (":broadcast" if len(vb) != n else "") + (":scalar" if sc else "")
        ok, r = ctx.call(key, lambda: ops[sym](A, B), info)
        if ok:
            got = [bool(x) for x in np.atleast_1d(np.asarray(r)).tolist()]
            ctx.ok(key, got == exp, lambda: f"{info}\n got {got}\n expected {exp}")


@section("start_date", bound="DateTimeNano(TimeSpan, start_date=Date array or one date), 1..8 rows, invalid rows on either side")
def s_start(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(500, 4000):
        it += 1
        n = rng.choice([1, 2, 3, 8])
        va = [rnd(rng, "TimeSpan", rng.choice([0, 0.3])) for _ in range(n)]
        va = [None if v is None else abs(v) % DAY for v in va]
        m = rng.choice([n, n, 1])
        vb = [rnd(rng, "Date", rng.choice([0, 0.3])) for _ in range(m)]
        vb = [None if v is None else max(2, v) for v in vb]
        A, B = build(rt, "TimeSpan", va), build(rt, "Date", vb)
        info = (va, vb)
        ctx.at(info)
        xb = vb * n if m == 1 else vb
        e = [None if a is None or b is None else a + b * DAY for a, b in zip(va, xb)]
        ok, r = ctx.call("start_date", lambda: rt.DateTimeNano(A, from_tz="UTC", to_tz="UTC", start_date=B), info)
        if ok:
            k, got = read(rt, r)
            ctx.ok("start_date", k == "DateTimeNano" and got == e, lambda: f"{info}\n got {k} {got}\n expected {e}")
            ctx.ok("start_date:operands", read(rt, A)[1] == [None if v is None else float(v) for v in va] and read(rt, B)[1] == vb, lambda: f"{info}: an operand changed")
