"""Contracts for + - and the comparisons of Date, DateSpan, DateTimeNano and TimeSpan (riptable/rt_datetime.py).

One generic row of arrays of any length; the other operand has the same length, or one row, or the first one has.
Specification: the arithmetic of days and nanoseconds; a result is invalid exactly where an operand is; operands are
left as they were; a DateTimeNano result is displayed in the zone of the DateTimeNano operand.
TimeSpan values are mathematical reals (whole nanoseconds); valid results are assumed to lie in the type's range."""
import z3
from pyvc.vec import VC, Row, Sc, Cell, RNG, tzobj, DTM, data

data()
NS = 10**9
DAY = 86400 * NS
NA, NB = z3.Int("rows_a"), z3.Int("rows_b")
A, B = z3.Int("a"), z3.Int("b")
AR, BR = z3.Bool("a_nan"), z3.Bool("b_nan")
C = []
DT = {"Date": "i32", "DateSpan": "i32", "DateTimeNano": "i64", "TimeSpan": "f64"}


def operand(kind, t, nan, ln, tz):
    """(array, invalid condition, range of the valid values)"""
    if kind == "Date":
        return Row(Cell("i32", t), ln, None, "Date"), z3.Or(t == 0, t == RNG["i32"][0]), z3.And(t >= 1, t <= 10**5)
    if kind == "DateSpan":
        return Row(Cell("i32", t), ln, None, "DateSpan"), t == RNG["i32"][0], z3.And(t >= -(10**5), t <= 10**5)
    if kind == "DateTimeNano":
        return Row(Cell("i64", t), ln, None, "DateTimeNano", {"_timezone": tz.obj, "_display_length": 0}), z3.Or(t == 0, t == RNG["i64"][0]), z3.And(t >= 1, t <= 2**62)
    if kind == "TimeSpan":
        return Row(Cell("f64", z3.ToReal(t), nan), ln, None, "TimeSpan"), nan, z3.And(t >= -(2**62), t <= 2**62)
    if kind == "int":
        return Sc("i64", t, py=True), z3.BoolVal(False), z3.And(t >= -(10**5), t <= 10**5)
    if kind in ("i32", "i64"):
        return Row(Cell(kind, t), ln), t == RNG[kind][0], z3.And(t >= -(10**5), t <= 10**5)
    raise AssertionError(kind)


def result_inv(kind, r):
    if kind == "Date":
        return z3.Or(r.t == 0, r.t == RNG["i32"][0])
    if kind == "DateSpan":
        return r.t == RNG["i32"][0]
    if kind == "DateTimeNano":
        return z3.Or(r.t == 0, r.t == RNG["i64"][0])
    return r.n


FITS = {"Date": lambda e: z3.And(e >= 1, e < 2**31), "DateSpan": lambda e: z3.And(e > -(2**31), e < 2**31), "DateTimeNano": lambda e: z3.And(e >= 1, e < 2**62), "TimeSpan": lambda e: z3.BoolVal(True)}


def shapes(kb):
    if kb == "int":
        return [("", [NA >= 1], NA)]
    return [
        ("same length", [NA >= 1, NA == NB], NA),
        ("one-row right operand", [NA >= 2, NB == 1], NA),
        ("one-row left operand", [NB >= 2, NA == 1], NB),
    ]


def arith(ka, op, kb, kr, f, recv=None):
    for shape, pre0, nres in shapes(kb):
        def setup(ex, shape=shape, pre0=pre0, nres=nres):
            tz = tzobj("tz")
            a, ia, va = operand(ka, A, AR, NA, tz)
            b, ib, vb = operand(kb, B, BR, NB, tz)
            e = f(A, B)
            pre = pre0 + [z3.Or(ia, va), z3.Or(ib, vb), z3.Or(ia, ib, FITS[kr](e))]
            cases = [("(valid rows)", [z3.Not(ia), z3.Not(ib)], []), ("(invalid row)", [z3.Or(ia, ib)], [])]
            if kb in ("int",):
                cases = [("(valid rows)", [z3.Not(ia)], []), ("(invalid row)", [ia], [])]

            def post(r):
                if not isinstance(r, Row) or r.cls != kr or r.dt != DT[kr] or r.mask is not None:
                    return [(f"the result is a {kr}", False)]
                out = [("one result per row", r.ln == nres)]
                inv = z3.Or(ia, ib)
                out.append(("invalid exactly where an operand is", result_inv(kr, r) == inv))
                out.append(("the days and nanoseconds add up", z3.Implies(z3.Not(inv), r.t == (z3.ToReal(e) if kr == "TimeSpan" else e))))
                if kr == "DateTimeNano" and "DateTimeNano" in (ka, kb):
                    z = r.attrs.get("_timezone")
                    out.append(("displayed in the operand's zone", z is not None and z.attrs["_to_tz"] is tz._to))
                return out

            ins = {"left operand": a}
            if isinstance(b, Row):
                ins["right operand"] = b
            return dict(args=[a, b], pre=pre, cases=cases, post=post, inputs=ins)

        m = {"+": "__add__", "-": "__sub__"}[op]
        C.append(VC(f"{ka} {op} {kb}" + (f" ({shape})" if shape else ""), f"{DTM}::{ka}.{m}", setup))


def compare(ka, sym, kb, sa=1, sb=1, zone=None):
    m = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[sym]
    for shape, pre0, nres in shapes(kb):
        def setup(ex, shape=shape, pre0=pre0, nres=nres):
            tz = tzobj("tz")
            a, ia, va = operand(ka, A, AR, NA, tz)
            b, ib, vb = operand(kb, B, BR, NB, tz)
            x, y = A * sa, B * sb
            # a Date compared with a DateTimeNano stands for its midnight in the displayed zone
            if zone == "a":
                x = tz.toutc(x)
            if zone == "b":
                y = tz.toutc(y)
            pre = pre0 + [z3.Or(ia, va), z3.Or(ib, vb)]
            if zone:
                d = tz.toutc((A * sa) if zone == "a" else B * sb)
                pre += [d > 0, d < 2**62]
                if zone == "a":
                    pre.append(z3.Or(ia, A <= 50000))
                else:
                    pre.append(z3.Or(ib, B <= 50000))
            spec = {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[sym]

            def post(r):
                if not isinstance(r, Row) or r.dt != "b" or r.mask is not None:
                    return [("the result is a boolean array", False)]
                return [("one result per row", r.ln == nres), (f"compares the moments; {'true' if sym == '!=' else 'false'} where an operand is invalid", r.t == z3.If(z3.Or(ia, ib), z3.BoolVal(sym == "!="), spec))]

            return dict(args=[a, b], pre=pre, cases=[("", [], [])], post=post, inputs={"left operand": a, "right operand": b})

        C.append(VC(f"{ka} {sym} {kb} ({shape})", f"{DTM}::{ka}.{m}", setup))


def forbidden(ka, op, kb):
    def setup(ex):
        tz = tzobj("tz")
        a, ia, va = operand(ka, A, AR, NA, tz)
        b, ib, vb = operand(kb, B, BR, NB, tz)
        return dict(args=[a, b], pre=[NA >= 1, NA == NB, z3.Or(ia, va), z3.Or(ib, vb)], post=lambda r: [], inputs={"left operand": a, "right operand": b}, raises=("TypeError",))

    m = {"+": "__add__", "-": "__sub__"}[op]
    C.append(VC(f"{ka} {op} {kb} raises TypeError", f"{DTM}::{ka}.{m}", setup))


add, sub = (lambda a, b: a + b), (lambda a, b: a - b)
arith("Date", "+", "DateSpan", "Date", add)
arith("DateSpan", "+", "Date", "Date", add)
arith("Date", "-", "DateSpan", "Date", sub)
arith("Date", "-", "Date", "DateSpan", sub)
arith("DateSpan", "+", "DateSpan", "DateSpan", add)
arith("DateSpan", "-", "DateSpan", "DateSpan", sub)
arith("Date", "+", "TimeSpan", "DateTimeNano", lambda a, b: a * DAY + b)
arith("Date", "-", "TimeSpan", "DateTimeNano", lambda a, b: a * DAY - b)
arith("TimeSpan", "+", "Date", "DateTimeNano", lambda a, b: a + b * DAY)
arith("DateTimeNano", "+", "TimeSpan", "DateTimeNano", add)
arith("TimeSpan", "+", "DateTimeNano", "DateTimeNano", add)
arith("DateTimeNano", "-", "TimeSpan", "DateTimeNano", sub)
arith("DateTimeNano", "+", "DateSpan", "DateTimeNano", lambda a, b: a + b * DAY)
arith("DateTimeNano", "-", "DateSpan", "DateTimeNano", lambda a, b: a - b * DAY)
arith("DateSpan", "+", "DateTimeNano", "DateTimeNano", lambda a, b: a * DAY + b)
arith("DateTimeNano", "-", "DateTimeNano", "TimeSpan", sub)
arith("DateTimeNano", "-", "Date", "TimeSpan", lambda a, b: a - b * DAY)
arith("TimeSpan", "+", "TimeSpan", "TimeSpan", add)
arith("TimeSpan", "-", "TimeSpan", "TimeSpan", sub)
arith("TimeSpan", "+", "DateSpan", "TimeSpan", lambda a, b: a + b * DAY)
arith("TimeSpan", "-", "DateSpan", "TimeSpan", lambda a, b: a - b * DAY)
arith("DateSpan", "+", "TimeSpan", "TimeSpan", lambda a, b: a * DAY + b)
arith("DateSpan", "-", "TimeSpan", "TimeSpan", lambda a, b: a * DAY - b)
for k in ("Date", "DateSpan", "DateTimeNano"):
    arith(k, "+", "int", k, add)
    arith(k, "-", "int", k, sub)
for sym in ("==", "!=", "<", "<=", ">", ">="):
    compare("Date", sym, "Date")
    compare("DateTimeNano", sym, "DateTimeNano")
    compare("TimeSpan", sym, "TimeSpan")
    compare("Date", sym, "DateTimeNano", sa=DAY, zone="a")
    compare("DateTimeNano", sym, "Date", sb=DAY, zone="b")
for o in (("Date", "+", "Date"), ("DateTimeNano", "+", "DateTimeNano"), ("Date", "+", "DateTimeNano"), ("DateTimeNano", "+", "Date"), ("DateSpan", "-", "Date"), ("DateSpan", "-", "DateTimeNano")):
    forbidden(*o)
