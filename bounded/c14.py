"""C14 bounded: reductions and validity tests honour the invalid value of the element type, and a filter."""
import math, os
from fractions import Fraction
import numpy as np
from .common import section

INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
FLTS = ["float32", "float64"]


def inv_of(dt):
    dt = np.dtype(dt)
    if dt.kind == "f":
        return float("nan")
    if dt.kind == "b":
        return None
    return int(np.iinfo(dt).min if dt.kind == "i" else np.iinfo(dt).max)


def is_inv(x, inv):
    return x != x or (inv is not None and x == inv)


def gen(rng, dt, n, p, inf=True, big=True):
    d = np.dtype(dt)
    inv = inv_of(dt)
    if d.kind == "b":
        return [rng.random() < 0.5 for _ in range(n)]
    if d.kind == "f":
        pool = [0.0, 1.5, -2.0, 3.0, -0.25, 100.0]
        if big:
            pool += [1e15, -1e15] if dt == "float64" else [4096.0, -4096.0]
        if inf:
            pool += [float("inf"), float("-inf")]
    else:
        ii = np.iinfo(d)
        pool = [0, 1, 2, 3, 7, 100]
        if d.kind == "i":
            pool += [-1, -5]
        if big:
            pool += [ii.max - 1, ii.min + 1]
            if d.itemsize == 8:
                pool = [min(max(x, -(2**61)), 2**61) for x in pool]
    return [inv if rng.random() < p else rng.choice(pool) for _ in range(n)]


def mk(rt, rng, vals, dt):
    """the array, sometimes strided"""
    a = np.array(vals, dtype=dt)
    w = rng.random()
    if w < 0.15:
        return rt.FastArray(np.repeat(a, 2))[::2]
    if w < 0.25:
        return rt.FastArray(a[::-1].copy())[::-1]
    return rt.FastArray(a)


def close(got, exp, tol):
    if got is None:
        return False
    g = float(got)
    if isinstance(exp, Fraction):
        exp = float(exp)
    if math.isnan(exp) or math.isnan(g):
        return math.isnan(exp) and math.isnan(g)
    if math.isinf(exp) or math.isinf(g):
        return exp == g
    return abs(g - exp) <= tol * max(1.0, abs(exp))


def total(v):
    """exact sum with the IEEE rules for NaN and infinities"""
    if any(x != x for x in v):
        return float("nan")
    if any(isinstance(x, float) and math.isinf(x) for x in v):
        s = {x for x in v if isinstance(x, float) and math.isinf(x)}
        return float("nan") if len(s) == 2 else s.pop()
    return sum((Fraction(x) for x in v), Fraction(0))


def meanof(v):
    t = total(v)
    return t / len(v)


def varof(v, ddof=1):
    if len(v) <= ddof or any(x != x or math.isinf(x) for x in v):
        return float("nan")
    m = total(v) / len(v)
    return sum(((Fraction(x) - m) ** 2 for x in v), Fraction(0)) / (len(v) - ddof)


def scale_of(v):
    """how large the rounding of a running sum may be"""
    f = [abs(float(x)) for x in v if x == x and not math.isinf(x)]
    return max([1.0] + f) * max(1, len(f))


def tolof(dt):
    return 2e-4 if dt == "float32" else 1e-9


def cmp_num(ctx, key, got, exp, v, dt, info, power=1):
    s = scale_of(v) ** power
    tol = tolof(dt)
    e = float(exp)
    ctx.distinct.add(hash((key, str(exp))) & 0xFFFFFFFF)
    if math.isnan(e) or math.isinf(e):
        return ctx.ok(key, close(got, exp, tol), lambda: f"{key}\n input: {info!r}\n expected {e!r} got {got!r}")
    g = float(got)
    return ctx.ok(key, g == g and abs(g - e) <= tol * s, lambda: f"{key}\n input: {info!r}\n expected {e!r} got {got!r}")


@section("reduce", bound="random arrays of every numeric dtype, length <= 60 (occasionally 5000), strided and reversed views: sum/mean/var/std/min/max/argmin/argmax and the nan versions, method, rt and numpy spellings")
def reduce_(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    DTS = INTS + FLTS + ["bool"]
    while ctx.more() and it < ctx.scale(2500, 40000):
        it += 1
        dt = DTS[it % len(DTS)]
        n = rng.choice([1, 1, 2, 3, 5, 8, 13, 33, 60]) if rng.random() < 0.98 else 5000
        hasinf = rng.random() < 0.3
        vals = gen(rng, dt, n, rng.choice([0, 0, 0.2, 0.5, 0.9, 1]), inf=hasinf)
        inv = inv_of(dt)
        a = mk(rt, rng, vals, dt)
        vals = a._np.tolist()
        valid = [x for x in vals if not is_inv(x, inv)]
        clean = len(valid) == len(vals)
        info = (dt, vals if n <= 60 else n)
        before = a._np.copy()
        isint = np.dtype(dt).kind in "iu"
        big = 2e18 if isint and np.dtype(dt).itemsize == 8 else 0

        def both(name):
            w = rng.random()
            if w < 0.5:
                return name, lambda: getattr(a, name)()
            if w < 0.9:
                return "rt." + name, lambda: getattr(rt, name)(a)
            return "rt.%s(numpy)" % name, lambda: getattr(rt, name)(a._np.view(rt.FastArray))

        # ---- totals
        small = not isint or np.dtype(dt).itemsize < 8 or sum(abs(int(x)) for x in valid) < 2**53
        if small:
            for name, exp in (("nansum", total(valid)), ("sum", total(vals) if clean or not isint else None)):
                if exp is None:
                    exp = -(2**63)  # an invalid element makes the total invalid
                    if dt == "uint64":
                        continue
                key, f = both(name)
                ctx.at((key, info[0]))
                ok, r = ctx.call(key, f, info)
                if ok:
                    if isint and not (isinstance(exp, float)):
                        ctx.eq(key, int(r), int(exp), info)
                    else:
                        cmp_num(ctx, key, r, exp, vals, dt, info)
        # ---- means, variances
        if big == 0 or max([0] + [abs(x) for x in valid]) < 2**40:
            for name, fun, power in (("mean", meanof, 1), ("var", varof, 2), ("std", varof, 2)):
                key, f = both("nan" + name)
                if len(valid) > 0:
                    ok, r = ctx.call(key, f, info)
                    if ok:
                        if name == "std":
                            ok, r = True, (float(r) ** 2 if r == r else r)
                        cmp_num(ctx, key, r, fun(valid), valid, dt, info, power)
                key, f = both(name)
                ok, r = ctx.call(key, f, info)
                if ok:
                    if name == "std":
                        r = float(r) ** 2 if r == r else r
                    cmp_num(ctx, key, r, fun(vals) if clean else float("nan"), vals, dt, info, power)
        # ---- extremes
        for name, fn in (("min", min), ("max", max)):
            key, f = both("nan" + name)
            ok, r = ctx.call(key, f, info)
            if ok:
                ctx.eq(key, r, fn(valid) if valid else inv, info)
            key, f = both(name)
            ok, r = ctx.call(key, f, info)
            if ok:
                ctx.eq(key, r, fn(vals) if clean else inv, info)
            if valid:
                key, f = both("nanarg" + name)
                ok, r = ctx.call(key, f, info)
                if ok:
                    ctx.eq(key, r, next(i for i, x in enumerate(vals) if x == fn(valid)), info)
            if clean:
                key, f = both("arg" + name)
                ok, r = ctx.call(key, f, info)
                if ok:
                    ctx.eq(key, r, vals.index(fn(vals)), info)
        if dt != "bool" and not np.dtype(dt).kind == "f" and not clean:
            pass
        elif valid and dt != "bool" and not hasinf and big == 0:
            key, f = both("nanmedian")
            ok, r = ctx.call(key, f, info)
            s = sorted(valid)
            m = Fraction(s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2
            if ok:
                cmp_num(ctx, key, r, m, valid, dt, info)
        ctx.eq("input untouched", a, before, info)


@section("ddof", bound="random float/int arrays without invalids, ddof 0..2, dtype=, keepdims")
def ddof_(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(800, 8000):
        it += 1
        dt = rng.choice(["int32", "int64", "float64", "uint8", "float32"])
        n = rng.choice([3, 4, 7, 20])
        vals = gen(rng, dt, n, 0, inf=False, big=False)
        a = mk(rt, rng, vals, dt)
        vals = a._np.tolist()
        d = rng.choice([0, 1, 2, None])
        info = (dt, vals, "ddof", d)
        for name in ("var", "std", "nanvar", "nanstd"):
            kw = {} if d is None else {"ddof": d}
            for key, f in ((name + "(ddof)", lambda: getattr(a, name)(**kw)), ("rt." + name + "(ddof)", lambda: getattr(rt, name)(a, **kw))):
                ok, r = ctx.call(key, f, info)
                if ok:
                    v = varof(vals, 1 if d is None else d)
                    cmp_num(ctx, key, float(r) ** 2 if "std" in name else r, v, vals, dt, info, 2)
        for name, fun in (("mean", meanof), ("nanmean", meanof), ("nansum", total)):
            for od in (np.float32, np.float64):
                ok, r = ctx.call(name + "(dtype)", lambda: getattr(a, name)(dtype=od), info)
                if ok:
                    cmp_num(ctx, name + "(dtype)", r, fun(vals), vals, "float32", info)
                    ctx.ok(name + "(dtype) type", np.asarray(r).dtype == od, lambda: f"{name} dtype={od} gave {np.asarray(r).dtype} {info}")


@section("axis", bound="random 2-D float/int arrays up to 5x6 without integer invalids, axis 0, 1, -1 and None, positional and keyword")
def axis_(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(500, 6000):
        it += 1
        dt = rng.choice(["int32", "float64", "float64", "int16"])
        r_, c_ = rng.choice([2, 3, 5]), rng.choice([2, 3, 6])
        p = rng.choice([0, 0.2]) if dt == "float64" else 0
        m = np.array([gen(rng, dt, c_, p, inf=False, big=False) for _ in range(r_)], dtype=dt)
        a = rt.FastArray(m.copy())
        ax = rng.choice([0, 0, 1, -1, None])
        info = (dt, m.tolist(), "axis", ax)
        for name, ref in (
            ("sum", np.sum), ("mean", np.mean), ("min", np.min), ("max", np.max), ("nansum", np.nansum), ("nanmean", np.nanmean), ("nanmin", np.nanmin), ("nanmax", np.nanmax),
            ("var", lambda x, axis: np.var(x, axis=axis, ddof=1)), ("std", lambda x, axis: np.std(x, axis=axis, ddof=1)), ("nanvar", lambda x, axis: np.nanvar(x, axis=axis, ddof=1)), ("nanstd", lambda x, axis: np.nanstd(x, axis=axis, ddof=1)),
        ):
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                exp = ref(m, axis=ax)
            for key, f in ((name + "(axis)", lambda: getattr(a, name)(axis=ax)),) + ((("np." + name + "(axis)", lambda: getattr(np, name)(a, axis=ax)),) if "var" not in name and "std" not in name else ()):
                ok, r = ctx.call(key, f, info)
                if ok:
                    r = np.asarray(r, dtype=float)
                    e = np.asarray(exp, dtype=float)
                    ctx.ok(key, r.shape == e.shape and np.allclose(r, e, rtol=1e-9, atol=1e-9, equal_nan=True), lambda: f"{key}\n input {info}\n expected {e.tolist()} got {r.tolist()}")


@section("filtered", bound="random arrays of every numeric dtype, length <= 60 (occasionally 20000), boolean filters (array, list, True): mean/var/std and nansum/nanmean/nanvar/nanstd over the kept rows")
def filtered(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    focus = [d for d in os.environ.get("PYVC_FOCUS", "").replace("[", " ").replace("]", " ").split() if d in INTS + FLTS]
    DTS = focus or ctx.scale(["float64", "int32", "uint8", "int64"], ["int32", "float64", "int8", "float32", "int64", "uint8", "int16", "uint16", "uint32", "uint64"])
    while ctx.more() and it < ctx.scale(1200, 20000):
        it += 1
        dt = DTS[min(it // 100, len(DTS) - 1)] if it < 100 * len(DTS) else rng.choice(DTS)
        isint = np.dtype(dt).kind in "iu"
        n = rng.choice([2, 3, 5, 8, 13, 33, 60]) if rng.random() < 0.97 else 20000
        vals = gen(rng, dt, n, rng.choice([0, 0, 0.2, 0.5]), inf=rng.random() < 0.2, big=rng.random() < 0.3 and dt not in ("int64", "uint64"))
        a = mk(rt, rng, vals, dt)
        vals = a._np.tolist()
        inv = inv_of(dt)
        w = rng.random()
        if w < 0.1:
            flt, fl = True, [True] * n
        else:
            p = rng.choice([0.2, 0.5, 0.9, 1])
            fl = [rng.random() < p for _ in range(n)]
            flt = rt.FastArray(fl) if w < 0.8 else (np.array(fl) if w < 0.9 else rt.FastArray(np.repeat(fl, 2))[::2])
        keep = [x for x, k in zip(vals, fl) if k]
        valid = [x for x in keep if not is_inv(x, inv)]
        info = (dt, vals if n <= 60 else n, "filter", flt if flt is True else (fl if n <= 60 else n))
        before = a._np.copy()
        for name, fun, power, v in (
            ("nansum", total, 1, valid), ("nanmean", meanof, 1, valid), ("nanvar", varof, 2, valid), ("nanstd", varof, 2, valid),
            ("mean", meanof, 1, keep), ("var", varof, 2, keep), ("std", varof, 2, keep),
        ):
            if not v and name != "nansum":
                continue
            if isint and not name.startswith("nan") and len(valid) != len(keep):
                continue
            f = (lambda: getattr(a, name)(filter=flt)) if rng.random() < 0.6 else (lambda: getattr(rt, name)(a, filter=flt))
            ctx.at((name, dt))
            ok, r = ctx.call(name + "(filter)", f, info)
            if not ok:
                continue
            if name in ("std", "nanstd"):
                r = float(r) ** 2 if r == r else r
            cmp_num(ctx, name + "(filter)", r, fun(v), v, dt, info, power)
        ctx.eq("input untouched(filter)", a, before, info)


@section("valid", bound="random arrays of every numeric and string dtype, length <= 60, strided: isnan/isnotnan/isna/notna/isfinite/isnotfinite/isinf/isnotinf/isnanorzero (boolean and fancy), replacena/fillna(value), nan_to_zero, bool_to_fancy")
def valid_(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    DTS = INTS + FLTS + ["bool", "bytes", "unicode"]
    while ctx.more() and it < ctx.scale(2500, 40000):
        it += 1
        dt = DTS[it % len(DTS)]
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 33, 60])
        if dt in ("bytes", "unicode"):
            sv = [rng.choice(["", "a", "bc", "", " "]) for _ in range(n)]
            arr = np.array(sv, dtype="S3" if dt == "bytes" else "U3")
            a = rt.FastArray(arr) if dt == "bytes" else rt.FastArray(arr, unicode=True)
            bad = [x == "" for x in sv]
            preds = {"isnan": bad, "isnotnan": [not x for x in bad], "isna": bad, "notna": [not x for x in bad]}
            vals = sv
        else:
            vals = gen(rng, dt, n, rng.choice([0, 0.2, 0.5, 1]))
            a = mk(rt, rng, vals, dt)
            vals = a._np.tolist()
            inv = inv_of(dt)
            bad = [is_inv(x, inv) for x in vals]
            inf = [isinstance(x, float) and math.isinf(x) for x in vals]
            nb = [not x for x in bad]
            preds = {
                "isnan": bad, "isnotnan": nb, "isna": bad, "notna": nb,
                "isfinite": [not x and not y for x, y in zip(bad, inf)], "isnotfinite": [x or y for x, y in zip(bad, inf)],
                "isinf": inf, "isnotinf": [not x for x in inf],
                "isnanorzero": [x or y == 0 for x, y in zip(bad, vals)],
            }
        info = (dt, vals)
        before = a._np.copy()
        for name, exp in preds.items():
            ok, r = ctx.call(name, lambda: getattr(a, name)(), info)
            if ok:
                ctx.eq(name, r, exp, info)
                ctx.ok(name + " bool", r.dtype == bool, f"{name} {info} {r.dtype}")
            if name in ("isna", "notna"):
                continue
            ok, r = ctx.call(f"rt.{name}", lambda: getattr(rt, name)(a), info)
            if ok:
                ctx.eq(f"rt.{name}", r, exp, info)
            ok, r = ctx.call(f"{name}(fancy)", lambda: getattr(a, name)(fancy=True), info)
            if ok:
                ctx.eq(f"{name}(fancy)", r, [i for i, x in enumerate(exp) if x], info)
        ctx.eq("input untouched(valid)", a, before, info)
        if dt not in ("bytes", "unicode", "bool"):
            fv = rng.choice([0, 1, 5, 77])
            exp = [fv if b else x for b, x in zip(bad, vals)]
            for key, f in (("replacena", lambda: a.replacena(fv)), ("fillna", lambda: a.fillna(fv))):
                ok, r = ctx.call(key, f, info)
                if ok:
                    ctx.eq(key, r, exp, (info, fv))
                    ctx.ok(key + " dtype", r.dtype == np.dtype(dt), f"{key} {info} {r.dtype}")
            ctx.eq("input untouched(replacena)", a, before, info)
            c = a.copy()
            ok, r = ctx.call("replacena(inplace)", lambda: c.replacena(fv, inplace=True), info)
            ctx.eq("replacena(inplace)", c, exp, (info, fv))
            c = a.copy()
            ok, r = ctx.call("nan_to_zero", lambda: rt.nan_to_zero(c), info)
            if ok:
                ctx.eq("nan_to_zero", r, [0 if b else x for b, x in zip(bad, vals)], info)
        msk = rt.FastArray(np.array(bad, dtype=bool))
        if rng.random() < 0.3 and n:
            msk = rt.FastArray(np.repeat(np.array(bad, dtype=bool), 2))[::2]
        ok, r = ctx.call("bool_to_fancy", lambda: rt.bool_to_fancy(msk), info)
        if ok:
            ctx.eq("bool_to_fancy", r, [i for i, x in enumerate(bad) if x], info)


@section("sentinels", bound="every integer and float dtype: the invalid value, the smallest and largest valid value, and validity, in Python and compiled (numba) form, scalars and arrays")
def sentinels(ctx):
    import riptable as rt
    import numba as nb
    from riptable.numba import invalid_values as iv

    @nb.njit
    def j_valid(x):
        return iv.is_valid(x)

    @nb.njit
    def j_inv(x):
        return iv.get_invalid(x)

    @nb.njit
    def j_min(x):
        return iv.get_min_valid(x)

    @nb.njit
    def j_max(x):
        return iv.get_max_valid(x)

    for dt in INTS + FLTS:
        d = np.dtype(dt)
        inv = inv_of(dt)
        if d.kind == "f":
            lo, hi = float(np.finfo(d).min), float(np.finfo(d).max)
            some = [0.0, 1.5, float("nan"), float("inf"), lo, hi]
        else:
            ii = np.iinfo(d)
            lo = ii.min + 1 if d.kind == "i" else 0
            hi = ii.max if d.kind == "i" else ii.max - 1
            some = [0, 1, ii.min, ii.max, ii.min + 1, ii.max - 1]
        arr = np.array([some[1]], dtype=dt)
        sc = d.type(some[1])
        for key, f, exp in (("get_invalid", iv.get_invalid, inv), ("get_min_valid", iv.get_min_valid, lo), ("get_max_valid", iv.get_max_valid, hi), ("jit get_invalid", j_inv, inv), ("jit get_min_valid", j_min, lo), ("jit get_max_valid", j_max, hi)):
            for w, x in (("array", arr), ("scalar", sc)):
                ok, r = ctx.call(f"{key}({w})", lambda: f(x), dt)
                if ok:
                    ctx.eq(f"{key}({w})", r, exp, dt)
        for x in some:
            e = not is_inv(x, inv)
            for key, f in (("is_valid", iv.is_valid), ("jit is_valid", j_valid)):
                ok, r = ctx.call(key, lambda: f(d.type(x)), (dt, x))
                if ok:
                    ctx.eq(key, bool(r), e, (dt, x))
        a = rt.FastArray(np.array(some, dtype=dt))
        ctx.eq("inv", a.inv, inv, dt)
        ctx.eq("inv is nan", rt.FastArray(np.array([a.inv], dtype=dt)).isnan(), [True], dt)
        ctx.eq("fill_invalid", a.fill_invalid(inplace=False), [inv] * len(some), dt)
        ctx.eq("INVALID_DICT", rt.INVALID_DICT[d.num] if hasattr(rt, "INVALID_DICT") else a.inv, inv, dt)


@section("dataset", bound="random datasets of 1..4 numeric columns (plus a string column), length <= 12: Dataset reductions along columns and rows")
def dataset(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(400, 5000):
        it += 1
        n = rng.choice([1, 2, 3, 5, 12])
        k = rng.choice([1, 2, 3, 4])
        cols = {}
        dts = []
        for j in range(k):
            dt = rng.choice(["int32", "float64", "int64", "uint8", "float32"])
            cols[f"c{j}"] = gen(rng, dt, n, rng.choice([0, 0.3]), inf=False, big=False)
            dts.append(dt)
        ds = rt.Dataset({nm: rt.FastArray(np.array(v, dtype=dt)) for (nm, v), dt in zip(cols.items(), dts)})
        withs = rng.random() < 0.4
        if withs:
            ds["s"] = ["x"] * n
        info = (dts, cols)
        for name in ("nansum", "nanmean", "nanstd", "nanvar", "nanmin", "nanmax", "sum", "mean", "std", "var", "min", "max"):
            ok, r = ctx.call(f"ds.{name}", lambda: getattr(ds, name)(), info)
            if not ok:
                continue
            for (nm, v), dt in zip(cols.items(), dts):
                inv = inv_of(dt)
                valid = [x for x in v if not is_inv(x, inv)]
                clean = len(valid) == len(v)
                base = name.replace("nan", "")
                if not name.startswith("nan") and not clean:
                    if base in ("min", "max"):
                        exp = inv
                    elif base == "sum" and np.dtype(dt).kind in "iu":
                        continue
                    else:
                        exp = float("nan")
                elif not valid:
                    continue
                else:
                    exp = {"sum": total, "mean": meanof, "var": varof, "std": varof, "min": min, "max": max}[base](valid)
                got = r[nm][0]
                if base == "std":
                    got = float(got) ** 2 if got == got else got
                if base in ("min", "max"):
                    ctx.eq(f"ds.{name}", got, exp, (nm, info))
                else:
                    cmp_num(ctx, f"ds.{name}", got, exp, valid, dt, (nm, info), 2 if base in ("var", "std") else 1)
        if k > 1 and not withs and set(dts) <= {"float64", "int32"}:
            vv = [[float("nan") if is_inv(x, inv_of(dt)) else float(x) for x in v] for v, dt in zip(cols.values(), dts)]
            if "float64" in dts or all(x == x for v in vv for x in v):
                for name in ("nansum", "sum", "mean", "nanmean", "nanmin", "nanmax"):
                    if any(all(x != x for x in row) for row in zip(*vv)):
                        continue
                    ok, r = ctx.call(f"ds.{name}(axis=1)", lambda: getattr(ds, name)(axis=1), info)
                    if not ok:
                        continue
                    for i, row in enumerate(zip(*vv)):
                        v = [x for x in row if x == x] if name.startswith("nan") else list(row)
                        exp = {"sum": total, "mean": meanof, "min": min, "max": max}[name.replace("nan", "")](v)
                        cmp_num(ctx, f"ds.{name}(axis=1)", r[i], exp, v, "float64", (i, info))
