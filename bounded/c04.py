"""C04: gap filling and running extremes, public entry points against the spec functions of contracts/fill.py."""
import numpy as np
from bounded.common import section

INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
FLTS = ["float32", "float64"]


def inv_of(dt):
    dt = np.dtype(dt)
    if dt.kind == "f":
        return float("nan")
    return np.iinfo(dt).min if dt.kind == "i" else np.iinfo(dt).max


def is_inv(x, inv):
    return x != x or x == inv


def fwd(vals, inv, fv, lim):
    out, last, src = [], -1, fv
    for k, x in enumerate(vals):
        if not is_inv(x, inv):
            last, src = k, x
        out.append(src if lim <= 0 or k - last <= lim else x)
    return out


def bwd(vals, inv, fv, lim):
    return fwd(vals[::-1], inv, fv, lim)[::-1]


def cum(vals, inv, op, skipna):
    out, cur, poisoned = [], None, False
    for x in vals:
        if is_inv(x, inv):
            if not skipna:
                poisoned = True
        else:
            cur = x if cur is None else op(cur, x)
        out.append(inv if (poisoned or cur is None) else cur)
    return out


def gen(rng, dt, n, p):
    dt = np.dtype(dt)
    inv = inv_of(dt)
    if dt.kind == "f":
        pool = [0.0, 1.5, -2.0, 1e30, -1e30, 3.0, float("inf"), float("-inf")]
    else:
        ii = np.iinfo(dt)
        pool = [0, 1, 2, 3, 7, ii.max, ii.max - 1, ii.min + 1, ii.min]
        if dt.kind == "i":
            pool = [x for x in pool if x != ii.min]
        else:
            pool = [x for x in pool if x != ii.max]
    return [inv if rng.random() < p else rng.choice(pool) for _ in range(n)]


def arr_of(rt, vals, dt):
    return rt.FastArray(np.array(vals, dtype=dt))


def sizes(ctx):
    return ctx.rng.choice([0, 1, 2, 3, 5, 8, 8, 13, 13, 40])


def fill_loop(ctx, dts):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(900, 20000):
        it += 1
        dt = dts[it % len(dts)]
        n = sizes(ctx) if rng.random() < 0.97 else rng.choice([1000, 20001])
        vals = gen(rng, dt, n, rng.choice([0, 0.2, 0.5, 0.8, 1]))
        inv = inv_of(dt)
        lim = rng.choice([0, 0, 1, 2, 3, 100, None])
        fv = rng.choice([None, None, 5, 0])
        efv = inv if fv is None else fv
        l = 0 if lim is None else lim
        info = (dt, vals if n < 60 else (n, "long"), "limit", lim, "fill_val", fv)
        way = rng.choice(["method", "func", "fillna", "inplace", "slice"])
        for nm, spec, meth in (("fill_forward", fwd, "ffill"), ("fill_backward", bwd, "bfill")):
            a = arr_of(rt, vals, dt)
            base = None
            if way == "slice":
                base = rt.FastArray(np.repeat(np.array(vals, dtype=dt), 2))
                a = base[::2] if n else a
            exp = spec([x for x in a._np], np.array([inv], dtype=dt)[0] if np.dtype(dt).kind != "f" else inv, efv, l)
            ctx.at((nm, way) + info[:1])
            if way == "func":
                f = lambda: getattr(rt, nm)(a, fill_val=fv, limit=lim)
            elif way == "fillna":
                f = lambda: a.fillna(fv, method=meth, limit=lim)
            else:
                f = lambda: getattr(a, nm)(fv, inplace=(way == "inplace"), limit=lim)
            before = a._np.copy()
            ok, r = ctx.call(nm, f, info)
            if not ok:
                continue
            ctx.eq(f"{nm}({way})", r, exp, info)
            ctx.ok(f"{nm} dtype", r.dtype == np.dtype(dt), lambda: f"{nm} {info} dtype {r.dtype}")
            if way == "inplace":
                ctx.eq(f"{nm} writes in place", a, exp, info)
            else:
                ctx.eq(f"{nm} leaves the input alone", a, before, info)


@section("fill_int", bound="random arrays of every integer dtype, length <= 20001, limits {0,1,2,3,100}, optional fill value, strided inputs")
def fill_int(ctx):
    fill_loop(ctx, INTS)


@section("fill_float", bound="random float32/float64 arrays, length <= 20001, limits {0,1,2,3,100}, optional fill value, strided inputs")
def fill_float(ctx):
    fill_loop(ctx, FLTS)


@section("fillna_value", bound="fillna(value) on arrays of every numeric dtype; Dataset.fillna over several columns")
def fillna_value(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(500, 6000):
        it += 1
        dt = rng.choice(INTS + FLTS)
        n = sizes(ctx)
        vals = gen(rng, dt, n, rng.choice([0, 0.3, 0.7, 1]))
        inv = inv_of(dt)
        v = rng.choice([0, 5, 100])
        a = arr_of(rt, vals, dt)
        exp = [v if is_inv(x, inv) else x for x in (t.item() for t in a._np)]
        inplace = rng.random() < 0.3
        ok, r = ctx.call("fillna(value)", lambda: a.fillna(v, inplace=inplace), (dt, vals, v))
        if ok:
            ctx.eq("fillna(value)", a if inplace else r, exp, (dt, vals, v, inplace))
    # datasets
    for _ in range(ctx.scale(60, 600)):
        n = rng.choice([1, 3, 6])
        cols = {}
        for j in range(rng.randint(1, 3)):
            dt = rng.choice(["int32", "int64", "float64", "float32", "int16"])
            cols[f"c{j}"] = (dt, gen(rng, dt, n, 0.5))
        meth = rng.choice(["ffill", "pad", "bfill", "backfill"])
        lim = rng.choice([0, 1, 2])
        fv = rng.choice([None, 7])
        ds = rt.Dataset({k: arr_of(rt, v, dt) for k, (dt, v) in cols.items()})
        inplace = rng.random() < 0.3
        ok, r = ctx.call("Dataset.fillna", lambda: ds.fillna(fv, method=meth, limit=lim, inplace=inplace), cols)
        if not ok:
            continue
        r = ds if inplace else r
        for k, (dt, v) in cols.items():
            inv = inv_of(dt)
            spec = fwd if meth in ("ffill", "pad") else bwd
            src = [t for t in np.array(v, dtype=dt)]
            ctx.eq("Dataset.fillna", r[k], spec(src, inv, inv if fv is None else fv, lim), (cols, meth, lim, fv))
            if not inplace:
                ctx.eq("Dataset.fillna leaves the input alone", ds[k], src, (cols, meth))


@section("cum", bound="cummin/cummax of arrays of every integer and float dtype, length <= 20001, skipna both ways")
def cumminmax(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    dts = INTS + FLTS
    while ctx.more() and it < ctx.scale(900, 20000):
        it += 1
        dt = dts[it % len(dts)]
        n = sizes(ctx) if rng.random() < 0.98 else 20001
        vals = gen(rng, dt, n, rng.choice([0, 0.1, 0.3, 0.7, 1]))
        inv = inv_of(dt)
        a = arr_of(rt, vals, dt)
        src = [t for t in a._np]
        for skipna in (True, False):
            for nm, op in (("cummin", min), ("cummax", max)):
                ctx.at((nm, dt, skipna))
                info = (dt, vals if n < 60 else n, "skipna", skipna)
                ok, r = ctx.call(nm, lambda: getattr(a, nm)(skipna=skipna), info)
                if ok:
                    ctx.eq(f"{nm}(skipna={skipna})", r, cum(src, inv, op, skipna), info)
                    ctx.eq(f"{nm} leaves the input alone", a, src, info)
    a = arr_of(rt, [1, 2], "int32")


def grouped_expect(keys, vals, spec):
    out = [None] * len(vals)
    rows = {}
    for i, k in enumerate(keys):
        rows.setdefault(k, []).append(i)
    for k, r in rows.items():
        for i, v in zip(r, spec([vals[i] for i in r])):
            out[i] = v
    return out


@section("grouped", bound="grouped fill_forward/fill_backward/cummin/cummax via Categorical and GroupBy, <= 60 rows, <= 6 groups, all numeric dtypes")
def grouped(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    dts = INTS + FLTS
    while ctx.more() and it < ctx.scale(500, 8000):
        it += 1
        dt = dts[it % len(dts)]
        n = rng.choice([1, 2, 5, 9, 20, 60])
        ng = rng.randint(1, 6)
        keys = [f"k{rng.randrange(ng)}" for _ in range(n)]
        vals = gen(rng, dt, n, rng.choice([0, 0.3, 0.7, 1]))
        inv = inv_of(dt)
        a = arr_of(rt, vals, dt)
        src = [t for t in a._np]
        lim = rng.choice([0, 0, 1, 2])
        fv = rng.choice([None, None, 5])
        efv = inv if fv is None else fv
        info = (dt, keys, vals, "limit", lim, "fill_val", fv)
        use_gb = rng.random() < 0.4
        for nm, spec in (("fill_forward", fwd), ("fill_backward", bwd)):
            exp = grouped_expect(keys, src, lambda v: spec(v, inv, efv, lim))
            inplace = rng.random() < 0.25
            ctx.at((nm, dt))
            x = a.copy()
            if use_gb:
                ds = rt.Dataset({"k": keys, "v": x})
                ok, r = ctx.call(f"gb.{nm}", lambda: getattr(ds.gb("k"), nm)(limit=lim, fill_val=fv, inplace=False), info)
                if ok:
                    ctx.eq(f"gb.{nm}", r["v"], exp, info)
            else:
                c = rt.Cat(keys)
                ok, r = ctx.call(f"cat.{nm}", lambda: getattr(c, nm)(x, limit=lim, fill_val=fv, inplace=inplace), info)
                if ok:
                    if inplace:
                        ctx.eq(f"cat.{nm}(inplace)", x, exp, info)
                    else:
                        ctx.eq(f"cat.{nm}", r[0], exp, info)
                        ctx.eq(f"cat.{nm} leaves the input alone", x, src, info)
