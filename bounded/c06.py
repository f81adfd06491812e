"""C06 bounded: every group-by aggregation equals the same computation done on each group's rows alone."""
import math
import numpy as np
from .common import section, nv
from .c05 import cat_inputs, spec, npf, values_of, uniq_rows

INTS = {np.int8: -128, np.int16: -32768, np.int32: -(2**31), np.int64: -(2**63), np.uint8: 255, np.uint16: 65535, np.uint32: 2**32 - 1, np.uint64: 2**64 - 1}
BAD = "invalid"


# ------------------------------------------------------------------ data columns
def column(rt, rng, n, kinds=None, inv=None):
    """(array, python values with BAD for invalid, kind)"""
    kind = rng.choice(kinds or ["int", "int", "float", "float", "f4", "bool", "span", "date"])
    p = rng.choice([0, 0, 0.2, 0.6]) if inv is None else inv
    if kind == "int":
        dt = rng.choice(list(INTS))
        lo = 0 if np.dtype(dt).kind == "u" else -9
        v = [BAD if rng.random() < p else rng.randrange(lo, 30) for _ in range(n)]
        a = rt.FastArray(np.array([INTS[dt] if x is BAD else x for x in v], dtype=dt))
        kind = np.dtype(dt).name
    elif kind in ("float", "f4"):
        v = [BAD if rng.random() < p else rng.choice([-3.5, -1.0, 0.0, 0.25, 1.0, 2.0, 7.75, 100.0, -0.5, 64.0]) for _ in range(n)]
        a = rt.FastArray(np.array([np.nan if x is BAD else x for x in v], dtype=np.float64 if kind == "float" else np.float32))
    elif kind == "bool":
        v = [rng.random() < 0.5 for _ in range(n)]
        a = rt.FastArray(np.array(v, dtype=bool))
    elif kind == "span":
        v = [BAD if rng.random() < p else float(rng.randrange(-5, 50)) for _ in range(n)]
        a = rt.TimeSpan(np.array([np.nan if x is BAD else x for x in v]))
    elif kind == "date":
        v = [BAD if rng.random() < p else rng.randrange(1, 50) for _ in range(n)]
        a = rt.Date(np.array([INTS[np.int32] if x is BAD else x for x in v], dtype=np.int32))
    elif kind == "str":
        v = [rng.choice(["x", "yy", "z", "", "qq"]) for _ in range(n)]
        a = rt.FastArray(v, unicode=rng.random() < 0.5)
    else:
        raise ValueError(kind)
    if rng.random() < 0.25 and n:  # the same column as a strided view
        st = rng.choice([2, 3, -1])
        base = a[::-1].copy() if st == -1 else a[np.repeat(np.arange(n), st)]
        a2 = base[::st]
        if len(a2) == n:
            a = a2
    return a, v, kind


def got_vals(a):
    """result column -> python values with BAD for invalid"""
    b = np.asarray(getattr(a, "_np", a))
    if b.dtype.kind == "f":
        return [BAD if math.isnan(x) else float(x) for x in b]
    if b.dtype.kind in "iu":
        s = INTS[b.dtype.type if b.dtype.type in INTS else np.int64 if b.dtype.kind == "i" else np.uint64]
        return [BAD if int(x) == s else int(x) for x in b]
    if b.dtype.kind == "b":
        return [bool(x) for x in b]
    return [nv(x) for x in b]


def close(g, e, tol=1e-9):
    if len(g) != len(e):
        return False
    for x, y in zip(g, e):
        if y == "any":
            continue
        if callable(y):
            if not y(x):
                return False
            continue
        if (x is BAD) != (y is BAD):
            return False
        if x is BAD:
            continue
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif abs(x - y) > tol * max(1.0, abs(x), abs(y)):
            return False
    return True


# ------------------------------------------------------------------ per-group specifications
def fsum(v):
    return math.fsum(v)


def med(v):
    s = sorted(v)
    m = len(s) // 2
    return s[m] if len(s) % 2 else (s[m - 1] + s[m]) / 2


def quant(v, q):
    s = sorted(v)
    h = (len(s) - 1) * q
    i = int(math.floor(h))
    if i + 1 >= len(s):
        return s[-1]
    if abs(h - round(h)) < 1e-6:
        return s[round(h)]
    return (s[i] + s[i + 1]) / 2  # riptable interpolates at the midpoint


def var(v):
    if len(v) < 2:
        return BAD
    m = fsum(v) / len(v)
    return fsum([(x - m) ** 2 for x in v]) / (len(v) - 1)


def std(v):
    x = var(v)
    return x if x is BAD else math.sqrt(x)


BASE = {
    "sum": (lambda v: fsum(v), 0),
    "mean": (lambda v: fsum(v) / len(v), BAD),
    "min": (min, BAD),
    "max": (max, BAD),
    "median": (med, BAD),
    "std": (std, BAD),
    "var": (var, BAD),
}


def agg_spec(op, v, kind, q=None):
    nan = op.startswith("nan")
    name = op[3:] if nan else op
    if name == "count":
        return len(v)
    if name in ("first", "last", "nth"):
        n = {"first": 0, "last": -1}.get(name, q)
        if -len(v) <= n < len(v):
            return v[n]
        return {"str": "", "bool": "any"}.get(kind, BAD)
    if name == "mode":
        if not v:
            return "any" if kind == "bool" else BAD
        top = max(v.count(x) for x in v)
        return lambda x: x in v and v.count(x) == top
    if any(x is BAD for x in v):
        if not nan:
            return BAD
        v = [x for x in v if x is not BAD]
    if name == "quantile":
        return quant(v, q) if v else BAD
    f, empty = BASE[name]
    if not v:
        if kind == "f4" and op == "nansum":
            return "any"  # riptide_cpp leaves this cell uninitialised (external, see DESIGN.md)
        return "any" if kind == "bool" and name in ("min", "max", "median") else empty
    return f(v)


# ------------------------------------------------------------------ containers
class Cont:
    pass


def container(ctx, rt, cols):
    """a grouped object over len(ikey) rows; cols: {name: (array, values, kind)} built by the caller for n rows"""


def pick_container(ctx, rt, wide=True):
    rng = ctx.rng
    o = Cont()
    o.how = rng.choice(["cat", "cat", "cat", "gb", "gb", "gbu", "gb2", "gbu2", "dscat"])
    if o.how == "cat":
        for _ in range(30):
            o.cat, o.ik, o.uniq, o.info = cat_inputs(ctx, rt)
            break
        if rng.random() < 0.3:
            m = len(o.ik)
            idx = [rng.randrange(m) for _ in range(rng.randrange(1, m + 1))]
            o.cat, o.ik = o.cat[np.array(idx)], [o.ik[j] for j in idx]
        o.n = len(o.ik)
        o.nkeys = 2 if o.info["mode"] == "multi" else 1
        return o
    n = rng.choice([1, 2, 3, 5, 8, 13, 21, 34])
    wide = wide and rng.random() < 0.05
    if wide:
        n = rng.choice([300, 450, 1200])
    p = rng.choice([None, None, 0.5, 0.8])
    flt = None if p is None else [rng.random() < p for _ in range(n)]
    if flt is not None and not any(flt):
        flt[0] = True
    o.keys = {}
    pool = ["b", "a", "c", "dd", "ab"]
    rng.shuffle(pool)
    card = rng.choice([1, 2, 3, 5])
    ks = []
    for j in range(2 if o.how.endswith("2") else 1):
        if wide and rng.random() < 0.5:
            v = [rng.randrange(160) for _ in range(n)]
        elif rng.random() < 0.6:
            v = [rng.choice(pool[:card]) for _ in range(n)]
        else:
            v = [rng.choice([3, 1, 9, -1, 5][:card]) for _ in range(n)]
        o.keys[f"k{j}"] = v
        ks.append(v)
    rows = list(zip(*ks))
    o.flt = flt
    o.n, o.nkeys = n, len(ks)
    lex = o.how in ("gb", "gb2", "dscat")
    o.ik, o.uniq = spec(rows, flt, lex)
    o.info = dict(how=o.how, keys=o.keys, filter=flt)
    return o


def bind(rt, o, data):
    """returns call(op, **kw) -> Dataset for the value columns in data (name -> array)"""
    if o.how == "cat":
        o.nth = lambda **kw: o.cat.nth(dict(data), **kw)
        return o.cat, (lambda op, *a, **kw: getattr(o.cat, op)(dict(data), *a, **kw))
    d = {k: rt.FastArray(v) for k, v in o.keys.items()}
    d.update(data)
    ds = rt.Dataset(d)
    ks = list(o.keys)
    ks = ks[0] if len(ks) == 1 else ks
    kw0 = {} if o.flt is None else {"filter": np.array(o.flt)}
    if o.how == "dscat":
        g = ds.cat(ks, **kw0)
        o.nth = lambda **kw: g.nth(dict(data), **kw)
    elif o.how.startswith("gbu"):
        g = ds.gbu(ks, **kw0)
    else:
        g = ds.gb(ks, **kw0)
    return g, (lambda op, *a, **kw: getattr(g, op)(*a, **kw))


def keyrows(ds, names):
    labels = [c for c in ds.keys() if c not in names]
    cols = [values_of(ds[c]) for c in labels]
    return [tuple(r) for r in zip(*cols)]


def groups_of(o, filt=None):
    """rows of bin 0.. in display order"""
    out = [[] for _ in range(len(o.uniq) + 1)]
    for r, k in enumerate(o.ik):
        out[k if filt is None or filt[r] else 0].append(r)
    return out


OPS = ["sum", "mean", "min", "max", "first", "last", "median", "std", "var", "mode", "nansum", "nanmean", "nanmin", "nanmax", "nanmedian", "nanstd", "nanvar"]
DATE_OPS = {"min", "max", "first", "last", "mean", "median", "mode", "nanmin", "nanmax", "nanmean", "nanmedian"}


def tol_of(kind):
    return 1e-5 if kind == "f4" else 1e-9


def cols_for(ctx, rt, n, op):
    rng = ctx.rng
    out = {}
    for j in range(rng.choice([1, 1, 2, 3])):
        kinds = ["int", "int", "float", "float", "f4", "bool", "span"]
        if op in DATE_OPS:
            kinds.append("date")
        if op in ("first", "last", "nth"):
            kinds += ["str", "str"]
        if op in ("median", "nanmedian", "mode", "quantile", "nanquantile"):
            kinds = [k for k in kinds if k != "bool"]
        if op in ("quantile", "nanquantile"):
            kinds = ["int", "float", "f4"]
        out[f"x{j}"] = column(rt, rng, n, kinds, inv=0 if op == "mode" else None)
    return out


def check_agg(ctx, rt, o, op, cols, call, kw, q=None, info=None, suffix="", prefix=""):
    filt = kw.get("filter")
    transform, showfilter = kw.get("transform", False), kw.get("showfilter", False)
    gr = groups_of(o, None if filt is None else [bool(b) for b in filt])
    tag = prefix + op
    if op in ("quantile", "nanquantile"):
        okc, r = ctx.call(tag, lambda: call(op, q=[q], **kw), info)
    elif op == "nth":
        okc, r = ctx.call(tag, lambda: o.nth(n=q, **kw) if o.how.endswith("cat") else call(op, n=q), info)
    else:
        okc, r = ctx.call(tag, lambda: call(op, **kw), info)
    if not okc:
        return
    verify(ctx, o, r, {c: [agg_spec(op, [cols[c][1][j] for j in g], cols[c][2], q) for g in gr] for c in cols}, {c: tol_of(cols[c][2]) for c in cols}, tag, transform, showfilter, info)


def verify(ctx, o, r, exp, tol, tag, transform, showfilter, info):
    """exp[col] = [value of bin 0, value of bin 1, ...] in display order"""
    names = list(exp)
    have = [c for c in r.keys()]
    if not ctx.ok(tag + ":columns", all(c in have for c in names), lambda: f"{tag} columns {have}, wanted {names}\n input: {info}"):
        return
    if not transform:
        kr = keyrows(r, names)
        want = list(o.uniq)
        if showfilter:
            ctx.eq(tag + ":rows", len(kr), len(want) + 1, info)
            kr = kr[1:]
        ctx.eq(tag + ":keys", [tuple(map(str, k)) for k in kr], [tuple(map(str, k)) for k in want], info)
    for c in names:
        g = got_vals(r[c])
        e = exp[c]
        if transform:
            e = [("any" if k == 0 else e[k]) for k in o.ik]
        elif not showfilter:
            e = e[1:]
        ctx.evals += 1
        ctx.distinct.add(hash(str(g)) & 0xFFFFFFFF)
        if not close(g, e, tol[c]):
            ctx.fail(f"{tag}{':transform' if transform else ''}{':showfilter' if showfilter else ''}", f"{tag} column {c}\n input: {info}\n expected: {[x if not callable(x) else 'a most frequent value' for x in e]}\n got:      {g}")


def rnd_kw(ctx, n, o=None, allow_showfilter=True):
    rng = ctx.rng
    kw = {}
    if rng.random() < 0.4:
        p = rng.choice([0.3, 0.7, 1.0])
        kw["filter"] = np.array([rng.random() < p for _ in range(n)], dtype=bool)
    x = rng.random()
    if x < 0.25:
        kw["transform"] = True
    elif x < 0.45 and allow_showfilter:
        kw["showfilter"] = True
    return kw


def info_of(o, cols, op, kw, q=None):
    return dict(grouped=o.info, ikey=o.ik, uniq=o.uniq, op=op, q=q, kw={k: [int(b) for b in v] if k == "filter" else v for k, v in kw.items()}, data={c: (cols[c][2], cols[c][1]) for c in cols})


@section("aggregate", bound="17 aggregations + count/nth/quantile, Categorical / Dataset.cat / gb / gbu, 1-2 keys, n<=34 (5%: up to 1200 rows, 160 keys), filter=/transform=/showfilter=, all numeric dtypes with invalids, strided columns, several operations on one grouping in sequence")
def s_aggregate(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(9000, 60000):
        it += 1
        o = pick_container(ctx, rt)
        allcols = {}
        for c, x in cols_for(ctx, rt, o.n, "sum").items():
            allcols[c] = x
        # a history of operations on the same grouped object
        last = None
        for step in range(rng.choice([1, 2, 3])):
            op = rng.choice(OPS + ["nth", "quantile", "nanquantile"])
            cols = cols_for(ctx, rt, o.n, op)
            q = None
            if op == "nth":
                q = rng.choice([0, 1, 2, -1, -2, 5])
            elif op.endswith("quantile"):
                q = rng.choice([0.0, 1.0, 0.5, 0.25, 0.1, 0.9, 0.333, round(rng.random(), 4)])
            kw = rnd_kw(ctx, o.n)
            if op == "nth" and not o.how.endswith("cat"):
                kw = {}
            if op.endswith("quantile") and "showfilter" in kw:
                del kw["showfilter"]
            info = info_of(o, cols, op, kw, q)
            ctx.at(info)
            g, call = bind(rt, o, {c: x[0] for c, x in cols.items()})
            check_agg(ctx, rt, o, op, cols, call, kw, q, info, prefix="after-" if step else "")
            if rng.random() < 0.3:
                kw = rnd_kw(ctx, o.n, allow_showfilter=not o.how.endswith("cat"))
                info = info_of(o, {}, "count", kw)
                gr = groups_of(o, None if "filter" not in kw else [bool(b) for b in kw["filter"]])
                okc, r = ctx.call("count", lambda: g.count(**kw), info)
                if okc:
                    verify(ctx, o, r, {"Count": [len(x) for x in gr]}, {"Count": 0}, "count", kw.get("transform", False), kw.get("showfilter", False), info)
        for c, x in allcols.items():
            ctx.ok("input-unchanged", close(got_vals(x[0]), [nv(z) if z is not BAD else BAD for z in x[1]]) or x[2] in ("bool",), lambda: f"{x}")


# ------------------------------------------------------------------ row-valued operations
def roll_spec(op, v, w, kind):
    """v: values of one group in row order"""
    out = []
    for i in range(len(v)):
        if op == "rolling_shift":
            j = i - w
            out.append(v[j] if 0 <= j < len(v) else {"bool": False, "str": ""}.get(kind, BAD))
            continue
        if op == "rolling_diff":
            j = i - w
            out.append(v[i] - v[j] if 0 <= j < len(v) and v[i] is not BAD and v[j] is not BAD else BAD)
            continue
        win = [x for x in v[max(0, i - w + 1) : i + 1] if x is not BAD]
        if op in ("rolling_sum", "rolling_nansum"):
            out.append(fsum(win))
        elif op in ("rolling_mean", "rolling_nanmean"):
            out.append(fsum(win) / len(win) if win else BAD)
        elif op == "rolling_median":
            out.append(med(win) if win else BAD)
    return out


def cum_spec(op, v, keep, reset):
    out = []
    acc = None
    for x, k, rs in zip(v, keep, reset):
        if rs:
            acc = None
        if k and x is not BAD:
            if acc is None:
                acc = x
            elif op == "cumsum":
                acc += x
            elif op == "cumprod":
                acc *= x
            elif op == "cummin":
                acc = min(acc, x)
            else:
                acc = max(acc, x)
        out.append(acc if acc is not None else (0 if op == "cumsum" else 1 if op == "cumprod" else BAD))
    return out


def ema_spec(op, v, t, rate):
    out = []
    last = lt = None
    for x, tt in zip(v, t):
        x = float(x)
        if last is None:
            last = x
        elif op == "ema_decay":
            last = x + last * math.exp(-rate * (tt - lt))
        elif op == "ema_normal":
            w = math.exp(-rate * (tt - lt))
            last = x * (1 - w) + last * w
        else:
            last = x * (1 - rate) + last * rate
        lt = tt
        out.append(last)
    return out


@section("rows", bound="rolling_*, shift, diff, cum*, findnth, cumcount, ema_*: n<=34, windows 1-5 (negative for shift), filters and reset filters")
def s_rows(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(9000, 60000):
        it += 1
        o = pick_container(ctx, rt, wide=False)
        n = o.n
        for step in range(rng.choice([1, 2])):
            op = rng.choice(
                ["rolling_sum", "rolling_nansum", "rolling_mean", "rolling_nanmean", "rolling_median", "rolling_shift", "rolling_diff", "cumsum", "cumprod", "cummin", "cummax", "findnth", "cumcount", "ema_decay", "ema_normal", "ema_weighted"]
            )
            kw = {}
            filt = None
            if rng.random() < 0.4 and not op.startswith("ema"):
                p = rng.choice([0.3, 0.7, 1.0])
                filt = [rng.random() < p for _ in range(n)]
                kw["filter"] = np.array(filt, dtype=bool)
            kinds = ["int", "float", "f4"]
            if op == "rolling_shift":
                kinds += ["str", "bool", "date", "span"]
            inv = None if op in ("rolling_nansum", "rolling_nanmean", "rolling_median", "rolling_shift", "cummin", "cummax") else 0
            cols = {f"x{j}": column(rt, rng, n, kinds, inv) for j in range(rng.choice([1, 1, 2]))}
            if op == "rolling_diff":
                cols = {k: x for k, x in cols.items() if not x[2].startswith("u")}
                if not cols:
                    continue
            if op == "cumprod":
                cols = {"x0": (lambda v: (rt.FastArray(np.array(v, dtype=np.int64)), v, "int64"))([rng.choice([1, 2, -1, 3]) for _ in range(n)])}
            w = rng.choice([1, 2, 3, 5])
            if op.startswith("rolling"):
                kw["window"] = -w if op in ("rolling_shift", "rolling_diff") and rng.random() < 0.4 else w
            reset = [False] * n
            if op in ("cumsum", "cummin", "cummax") and rng.random() < 0.3:
                reset = [rng.random() < 0.3 for _ in range(n)]
                kw["reset_filter"] = np.array(reset, dtype=bool)
            if filt is not None and any(reset):
                reset = [False] * n
                kw.pop("reset_filter")
            rate, t = rng.choice([0.1, 0.5, 1.0]), None
            if op.startswith("ema"):
                kw["decay_rate"] = rate
                t = list(np.cumsum([rng.randrange(0, 4) for _ in range(n)]))
                if op != "ema_weighted":
                    kw["time"] = rt.FastArray(np.array(t, dtype=rng.choice([np.float64, np.int64, np.int32])))
                elif o.how == "cat":
                    continue
            info = info_of(o, cols, op, {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})
            ctx.at(info)
            g, call = bind(rt, o, {c: x[0] for c, x in cols.items()})
            if op == "cumcount":
                asc = rng.random() < 0.6
                okc, r = ctx.call(op, lambda: g.cumcount(ascending=asc, **kw), info)
                if okc:
                    e = [BAD] * n
                    for grp in groups_of(o, filt)[1:]:
                        for i, row in enumerate(grp):
                            e[row] = i if asc else len(grp) - 1 - i
                    ctx.ok(op, close(got_vals(r), e), lambda: f"cumcount ascending={asc}\n input: {info}\n expected {e}\n got {got_vals(r)}")
                continue
            okc, r = ctx.call(op, lambda: call(op, **kw), info)
            if not okc:
                continue
            for c, (a, v, kind) in cols.items():
                e = ["any"] * n
                if op.startswith("rolling"):
                    e = [BAD if kind not in ("bool", "str") else "any"] * n
                    for grp in groups_of(o, filt)[1:]:
                        for row, x in zip(grp, roll_spec(op, [v[j] for j in grp], kw["window"], kind)):
                            e[row] = x
                elif op == "findnth":
                    e = [0] * n
                    for grp in groups_of(o, filt)[1:]:
                        for i, row in enumerate(grp):
                            e[row] = i + 1
                else:
                    for grp in groups_of(o)[1:]:
                        vv = [v[j] for j in grp]
                        if op.startswith("ema"):
                            s = ema_spec(op, vv, [float(t[j]) for j in grp], rate)
                        else:
                            s = cum_spec(op, vv, [filt is None or filt[j] for j in grp], [reset[j] for j in grp])
                        for row, x in zip(grp, s):
                            e[row] = x
                if c not in r.keys():
                    ctx.fail(op + ":column", f"{op}: column {c} missing, got {list(r.keys())}\n input: {info}")
                    continue
                gg = got_vals(r[c])
                ctx.evals += 1
                if not close(gg, e, 1e-4 if kind == "f4" else 1e-7):
                    ctx.fail(op, f"{op} column {c}\n input: {info}\n expected: {e}\n got:      {gg}")


# ------------------------------------------------------------------ agg, apply, uniques, cross tables
@section("agg", bound="agg(list / dict), count_uniques, null, quantile lists: n<=34 (5%: up to 1200 rows, 160 keys)")
def s_agg(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    names = ["sum", "mean", "min", "max", "first", "last", "median", "std", "var", "nansum", "nanmean", "nanmin", "nanmax", "nanmedian", "nanstd", "nanvar"]
    while ctx.more() and it < ctx.scale(20000, 90000):
        it += 1
        o = pick_container(ctx, rt)
        cols = {f"x{j}": column(rt, rng, o.n, ["int", "float", "float"]) for j in range(rng.choice([1, 2, 3]))}
        g, call = bind(rt, o, {c: x[0] for c, x in cols.items()})
        ds = rt.Dataset({c: x[0] for c, x in cols.items()})
        gr = groups_of(o)
        sp = lambda op, c, q=None: [agg_spec(op, [cols[c][1][j] for j in grp], cols[c][2], q) for grp in gr]
        what = rng.choice(["list", "dict", "uniques", "quantiles", "null", "np"])
        info = info_of(o, cols, what, {})
        ctx.at(info)
        extra = {"dataset": ds} if o.how == "cat" else {}
        if what == "list" or what == "np":
            ops = rng.sample(names, rng.choice([1, 2, 3]))
            fs = list(ops)
            if what == "np":
                ops = rng.sample(["sum", "mean", "min", "max", "median", "std", "var", "nansum", "nanmean"], 2)
                fs = [getattr(np, x) for x in ops]
            info["op"] = ops
            okc, m = ctx.call("agg-list", lambda: g.agg(fs, **extra), info)
            if okc:
                ctx.eq("agg-list:names", sorted(m.keys()), sorted({x.capitalize() for x in ops}), info)
                for op in ops:
                    if op.capitalize() in m.keys():
                        verify(ctx, o, m[op.capitalize()], {c: sp(op, c) for c in cols}, {c: 1e-9 for c in cols}, "agg-" + op, False, False, info)
        elif what == "dict":
            want = {c: rng.sample(names, rng.choice([1, 2])) for c in rng.sample(list(cols), rng.randrange(1, len(cols) + 1))}
            info["op"] = want
            okc, m = ctx.call("agg-dict", lambda: g.agg({c: (v if len(v) > 1 or rng.random() < 0.5 else v[0]) for c, v in want.items()}, **extra), info)
            if okc:
                byop = {}
                for c, v in want.items():
                    for op in v:
                        byop.setdefault(op, []).append(c)
                ctx.eq("agg-dict:names", sorted(m.keys()), sorted(x.capitalize() for x in byop), info)
                for op, cc in byop.items():
                    d = m[op.capitalize()] if op.capitalize() in m.keys() else None
                    if d is not None:
                        verify(ctx, o, d, {c: sp(op, c) for c in cc}, {c: 1e-9 for c in cc}, "agg-dict-" + op, False, False, info)
                        ctx.eq("agg-dict:columns", sorted(k for k in d.keys() if k in cols), sorted(cc), info)
        elif what == "uniques":
            vc = {f"u{j}": [rng.choice(["p", "q", "r"]) for _ in range(o.n)] if rng.random() < 0.5 else [rng.randrange(rng.choice([3, 3, 9, 100000])) for _ in range(o.n)] for j in range(rng.choice([1, 2]))}
            kw = rnd_kw(ctx, o.n, allow_showfilter=False)
            info = dict(info, data=vc, kw={k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})
            if kw.get("transform") and "filter" in kw:
                kw.pop("filter")
                info["kw"].pop("filter")
            g, call = bind(rt, o, {c: rt.FastArray(v) for c, v in vc.items()})
            gr2 = groups_of(o, None if "filter" not in kw else [bool(b) for b in kw["filter"]])
            okc, r = ctx.call("count_uniques", lambda: call("count_uniques", **kw), info)
            if okc:
                verify(ctx, o, r, {c: [len({v[j] for j in grp}) for grp in gr2] for c, v in vc.items()}, {c: 0 for c in vc}, "count_uniques", kw.get("transform", False), False, info)
        elif what == "quantiles":
            qs = rng.sample([0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0, 0.0123, 0.3337, 0.8765], rng.choice([2, 3]))
            nan = rng.random() < 0.5
            pct = rng.random() < 0.3
            fn = ("nan" if nan else "") + ("percentile" if pct else "quantile")
            arg = [x * 100 for x in qs] if pct else qs
            tr = rng.random() < 0.3
            info = dict(info, op=fn, q=arg, transform=tr)
            okc, r = ctx.call(fn, lambda: call(fn, q=arg, **({"transform": True} if tr else {})), info)
            if okc:
                exp = {}
                for c in cols:
                    for x, qv in zip(arg, qs):
                        exp[f"{c}_{'p' if pct else 'q'}{x:.3g}".replace(".", "_")] = sp("nanquantile" if nan else "quantile", c, qv)
                verify(ctx, o, r, exp, {c: 1e-9 for c in exp}, fn + "-list", tr, False, info)
        else:
            okc, r = ctx.call("null", lambda: g.null(), info)
            if okc:
                ctx.eq("null:keys", [tuple(map(str, k)) for k in keyrows(r, [])], [tuple(map(str, k)) for k in o.uniq], info)


@section("fine-quantiles", bound="quantile/percentile and nan versions with arbitrary q on groups of up to 6000 rows, 1-3 groups")
def s_fine(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(400, 3000):
        it += 1
        n = rng.choice([700, 2000, 6000])
        k = rng.choice([1, 2, 3])
        key = np.array([rng.randrange(k) for _ in range(n)])
        v = np.array([rng.random() for _ in range(n)])
        nan = rng.random() < 0.5
        if nan:
            v[[rng.randrange(n) for _ in range(n // 5)]] = np.nan
        pct = rng.random() < 0.6
        q = round(rng.random() * (100 if pct else 1), rng.choice([1, 2, 3]))
        fn = ("nan" if nan else "") + ("percentile" if pct else "quantile")
        c = rt.Categorical(rt.FastArray(key))
        info = (fn, q, n, k)
        ctx.at(info)
        okc, r = ctx.call(fn, lambda: getattr(c, fn)({"v": rt.FastArray(v)}, q=rng.choice([q, [q]])), info)
        if okc:
            exp = [quant([float(x) for x in v[key == g] if x == x], q / 100 if pct else q) for g in sorted(set(key.tolist()))]
            got = [float(x) for x in r["v"]]
            ctx.ok(fn, len(got) == len(exp) and all(abs(a - b) < 1e-12 for a, b in zip(got, exp)), lambda: f"{info}: got {got}, expected {exp}")


def f_range(x):
    return x.max() - x.min() if len(x) else 0.0


@section("apply", bound="apply_reduce, apply_nonreduce, apply with 1-3 columns, extra arguments, filters; n<=34")
def s_apply(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(9000, 60000):
        it += 1
        o = pick_container(ctx, rt)
        if any(not g for g in groups_of(o)[1:]):
            continue  # the user function is not called in a specified way for empty groups
        n = o.n
        cols = {f"x{j}": column(rt, rng, n, ["float"], inv=0) for j in range(rng.choice([1, 1, 2]))}
        if rng.random() < 0.4:
            v = [rng.randrange(-5, 20) for _ in range(n)]
            cols = {"x0": (rt.FastArray(np.array(v, dtype=rng.choice([np.int32, np.int64]))), v, "int64")}
        g, call = bind(rt, o, {c: x[0] for c, x in cols.items()})
        gr = groups_of(o)
        how = rng.choice(["reduce", "reduce-arg", "nonreduce", "reduce-tuple", "nonreduce-tuple", "nonreduce-filter"])
        info = info_of(o, cols, how, {})
        ctx.at(info)
        first = lambda op, f, *a, **kw: getattr(g, op)(f, {c: x[0] for c, x in cols.items()}, *a, **kw) if o.how in ("cat", "dscat") else getattr(g, op)(f, *a, **kw)
        val = lambda c, grp: [cols[c][1][j] for j in grp]
        if how == "reduce":
            okc, r = ctx.call(how, lambda: first("apply_reduce", lambda x: x.max() - x.min() + x[0]), info)
            if okc:
                verify(ctx, o, r, {c: ["any"] + [max(val(c, x)) - min(val(c, x)) + val(c, x)[0] for x in gr[1:]] for c in cols}, {c: 1e-9 for c in cols}, how, False, False, info)
        elif how == "reduce-arg":
            k = rng.choice([2, 3, 10])
            okc, r = ctx.call(how, lambda: first("apply_reduce", lambda x, k: x.max() * k, k), info)
            if okc:
                verify(ctx, o, r, {c: ["any"] + [max(val(c, x)) * k for x in gr[1:]] for c in cols}, {c: 1e-9 for c in cols}, how, False, False, info)
        elif how in ("nonreduce", "nonreduce-filter"):
            okc, r = ctx.call(how, lambda: first("apply_nonreduce", lambda x: x - x[0]), info)
            if okc:
                for c in cols:
                    e = ["any"] * n
                    for grp in gr[1:]:
                        for j in grp:
                            e[j] = cols[c][1][j] - cols[c][1][grp[0]]
                    if ctx.ok(how + ":column", c in r.keys(), lambda: f"{how}: {list(r.keys())}\n{info}"):
                        gg = got_vals(r[c])
                        ctx.ok(how, close(gg, e), lambda: f"{how} {c}\n input: {info}\n expected {e}\n got {gg}")
        else:
            y = column(rt, rng, n, ["float"], inv=0)
            z = column(rt, rng, n, ["float"], inv=0)
            if o.how != "cat":
                continue
            if how == "reduce-tuple":
                okc, r = ctx.call(how, lambda: o.cat.apply_reduce(lambda a, b: (a * b).sum() if len(a) else 0.0, (y[0], z[0])), info)
                e = [sum(y[1][j] * z[1][j] for j in grp) for grp in gr[1:]]
            else:
                okc, r = ctx.call(how, lambda: o.cat.apply_nonreduce(lambda a, b: a - b, (y[0], z[0])), info)
                e = [y[1][j] - z[1][j] if o.ik[j] else "any" for j in range(n)]
            if okc:
                vc = [c for c in r.keys() if not c.startswith(("key_", "gb_key_"))]
                if ctx.ok(how + ":onecol", len(vc) == 1, lambda: f"{list(r.keys())}"):
                    gg = got_vals(r[vc[0]])
                    ctx.ok(how, close(gg, e), lambda: f"{how}\n y={y[1]} z={z[1]}\n input: {info}\n expected {e}\n got {gg}")


@section("numba", bound="numba_apply (scalar, transformed, array), nb_sum, nb_ema over Categoricals; n<=34")
def s_numba(ctx):
    import riptable as rt
    import numba as nb

    rng = ctx.rng

    @nb.njit
    def fs(x):
        s = 0.0
        for i in range(len(x)):
            s += x[i] * (i + 1)
        return s

    @nb.njit
    def fa(x):
        r = np.empty(len(x))
        s = 0.0
        for i in range(len(x)):
            s += x[i]
            r[i] = s
        return r

    it = 0
    while ctx.more() and it < ctx.scale(3000, 30000):
        it += 1
        o = pick_container(ctx, rt)
        while o.how != "cat":
            o = pick_container(ctx, rt)
        n = o.n
        v = [rng.choice([0.5, 1.0, -2.0, 7.0, 3.25]) for _ in range(n)]
        a = rt.FastArray(np.array(v))
        kw = {}
        filt = None
        if rng.random() < 0.5:
            filt = [rng.random() < 0.6 for _ in range(n)]
            kw["filter"] = np.array(filt, dtype=bool)
        gr = groups_of(o, filt)
        info = dict(grouped=o.info, ikey=o.ik, v=v, filter=filt)
        ctx.at(info)
        S = lambda grp: sum(v[j] * (i + 1) for i, j in enumerate(grp))
        how = rng.choice(["scalar", "transform", "array", "nb_sum", "nb_ema"])
        if how == "scalar":
            okc, r = ctx.call(how, lambda: o.cat.numba_apply(fs, a, **kw), info)
            if okc:
                verify(ctx, o, r, {"col_0": ["any"] + [S(x) for x in gr[1:]]}, {"col_0": 1e-9}, how, False, False, info)
        elif how == "transform":
            okc, r = ctx.call(how, lambda: o.cat.numba_apply(fs, a, transform=True, **kw), info)
            if okc:
                e = [BAD] * n
                for x in gr[1:]:
                    for j in x:
                        e[j] = S(x)
                ctx.ok(how, close(got_vals(r["col_0"]), e), lambda: f"{how} {info}\n expected {e}\n got {got_vals(r['col_0'])}")
        elif how == "array":
            okc, r = ctx.call(how, lambda: o.cat.numba_apply(fa, a, **kw), info)
            if okc:
                e = [BAD] * n
                for x in gr[1:]:
                    for i, j in enumerate(x):
                        e[j] = sum(v[k] for k in x[: i + 1])
                ctx.ok(how, close(got_vals(r["col_0"]), e), lambda: f"{how} {info}\n expected {e}\n got {got_vals(r['col_0'])}")
        elif how == "nb_sum":
            c = column(rt, rng, n, ["int", "float"], inv=0)
            okc, r = ctx.call(how, lambda: o.cat.nb_sum(c[0]), info)
            if okc:
                e = [sum(c[1][j] for j in x) for x in groups_of(o)[1:]]
                k = [q for q in r.keys() if q == "col_0"]
                if ctx.ok(how + ":col", len(k) == 1, lambda: f"{list(r.keys())}"):
                    ctx.ok(how, close(got_vals(r["col_0"]), e), lambda: f"{how} {info} data {c[1:]}\n expected {e}\n got {got_vals(r['col_0'])}")
        else:
            if any(not g for g in gr[1:]) or any(k == 0 for k in o.ik):
                continue
            t = [float(x) for x in np.cumsum([rng.randrange(0, 4) for _ in range(n)])]
            ds = rt.Dataset({"k": rt.FastArray([str(k) for k in o.ik]), "x": a})
            okc, r = ctx.call(how, lambda: ds.gb("k").nb_ema(time=rt.FastArray(t), decay_rate=0.5), info)
            if okc:
                e = ["any"] * n
                for x in groups_of(o)[1:]:
                    for j, q in zip(x, ema_spec("ema_decay", [v[k] for k in x], [t[k] for k in x], 0.5)):
                        e[j] = q
                ctx.ok(how, close(got_vals(r["x"]), e, 1e-5), lambda: f"{how} {info}\n expected {e}\n got {got_vals(r['x'])}")


@section("accum2", bound="two-way tables (Accum2), every cell, and the margins of sum/nansum/count: sum/mean/min/max/first/last/median/std/var and nan versions, count; n<=34, <=5x5 cells, filter=")
def s_accum2(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(9000, 60000):
        it += 1
        n = rng.choice([2, 3, 5, 8, 13, 21, 34])
        cr, cc = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4])
        a = [rng.choice(["b", "a", "d", "c"][:cr]) for _ in range(n)]
        b = [rng.choice(["y", "x", "zz", "w"][:cc]) for _ in range(n)]
        ordered = rng.random() < 0.7
        A, B = rt.Categorical(a, ordered=ordered), rt.Categorical(b, ordered=ordered)
        op = rng.choice(["sum", "mean", "min", "max", "median", "std", "var", "nansum", "nanmean", "nanmin", "nanmax", "nanmedian", "nanstd", "nanvar", "first", "last", "count"])
        x, v, kind = column(rt, rng, n, ["int", "float"], inv=None if op.startswith("nan") else 0)
        filt = None
        kw = {}
        if rng.random() < 0.4:
            filt = [rng.random() < 0.7 for _ in range(n)]
            filt[rng.randrange(n)] = True  # the grand total of nothing is not defined
            kw["filter"] = np.array(filt, dtype=bool)
        info = dict(rows=a, cols=b, ordered=ordered, op=op, data=(kind, v), filter=filt)
        ctx.at(info)
        okc, acc = ctx.call("Accum2", lambda: rt.Accum2(A, B), info)
        okc, r = ctx.call("accum2-" + op, (lambda: acc.count(**kw)) if op == "count" else (lambda: getattr(acc, op)(x, **kw)), info)
        if not okc:
            continue
        ks = [str(z) for z in values_of(A.category_array)]
        cs = [str(z) for z in values_of(B.category_array)]
        lab = [str(z) for z in values_of(r[list(r.keys())[0]])]
        ctx.eq("accum2:rows", lab, ks, info)
        body = [c for c in r.keys()][1:]
        ctx.eq("accum2:cols", body[: len(cs)], cs, info)
        keep = [i for i in range(n) if filt is None or filt[i]]
        for c in cs:
            e = [agg_spec(op, [v[i] for i in keep if a[i] == k and b[i] == c], kind) for k in ks]
            gg = got_vals(r[c])
            ctx.evals += 1
            if not close(gg, e, 1e-9):
                ctx.fail("accum2-cell-" + op, f"column {c}\n input: {info}\n expected {e}\n got {gg}")
        if len(body) > len(cs) and op in ("sum", "nansum", "count"):
            tot = got_vals(r[body[len(cs)]])
            e = [agg_spec(op, [v[i] for i in keep if a[i] == k], kind) for k in ks]
            ctx.evals += 1
            if not close(tot, e, 1e-9):
                ctx.fail("accum2-rowtotal-" + op, f"input: {info}\n expected {e}\n got {tot}")
            fv = list(r.footer_get_values().values())[0]
            e = [agg_spec(op, [v[i] for i in keep if b[i] == c], kind) for c in cs] + [agg_spec(op, [v[i] for i in keep], kind)]
            gg = got_vals(np.array([float(z) for z in fv[1:]]))
            gg = [BAD if z is not BAD and abs(z) in (2.0**63, 2.0**31, 128.0 * 0 + 2.0**64) else z for z in gg]
            ctx.evals += 1
            if not close(gg, e, 1e-9):
                ctx.fail("accum2-coltotal-" + op, f"input: {info}\n expected {e}\n got {gg}")
