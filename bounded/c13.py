"""C13 bounded: stacking. The rows of the result are the rows of the inputs, in order, each value (and invalid) kept."""
import numpy as np
from .common import section
from .c08 import DAY

NUM = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]
SPECIAL = ["cat", "catnum", "cat2", "Date", "DateSpan", "DateTimeNano", "TimeSpan"]


def inv(dt):
    d = np.dtype(dt)
    return np.nan if d.kind == "f" else (np.iinfo(d).max if d.kind == "u" else np.iinfo(d).min)


def content(c):
    """per-row values, None = invalid"""
    import riptable as rt

    if isinstance(c, rt.Categorical):
        codes = c._fa._np.tolist()
        if c.ismultikey:
            cols = [np.asarray(v._np if hasattr(v, "_np") else v).tolist() for v in c.category_dict.values()]
            return [None if k < 1 else tuple(x[k - 1].decode() if isinstance(x[k - 1], bytes) else x[k - 1] for x in cols) for k in codes]
        u = np.asarray(c.category_array._np if hasattr(c.category_array, "_np") else c.category_array).tolist()
        b = c.base_index
        return [None if k < b else (u[k - b].decode() if isinstance(u[k - b], bytes) else u[k - b]) for k in codes]
    a = np.asarray(c._np if hasattr(c, "_np") else c)
    if isinstance(c, (rt.Date, rt.DateTimeNano)):
        return [None if x == np.iinfo(a.dtype).min or x == 0 else x for x in a.tolist()]
    if a.ndim == 2:
        return [content(r) for r in a]
    if a.dtype.kind == "f":
        return [None if x != x else x for x in a.tolist()]
    if a.dtype.kind in "iu":
        s = int(inv(a.dtype))
        return [None if x == s else x for x in a.tolist()]
    return [x.decode() if isinstance(x, bytes) else x for x in a.tolist()]


def number(rng, dt):
    d = np.dtype(dt)
    r = rng.random()
    if r < 0.25:
        return inv(d)
    if d.kind == "f":
        return rng.choice([0.0, 1.5, -2.25, np.inf, float(rng.randrange(-100, 100))])
    ii = np.iinfo(d)
    v = rng.choice([0, 1, 2, 3, ii.max - 1, ii.min + 1, 100, rng.randrange(0, 120)])
    if d.itemsize == 8:
        v = rng.choice([0, 1, 5, 2**40, 2**52 + 1, rng.randrange(0, 10**6)])  # exact in a double as well
    return v


def layout(rt, rng, a):
    """the same values as a contiguous array or as some view"""
    n = len(a)
    k = rng.randrange(6)
    if k <= 2:
        return rt.FastArray(a)
    if k == 3:
        b = np.empty(2 * n + 1, dtype=a.dtype)
        b[:] = a[0] if n else b[:]
        b[1::2] = a
        return rt.FastArray(b)[1::2]
    if k == 4:
        return rt.FastArray(a[::-1].copy())[::-1]
    b = np.empty(n + 3, dtype=a.dtype)
    b[:3] = a[0] if n else b[:3]
    b[3:] = a
    return rt.FastArray(b)[3:]


def num_array(rt, rng, dt, n):
    return layout(rt, rng, np.array([number(rng, dt) for _ in range(n)], dtype=dt))


WORDS = ["", "a", "b", "ab", "abc", "longer word", "Z"]


def column(rt, rng, kind, n):
    if kind in NUM:
        return num_array(rt, rng, kind, n)
    if kind == "bool":
        return layout(rt, rng, np.array([rng.random() < 0.5 for _ in range(n)], dtype=bool))
    if kind in ("bytes", "str"):
        w = [rng.choice(WORDS) for _ in range(n)]
        m = max([1] + [len(x) for x in w])
        return rt.FastArray(np.array(w, dtype=f"S{m}" if kind == "bytes" else f"U{m}"), unicode=kind == "str")
    if kind in ("cat", "catnum", "cat2"):
        m = max(n, 1)
        f = rt.FastArray(np.array([rng.random() < 0.8 for _ in range(m)]))
        if kind == "cat":
            v = [rng.choice(["a", "b", "ab", "zz", "m", "longer"]) for _ in range(m)]
        elif kind == "catnum":
            v = rt.FastArray(np.array([rng.choice([1, 5, 9, 100]) for _ in range(m)], dtype=np.int32))
        else:
            v = [rt.FastArray([rng.choice(["a", "b", "cc"]) for _ in range(m)]), rt.FastArray(np.array([rng.choice([1, 5, 9]) for _ in range(m)], dtype=np.int32))]
        c = rt.Categorical(v, filter=f if rng.random() < 0.4 else None, ordered=kind != "cat2" or True)
        return c[:n] if n < m else c
    if kind == "Date":
        return rt.Date(rt.FastArray(np.array([rng.choice([1, 500, 20000, rng.randrange(1, 30000), -(2**31)]) for _ in range(n)], dtype=np.int32)))
    if kind == "DateSpan":
        return rt.DateSpan(rt.FastArray(np.array([rng.choice([0, -3, 500, -(2**31)]) for _ in range(n)], dtype=np.int32)))
    if kind == "DateTimeNano":
        return rt.DateTimeNano(rt.FastArray(np.array([rng.choice([DAY, 7 * DAY + 5, rng.randrange(DAY, 20000 * DAY), -(2**63)]) for _ in range(n)], dtype=np.int64)), from_tz="UTC", to_tz="NYC")
    return rt.TimeSpan(rt.FastArray(np.array([rng.choice([0.0, -1.0, 5e9, np.nan]) for _ in range(n)], dtype=np.float64)))


def conv(v, dt):
    """what value v (None = invalid) becomes in dtype dt"""
    if v is None:
        return None
    d = np.dtype(dt)
    if d.kind == "f":
        return float(d.type(v))
    return v


def size(rng, big=False):
    if big and rng.random() < 0.01:
        return rng.choice([1000, 40000])
    return rng.choice([0, 1, 1, 2, 3, 5, 9])


@section("hstack", bound="1..5 arrays of 0..9 rows (1% up to 40000): the ten numeric dtypes in any mix with invalids, bool, byte and unicode strings, Date, DateSpan, DateTimeNano, TimeSpan, Categoricals; contiguous or any view; hstack, concatenate-style dtype argument, stack_rows; inputs unchanged")
def s_hstack(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(5000, 60000):
        it += 1
        k = rng.choice([1, 2, 2, 3, 5])
        fam = rng.choice(["num", "num", "num", "same", "string", "boolnum", "special", "special"])
        if fam == "num":
            kinds = [rng.choice(NUM) for _ in range(k)]
        elif fam == "same":
            kinds = [rng.choice(NUM + ["bool"])] * k
        elif fam == "boolnum":
            kinds = ["bool"] + [rng.choice(NUM) for _ in range(k - 1)]
        elif fam == "string":
            kinds = [rng.choice(["bytes", "str"]) for _ in range(k)]
        else:
            kinds = [rng.choice(SPECIAL)] * k
        cols = [column(rt, rng, q, size(rng, True)) for q in kinds]
        dtype = rng.choice([None, None, "float64"]) if fam in ("num", "same") and k > 1 else None
        info = (kinds, [content(c)[:12] for c in cols], "dtype", dtype)
        ctx.at(info)
        before = [content(c) for c in cols]
        types_ = [type(c) for c in cols]
        via = rng.choice(["hstack", "stack_rows"]) if dtype is None and k > 1 else "hstack"
        fn = (lambda: rt.hstack(cols)) if via == "hstack" and dtype is None else (lambda: rt.hstack(cols, dtype=np.dtype(dtype))) if via == "hstack" else (lambda: rt.stack_rows(cols))
        ok, r = ctx.call(via + ":" + fam, fn, info)
        if not ok:
            continue
        exp = [x for b in before for x in b]
        if fam in ("num", "same", "boolnum"):
            cd = np.dtype(dtype) if dtype else np.result_type(*[c.dtype for c in cols])
            if fam == "boolnum":
                cd = r.dtype  # the values decide; which type holds them is not promised
            ctx.ok(via + ":dtype", r.dtype == cd, lambda: f"{info}: result dtype {r.dtype}, expected {cd}")
            exp = [conv(x, cd) for x in exp]
            ctx.ok(via + ":class", type(r) is rt.FastArray, lambda: f"{info}: {type(r)}")
        elif fam == "special":
            ctx.ok(via + ":class", type(r) is types_[0], lambda: f"{info}: {type(r)}")
            if kinds[0] == "DateTimeNano":
                ctx.ok(via + ":tz", r._timezone._to_tz == "America/New_York", lambda: f"{info}: {r._timezone._to_tz}")
        ctx.eq(via + ":" + fam, content(r), exp, info)
        for j, c in enumerate(cols):
            ctx.ok(via + ":source", content(c) == before[j] and type(c) is types_[j], lambda: f"{info}: input {j} changed to {content(c)}")


@section("wide", bound="2..4 Categoricals of 1..260 rows over up to 260 numeric or string categories (the code type widens at 127), base index 0 or 1, given or inferred (unused) categories, sorted or in order of appearance, 0..3 filtered or invalid rows; hstack and stack_rows of them and as the column of a Dataset")
def s_wide(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(700, 8000):
        it += 1
        k = rng.choice([2, 2, 3, 4])
        base = rng.choice([0, 1, 1])
        num = rng.random() < 0.5
        given = rng.random() < 0.3
        order = rng.random() < 0.5
        cols, before = [], []
        for _ in range(k):
            n = rng.choice([1, 5, 60, 100, 126, 130, 260])
            lo = rng.choice([0, 0, 40, 90, 120, 200])
            pool = list(range(1000 + lo, 1000 + lo + max(1, min(n, rng.choice([2, 100, 126, 128, 250])))))
            idx = [j % len(pool) for j in range(n)]
            rng.shuffle(idx)
            vals = [pool[j] if num else f"w{pool[j]}" for j in idx]
            bad = sorted(rng.sample(range(n), min(n - 1, rng.choice([0, 1, 1, 2, 3])))) if base == 1 else []
            arr = rt.FastArray(np.array(vals, dtype=np.int32 if num else "S8"))
            if given:
                cats = rt.FastArray(np.array([c if num else f"w{c}" for c in pool + [5000]], dtype=np.int32 if num else "S8"))
                codes = np.array(idx, dtype=np.int16 if len(pool) > 120 else np.int8) + base
                codes[bad] = 0
                c = rt.Categorical(rt.FastArray(codes.astype(np.int16 if len(pool) > 120 else np.int8)), cats, base_index=base)
            else:
                f = np.ones(n, dtype=bool)
                f[bad] = False
                c = rt.Categorical(arr, filter=rt.FastArray(f) if bad else None, base_index=base, ordered=order)
            cols.append(c)
            before.append([None if j in bad else v for j, v in enumerate(vals)])
        exp = [x for b in before for x in b]
        info = (base, "numbers" if num else "strings", "given" if given else "inferred", [b[:6] + [len(b)] for b in before], [[j for j, x in enumerate(b) if x is None] for b in before])
        ctx.at(info)
        via = rng.choice(["hstack", "stack_rows", "concat_rows"])
        fn = {"hstack": lambda: rt.hstack(cols), "stack_rows": lambda: rt.stack_rows(cols), "concat_rows": lambda: rt.Dataset.concat_rows([rt.Dataset({"c": c}) for c in cols]).c}[via]
        ok, r = ctx.call("wide:" + via, fn, info)
        if not ok:
            continue
        ex = r.expand_array
        filt = r.isfiltered() if base == 1 else np.zeros(len(r), dtype=bool)
        got = [None if filt[j] else (int(ex[j]) if num else (ex[j].decode() if isinstance(ex[j], bytes) else str(ex[j]))) for j in range(len(r))]
        ctx.eq("wide:" + via, got, exp, info)
        ctx.ok("wide:class", isinstance(r, rt.Categorical) and r.base_index == base, lambda: f"{info}: {type(r)}")
        for j, c in enumerate(cols):
            cf = c.isfiltered() if base == 1 else np.zeros(len(c), dtype=bool)
            ce = c.expand_array
            now = [None if cf[q] else (int(ce[q]) if num else (ce[q].decode() if isinstance(ce[q], bytes) else str(ce[q]))) for q in range(len(c))]
            ctx.ok("wide:source", now == before[j], lambda: f"{info}: input {j} changed")


@section("rows", bound="1..4 datasets of 0..9 rows (empty and column-less ones included) sharing some of 1..6 columns of numeric (mixed dtypes), bool, string, Categorical, date and 2-D kinds: concat_rows, hstack and stack_rows; a missing column gives invalids; column order; inputs unchanged")
def s_rows(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(4000, 40000):
        it += 1
        names = rng.sample(["a", "b", "c", "d", "e", "f"], rng.randrange(1, 7))
        kinds = {}
        for nm in names:
            f = rng.choice(["num", "num", "string", "bool", "2d", "special", "special"])
            kinds[nm] = (f, rng.choice(SPECIAL) if f == "special" else None)
        k = rng.choice([2, 2, 3, 4])
        dss, rows = [], []
        for _ in range(k):
            n = rng.choice([0, 1, 2, 3, 5, 9])
            here = [nm for nm in names if rng.random() < 0.75]
            if rng.random() < 0.5:
                rng.shuffle(here)
            d = {}
            for nm in here:
                f, s = kinds[nm]
                if f == "num":
                    d[nm] = column(rt, rng, rng.choice(NUM), n)
                elif f == "string":
                    d[nm] = column(rt, rng, rng.choice(["bytes", "str"]), n)
                elif f == "bool":
                    d[nm] = column(rt, rng, "bool", n)
                elif f == "2d":
                    dt = rng.choice(NUM)
                    d[nm] = rt.FastArray(np.array([[number(rng, dt) for _ in range(2)] for _ in range(n)], dtype=dt).reshape(n, 2))
                else:
                    d[nm] = column(rt, rng, s, n)
            dss.append(rt.Dataset(d))
            rows.append(n if d else 0)
        if not any(len(list(d.keys())) for d in dss):
            continue
        before = [{nm: content(c) for nm, c in d.items()} for d in dss]
        dts = [{nm: c.dtype for nm, c in d.items()} for d in dss]
        info = [(rows[j], {nm: (str(dts[j][nm]), v) for nm, v in before[j].items()}) for j in range(k)]
        ctx.at(info)
        via = rng.choice(["concat_rows", "hstack", "stack_rows"])
        fn = {"concat_rows": lambda: rt.Dataset.concat_rows(dss), "hstack": lambda: rt.hstack(dss), "stack_rows": lambda: rt.stack_rows(dss)}[via]
        ok, r = ctx.call(via, fn, info)
        if not ok:
            continue
        order = []
        for d in dss:
            for nm in d.keys():
                if nm not in order:
                    order.append(nm)
        ctx.ok(via + ":names", list(r.keys()) == order, lambda: f"{info}: columns {list(r.keys())}, expected {order}")
        ctx.ok(via + ":nrows", r._nrows == sum(rows), lambda: f"{info}: {r._nrows} rows, expected {sum(rows)}")
        for nm in order:
            f, s = kinds[nm]
            exp = []
            cd = np.result_type(*[t[nm] for t in dts if nm in t]) if f in ("num", "2d") else None
            for j in range(k):
                if nm in before[j]:
                    exp += before[j][nm]
                elif f == "2d":
                    exp += [[None, None]] * rows[j]
                else:
                    exp += [{"string": "", "bool": False}.get(f)] * rows[j]
            if f == "num":
                exp = [conv(x, cd) for x in exp]
            if f == "2d":
                exp = [[conv(x, cd) for x in q] for q in exp]
            if cd is not None:
                ctx.ok(via + ":dtype", r[nm].dtype == cd, lambda: f"{info}: column {nm} dtype {r[nm].dtype}, expected {cd}")
            ctx.eq(via + ":" + (s or f), content(r[nm]), exp, lambda: f"column {nm} of {info}")
        for j, d in enumerate(dss):
            now = {nm: content(c) for nm, c in d.items()}
            ctx.ok(via + ":source", now == before[j] and {nm: c.dtype for nm, c in d.items()} == dts[j], lambda: f"{info}: dataset {j} changed to {now}")


@section("dict", bound="dicts of 1..4 arrays or datasets, 1% of 100..400 keys most of them empty: stack_rows gives the stacked rows and a Categorical naming each row's key")
def s_dict(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(3000, 30000):
        it += 1
        k = rng.choice([1, 2, 3, 4])
        if rng.random() < 0.02:
            k = rng.choice([100, 127, 128, 129, 200, 400])
        many = k > 4
        names = [f"k{i}" for i in range(k)]
        rng.shuffle(names)
        lens = [rng.choice([0, 0, 0, 0, 1, 2]) if many else size(rng) for _ in range(k)]
        if k == 1 or sum(lens) == 0:
            lens[-1] = max(lens[-1], 1)
        if rng.random() < 0.7:
            dt = rng.choice(NUM)
            d = {nm: column(rt, rng, dt, n) for nm, n in zip(names, lens)}
            get = lambda r: content(r)
        else:
            d = {nm: rt.Dataset({"x": column(rt, rng, "int32", n), "y": column(rt, rng, "bytes", n)}) for nm, n in zip(names, lens)}
            get = lambda r: list(zip(content(r.x), content(r.y)))
        info = [(nm, n) for nm, n in zip(names, lens)]
        exp = [x for v in d.values() for x in get(v)]
        ctx.at(info)
        ok, r = ctx.call("dict", lambda: rt.stack_rows(d), info)
        if not ok:
            continue
        ctx.eq("dict:data", get(r[0]), exp, info)
        ctx.eq("dict:cat", content(r[1]), [nm for nm, n in zip(names, lens) for _ in range(n)], info)


@section("columns", bound="1..4 datasets of 1..6 rows with shared column names: concat_columns with every on_duplicate and on_mismatch choice, with and without copies; row-count mismatch raises")
def s_columns(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(3000, 30000):
        it += 1
        k = rng.choice([1, 2, 2, 3, 4])
        n = rng.randrange(1, 7)
        dss = []
        for _ in range(k):
            m = n if rng.random() < 0.95 else n + 1
            nm = rng.sample(["a", "b", "c", "d", "e"], rng.randrange(1, 4))
            dss.append(rt.Dataset({q: column(rt, rng, rng.choice(NUM + ["bytes", "bool"] + SPECIAL), m) for q in nm}))
        dup = rng.choice(["raise", "first", "last"])
        mis = rng.choice(["raise", "warn", "ignore"])
        cp = rng.random() < 0.5
        before = [{q: content(c) for q, c in d.items()} for d in dss]
        info = (before, dup, mis, cp)
        ctx.at(info)
        fn = lambda: rt.Dataset.concat_columns(dss, do_copy=cp, on_duplicate=dup, on_mismatch=mis)
        exp, isdup = {}, False
        for b in before:
            for q, v in b.items():
                if q in exp:
                    isdup = True
                    if dup == "last":
                        exp[q] = v
                else:
                    exp[q] = v
        bad = len({d._nrows for d in dss}) > 1 or (isdup and (dup == "raise" or mis == "raise"))
        if bad:
            ctx.raises("columns:raise", fn, info, (ValueError, KeyError, RuntimeError))
        else:
            ok, r = ctx.call("columns", fn, info)
            if not ok:
                continue
            ctx.ok("columns:names", list(r.keys()) == list(exp), lambda: f"{info}: {list(r.keys())}")
            for q in exp:
                ctx.eq("columns:data", content(r[q]), exp[q], info)
            if cp:
                # a copy shares no memory with its source
                for q in exp:
                    ctx.ok("columns:copy", not any(q in d and np.shares_memory(np.asarray(r[q]._np), np.asarray(d[q]._np)) for d in dss), lambda: f"{info}: column {q} is not a copy")
        for j, d in enumerate(dss):
            ctx.ok("columns:source", {q: content(c) for q, c in d.items()} == before[j], lambda: f"{info}: dataset {j} changed")


@section("structs", bound="2..3 structs of the same 1..4 items: arrays, 2-D arrays, Datasets, Categoricals, dates, nested structs: concat_structs stacks each item by rows")
def s_structs(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(1500, 15000):
        it += 1
        k = rng.choice([2, 2, 3])
        names = rng.sample(["a", "b", "c", "d"], rng.randrange(1, 5))
        kinds = {nm: rng.choice(["num", "bytes", "2d", "dataset", "struct"] + SPECIAL) for nm in names}

        def item(kd):
            n = rng.choice([1, 2, 3, 5])
            if kd == "num":
                return column(rt, rng, rng.choice(NUM), n)
            if kd == "2d":
                return rt.FastArray(np.array([[rng.randrange(9) for _ in range(2)] for _ in range(n)], dtype=np.int32))
            if kd == "dataset":
                return rt.Dataset({"x": column(rt, rng, "int16", n), "y": column(rt, rng, "bytes", n)})
            if kd == "struct":
                return rt.Struct({"q": column(rt, rng, "int64", n), "r": column(rt, rng, "bytes", n)})
            return column(rt, rng, kd, n)

        def get(v):
            if isinstance(v, (rt.Struct, rt.Dataset)):
                return {q: get(c) for q, c in v.items()}
            return content(v)

        ss = [rt.Struct({nm: item(kinds[nm]) for nm in names}) for _ in range(k)]
        before = [get(s) for s in ss]
        dts = [{nm: getattr(s[nm], "dtype", None) for nm in names} for s in ss]
        info = (kinds, before)
        ctx.at(info)
        ok, r = ctx.call("structs", lambda: rt.Struct.concat_structs(ss), info)
        if not ok:
            continue
        ctx.ok("structs:names", list(r.keys()) == names, lambda: f"{info}: {list(r.keys())}")
        for nm in names:
            if kinds[nm] in ("dataset", "struct"):
                exp = {q: [x for b in before for x in b[nm][q]] for q in before[0][nm]}
            else:
                exp = [x for b in before for x in b[nm]]
                if kinds[nm] == "num":
                    cd = np.result_type(*[d[nm] for d in dts])
                    exp = [conv(x, cd) for x in exp]
            g = get(r[nm])
            ctx.ok("structs:" + kinds[nm], g == exp, lambda: f"{info}: item {nm}\n got {g}\n expected {exp}")
        for j, s in enumerate(ss):
            ctx.ok("structs:source", get(s) == before[j], lambda: f"{info}: struct {j} changed")
