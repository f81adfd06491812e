"""C12 bounded: sorting. A sort is a stable permutation of whole rows in key order; views and caches never show a stale order."""
import functools
import numpy as np
from .common import section, norm
from .c08 import DAY

INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
KINDS = INTS + ["float32", "float64", "bool", "bytes", "str", "cat", "catnum", "Date", "DateTimeNano", "TimeSpan"]


def column(rt, rng, kind, n, card):
    """(column, sort keys: comparable Python values, None = sorts last whatever the direction)"""
    if kind in INTS:
        ii = np.iinfo(kind)
        pool = [rng.choice([0, 1, 2, 3, ii.max - 1, ii.min + 1, ii.min, ii.max, rng.randrange(0, 100)]) for _ in range(card)]
        v = [rng.choice(pool) for _ in range(n)]
        return rt.FastArray(np.array(v, dtype=kind)), v
    if kind in ("float32", "float64"):
        pool = [rng.choice([0.0, 1.5, -2.25, np.inf, -np.inf, np.nan, float(rng.randrange(-50, 50))]) for _ in range(card)]
        v = [rng.choice(pool) for _ in range(n)]
        return rt.FastArray(np.array(v, dtype=kind)), [None if x != x else x for x in v]
    if kind == "bool":
        v = [rng.random() < 0.5 for _ in range(n)]
        return rt.FastArray(np.array(v, dtype=bool)), v
    if kind in ("bytes", "str"):
        pool = [rng.choice(["", "a", "b", "ab", "abc", "B", "zz", "a b", "~"]) for _ in range(card)]
        v = [rng.choice(pool) for _ in range(n)]
        return rt.FastArray(np.array(v, dtype="S5" if kind == "bytes" else "U5")), v
    if kind == "cat":
        if n == 0:
            return column(rt, rng, "int32", n, card)
        pool = sorted({rng.choice(["a", "b", "ab", "abc", "B", "zz", "m"]) for _ in range(card)})
        v = [rng.choice(pool) for _ in range(n)]
        return rt.Categorical(v), v
    if kind == "catnum":
        if n == 0:
            return column(rt, rng, "int32", n, card)
        v = [rng.choice([1, 5, 9, 100]) for _ in range(n)]
        return rt.Categorical(rt.FastArray(v)), v
    if kind == "Date":
        v = [rng.randrange(1, 20000) if rng.random() < 0.5 else rng.randrange(1, 4) for _ in range(n)]
        return rt.Date(rt.FastArray(np.array(v, dtype=np.int32))), v
    if kind == "DateTimeNano":
        v = [rng.randrange(DAY, 20000 * DAY) if rng.random() < 0.5 else DAY + rng.randrange(3) for _ in range(n)]
        return rt.DateTimeNano(rt.FastArray(np.array(v, dtype=np.int64)), from_tz="UTC", to_tz="NYC"), v
    v = [rng.choice([0.0, 1.0, -1.0, 5e9, np.nan]) for _ in range(n)]
    return rt.TimeSpan(rt.FastArray(np.array(v, dtype=np.float64))), [None if x != x else x for x in v]


def order(n, keys, asc):
    """the stable order of rows 0..n-1 by the keys, first key most significant"""
    idx = list(range(n))
    for k, a in reversed(list(zip(keys, asc))):
        good = [i for i in idx if k[i] is not None]
        bad = [i for i in idx if k[i] is None]
        good.sort(key=lambda i: k[i], reverse=not a)  # Python's reverse keeps ties in order
        idx = good + bad
    return idx


def raw(c):
    return np.asarray(c._np if hasattr(c, "_np") else c)


def plain(c):
    """comparable content of a column"""
    import riptable as rt

    if isinstance(c, rt.Categorical):
        return ("cat", [x if not isinstance(x, bytes) else x.decode() for x in np.asarray(c.expand_array).tolist()])
    a = raw(c)
    return (type(c).__name__, str(a.dtype), [repr(x) for x in a.tolist()])


def sizes(rng):
    r = rng.random()
    if r < 0.97:
        return rng.choice([0, 1, 2, 3, 4, 5, 8, 13, 30])
    return rng.choice([1000, 5000, 70000])


def make(rt, rng, n, nk):
    cols, keys = {}, {}
    names = []
    for i in range(nk):
        kind = rng.choice(KINDS)
        c, k = column(rt, rng, kind, n, rng.choice([1, 2, 3, 6]))
        nm = f"{rng.choice('abcxyz')}{i}"
        names.append(nm)
        cols[nm], keys[nm] = c, k
    cols["row"] = rt.FastArray(np.arange(n, dtype=np.int32))
    c, k = column(rt, rng, rng.choice(KINDS), n, 5)
    cols["pay"] = c
    order_ = list(cols)
    rng.shuffle(order_)
    return {k: cols[k] for k in order_}, keys, names


def pick_asc(rt, rng, m):
    """(argument, per-key list)"""
    w = rng.random()
    if w < 0.3:
        return True, [True] * m
    if w < 0.55:
        return False, [False] * m
    l = [rng.random() < 0.5 for _ in range(m)]
    if m == 1:
        return l, l
    return (rt.FastArray(l) if w < 0.75 else list(l)), l


@section("dataset_sort", bound="sort_copy and sort_inplace: 1..4 keys of 20 kinds (integers, floats with NaN, booleans, byte and unicode strings, Categoricals, dates, times, spans), 0..30 rows (some 1000..70000), any mix of directions; whole rows move together, ties keep their order, NaN last; sort_copy leaves the source alone")
def s_ds(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(2500, 20000):
        it += 1
        n = sizes(rng)
        cols, keys, names = make(rt, rng, n, rng.choice([1, 1, 2, 2, 3, 4]))
        ds = rt.Dataset({k: v.copy() for k, v in cols.items()})
        by = rng.sample(names, rng.randrange(1, len(names) + 1))
        if len(by) == 1 and rng.random() < 0.5:
            byarg = by[0]
        else:
            byarg = list(by)
        asc, ascl = pick_asc(rt, rng, len(by))
        before = {k: plain(v) for k, v in ds.items()}
        exp = order(n, [keys[b] for b in by], ascl)
        info = (n, [(b, type(cols[b]).__name__, str(raw(cols[b]).dtype), raw(cols[b])[:40].tolist()) for b in by], "ascending", ascl)
        ctx.at(info)
        inplace = rng.random() < 0.4
        key = "sort_inplace" if inplace else "sort_copy"
        ok, r = ctx.call(key, lambda: (ds.sort_inplace if inplace else ds.sort_copy)(byarg, ascending=asc), info)
        if not ok:
            continue
        if inplace:
            ctx.ok(key + ":self", r is ds, lambda: f"{info}: does not return the dataset itself")
        got = np.asarray(r["row"]).tolist()
        if not ctx.ok(key, got == exp, lambda: f"{info}\n got rows {got[:60]}\n expected {exp[:60]}"):
            continue
        ctx.ok(key + ":names", list(r.keys()) == list(cols), lambda: f"{info}: columns {list(r.keys())}")
        for k, v in r.items():
            if n > 1000 and rng.random() < 0.7:
                continue
            b = before[k]
            e = b[:-1] + ([b[-1][i] for i in exp],)
            g = plain(v)
            ctx.ok(key + ":column", g == e, lambda: f"{info}: column {k}\n got {str(g)[:800]}\n expected {str(e)[:800]}")
        if not inplace:
            for k, v in ds.items():
                ctx.ok(key + ":source", plain(v) == before[k], lambda: f"{info}: source column {k} changed")
        if isinstance(byarg, list):
            ctx.ok(key + ":by", byarg == by, lambda: f"{info}: the list of keys was changed to {byarg}")
        if not isinstance(asc, bool):
            ctx.ok(key + ":asc", [bool(x) for x in asc] == ascl, lambda: f"{info}: the ascending argument was changed")


def shown(ds, n):
    """the rows a sorted view shows, read from the table the display is built from"""
    idx = __import__("riptable").rt_sort_cache.SortCache.get_sorted_row_index(*ds.get_row_sort_info())
    return list(range(n)) if idx is None else np.asarray(idx).tolist()


def displayed(ds):
    """the 'row' column of the printed table"""
    import re

    lines = re.sub(r"\x1b\[[0-9;]*m", "", str(ds)).split("\n")
    hdr = next(i for i, l in enumerate(lines) if l.strip().startswith("#"))
    # cells lie under the dashes
    spans = [m.span() for m in re.finditer(r"-+", lines[hdr + 1])]
    heads = [lines[hdr][a:b].strip() for a, b in spans]
    j = heads.index("row")
    out = []
    for l in lines[hdr + 2:]:
        if not l.strip() or l.startswith("["):
            break
        out.append(int(l[spans[j][0]:spans[j][1]]))
    return out


@section("sort_view", bound="histories of 1..8 steps on 1..3 datasets: sort_view by 1..3 keys in any direction, in-place element changes, column replacement, sort_inplace, sorts_off, copies; after each step the view's order is the order of the current data, the printed table shows it, and the stored data is as the history left it")
def s_view(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    kinds = ["int32", "int64", "float64", "bytes", "uint8"]
    while ctx.more() and it < ctx.scale(500, 5000):
        it += 1
        pools = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 2, 3, 5, 8, 12])
            cols, keys = {}, {}
            for nm in "abc":
                cols[nm], keys[nm] = column(rt, rng, rng.choice(kinds), n, rng.choice([2, 3, 6]))
                keys[nm] = list(keys[nm])
            ds = rt.Dataset(cols)
            ds["row"] = rt.FastArray(np.arange(n, dtype=np.int32))
            pools.append([ds, n, keys, list(range(n)), None])
        hist = []
        for _ in range(rng.randrange(1, 9)):
            pid = rng.randrange(len(pools))
            P = pools[pid]
            ds, n, keys, rows, view = P
            step = rng.choice(["view", "view", "view", "set", "set", "replace", "inplace", "off", "copy"])
            if step == "view":
                by = rng.sample(["a", "b", "c"], rng.choice([1, 2, 3]))
                asc, l = pick_asc(rt, rng, len(by))
                if view is not None and rng.random() < 0.6:
                    # the same keys again, in other directions or another order
                    by = list(view[0])
                    if rng.random() < 0.3:
                        rng.shuffle(by)
                    l = [x if rng.random() < 0.5 else not x for x in view[1]]
                    asc = list(l) if len(l) > 1 or rng.random() < 0.5 else l[0]
                hist.append((pid, "view", by, l))
                ctx.at(hist)
                ok, _r = ctx.call("sort_view", lambda: ds.sort_view(list(by) if len(by) > 1 or rng.random() < 0.5 else by[0], ascending=asc), hist)
                if not ok:
                    break
                P[4] = (by, l)
            elif step == "set":
                nm = rng.choice("abc")
                i, j = rng.randrange(n), rng.randrange(n)
                hist.append((pid, "set", nm, i, j))
                ds[nm][i] = ds[nm][j]
                keys[nm][i] = keys[nm][j]
            elif step == "replace":
                nm = rng.choice("abc")
                c, k = column(rt, rng, rng.choice(kinds), n, rng.choice([2, 6]))
                hist.append((pid, "replace", nm, list(k)))
                ds[nm] = c
                keys[nm] = list(k)
                if P[4] is not None and nm in P[4][0]:
                    P[4] = None  # replacing a sort column ends the view
            elif step == "inplace":
                by = rng.sample(["a", "b", "c"], rng.choice([1, 2]))
                asc, l = pick_asc(rt, rng, len(by))
                hist.append((pid, "inplace", by, l))
                o = order(n, [keys[b] for b in by], l)
                ok, _r = ctx.call("view:sort_inplace", lambda: ds.sort_inplace(by, ascending=asc), hist)
                if not ok:
                    break
                for nm in keys:
                    keys[nm] = [keys[nm][q] for q in o]
                P[3] = [rows[q] for q in o]
                P[4] = None
            elif step == "copy":
                hist.append((pid, "copy"))
                ctx.at(hist)
                ok, r = ctx.call("copy", lambda: ds.copy(), hist)
                if not ok:
                    break
                P[0] = r
            else:
                hist.append((pid, "off"))
                ds.sorts_off()
                P[4] = None
            bad = False
            for q, (d, m, ks, rw, vw) in enumerate(pools):
                exp = list(range(m)) if vw is None else order(m, [ks[b] for b in vw[0]], vw[1])
                ok, got = ctx.call("view_order", lambda: shown(d, m), hist)
                if not ok or not ctx.ok("view_order", got == exp, lambda: f"history {hist}, dataset {q} keys {ks}\n view order {got}\n expected {exp}"):
                    bad = True
                    break
                if not ctx.ok("data", np.asarray(d["row"]).tolist() == rw, lambda: f"history {hist}: stored rows {np.asarray(d['row']).tolist()}, expected {rw}"):
                    bad = True
                    break
                if rng.random() < 0.25:
                    ok, got = ctx.call("displayed", lambda: displayed(d), hist)
                    e2 = [rw[x] for x in exp]
                    if not ok or not ctx.ok("displayed", got == e2, lambda: f"history {hist}, dataset {q}\n table shows rows {got}\n expected {e2}"):
                        bad = True
                        break
            if bad:
                break


@section("array_sort", bound="rt.sort, FastArray.sort, rt.argsort, FastArray.argsort, rt.lexsort (1..3 keys), Categorical.argsort, issorted, searchsorted (both sides) over numeric and string arrays, 0..30 (some 70000) elements, contiguous and strided")
def s_arr(ctx):
    import riptable as rt
    from .c15 import lay

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(2500, 25000):
        it += 1
        n = sizes(rng)
        kind = rng.choice(INTS + ["float32", "float64", "bytes", "str", "bool"])
        c, k = column(rt, rng, kind, n, rng.choice([1, 3, 8]))
        exp = order(n, [k], [True])
        base = np.asarray(c)
        a = c if rng.random() < 0.6 or kind in ("bytes", "str") else lay(rt, rng, base)
        what = rng.choice(["sort", "method", "argsort", "margsort", "lexsort", "issorted", "searchsorted", "cat"])
        info = (what, kind, base[:40].tolist(), "strided" if a.strides and a.strides[0] != a.itemsize else "")
        ctx.at(info)
        want = base[exp].tolist() if n else []
        if what == "sort":
            ok, r = ctx.call("sort", lambda: rt.sort(a), info)
            if ok:
                ctx.ok("sort", norm(np.asarray(r).tolist()) == norm(want) and r.dtype == base.dtype, lambda: f"{info}: got {np.asarray(r).tolist()[:60]}")
                ctx.ok("sort:input", norm(np.asarray(a).tolist()) == norm(base.tolist()), lambda: f"{info}: input changed")
        elif what == "method":
            b = a.copy()
            ok, r = ctx.call("FastArray.sort", lambda: b.sort(), info)
            if ok:
                ctx.ok("FastArray.sort", norm(np.asarray(b).tolist()) == norm(want), lambda: f"{info}: got {np.asarray(b).tolist()[:60]}")
        elif what in ("argsort", "margsort"):
            ok, r = ctx.call(what, lambda: (rt.argsort(a) if what == "argsort" else a.argsort()), info)
            if ok:
                g = np.asarray(r).tolist()
                # the default argsort promises an order, not stability
                ctx.ok(what, sorted(g) == list(range(n)) and norm([base[i] for i in g]) == norm(want), lambda: f"{info}: got {g[:60]}")
        elif what == "lexsort":
            m = rng.choice([1, 2, 3])
            more = [(c, k)] + [column(rt, rng, rng.choice(INTS + ["float64", "bytes"]), n, 3) for _ in range(m - 1)]
            e = order(n, [x[1] for x in reversed(more)], [True] * m)
            ok, r = ctx.call("lexsort", lambda: rt.lexsort([x[0] for x in more]), info)
            if ok:
                ctx.ok("lexsort", np.asarray(r).tolist() == e, lambda: f"{info} with {[x[1][:40] for x in more[1:]]}: got {np.asarray(r).tolist()[:60]}, expected {e[:60]}")
        elif what == "issorted":
            if kind in ("bool",) or n == 0 or any(x is None for x in k):
                continue
            b = rt.FastArray(np.array(base[exp])) if rng.random() < 0.5 else c
            kk = [k[i] for i in exp] if b is not c else k
            ok, r = ctx.call("issorted", lambda: b.issorted(), info)
            if ok:
                e = all(x <= y for x, y in zip(kk, kk[1:]))
                ctx.ok("issorted", bool(r) == e, lambda: f"{info}: issorted gave {r}, expected {e}")
        elif what == "searchsorted":
            if kind in ("bool", "bytes", "str") or any(x is None for x in k):
                continue
            s = rt.FastArray(np.array(base[exp], dtype=base.dtype))
            v = rt.FastArray(np.array([rng.choice(base.tolist() + [1, 2, 50]) for _ in range(rng.choice([0, 1, 3, 9]))] if n else [1, 5], dtype=base.dtype))
            side = rng.choice(["left", "right"])
            ok, r = ctx.call("searchsorted", lambda: s.searchsorted(v, side=side), info)
            if ok:
                e = np.searchsorted(np.asarray(s), np.asarray(v), side=side).tolist()
                ctx.ok("searchsorted", np.atleast_1d(np.asarray(r)).tolist() == e, lambda: f"{info} values {v.tolist()} {side}: got {r}, expected {e}")
        else:
            if n == 0 or kind in ("bool", "float32", "float64"):
                continue
            ok, cat = ctx.call("Categorical", lambda: rt.Categorical(c), info)
            if not ok:
                continue
            ok, r = ctx.call("Categorical.argsort", lambda: cat.argsort(), info)
            if ok:
                inv = np.asarray(cat.isnan())
                if inv.any():
                    continue
                g = np.asarray(r).tolist()
                ctx.ok("Categorical.argsort", sorted(g) == list(range(n)) and [k[i] for i in g] == [k[i] for i in exp], lambda: f"{info}: got {g[:60]}, expected {exp[:60]}")
