"""C01: equi-joins return exactly the matching row pairs, in the documented order."""
import numpy as np
from bounded.common import section

HOWS = ("left", "right", "inner", "outer")


def first_last(rows, keep):
    return rows if keep is None else ([rows[0]] if keep == "first" else [rows[-1]])


def keep_rows(keys, keep):
    """row numbers surviving keep (per key); keys None = invalid"""
    if keep is None:
        return list(range(len(keys)))
    g = {}
    for i, k in enumerate(keys):
        g.setdefault(k, []).append(i)
    # the kept rows are reported in order of the keys' first appearance
    return [first_last(r, keep)[0] for r in g.values()]


def left_pairs(lk, rk, inner, keep):
    g = {}
    for j, k in enumerate(rk):
        if k is not None:
            g.setdefault(k, []).append(j)
    out = []
    rows = keep_rows(lk, keep[0])
    for i in rows:
        m = first_last(g[lk[i]], keep[1]) if lk[i] is not None and lk[i] in g else []
        if m:
            out += [(i, j) for j in m]
        elif not inner:
            out.append((i, None))
    return out


def pairs(lk, rk, how, keep=(None, None)):
    if how in ("left", "inner"):
        return left_pairs(lk, rk, how == "inner", keep)
    if how == "right":
        return [(i, j) for j, i in left_pairs(rk, lk, False, (keep[1], keep[0]))]
    if not lk:
        return pairs(lk, rk, "right", keep)
    out = left_pairs(lk, rk, False, keep)
    ls = {k for k in lk if k is not None}
    ronly = [j for j in sorted(keep_rows(rk, keep[1])) if rk[j] is None or rk[j] not in ls]
    return out + [(None, j) for j in ronly]


def gen_keycol(rng, n, kind, card, pinv):
    """(python keys (None = invalid), array builder)"""
    if kind in ("int8", "int16", "int32", "int64"):
        vals = [rng.randrange(card) - (card // 3) for _ in range(n)]
        inv = int(np.iinfo(kind).min)
        arr = [inv if rng.random() < pinv else v for v in vals]
        return [None if v == inv else v for v in arr], lambda rt: rt.FastArray(np.array(arr, dtype=kind))
    if kind in ("uint8", "uint32"):
        arr = [rng.randrange(card) for _ in range(n)]
        return list(arr), lambda rt: rt.FastArray(np.array(arr, dtype=kind))
    if kind in ("float32", "float64"):
        arr = [float("nan") if rng.random() < pinv else rng.randrange(card) + 0.5 for _ in range(n)]
        return [None if v != v else v for v in arr], lambda rt: rt.FastArray(np.array(arr, dtype=kind))
    if kind in ("S", "U"):
        arr = ["abcdefghij"[rng.randrange(min(card, 10))] * rng.choice([1, 1, 2]) for _ in range(n)]
        w = rng.choice([2, 5])
        return list(arr), lambda rt: rt.FastArray(np.array(arr, dtype=f"{kind}{w}"), unicode=(kind == "U"))
    if kind == "cat":
        arr = ["abcdefghij"[rng.randrange(min(card, 10))] * rng.choice([1, 1, 2]) for _ in range(n)]
        return list(arr), lambda rt: rt.Cat(arr)
    if kind == "date":
        arr = [18000 + rng.randrange(card) for _ in range(n)]
        return [f"{np.datetime64(a, 'D')}" for a in arr], lambda rt: rt.Date(np.array(arr, dtype=np.int32))
    raise KeyError(kind)


KINDS = ["int32", "int64", "int8", "int16", "float64", "float32", "S", "U", "uint8", "uint32", "date"]
COMPAT = {"int32": ["int32", "int64", "int16"], "int64": ["int64", "int32"], "S": ["S"], "float64": ["float64", "float32"]}


def gen_sides(rng, nkeys, pinv, cats=False):
    """two key tables; returns (left keys, right keys, left builders, right builders)"""
    nl = rng.choice([0, 1, 2, 3, 5, 8, 13, 40, 300][cats:])
    nr = rng.choice([0, 1, 2, 3, 5, 8, 13, 40, 300][cats:])
    card = rng.choice([1, 2, 4, 9, 50])
    L, R, lb, rb = [], [], [], []
    for _ in range(nkeys):
        kind = "cat" if cats else rng.choice(KINDS)
        rkind = rng.choice(COMPAT.get(kind, [kind])) if not cats else kind
        c = min(card, 60)
        k1, b1 = gen_keycol(rng, nl, kind, c, pinv)
        k2, b2 = gen_keycol(rng, nr, rkind, c, pinv)
        L.append(k1)
        R.append(k2)
        lb.append(b1)
        rb.append(b2)
    z = lambda cols: [None if any(x is None for x in t) else t for t in zip(*cols)]
    return nl, nr, z(L), z(R), lb, rb


INV32 = int(np.iinfo(np.int32).min)


def expect_cols(ps, nl, nr, lv, rv):
    le = [INV32 if i is None else lv[i] for i, _ in ps]
    re = [INV32 if j is None else rv[j] for _, j in ps]
    return le, re


def dataset(rt, builders, names, extra):
    d = {nm: b(rt) for nm, b in zip(names, builders)}
    d.update(extra)
    return rt.Dataset(d)


def run_case(ctx, rt, how, keep, pinv, nkeys, samenames=True, cats=False):
    rng = ctx.rng
    nl, nr, lk, rk, lb, rb = gen_sides(rng, nkeys, pinv, cats)
    lv = list(range(1000, 1000 + nl))
    rv = list(range(5000, 5000 + nr))
    ln = [f"k{i}" for i in range(nkeys)]
    rn = ln if samenames else [f"q{i}" for i in range(nkeys)]
    info = lambda: (how, keep, "left keys", lk[:60], "right keys", rk[:60], "dtypes", [str(ld[c].dtype) for c in ln], [str(rd[c].dtype) for c in rn])
    ld = dataset(rt, lb, ln, {"lv": rt.FastArray(np.array(lv, dtype=np.int32)), "x": rt.FastArray(np.array(lv, dtype=np.float64))})
    rd = dataset(rt, rb, rn, {"rv": rt.FastArray(np.array(rv, dtype=np.int32)), "x": rt.FastArray(np.array(rv, dtype=np.float64))})
    ps = pairs(lk, rk, how, keep)
    key = f"merge2 {how}" + ("" if keep == (None, None) else " keep") + (" multikey" if nkeys > 1 else "")
    kw = dict(how=how, suffixes=("_l", "_r"))
    if keep != (None, None):
        kw["keep"] = keep
    if samenames:
        kw["on"] = ln if nkeys > 1 else ln[0]
    else:
        kw["left_on"], kw["right_on"] = (ln, rn)
    if rng.random() < 0.4:
        kw["indicator"] = True
    if rng.random() < 0.2:
        kw["copy"] = False
    if rng.random() < 0.25:  # compared as a set with keep: the kept rows' order follows the grouping's key order, which this hint changes
        kw["high_card"] = rng.choice([True, False])
    ctx.at((key, nl, nr))
    ok, m = ctx.call(key, lambda: rt.merge2(ld, rd, **kw) if rng.random() < 0.5 else ld.merge2(rd, **kw), info)
    if not ok:
        return
    le, re = expect_cols(ps, nl, nr, lv, rv)
    got = [list(np.asarray(m["lv"])), list(np.asarray(m["rv"]))]
    if keep != (None, None) and (kw.get("high_card") or (how == "outer" and nl == 0)):
        ctx.eq(key + ": rows (any order)", sorted(zip(*got)), sorted(zip(le, re)), info)
        return
    if not ctx.eq(key + ": rows", got, [le, re], info):
        return
    ctx.eq(key + ": suffixed columns", [m["x_l"], m["x_r"]], [[float("nan") if i is None else lv[i] for i, _ in ps], [float("nan") if j is None else rv[j] for _, j in ps]], info)
    # key columns
    nan2 = lambda a: np.asarray(a)
    for ci, (a, b) in enumerate(zip(ln, rn)):
        if cats:
            get = lambda ds, c: [x.decode() if isinstance(x, bytes) else str(x) for x in ds[c].expand_array]
        else:
            get = lambda ds, c: [x for x in np.asarray(ds[c])]
        lc, rc = get(ld, a), get(rd, b)
        if samenames:
            src = [lc[i] if (i is not None and not (how == "right" and False)) else rc[j] for i, j in ps]
            if how == "right":
                src = [rc[j] for i, j in ps]
            got = get(m, a)
            same = [str(x) == str(y) or (x != x and y != y) or x == y or (keyinv(x) and keyinv(y)) for x, y in zip(got, src)]
            ctx.ok(key + ": key column", all(same) and len(got) == len(src), lambda: f"{info()}\n expected {src}\n got {got}")
    if kw.get("indicator"):
        exp = ["both" if (i is not None and j is not None) else ("left_only" if j is None else "right_only") for i, j in ps]
        got = [x.decode() if isinstance(x, bytes) else str(x) for x in m["merge_indicator"].expand_array]
        ctx.eq(key + ": indicator", got, exp, info)
    ctx.eq("inputs unchanged", [ld["lv"], rd["rv"]], [lv, rv], info)


def keyinv(x):
    try:
        if x != x:
            return True
        return int(x) in (-128, -32768, -(2**31), -(2**63))
    except Exception:  # noqa
        return False


@section("onekey", bound="merge2 left/right/inner/outer, one key column of 11 dtypes (mixed widths), <= 300 rows a side, invalid keys")
def onekey(ctx):
    import riptable as rt

    it = 0
    while ctx.more() and it < ctx.scale(420, 6000):
        it += 1
        run_case(ctx, rt, HOWS[it % 4], (None, None), ctx.rng.choice([0, 0, 0.2]), 1, samenames=ctx.rng.random() < 0.8)


@section("multikey", bound="merge2 with 2-3 key columns, <= 300 rows a side, invalid keys")
def multikey(ctx):
    import riptable as rt

    it = 0
    while ctx.more() and it < ctx.scale(320, 5000):
        it += 1
        run_case(ctx, rt, HOWS[it % 4], (None, None), ctx.rng.choice([0, 0, 0.15]), ctx.rng.choice([2, 2, 3]))


@section("keep", bound="merge2 with keep first/last on either side, invalid keys with one key column, <= 300 rows a side")
def keep(ctx):
    import riptable as rt

    it = 0
    while ctx.more() and it < ctx.scale(360, 5000):
        it += 1
        how = HOWS[it % 4]
        kp = ctx.rng.choice([("first", "first"), ("last", "last"), (None, "first"), (None, "last"), ("first", None), ("last", None), ("first", "last")])
        if how == "outer":
            kp = (None, kp[1])
        nk = ctx.rng.choice([1, 1, 2])
        run_case(ctx, rt, how, kp, ctx.rng.choice([0, 0.2]) if nk == 1 else 0, nk)


@section("cats", bound="merge2 on categorical key columns with different category sets, <= 300 rows a side")
def cats(ctx):
    import riptable as rt

    it = 0
    while ctx.more() and it < ctx.scale(200, 3000):
        it += 1
        run_case(ctx, rt, HOWS[it % 4], (None, None), 0, 1, cats=True)


@section("lookup", bound="merge_lookup / merge_indices / validate options, <= 300 rows a side")
def lookup(ctx):
    import riptable as rt
    from riptable.rt_merge import merge_indices

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(300, 4000):
        it += 1
        nl, nr, lk, rk, lb, rb = gen_sides(rng, 1, rng.choice([0, 0.2]))
        if nl == 0 or nr == 0:
            continue
        lv = list(range(1000, 1000 + nl))
        rv = list(range(5000, 5000 + nr))
        ld = dataset(rt, lb, ["k"], {"lv": rt.FastArray(np.array(lv, dtype=np.int32))})
        rd = dataset(rt, rb, ["k"], {"rv": rt.FastArray(np.array(rv, dtype=np.int32))})
        info = lambda: ("left keys", lk[:60], "right keys", rk[:60])
        dup = lambda ks: any(n > 1 for n in count([k for k in ks if k is not None]).values())
        ndup = sum(k is None for k in lk) > 1 or sum(k is None for k in rk) > 1  # repeated invalid keys: multiplicity unspecified
        for val, bad in () if ndup else (("1:1", dup(lk) or dup(rk)), ("1:m", dup(lk)), ("m:1", dup(rk)), ("m:m", False)):
            f = lambda: rt.merge2(ld, rd, on="k", validate=val)
            if bad:
                ctx.raises(f"validate {val} rejects duplicates", f, info, (ValueError,))
            else:
                ctx.call(f"validate {val} accepts", f, info)
        kp = rng.choice([None, "first", "last"])
        f = lambda: rt.merge_lookup(ld, rd, on="k", keep=kp) if rng.random() < 0.5 else ld.merge_lookup(rd, on="k", keep=kp)
        if kp is None and dup(rk):
            ctx.raises("merge_lookup rejects duplicate right keys", f, info, (ValueError,))
        else:
            ps = pairs(lk, rk, "left", (None, kp))
            ok, m = ctx.call("merge_lookup", f, info)
            if ok:
                ctx.eq("merge_lookup rows", [m["lv"], m["rv"]], expect_cols(ps, nl, nr, lv, rv), info)
            missing = any(j is None for _, j in ps)
            g = lambda: rt.merge_lookup(ld, rd, on="k", keep=kp, require_match=True)
            if missing:
                ctx.raises("merge_lookup require_match", g, info, (ValueError,))
            else:
                ctx.call("merge_lookup require_match", g, info)
        how = rng.choice(HOWS)
        ok, ji = ctx.call("merge_indices", lambda: merge_indices(ld, rd, on="k", how=how), info)
        if ok:
            ps = pairs(lk, rk, how)
            le, re = expect_cols(ps, nl, nr, lv, rv)
            ctx.eq("merge_indices left", apply_idx(lv, ji.left_index), le, info)
            ctx.eq("merge_indices right", apply_idx(rv, ji.right_index), re, info)
        # columns_left / columns_right
        cl = rng.choice([["lv"], [], ["k", "lv"]])
        cr = rng.choice([["rv"], [], ["k", "rv"]])
        ok, m = ctx.call("merge2 columns", lambda: rt.merge2(ld, rd, on="k", columns_left=cl, columns_right=cr), info)
        if ok:
            exp = {"k"} | {c for c in cl + cr}
            ctx.eq("merge2 selected columns", sorted(m.keys()), sorted(exp), (info(), cl, cr))


def apply_idx(vals, idx):
    if idx is None:
        return list(vals)
    idx = np.asarray(idx)
    if idx.dtype == bool:
        return [v for v, b in zip(vals, idx) if b]
    out = []
    for i in idx.tolist():
        out.append(vals[i] if 0 <= i < len(vals) else INV32)
    return out


def count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


@section("kernels", bound="the index kernels called directly against their contracts, <= 40 rows")
def kernels(ctx):
    import riptable.rt_merge as M

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(400, 4000):
        it += 1
        n = rng.choice([0, 1, 2, 5, 20])
        reps = np.array([rng.choice([0, 1, 1, 2, 4]) for _ in range(n)], dtype=np.int64)
        cs = np.cumsum(reps)
        arr = np.array([rng.randrange(100) for _ in range(n)], dtype=np.int64)
        out = np.zeros(cs[-1] if n else 0, dtype=np.int64)
        M._partial_repeat(arr, cs, out)
        ctx.eq("partial repeat", out, np.repeat(arr, reps), (arr, reps))
        M._fused_arange_repeat(cs, out)
        ctx.eq("arange repeat", out, np.repeat(np.arange(n), reps), reps)
