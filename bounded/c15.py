"""C15 bounded: element-wise array operations are right row by row, whatever the memory layout, and keep invalids invalid."""
import math
import operator
import numpy as np
from .common import section, norm
from .c14 import INTS, FLTS, inv_of, is_inv, gen

NUM = INTS + FLTS


def lay(rt, rng, a):
    """the same values in some memory layout"""
    a = np.asarray(a)
    w = rng.random()
    if w < 0.3 or len(a) < 2:
        r = a.copy()
    elif w < 0.5:
        r = np.repeat(a, 2)[::2]
    elif w < 0.65:
        r = a[::-1].copy()[::-1]
    elif w < 0.8:
        big = np.concatenate([a[:1], a, a[-1:]])
        r = big[1:-1]
    else:
        r = np.repeat(a, 3)[1::3]
    return r.view(rt.FastArray)


def gs(rng, kind, n):
    pool = ["", "a", "b", "ab", "abc", "z", " "] if kind == "bytes" else ["", "a", "b", "ab", "\u00e9", "z", "\u4e00"]
    return np.array([rng.choice(pool) for _ in range(n)], dtype="S4" if kind == "bytes" else "U4")


def size(rng):
    return rng.choice([0, 1, 2, 3, 5, 8, 13, 33, 60]) if rng.random() < 0.985 else 3000


def safe(x, inv, dt):
    """x (from a dtype with invalid inv) as it must read in dtype dt"""
    if is_inv(x, inv):
        return inv_of(dt)
    return x


@section("convert", bound="all pairs of numeric dtypes, random values that fit the target, length <= 60 (occasionally 3000), contiguous/strided/reversed/offset layouts: astype")
def convert(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    pairs = [(x, y) for x in NUM + ["bool"] for y in NUM]
    while ctx.more() and it < ctx.scale(3000, 40000):
        it += 1
        f, t = pairs[it % len(pairs)]
        n = size(rng)
        vals = [rng.choice([0, 1, 2, 3, 7, 100]) if np.dtype(f).kind != "b" else bool(rng.random() < 0.5) for _ in range(n)]
        if np.dtype(f).kind != "b":
            p = rng.choice([0, 0.3, 0.6])
            vals = [inv_of(f) if rng.random() < p else v for v in vals]
        a = lay(rt, rng, np.array(vals, dtype=f))
        cp = True
        exp = [safe(x, inv_of(f), t) if np.dtype(f).kind != "b" else int(x) for x in vals]
        info = (f, "->", t, "copy", cp, vals if n < 100 else n, "strides", a.strides)
        ok, r = ctx.call("astype", lambda: a.astype(t) if cp else a.astype(t, copy=False), info)
        if ok:
            ctx.eq("astype", r, exp, info)
            ctx.ok("astype dtype", r.dtype == np.dtype(t), lambda: f"{info} {r.dtype}")
        ctx.eq("astype leaves the input alone", a._np, np.array(vals, dtype=f), info)


CMPS = [("==", operator.eq), ("!=", operator.ne), ("<", operator.lt), ("<=", operator.le), (">", operator.gt), (">=", operator.ge)]


@section("elementwise", bound="random arrays of every numeric dtype (same or mixed), length <= 60 (occasionally 3000), every layout: + - * with values that cannot overflow, comparisons, integer/float mixing with invalids")
def elementwise(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(2500, 40000):
        it += 1
        f, g = rng.choice(NUM), rng.choice(NUM)
        n = size(rng)
        x = np.array([rng.choice([0, 1, 2, 3, 7]) for _ in range(n)], dtype=f)
        y = np.array([rng.choice([0, 1, 2, 3, 7]) for _ in range(n)], dtype=g)
        a, b = lay(rt, rng, x), lay(rt, rng, y)
        sc = rng.random() < 0.3
        if sc:
            b = rng.choice([0, 1, 2, 5, 1.5])
            y = [b] * n
        info = (f, x.tolist() if n < 100 else n, g, b if sc else (y.tolist() if n < 100 else n))
        signed = np.result_type(f, g).kind != "u" if not sc else np.dtype(f).kind != "u"
        for nm, op in (("+", operator.add), ("*", operator.mul)) + ((("-", operator.sub),) if signed else ()):
            ok, r = ctx.call(nm, lambda: op(a, b), info)
            if ok:
                ctx.eq(nm, r, [op(p, q) for p, q in zip(x.tolist(), y if sc else y.tolist())], info)
        nm, op = rng.choice(CMPS)
        ok, r = ctx.call(nm, lambda: op(a, b), info)
        if ok:
            ctx.eq(nm, r, [op(p, q) for p, q in zip(x.tolist(), y if sc else y.tolist())], info)
            ctx.ok("compare is bool", r.dtype == bool, lambda: f"{nm} {info} {r.dtype}")
        # an integer invalid meets a float: NaN
        if np.dtype(f).kind in "iu":
            iv = np.array([inv_of(f) if rng.random() < 0.4 else v for v in x.tolist()], dtype=f)
            c = lay(rt, rng, iv)
            fl = np.array([float(v) + 0.5 for v in range(n)])
            ok, r = ctx.call("int+float array", lambda: c + lay(rt, rng, fl), (f, iv))
            if ok:
                ctx.eq("int+float array", r, [float("nan") if p == inv_of(f) else p + q for p, q in zip(iv.tolist(), fl.tolist())], (f, iv, "strides", c.strides))
            ok, r = ctx.call("int+float scalar", lambda: np.add(c, 1.5), (f, iv))
            if ok:
                ctx.eq("int+float scalar", r, [float("nan") if p == inv_of(f) else p + 1.5 for p in iv.tolist()], (f, iv, "strides", c.strides))


@section("choose", bound="rt.where / FastArray.where / putmask over every dtype incl. strings, scalars and arrays, every layout, length <= 60 (occasionally 3000)")
def choose(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(3000, 40000):
        it += 1
        n = size(rng)
        cond = np.array([rng.random() < 0.5 for _ in range(n)], dtype=bool)
        c = lay(rt, rng, cond)
        kind = rng.choice(["num", "num", "num", "str", "mixed"])
        if kind == "num":
            f = rng.choice(NUM)
            g = f
            x = np.array(gen(rng, f, n, 0.2, big=False), dtype=f)
            y = np.array(gen(rng, g, n, 0.2, big=False), dtype=g)
        elif kind == "mixed":
            f, g = rng.choice(["int8", "int16", "int32", "uint8"]), rng.choice(["float64", "int64", "float32"])
            if rng.random() < 0.5:
                f, g = g, f
            x = np.array(gen(rng, f, n, 0.2, big=False, inf=False), dtype=f)
            y = np.array(gen(rng, g, n, 0.2, big=False, inf=False), dtype=g)
        else:
            f = g = rng.choice(["bytes", "unicode"])
            x, y = gs(rng, f, n), gs(rng, g, n)
        a, b = lay(rt, rng, x), lay(rt, rng, y)
        w = rng.random()
        if kind == "num" and w < 0.25 and n:
            b = int(rng.choice([0, 1, 5])) if np.dtype(f).kind != "f" else 0.5
            y = np.array([b] * n, dtype=f)
        elif kind == "num" and w < 0.4 and n:
            a = int(rng.choice([0, 1, 5])) if np.dtype(f).kind != "f" else 0.5
            x = np.array([a] * n, dtype=f)
        if n == 0:
            continue
        info = (f, g, "cond", cond.tolist() if n < 100 else n, x.tolist() if n < 100 else n, y.tolist() if n < 100 else n, "cond strides", c.strides)
        form = rng.random()
        if form < 0.7:
            fn = lambda: rt.where(c, a, b)
        elif form < 0.85 and isinstance(a, np.ndarray):
            fn = lambda: a.where(c, b)
        else:
            fn = lambda: rt.where(cond.astype("int8").view(rt.FastArray), a, b)
        if n == 1 and kind == "mixed":
            continue
        ok, r = ctx.call("where", fn, info)
        if ok:
            t = r.dtype
            exp = []
            for k in range(n):
                v, d = (x[k], x.dtype) if cond[k] else (y[k], y.dtype)
                exp.append(v if d.kind in "SU" else safe(v.item(), inv_of(d), t))
            ctx.eq("where", r, exp, info)
            ctx.ok("where dtype", t.kind in ("SU" if kind == "str" else "iuf"), lambda: f"where {info} {r.dtype}")
        ok, r = ctx.call("where(cond)", lambda: rt.where(c)[0], info)
        if ok:
            ctx.eq("where(cond)", r, np.nonzero(cond)[0], info)
        if kind == "num" and isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
            z = x.copy().view(rt.FastArray)
            ok, _ = ctx.call("putmask", lambda: rt.putmask(z, cond.view(rt.FastArray), y.copy().view(rt.FastArray)), info)
            if ok:
                ctx.eq("putmask", z, np.where(cond, y, x), info)


@section("neighbours", bound="shift/diff/differs/transitions of every numeric and string dtype, periods -n-2..n+2, every layout")
def neighbours(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(3000, 40000):
        it += 1
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 60])
        f = rng.choice(NUM + ["bytes", "unicode"])
        per = rng.choice([1, 1, -1, 2, -2, 3, n, -n, n + 1, -n - 2])
        if f in ("bytes", "unicode"):
            x = gs(rng, f, n)
            inv = "" if f == "unicode" else b""
        else:
            x = np.array(gen(rng, f, n, 0.1, big=False, inf=False), dtype=f)
            inv = inv_of(f)
        a = lay(rt, rng, x)
        v = x.tolist()
        info = (f, v, "periods", per, "strides", a.strides)
        at = lambda k: v[k - per] if 0 <= k - per < n else None
        if per != 0:
            ok, r = ctx.call("shift", lambda: a.shift(per), info)
            if ok:
                ctx.eq("shift", r, [v[k - per] if 0 <= k - per < n else inv for k in range(n)], info)
            both = [(k, at(k)) for k in range(n)]
            ok, r = ctx.call("differs", lambda: a.differs(per), info)
            exp = [p is not None and p == v[k] for k, p in both]
            if ok:
                ctx.eq("differs", r, exp, info)
            ok, r = ctx.call("differs(fancy)", lambda: a.differs(per, fancy=True), info)
            if ok:
                ctx.eq("differs(fancy)", r, [k for k in range(n) if exp[k]], info)
            if f not in ("bytes", "unicode"):
                exp = [p is not None and p != v[k] for k, p in both]
                ok, r = ctx.call("transitions", lambda: a.transitions(per), info)
                if ok:
                    ctx.eq("transitions", r, exp, info)
                ok, r = ctx.call("transitions(fancy)", lambda: a.transitions(per, fancy=True), info)
                if ok:
                    ctx.eq("transitions(fancy)", r, [k for k in range(n) if exp[k]], info)
                if np.dtype(f).kind != "u" and not any(is_inv(q, inv) for q in v if np.dtype(f).kind == "i"):
                    ok, r = ctx.call("diff", lambda: a.diff(per), info)
                    if ok:
                        ctx.eq("diff", r, [inv if p is None else v[k] - p for k, p in both], info)
        ctx.eq("input untouched", a, x, info)


@section("member", bound="isin/ismember/between/searchsorted/duplicated/nunique/unique/count/map over every numeric and string dtype, every layout, length <= 60 (occasionally 3000)")
def member(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(2500, 30000):
        it += 1
        n = size(rng)
        f = rng.choice(NUM + ["bytes", "unicode"])
        isstr = f in ("bytes", "unicode")
        if isstr:
            x = gs(rng, f, n)
            m = gs(rng, f, rng.choice([1, 2, 3, 5]))
        else:
            x = np.array(gen(rng, f, n, 0, big=False, inf=False), dtype=f)
            m = np.array(gen(rng, f, rng.choice([1, 2, 3, 5]), 0, big=False, inf=False), dtype=f)
        a = lay(rt, rng, x)
        v, mv = x.tolist(), m.tolist()
        info = (f, v if n < 100 else n, "in", mv, "strides", a.strides)
        exp = [q in mv for q in v]
        way = rng.choice(["array", "list", "set", "strided"])
        test = {"array": lambda: m.view(rt.FastArray), "list": lambda: list(mv), "set": lambda: set(mv), "strided": lambda: np.repeat(m, 2)[::2].view(rt.FastArray)}[way]()
        if n:
            ok, r = ctx.call("isin", lambda: a.isin(test), (info, way))
            if ok:
                ctx.eq("isin", r, exp, (info, way))
            ok, r = ctx.call("isin(invert)", lambda: a.isin(test, invert=True), (info, way))
            if ok:
                ctx.eq("isin(invert)", r, [not q for q in exp], (info, way))
            ok, r = ctx.call("ismember", lambda: rt.ismember(a, m.view(rt.FastArray)), info)
            if ok:
                ctx.eq("ismember", r[0], exp, info)
                ctx.eq("ismember index", [int(i) if e else -1 for i, e in zip(r[1], exp)], [mv.index(q) if q in mv else -1 for q in v], info)
                ctx.ok("ismember index invalid", all(bool(z) == (not e) for z, e in zip(rt.FastArray(r[1]).isnan(), exp)), lambda: f"index of a missing element must be invalid {info} {r[1]!r}")
        # duplicates and distinct values
        for keep in ("first", "last", False):
            ok, r = ctx.call("duplicated", lambda: a.duplicated(keep=keep), (info, keep))
            if ok:
                e = [(v[k] in v[:k]) if keep == "first" else (v[k] in v[k + 1 :]) if keep == "last" else v.count(v[k]) > 1 for k in range(n)] if n <= 100 else None
                if e is not None:
                    ctx.eq(f"duplicated({keep})", r, e, info)
        srt = sorted(set(v))
        ok, r = ctx.call("unique", lambda: rt.unique(a, return_index=True, return_inverse=True, return_counts=True), info)
        if ok and n:
            ctx.eq("unique", r[0], srt, info)
            ctx.eq("unique index", r[1], [v.index(q) for q in srt], info)
            ctx.eq("unique inverse", r[2], [srt.index(q) for q in v], info)
            ctx.eq("unique counts", r[3], [v.count(q) for q in srt], info)
        flt = np.array([rng.random() < 0.6 for _ in range(n)], dtype=bool)
        kept = [q for q, k in zip(v, flt) if k]
        ok, r = ctx.call("unique(filter)", lambda: rt.unique(a, filter=lay(rt, rng, flt), return_counts=True), (info, flt))
        if ok and n:
            ctx.eq("unique(filter)", r[0], sorted(set(kept)), (info, flt))
            ctx.eq("unique(filter) counts", r[1], [kept.count(q) for q in sorted(set(kept))], (info, flt))
        first = list(dict.fromkeys(v))
        ok, r = ctx.call("unique(unsorted)", lambda: rt.unique(a, sorted=False), info)
        if ok and n:
            ctx.eq("unique(unsorted)", r, first, info)
        ok, r = ctx.call("count", lambda: a.count(), info)
        if ok and n:
            ctx.eq("count", [r[0].tolist() if not isstr else list(r[0]), r["Count"].tolist()], [srt, [v.count(q) for q in srt]], info)
        if not isstr and n:
            p = [inv_of(f) if rng.random() < 0.3 else q for q in v]
            ok, r = ctx.call("nunique", lambda: lay(rt, rng, np.array(p, dtype=f)).nunique(), p)
            if ok:
                ctx.eq("nunique", r, len(set(q for q in p if not is_inv(q, inv_of(f)))), p)
            lo, hi = sorted([rng.choice(v), rng.choice(v)])
            il, ih = rng.random() < 0.5, rng.random() < 0.5
            ok, r = ctx.call("between", lambda: a.between(lo, hi, include_low=il, include_high=ih), (info, lo, hi))
            if ok:
                ctx.eq("between", r, [(q >= lo if il else q > lo) and (q <= hi if ih else q < hi) for q in v], (info, lo, hi, il, ih))
            s = np.array(sorted(v), dtype=f)
            side = rng.choice(["left", "right"])
            ok, r = ctx.call("searchsorted", lambda: rt.searchsorted(lay(rt, rng, s), lay(rt, rng, m), side=side), (s, m, side))
            if ok:
                ctx.eq("searchsorted", r, np.searchsorted(s, m, side=side), (f, s.tolist() if n < 100 else n, mv, side))
            ok, r = ctx.call("clip", lambda: a.clip(lo, hi), (info, lo, hi))
            if ok:
                ctx.eq("clip", r, [min(max(q, lo), hi) for q in v], (info, lo, hi))
        if n and not isstr:
            d = {q: i * 10 for i, q in enumerate(dict.fromkeys(mv))}
            ok, r = ctx.call("map", lambda: a.map(d), (info, d))
            if ok:
                iv = inv_of(r.dtype)
                ctx.eq("map", r, [d.get(q, iv) for q in v], (info, d))
        ctx.eq("input untouched", a, x, info)


@section("masks", bound="mask_or/and/xor/andnot and in-place forms over 2-5 boolean arrays, length <= 60; bool_to_fancy(both); filter/take by boolean and integer index; repeat/tile")
def masks(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    OPS = {"mask_or": lambda p, q: p or q, "mask_and": lambda p, q: p and q, "mask_xor": lambda p, q: p != q, "mask_andnot": lambda p, q: q and not p}
    while ctx.more() and it < ctx.scale(2500, 30000):
        it += 1
        n = rng.choice([1, 2, 3, 8, 33, 60, 200])
        k = rng.choice([2, 2, 3, 4, 5])
        ms = [np.array([rng.random() < 0.5 for _ in range(n)], dtype=bool) for _ in range(k)]
        for nm in ("mask_or", "mask_and", "mask_xor"):
            f = OPS[nm]
            exp = ms[0].tolist()
            for m in ms[1:]:
                exp = [bool(f(p, q)) for p, q in zip(exp, m.tolist())]
            info = (nm, [m.tolist() for m in ms])
            arrs = [m.copy().view(rt.FastArray) for m in ms]
            fn = (lambda: getattr(rt, nm)(*arrs)) if rng.random() < 0.5 else (lambda: getattr(rt, nm)(arrs))
            ok, r = ctx.call(nm, fn, info)
            if ok:
                ctx.eq(nm, r, exp, info)
                for q, m in zip(arrs, ms):
                    ctx.eq(nm + " leaves its inputs alone", q, m, info)
            ok, r = ctx.call(nm + "i", lambda: getattr(rt, nm + "i")(*arrs), info)
            if ok:
                ctx.eq(nm + "i", r, exp, info)
                ctx.eq(nm + "i in place", arrs[0], exp, info)
                for q, m in zip(arrs[1:], ms[1:]):
                    ctx.eq(nm + "i leaves the others alone", q, m, info)
        x = np.arange(n) * 7
        a = lay(rt, rng, x)
        idx = np.array([rng.randrange(n) for _ in range(rng.choice([1, 3, 10]))])
        ctx.eq("filter(bool)", a.filter(lay(rt, rng, ms[0])), x[ms[0]], (x, ms[0]))
        ctx.eq("index(bool)", a[lay(rt, rng, ms[0])], x[ms[0]], (x, ms[0]))
        ctx.eq("filter(int)", a.filter(lay(rt, rng, idx)), x[idx], (x, idx))
        ctx.eq("index(int)", a[lay(rt, rng, idx)], x[idx], (x, idx))
        z = x.copy().view(rt.FastArray)
        z[lay(rt, rng, ms[1])] = -1
        e = x.copy()
        e[ms[1]] = -1
        ctx.eq("assign(bool)", z, e, (x, ms[1]))
        z = x.copy().view(rt.FastArray)
        nv = np.arange(int(ms[1].sum())) + 1000
        z[lay(rt, rng, ms[1])] = lay(rt, rng, nv)
        e = x.copy()
        e[ms[1]] = nv
        ctx.eq("assign(bool, array)", z, e, (x, ms[1]))
        base = np.repeat(x, 2)
        z = base.view(rt.FastArray)[::2]
        z[lay(rt, rng, ms[1])] = lay(rt, rng, nv) if rng.random() < 0.5 else (nv[0] if len(nv) else 5)
        if not len(nv) or z[ms[1]].tolist() == nv.tolist():
            pass
        else:
            e = x.copy()
            e[ms[1]] = nv[0]
        ctx.eq("assign(bool) into a strided view", z, e, (x, ms[1]))
        ctx.eq("assign into a strided view leaves the rest", base[1::2], x, (x, ms[1]))
        fi = np.array([-(2**31) if rng.random() < 0.3 else i for i in idx.tolist()], dtype="int32")
        ctx.eq("index(invalid int)", a[lay(rt, rng, fi)], [-(2**63) if i < 0 else int(x[i]) for i in fi.tolist()], (x, fi))
        u = np.unique(idx)
        z = x.copy().view(rt.FastArray)
        z[lay(rt, rng, u)] = lay(rt, rng, np.arange(len(u)) - 50)
        e = x.copy()
        e[u] = np.arange(len(u)) - 50
        ctx.eq("assign(int, array)", z, e, (x, u))
        rp = rng.choice([0, 1, 2, 3])
        ctx.eq("repeat", a.repeat(rp), np.repeat(x, rp), (x, rp))
        ctx.eq("tile", a.tile(rp), np.tile(x, rp), (x, rp))
