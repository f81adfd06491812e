"""C02: as-of joins pick the closest admissible row of the same group."""
import numpy as np
from bounded.common import section
from bounded.c01 import gen_keycol

DIRS = ("backward", "forward", "nearest")
INV32 = int(np.iinfo(np.int32).min)


def match(v, cand, direction, exact, tol):
    """cand: [(row, key)] of the group in row order (sorted by key); returns row or None"""
    ok = lambda d: tol is None or d <= tol
    back = [(r, k) for r, k in cand if (k <= v if exact else k < v)]
    fwd = [(r, k) for r, k in cand if (k >= v if exact else k > v)]
    b = back[-1] if back and ok(v - back[-1][1]) else None
    f = fwd[0] if fwd and ok(fwd[0][1] - v) else None
    if direction == "backward":
        return b and b[0]
    if direction == "forward":
        return f and f[0]
    if b is None or f is None:
        return b[0] if b else (f[0] if f else None)
    return b[0] if v - b[1] <= f[1] - v else f[0]


def rows(lo, ro, lby, rby, direction, exact, tol):
    g = {}
    for j, k in enumerate(rby):
        if k is not None:
            g.setdefault(k, []).append((j, ro[j]))
    out = []
    for i, k in enumerate(lby):
        r = None if k is None else match(lo[i], g.get(k, []), direction, exact, tol)
        out.append(r)
    return out


ON = {
    "int32": lambda rt, a: rt.FastArray(np.array(a, dtype=np.int32)),
    "int64": lambda rt, a: rt.FastArray(np.array(a, dtype=np.int64)),
    "int16": lambda rt, a: rt.FastArray(np.array(a, dtype=np.int16)),
    "int8": lambda rt, a: rt.FastArray(np.array(a, dtype=np.int8)),
    "uint32": lambda rt, a: rt.FastArray(np.array([x + 40 for x in a], dtype=np.uint32)),
    "float64": lambda rt, a: rt.FastArray(np.array(a, dtype=np.float64) / 2),
    "float32": lambda rt, a: rt.FastArray(np.array(a, dtype=np.float32) / 2),
    "nano": lambda rt, a: rt.DateTimeNano([1_600_000_000_000_000_000 + x * 1000 for x in a], from_tz="GMT", to_tz="NYC"),
}
# the same integer scale in units of microseconds, seconds, minutes and days
UNITS = {"nano": 1000, "nano_s": 10**9, "nano_m": 60 * 10**9, "nano_d": 86400 * 10**9, "nano_x": 86400 * 10**9 + 3_723_004_005_000}
for _k, _u in UNITS.items():
    ON[_k] = lambda rt, a, _u=_u: rt.DateTimeNano([1_600_000_000_000_000_000 + x * _u for x in a], from_tz="GMT", to_tz="NYC")


def gen_on(rng, n, span, srt):
    a = [rng.randrange(-span // 2, span // 2 + 1) for _ in range(n)]
    return sorted(a) if srt else a


def gen(ctx, kinds, srt=True, nby=None, inv=True):
    rng = ctx.rng
    nl, nr = rng.choice([1, 2, 3, 5, 8, 20, 60]), rng.choice([0, 1, 2, 3, 5, 8, 20, 60])
    span = rng.choice([1, 3, 8, 30])
    kind = rng.choice(kinds)
    lo, ro = gen_on(rng, nl, span, srt), gen_on(rng, nr, span, srt)
    nby = rng.choice([0, 1, 1, 2]) if nby is None else nby
    card = rng.choice([1, 2, 3, 6])
    pinv = rng.choice([0, 0, 0.2]) if inv else 0
    lb, rb, LB, RB = [], [], [], []
    for _ in range(nby):
        kk = rng.choice(["int32", "S", "float64", "int64"])
        k1, b1 = gen_keycol(rng, nl, kk, card, pinv)
        k2, b2 = gen_keycol(rng, nr, kk, card, pinv)
        LB.append(k1), RB.append(k2), lb.append(b1), rb.append(b2)
    z = lambda cols, n: [None if any(x is None for x in t) else t for t in zip(*cols)] if cols else [()] * n
    return dict(nl=nl, nr=nr, kind=kind, lo=lo, ro=ro, lby=z(LB, nl), rby=z(RB, nr), lb=lb, rb=rb, nby=nby)


def build(rt, d, side, on, bynames):
    n = d["n" + side]
    cols = {on: ON[d["kind"]](rt, d[side + "o"])}
    for nm, b in zip(bynames, d[side + "b"]):
        cols[nm] = b(rt)
    v = np.arange(n, dtype=np.int32) + (1000 if side == "l" else 5000)
    cols["v"] = rt.FastArray(v)
    if side == "l":
        cols["lc"] = rt.Cat([f"k{i % 3}" for i in range(n)])
    if side == "r":
        cols["rs"] = rt.FastArray(np.array([f"r{j}" for j in range(n)], dtype="S5"))
        cols["rd"] = rt.Date(np.arange(n, dtype=np.int32) + 18000)
    return rt.Dataset(cols)


def tolerances(rt, kind, rng):
    """(value passed, tolerance on the integer scale of the generator)"""
    t = rng.choice([0, 1, 2, 5])
    if kind in UNITS:
        if rng.random() < 0.5:
            return rt.TimeSpan([float(t * UNITS[kind])])[0], t
        import datetime

        return datetime.timedelta(microseconds=t * UNITS[kind] // 1000), t
    if kind.startswith("float"):
        return t / 2.0, t
    if kind == "int8" or kind == "uint32":
        return t, t
    return t, t


def verify(ctx, rt, fn, name, d, opts, direction, exact, tol, same):
    L = build(rt, d, "l", "t", [f"b{k}" for k in range(d["nby"])])
    R = build(rt, d, "r", "t" if same else "rt_", [f"b{k}" if same else f"c{k}" for k in range(d["nby"])])
    l0 = {k: np.array(v._np) for k, v in L.items()}
    r0 = {k: np.array(v._np) for k, v in R.items()}
    kw = dict(direction=direction, allow_exact_matches=exact, suffixes=("_x", "_y"), **opts)
    if same:
        kw["on"] = "t"
    else:
        kw["left_on"], kw["right_on"] = "t", "rt_"
    if d["nby"]:
        if same:
            kw["by"] = "b0" if d["nby"] == 1 and ctx.rng.random() < 0.5 else [f"b{k}" for k in range(d["nby"])]
        else:
            kw["left_by"], kw["right_by"] = [f"b{k}" for k in range(d["nby"])], [f"c{k}" for k in range(d["nby"])]
    info = f"{name} {kw} {dict((k, d[k]) for k in ('kind', 'lo', 'ro', 'lby', 'rby'))}"
    ctx.at(info)
    okc, out = ctx.call(name, lambda: fn(L, R, **kw), info)
    if not okc:
        return
    exp = rows(d["lo"], d["ro"], d["lby"], d["rby"], direction, exact, tol)
    ctx.eq(name + ":left", out["v_x"], [1000 + i for i in range(d["nl"])], info)
    ctx.eq(name + ":rows", out["v_y"], [INV32 if r is None else 5000 + r for r in exp], info)
    ctx.eq(name + ":str", out["rs"], ["" if r is None else f"r{r}" for r in exp], info)
    rd, rn = out["rd"], None
    if ctx.ok(name + ":datetype", isinstance(rd, rt.Date), info):
        rn = rd.isnan()
        ctx.eq(name + ":date", [None if rn[i] else int(rd._np[i]) for i in range(len(rd))], [None if r is None else 18000 + r for r in exp], info)
    ctx.ok(name + ":leftcat", isinstance(out["lc"], rt.Categorical), info)
    ctx.eq(name + ":leftcat", out["lc"].expand_array, [f"k{i % 3}" for i in range(d["nl"])], info)
    ctx.ok(name + ":nrows", out.shape[0] == d["nl"], info)
    ctx.eq(name + ":key", out["t"]._np, l0["t"], info)
    ctx.ok(name + ":keytype", type(out["t"]) is type(L["t"]), lambda: f"{info}\n key column type {type(out['t'])}")
    mo = opts.get("matched_on")
    if mo:
        c = out["matched_on" if mo is True else mo]
        rk = r0["t" if same else "rt_"]
        for i, r in enumerate(exp):
            if r is not None and not ctx.ok(name + ":matched_on", c._np[i] == rk[r], lambda: f"{info}\n row {i}"):
                break
            if r is None and not ctx.ok(name + ":matched_on-invalid", bool(c.isnan()[i]) if hasattr(c, "isnan") else True, lambda: f"{info}\n row {i}"):
                break
    ctx.ok(name + ":left-writeable", all(L[k].flags.writeable for k in l0), info)
    for k, v in l0.items():
        ctx.ok(name + ":left-unchanged", np.array_equal(L[k]._np, v, equal_nan=v.dtype.kind == "f"), info)
    for k, v in r0.items():
        ctx.ok(name + ":right-unchanged", np.array_equal(R[k]._np, v, equal_nan=v.dtype.kind == "f"), info)
    if opts.get("copy", True) is not False:
        ctx.ok(name + ":copied", not np.shares_memory(out["v_x"]._np, L["v"]._np), info)


def sweep(ctx, kinds, nby, n):
    import riptable as rt
    from riptable.rt_merge_asof import merge_asof2

    rng = ctx.rng
    for it in range(ctx.scale(n, n * 12)):
        if not ctx.more():
            break
        d = gen(ctx, kinds, True, nby)
        direction = DIRS[it % 3]
        exact = rng.random() < 0.6
        opts, tol = {}, None
        if rng.random() < 0.5:
            t, tol = tolerances(rt, d["kind"], rng)
            opts["tolerance"] = t
        if rng.random() < 0.4 and d["nr"]:
            opts["matched_on"] = rng.choice([True, "mm"])
        if rng.random() < 0.2:
            opts["copy"] = False
        verify(ctx, rt, merge_asof2, "merge_asof2", d, opts, direction, exact, tol, rng.random() < 0.6)


INTS = ["int32", "int64", "int16", "int8"]


@section("ungrouped-int", bound="1-60 left rows, 0-60 right rows, sorted integer keys with ties, all directions/tolerances/options")
def s1(ctx):
    sweep(ctx, INTS, 0, 300)


@section("ungrouped-other", bound="float, unsigned and DateTimeNano keys, otherwise as above")
def s2(ctx):
    sweep(ctx, ["float64", "float32", *UNITS, "uint32"], 0, 260)


@section("grouped-int", bound="one or two by columns (int/str/float, invalids), 1-6 groups")
def s3(ctx):
    sweep(ctx, INTS, 1, 200)


@section("grouped-other", bound="as above with float/DateTimeNano keys and 1-2 by columns")
def s4(ctx):
    sweep(ctx, ["float64", *UNITS, "int64", "uint32"], None, 200)


@section("grouped-two", bound="two by columns")
def s5(ctx):
    sweep(ctx, INTS + ["float64"], 2, 200)


@section("merge_asof", bound="legacy merge_asof over alignmk: sorted and unsorted keys (action_on_unsorted='sort'), no tolerance")
def s6(ctx):
    import riptable as rt

    rng = ctx.rng
    for it in range(ctx.scale(260, 3000)):
        if not ctx.more():
            break
        d = gen(ctx, ["int32", "int64", "float64", *UNITS], True, rng.choice([0, 1, 1, 2]), False)
        opts = {}
        if rng.random() < 0.3 and d["nr"]:
            opts["matched_on"] = True
        verify(ctx, rt, rt.merge_asof, "merge_asof", d, opts, DIRS[it % 3], rng.random() < 0.6, None, rng.random() < 0.6)


@section("unsorted", bound="merge_asof2 raises on a key column out of order at a position it has to compare; merge_asof(action_on_unsorted='raise') raises")
def s7(ctx):
    import riptable as rt
    from riptable.rt_merge_asof import merge_asof2

    rng = ctx.rng
    for it in range(ctx.scale(120, 1200)):
        if not ctx.more():
            break
        n = rng.choice([2, 3, 5, 9])
        a = sorted(rng.sample(range(100), n))
        bad = list(a)
        k = rng.randrange(n - 1)
        bad[k], bad[k + 1] = bad[k + 1], bad[k]
        for side in "lr":
            l, r = (bad, a) if side == "l" else (a, bad)
            L, R = rt.Dataset({"t": np.array(l)}), rt.Dataset({"t": np.array(r), "v": np.arange(n)})
            info = f"{side} {l} {r}"
            ctx.raises("merge_asof:raise", lambda: rt.merge_asof(L, R, on="t", action_on_unsorted="raise"), info, ValueError)
            okc, out = ctx.call("merge_asof:sort", lambda: rt.merge_asof(L, R, on="t"), info)
            if okc:
                e = []
                for x in l:
                    c = [j for j in range(n) if r[j] <= x]
                    e.append(max(c, key=lambda j: r[j]) if c else int(np.iinfo(np.int64).min))
                ctx.eq("merge_asof:sort", out["v"], e, info)
            if side == "l" and True:
                # every left row is visited by the merge
                big = rt.Dataset({"t": np.array([200]), "v": np.array([1])})
                ctx.raises("merge_asof2:left-unsorted", lambda: merge_asof2(L, rt.Dataset({"t": np.array([-5, 200]), "v": np.arange(2)}), on="t"), info, ValueError)
                ctx.raises("merge_asof2:left-unsorted-fwd", lambda: merge_asof2(L, rt.Dataset({"t": np.array([-5, 200]), "v": np.arange(2)}), on="t", direction="forward"), info, ValueError)
            else:
                big = rt.Dataset({"t": np.array([1000])})
                # backward: the scan stops at the first right row not below the needle
                ctx.raises("merge_asof2:right-unsorted", lambda: merge_asof2(big, R, on="t"), info, ValueError)
                ctx.raises("merge_asof2:right-unsorted-fwd", lambda: merge_asof2(rt.Dataset({"t": np.array([-9])}), R, on="t", direction="forward"), info, ValueError)
        ctx.raises("negative tolerance", lambda: merge_asof2(L, L, on="t", tolerance=-1), "", ValueError)
        ctx.raises("bad direction", lambda: merge_asof2(L, L, on="t", direction="sideways"), "", ValueError)
