"""C05: a grouping is a partition of the rows by key equality (Grouping, GroupBy and Categorical front ends)."""
import math
import numpy as np
from bounded.common import section, nv

KINDS = ["i8", "i32", "i64", "u16", "f64", "f32", "S", "U", "bool", "dtn", "date", "cat", "hi64"]


def make_key(rt, rng, kind, n, card):
    """returns (array, list of hashable key values)"""
    if kind in ("i8", "i32", "i64", "u16"):
        dt = {"i8": np.int8, "i32": np.int32, "i64": np.int64, "u16": np.uint16}[kind]
        ii = np.iinfo(dt)
        pool = [0, 1, 2, 3, 5, 8, 100, ii.max, ii.max - 1, ii.min, ii.min + 1][: card + 3]
        rng.shuffle(pool)
        v = [rng.choice(pool[:card]) for _ in range(n)]
        return rt.FastArray(np.array(v, dtype=dt)), v
    if kind == "hi64":
        v = [rng.choice([2**53, 2**53 + 1, 2**62, 2**62 + 1, -(2**53) - 1][:card]) for _ in range(n)]
        return rt.FastArray(np.array(v, dtype=np.int64)), v
    if kind in ("f64", "f32"):
        pool = [1.5, -2.0, 0.5, float("inf"), float("nan"), 7.0, float("-inf")]
        rng.shuffle(pool)
        v = [rng.choice(pool[:card]) for _ in range(n)]
        return rt.FastArray(np.array(v, dtype=np.float64 if kind == "f64" else np.float32)), [nv(x) if x == x else "NaN" for x in v]
    if kind in ("S", "U"):
        pool = ["", "a", "ab", "b", "abc", "ba", "a b", "zz"]
        if kind == "U":
            pool += ["\u00e9", "\u4e2d"]
        rng.shuffle(pool)
        v = [rng.choice(pool[:card]) for _ in range(n)]
        a = np.array(v, dtype="U4" if kind == "U" else "S4")
        return rt.FastArray(a, unicode=True) if kind == "U" else rt.FastArray(a), v
    if kind == "bool":
        v = [rng.random() < 0.5 for _ in range(n)]
        return rt.FastArray(np.array(v, dtype=bool)), v
    if kind == "dtn":
        b = 1600000000 * 10**9
        v = [b + rng.randrange(card) for _ in range(n)]
        return rt.DateTimeNano(np.array(v, dtype=np.int64), from_tz="GMT", to_tz="GMT"), v
    if kind == "date":
        v = [18000 + rng.randrange(card) for _ in range(n)]
        return rt.Date(np.array(v, dtype=np.int32)), v
    if kind == "cat":
        v = [rng.choice(["q", "p", "r", "s"][:card]) for _ in range(n)]
        return (rt.Cat(v) if n else rt.Cat(rt.FastArray(np.array([], dtype="S1")))), v
    raise AssertionError(kind)


def sortkey(x):
    if x == "NaN":
        return (1, 0)
    if isinstance(x, str):
        return (0, x)
    return (0, x)


def spec(keys, flt, lex):
    """keys: list of tuples; returns ikey list and ordered unique tuples"""
    uniq = []
    seen = {}
    for i, k in enumerate(keys):
        if flt is not None and not flt[i]:
            continue
        if k not in seen:
            seen[k] = len(uniq)
            uniq.append(k)
    if lex:
        uniq = sorted(uniq, key=lambda t: tuple(sortkey(x) for x in t))
    pos = {k: j + 1 for j, k in enumerate(uniq)}
    ikey = [0 if flt is not None and not flt[i] else pos[k] for i, k in enumerate(keys)]
    return ikey, uniq


def is_bad(x):
    return x < 0


def uniq_rows(ud):
    cols = []
    for a in ud:
        cols.append(values_of(a))
    return [tuple(c[j] for c in cols) for j in range(len(cols[0]))] if cols else []


def values_of(a):
    import riptable as rt

    if isinstance(a, rt.Categorical):
        a = a.expand_array
    a = np.asarray(getattr(a, "_np", a))
    return [nv(x) for x in a]


def check_partition(ctx, tag, g, ikey, uniq, info, full=True, used=True):
    """every observable array of the Grouping g against (ikey, uniq)"""
    n, K = len(ikey), len(uniq)
    ok = ctx.eq(tag + ":ikey", g.ikey, ikey, info)
    ctx.eq(tag + ":unique_count", g.unique_count, K, info)
    ctx.eq(tag + ":uniques", uniq_rows(g.uniquelist), uniq, info)
    if not ok or not full:
        return ok
    rows = [[i for i in range(n) if ikey[i] == k] for k in range(K + 1)]
    ig = [int(x) for x in g.igroup]
    fg = [int(x) for x in g.ifirstgroup]
    nc = [int(x) for x in g.ncountgroup]
    ctx.eq(tag + ":ncountgroup", nc, [len(r) for r in rows], info)
    ctx.eq(tag + ":ncountkey", g.ncountkey, [len(r) for r in rows[1:]], info)
    ctx.eq(tag + ":igroup is a permutation", sorted(ig), list(range(n)), info)
    for k in range(K + 1):
        if rows[k]:
            ctx.eq(tag + ":group rows", ig[fg[k] : fg[k] + nc[k]], rows[k], info)
            if k:
                ctx.eq(tag + ":as_filter", g.as_filter(k), rows[k], info)
    inv = [0] * n
    for p, i in enumerate(ig):
        inv[i] = p
    ctx.eq(tag + ":igroupreverse", g.igroupreverse, inv, info)
    fk, lk = [int(x) for x in g.ifirstkey], [int(x) for x in g.ilastkey]
    ctx.eq(tag + ":len ifirstkey", [len(fk), len(lk)], [K, K], info)
    for k in range(1, K + 1):
        if rows[k]:
            ctx.eq(tag + ":ifirstkey", fk[k - 1], rows[k][0], info)
            ctx.eq(tag + ":ilastkey", lk[k - 1], rows[k][-1], info)
        else:
            ctx.ok(tag + ":ifirstkey of an empty group is invalid", is_bad(fk[k - 1]) and is_bad(lk[k - 1]), lambda: f"{info} {fk} {lk}")
    nx, pv = [int(x) for x in g.inextkey], [int(x) for x in g.iprevkey]
    ctx.eq(tag + ":len inextkey", [len(nx), len(pv)], [n, n], info)
    for k in range(1, K + 1):
        r = rows[k]
        for j, i in enumerate(r):
            if j + 1 < len(r):
                ctx.eq(tag + ":inextkey", nx[i], r[j + 1], info)
            else:
                ctx.ok(tag + ":inextkey end", is_bad(nx[i]), lambda: f"{info} {nx}")
            if j:
                ctx.eq(tag + ":iprevkey", pv[i], r[j - 1], info)
            else:
                ctx.ok(tag + ":iprevkey end", is_bad(pv[i]), lambda: f"{info} {pv}")
    return ok


def inputs(ctx, rt, kinds=KINDS, nmin=1, multi=True):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 5, 8, 13, 21, 40])
    if rng.random() < 0.04:
        n = rng.choice([1000, 5000])
    if rng.random() < 0.02 and nmin == 0:
        n = 0
    nk = rng.choice([1, 1, 1, 2, 2, 3]) if multi else 1
    d, cols = {}, []
    for j in range(nk):
        kind = rng.choice(kinds)
        a, v = make_key(rt, rng, kind, n, rng.choice([1, 2, 3, 5]))
        d["k%d" % j] = a
        cols.append(v)
    keys = list(zip(*cols)) if n else []
    p = rng.choice([None, None, 0.5, 0.8, 0.2, 0.0, 1.0])
    flt = None if p is None else [rng.random() < p for _ in range(n)]
    return d, keys, flt, n


def npf(flt):
    return None if flt is None else np.array(flt, dtype=bool)


@section("grouping", bound="1-3 key columns, n<=40 (sometimes 5000), card<=5 per column, all key dtypes, with and without filter, hash and lex")
def s_grouping(ctx):
    import riptable as rt

    it = 0
    while ctx.more() and it < ctx.scale(1500, 30000):
        it += 1
        d, keys, flt, n = inputs(ctx, rt, [k for k in KINDS if k != "cat"])
        lex = ctx.rng.random() < 0.4
        info = dict(keys=keys[:60], flt=flt and flt[:60], lex=lex, kinds=[str(v.dtype) for v in d.values()])
        ikey, uniq = spec(keys, flt, lex)
        ctx.at(info)
        okc, g = ctx.call("Grouping", lambda: rt.Grouping(dict(d), filter=npf(flt), lex=lex), info)
        if not okc:
            continue
        okc, _ = ctx.call("partition", lambda: check_partition(ctx, "Grouping" + ("-lex" if lex else ""), g, ikey, uniq, info), info)
        # derived groupings
        if n and okc:
            c = g.copy()
            check_partition(ctx, "copy", c, ikey, uniq, info)
            check_partition(ctx, "copy-orig", g, ikey, uniq, info, full=False)


def cat_inputs(ctx, rt, wide=False):
    """a Categorical with a known value per row (None = filtered)"""
    rng = ctx.rng
    mode = rng.choice(["values", "values", "values", "multi", "ints", "codes", "base0", "lex", "unordered"])
    if wide or rng.random() < 0.01:  # enough categories to cross the int8 index width when stacked, few filtered rows
        n = rng.randrange(50, 140)
        v = [f"{rng.choice('kmq')}{rng.randrange(0, 200):03d}" for _ in range(n)]
        bad = set(rng.sample(range(n), rng.choice([0, 1, 1, 2, 5])))
        flt = [i not in bad for i in range(n)]
        c = rt.Categorical(v, filter=npf(flt if bad else None))
        ik, u = spec([(x,) for x in v], flt, True)
        return c, ik, u, dict(mode="values", ikey=ik, uniq=u)
    n = rng.choice([1, 2, 3, 5, 8, 13, 21])
    p = rng.choice([None, None, 0.5, 0.8])
    flt = None if p is None else [rng.random() < p for _ in range(n)]
    pool = ["b", "a", "c", "dd", "", "ab"]
    rng.shuffle(pool)
    card = rng.choice([1, 2, 3, 5])
    if mode in ("values", "lex", "unordered"):
        v = [rng.choice(pool[:card]) for _ in range(n)]
        kw = {"lex": True} if mode == "lex" else {"ordered": False} if mode == "unordered" else {}
        c = rt.Categorical(v, filter=npf(flt), **kw)
        ik, u = spec([(x,) for x in v], flt, mode != "unordered")
    elif mode == "base0":
        flt = None
        v = [rng.choice(pool[:card]) for _ in range(n)]
        c = rt.Categorical(v, base_index=0)
        ik, u = spec([(x,) for x in v], None, True)
    elif mode == "ints":
        v = [rng.choice([5, 3, 9, -1][:card]) for _ in range(n)]
        c = rt.Categorical(np.array(v), filter=npf(flt))
        ik, u = spec([(x,) for x in v], flt, True)
    elif mode == "multi":
        v = [(rng.choice(["x", "w", "y"][:card]), rng.choice([2, 1, 3][:card])) for _ in range(n)]
        c = rt.Categorical([rt.FastArray([a for a, _ in v]), rt.FastArray([b for _, b in v])], filter=npf(flt))
        ik, u = spec(v, flt, None)
    else:  # codes with unused categories and filtered rows
        flt = None
        u = [(x,) for x in pool[: card + 1]]
        ik = [rng.randrange(0, len(u) + 1) for _ in range(n)]
        c = rt.Categorical(np.array(ik, dtype=rng.choice([np.int8, np.int16, np.int32])), np.array([x[0] for x in u], dtype="S3"))
        mode = "codes"
    return c, ik, u, dict(mode=mode, ikey=ik, uniq=u)


@section("derived", bound="Categorical groupings over <=21 rows; row selection, regroup, shrink, hstack, copy")
def s_derived(ctx):
    import riptable as rt

    it = 0
    rng = ctx.rng
    while ctx.more() and it < ctx.scale(1500, 30000):
        it += 1
        c, ik, u, info = cat_inputs(ctx, rt)
        n = len(ik)
        ctx.at(info)
        g = c.grouping
        okc, _ = ctx.call("cat", lambda: check_partition(ctx, "cat-" + info["mode"], g, ik, u, info), info)
        if not okc:
            continue
        # row selection: same categories, the selected rows' keys (also of an already selected, perhaps strided, one)
        cg, cc, cik = g, c, ik
        for step in range(rng.choice([1, 1, 2, 3])):
            m1 = len(cik)
            how = rng.choice(["slice", "slice", "bool", "fancy", "neg", "list"])
            if how == "slice":
                sl = slice(rng.choice([None, rng.randrange(0, m1)]), rng.choice([None, rng.randrange(0, m1 + 1)]), rng.choice([1, 2, 3, -1, -2]))
                if len(range(m1)[sl]) == 0:
                    sl = slice(None, None, rng.choice([1, 2, -1]))
                sub, fld = cik[sl], sl
            elif how == "bool":
                m = [rng.random() < 0.6 for _ in range(m1)]
                if not any(m):
                    m[0] = True
                sub, fld = [x for x, b in zip(cik, m) if b], np.array(m)
            elif how == "list":
                fx = [rng.randrange(m1) for _ in range(rng.randrange(1, m1 + 2))]
                sub, fld = [cik[x] for x in fx], fx
            else:
                fx = [rng.randrange(-m1 if how == "neg" else 0, m1) for _ in range(rng.randrange(1, m1 + 2))]
                sub, fld = [cik[x] for x in fx], np.array(fx)
            i2 = dict(info, how=how, fld=str(fld), of=cik, step=step)
            okc, g2 = ctx.call("select", lambda: cg[fld], i2)
            okd, c2 = ctx.call("cat-select", lambda: cc[fld], i2)
            if not (okc and okd):
                break
            ctx.call("select-check", lambda: check_partition(ctx, "select", g2, sub, u, i2), i2)
            ctx.call("select-orig", lambda: check_partition(ctx, "select-orig", cg, cik, u, i2), i2)
            ctx.call("cat-select-check", lambda: check_partition(ctx, "cat-select", c2.grouping, sub, u, i2), i2)
            cg, cc, cik = g2, c2, sub
        if rng.random() < 0.5:
            g, c, ik = cg, cc, cik
            info = dict(info, ikey=ik, selected=True)
            n = len(ik)
        # regroup: unused categories leave, order kept, same key per row
        if info["mode"] != "base0":
            fl = rng.choice([None, None, 1])
            m = None if fl is None else [rng.random() < 0.6 for _ in range(n)]
            rk = [x if m is None or m[j] else 0 for j, x in enumerate(ik)]
            keep = [k for k in range(1, len(u) + 1) if k in rk]
            ren = {k: j + 1 for j, k in enumerate(keep)}
            ren[0] = 0
            i3 = dict(info, filter=m)
            okc, g3 = ctx.call("regroup", lambda: g.regroup(filter=None if m is None else np.array(m)), i3)
            if okc:
                ctx.call("regroup-check", lambda: check_partition(ctx, "regroup", g3, [ren[x] for x in rk], [u[k - 1] for k in keep], i3), i3)
        # shrink
        if info["mode"] in ("values", "lex", "unordered", "codes"):
            allc = [x[0] for x in u] + ["new1", "new2"]
            rng.shuffle(allc)
            nc = allc[: rng.randrange(1, len(allc) + 1)]
            misc = rng.choice([None, "MISC"])
            i4 = dict(info, newcats=nc, misc=misc)
            okc, g4 = ctx.call("shrink", lambda: g.shrink(nc, misc=misc), i4)
            if okc:
                exp = []
                for x in ik:
                    if x == 0:
                        exp.append(0)
                    elif u[x - 1][0] in nc:
                        exp.append(nc.index(u[x - 1][0]) + 1)
                    else:
                        exp.append(0 if misc is None else len(nc) + 1)
                ctx.call("shrink-check", lambda: check_partition(ctx, "shrink", g4, exp, [(x,) for x in nc] + ([("MISC",)] if misc else []), i4), i4)
        # isin / ismember
        vals = [x[0] for x in u] + ["nope"]
        if info["mode"] in ("values", "lex", "unordered", "base0", "codes"):
            pick = rng.sample(vals, rng.randrange(1, len(vals) + 1))
            exp = [x > 0 and u[x - 1][0] in pick for x in ik]
            okc, r = ctx.call("isin", lambda: g.isin(pick), dict(info, pick=pick))
            if okc:
                ctx.eq("isin", r, exp, dict(info, pick=pick))
            okc, r = ctx.call("cat.isin", lambda: c.isin(pick), dict(info, pick=pick))
            if okc:
                ctx.eq("cat.isin", r, exp, dict(info, pick=pick))


@section("hstack", bound="1-4 Categoricals of the same kind, <=21 rows each (sometimes 50-140 distinct keys)")
def s_hstack(ctx):
    import riptable as rt

    it = 0
    rng = ctx.rng
    while ctx.more() and it < ctx.scale(800, 20000):
        it += 1
        mode = rng.choice(["values", "ints", "multi", "base0"])
        wide = rng.random() < 0.06
        if wide:
            mode = "values"
        lst = []
        tries = 0
        while len(lst) < rng.choice([1, 2, 3, 4]) and tries < 60:
            tries += 1
            x = cat_inputs(ctx, rt, wide and rng.random() < 0.8)
            if x[3]["mode"] in ("values", "unordered", "lex") and mode == "values" or x[3]["mode"] == mode:
                lst.append(x)
        if not lst:
            continue
        info = [x[3] for x in lst]
        exp = [None if k == 0 else u[k - 1] for _, ik, u, _ in lst for k in ik]
        ctx.at(info)
        for nm, f in (
            ("hstack", lambda: rt.hstack([x[0] for x in lst]).grouping),
            ("Categorical.hstack", lambda: rt.Categorical.hstack([x[0] for x in lst]).grouping),
        ):
            okc, g = ctx.call(nm, f, info)
            if not okc:
                continue
            u = uniq_rows(g.uniquelist)
            ik = [int(x) for x in g.ikey]
            ctx.eq(nm + ":keys", [None if k == 0 else u[k - 1] for k in ik], exp, info)
            ctx.eq(nm + ":distinct", len(set(u)), len(u), info)
            ctx.eq(nm + ":union", sorted(map(str, u)), sorted({str(x) for _, _, uu, _ in lst for x in uu}), info)
            ctx.call(nm + ":partition", lambda: check_partition(ctx, nm, g, ik, u, info), info)
        for c, ik, u, i1 in lst:
            ctx.eq("hstack leaves its inputs", c.grouping.ikey, ik, i1)


@section("groups", bound="groups, iter_groups, key_from_bin, first/last_fancy/bool, get_groupings, take/extract_groups; n<=40")
def s_groups(ctx):
    import riptable as rt

    it = 0
    rng = ctx.rng
    while ctx.more() and it < ctx.scale(800, 20000):
        it += 1
        d, keys, flt, n = inputs(ctx, rt, ["i32", "S", "U", "f64", "i64"])
        if n > 100:
            continue
        which = rng.choice(["cat", "gb", "gbu"])
        ds = rt.Dataset(dict(d))
        ds["v"] = rt.arange(n)
        info = dict(keys=keys, flt=flt, which=which)
        ctx.at(info)
        names = list(d)
        if which == "cat":
            okc, c = ctx.call("cat", lambda: rt.Categorical(list(d.values()) if len(d) > 1 else d["k0"], filter=npf(flt)), info)
            lex = len(d) == 1
        elif which == "gb":
            okc, c = ctx.call("gb", lambda: ds.gb(names, filter=npf(flt)), info)
            lex = False
        else:
            okc, c = ctx.call("gbu", lambda: ds.gbu(names, filter=npf(flt)), info)
            lex = False
        if not okc:
            continue
        g = c.grouping
        # order of the categories is an implementation choice here (tested in section grouping)
        u = uniq_rows(g.uniquelist)
        ik0, uu = spec(keys, flt, False)
        ctx.eq("uniques as a set", sorted(map(str, u)), sorted(map(str, uu)), info)
        if sorted(map(str, u)) != sorted(map(str, uu)):
            continue
        ik = [0 if x == 0 else u.index(uu[x - 1]) + 1 for x in ik0]
        okc, _ = ctx.call("partition", lambda: check_partition(ctx, which, g, ik, u, info), info)
        if not okc or not u:
            continue
        rows = [[i for i in range(n) if ik[i] == k] for k in range(len(u) + 1)]
        ctx.eq("groups", [[int(z) for z in x] for x in c.groups.values()], rows[1:], info) if not any("NaN" in x for x in u) else None
        it2 = list(c.iter_groups())
        ctx.eq("iter_groups rows", [list(map(int, x)) for _, x in it2], rows[1:], info)
        ctx.eq("iter_groups keys", [x if isinstance(x, tuple) else (x,) for x, _ in it2], u, info)
        ctx.eq("key_from_bin", [x if isinstance(x, tuple) else (x,) for x in (c.key_from_bin(j) for j in range(len(u)))], u, info)
        ctx.eq("first_fancy", c.first_fancy, [r[0] for r in rows[1:]], info)
        ctx.eq("last_fancy", c.last_fancy, [r[-1] for r in rows[1:]], info)
        ctx.eq("first_bool", c.first_bool, [ik[i] > 0 and rows[ik[i]][0] == i for i in range(n)], info)
        ctx.eq("last_bool", c.last_bool, [ik[i] > 0 and rows[ik[i]][-1] == i for i in range(n)], info)
        # take / extract groups over data packed by group
        data = rt.arange(n)[g.igroup]
        idx = [rng.randrange(0, len(u) + 1) for _ in range(rng.randrange(0, 5))]
        slow = it % 12 == 1  # these compile on every call
        r = rt.Grouping.take_groups(data, rt.FastArray(np.array(idx, dtype=np.int32)), g.ncountgroup, g.ifirstgroup) if idx and slow else None
        if r is not None:
            ctx.eq("take_groups", r, [x for k in idx for x in rows[k]], dict(info, idx=idx))
        m = [rng.random() < 0.5 for _ in range(len(u) + 1)]
        r = rt.Grouping.extract_groups(rt.FastArray(np.array(m)), data, g.ncountgroup, g.ifirstgroup) if slow else None
        if slow:
            ctx.eq("extract_groups", r, [x for k in range(len(u) + 1) if m[k] for x in rows[k]], dict(info, m=m))
        # a further filter on the packing
        f2 = [rng.random() < 0.6 for _ in range(n)]
        gg = c.get_groupings(filter=np.array(f2))
        rows2 = [[i for i in range(n) if (ik[i] if f2[i] else 0) == k] for k in range(len(u) + 1)]
        ig, fg, nc = ([int(x) for x in gg[k]] for k in ("iGroup", "iFirstGroup", "nCountGroup"))
        ctx.eq("get_groupings(filter)", [ig[fg[k] : fg[k] + nc[k]] for k in range(len(u) + 1) if rows2[k]], [r for r in rows2 if r], dict(info, f2=f2))
        ctx.eq("get_groupings(filter) counts", nc, [len(r) for r in rows2], dict(info, f2=f2))
        gg = c.get_groupings()
        ig, fg, nc = ([int(x) for x in gg[k]] for k in ("iGroup", "iFirstGroup", "nCountGroup"))
        ctx.eq("get_groupings() after a filtered one", [ig[fg[k] : fg[k] + nc[k]] for k in range(len(u) + 1) if rows[k]], [r for r in rows if r], dict(info, f2=f2))
        # the dataset pieces of a GroupBy
        if which != "cat":
            exp = [(u[k - 1], rows[k]) for k in range(1, len(u) + 1)]
            got = [(x if isinstance(x, tuple) else (x,), [int(z) for z in dd["v"]]) for x, dd in ((k, dd) for k, dd in c)]
            ctx.eq("iterate GroupBy", [list(map(list, [k, r])) for k, r in got], [list(map(list, [k, r])) for k, r in exp], info)


@section("high_card", bound="up to 70000 distinct keys (crossing the int8/int16 index widths), single and double keys")
def s_high(ctx):
    import riptable as rt

    rng = ctx.rng
    for K in [126, 127, 128, 255, 256, 32766, 32767, 32768, 40000, 65536, 70000][:: 1]:
        for lex in (False, True):
            for two in (False, True):
                if not ctx.more():
                    return
                n = K + rng.choice([0, 1, 17])
                base = ctx.np_rng.permutation(K)
                v = np.concatenate([base, base[: n - K]])
                f = np.ones(n, dtype=bool)
                if rng.random() < 0.5:
                    f[rng.randrange(n)] = False
                ctx.at((K, lex, two))
                d = {"a": rt.FastArray(v.astype(np.int64))} if not two else {"a": rt.FastArray((v // 300).astype(np.int32)), "b": rt.FastArray((v % 300).astype(np.int16))}
                g = rt.Grouping(d, filter=f, lex=lex)
                ik = np.asarray(g.ikey).astype(np.int64)
                u = np.asarray(g.uniquelist[0]).astype(np.int64)
                if two:
                    u = u * 300 + np.asarray(g.uniquelist[1]).astype(np.int64)
                info = (K, n, lex, two)
                ctx.ok("bins filtered", bool(((ik == 0) == ~f).all()), info)
                ctx.ok("bins keys", bool((u[ik[f] - 1] == v[f]).all()), info)
                ctx.ok("distinct", len(set(u.tolist())) == len(u) == g.unique_count, info)
                if lex:
                    ctx.ok("sorted", bool((np.diff(u) > 0).all()), info)
                else:
                    _, first = np.unique(v[f], return_index=True)
                    ctx.ok("first appearance", bool((v[f][np.sort(first)] == u).all()), info)
                ig, fg, nc = (np.asarray(x).astype(np.int64) for x in (g.igroup, g.ifirstgroup, g.ncountgroup))
                ctx.ok("counts", bool((nc == np.bincount(ik, minlength=len(u) + 1)).all()), info)
                ctx.ok("perm", bool((np.sort(ig) == np.arange(n)).all()), info)
                nz = np.flatnonzero(nc)
                order = nz[np.argsort(fg[nz], kind="stable")]
                rep = np.repeat(order, nc[order])
                ctx.ok("packed", bool((ik[ig] == rep).all()), info)
                ctx.ok("first", bool((ik[np.asarray(g.ifirstkey).astype(np.int64)] == np.arange(1, len(u) + 1)).all()), info)
                ctx.ok("last", bool((ik[np.asarray(g.ilastkey).astype(np.int64)] == np.arange(1, len(u) + 1)).all()), info)
