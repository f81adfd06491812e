"""C07 bounded: a Categorical behaves as the array of values it stands for."""
import operator
import numpy as np
from .common import section, nv, norm

OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
NONE = object()


def npf(f):
    return None if f is None else np.array(f, dtype=bool)


def uniq_first(v):
    out = []
    for x in v:
        if x not in out:
            out.append(x)
    return out


def arr_of(rt, v, kind, rng):
    if kind == "bytes":
        return rt.FastArray(np.array(v, dtype="S"))
    if kind == "unicode":
        return rt.FastArray(np.array(v, dtype="U"), unicode=True)
    if kind == "list":
        return list(v)
    if kind == "int":
        return rt.FastArray(np.array(v, dtype=rng.choice([np.int8, np.int16, np.int32, np.int64])))
    if kind == "uint":
        return rt.FastArray(np.array(v, dtype=rng.choice([np.uint8, np.uint16, np.uint32, np.uint64])))
    if kind == "float":
        return rt.FastArray(np.array(v, dtype=rng.choice([np.float32, np.float64])))
    if kind == "date":
        return rt.Date(np.array(v, dtype=np.int32))
    raise ValueError(kind)


POOLS = {
    "bytes": ["b", "a", "c", "dd", "ab", "abc", "B", "zz"],
    "unicode": ["b", "a", "\u00e9", "dd", "ab", "abc", "\u4e00", "zz"],
    "list": ["b", "a", "c", "dd", "ab", "abc", "B", "zz"],
    "int": [5, 3, 9, -1, 0, 100, 7, -50],
    "uint": [5, 3, 9, 1, 0, 100, 7, 50],
    "float": [5.5, 3.0, 9.25, -1.0, 0.0, 100.0, 7.5, -0.5],
    "date": [5, 3, 900, 1, 20000, 100, 7, 50],
}
ABSENT = {"bytes": ["q", "", "aa", "A", "zzz"], "unicode": ["q", "aa", "\u00ea", "zzz"], "list": ["q", "aa", "zzz"], "int": [4, -100, 120, 8], "uint": [4, 2, 120, 8], "float": [4.5, -100.0, 120.0, 8.0], "date": [4, 2, 120, 8]}


class M:
    """the model: val[i] is the value of row i (NONE when filtered), cats the category list in bin order"""


def is_str(kind):
    return kind in ("bytes", "unicode", "list")


def make(ctx, rt, kinds=("bytes", "unicode", "list", "int", "uint", "float"), modes=("values", "values", "unordered", "base0", "base0u", "codes", "codes0", "valcats", "lex"), n=None):
    rng = ctx.rng
    m = M()
    m.kind = kind = rng.choice(kinds)
    m.mode = mode = rng.choice(modes)
    m.n = n = n or rng.choice([1, 2, 3, 5, 8, 13, 21])
    pool = list(POOLS[kind])
    rng.shuffle(pool)
    card = rng.choice([1, 2, 3, 4, 6])
    m.base = 0 if mode in ("base0", "base0u", "codes0") else 1
    flt = None
    if m.base == 1 and mode != "codes" and rng.random() < 0.5:
        p = rng.choice([0.5, 0.8])
        flt = [rng.random() < p for _ in range(n)]
    if mode in ("codes", "codes0", "valcats"):
        m.cats = pool[:card]
        cats = arr_of(rt, m.cats, "bytes" if kind == "list" else kind, rng)
        if mode == "codes0":
            ik = [rng.randrange(0, card) for _ in range(n)]
            m.cat = rt.Categorical(np.array(ik, dtype=np.int32), cats, base_index=0)
            m.val = [m.cats[i] for i in ik]
        elif mode == "codes" or not is_str(kind) and kind != "float":
            m.mode = "codes"
            ik = [rng.randrange(0, card + 1) for _ in range(n)]
            m.cat = rt.Categorical(np.array(ik, dtype=rng.choice([np.int8, np.int16, np.int32, np.int64])), cats)
            m.val = [m.cats[i - 1] if i else NONE for i in ik]
            flt = None
        else:
            v = [rng.choice(m.cats) for _ in range(n)]
            m.cat = rt.Categorical(arr_of(rt, v, kind, rng), cats, filter=npf(flt))
            m.val = [x if flt is None or flt[i] else NONE for i, x in enumerate(v)]
        m.sorted = False
    else:
        v = [rng.choice(pool[:card]) for _ in range(n)]
        m.sorted = mode not in ("unordered", "base0u")
        kw = {}
        if mode == "lex":
            kw["lex"] = True
        if not m.sorted:
            kw["ordered"] = False
        if m.base == 0:
            kw["base_index"] = 0
        else:
            kw["filter"] = npf(flt)
        m.cat = rt.Categorical(arr_of(rt, v, kind, rng), **kw)
        m.val = [x if flt is None or flt[i] else NONE for i, x in enumerate(v)]
        seen = uniq_first([x for x in m.val if x is not NONE])
        m.cats = sorted(seen, key=lambda s: s.encode() if kind in ("bytes", "list") else s) if m.sorted else seen
    return m


def info_of(m, **kw):
    return dict(kind=m.kind, mode=m.mode, base=m.base, val=[None if x is NONE else x for x in m.val], cats=m.cats, **kw)


def filtered_value(c, kind):
    """what expand_array shows for a filtered row"""
    if is_str(kind):
        return nv(c.filtered_name)
    a = np.asarray(c.category_array._np)
    if a.dtype.kind == "f":
        return "NaN"
    if a.dtype.kind == "u":
        return int(np.iinfo(a.dtype).max)
    return int(np.iinfo(a.dtype).min)


def expanded(c, m):
    f = filtered_value(c, m.kind) if any(x is NONE for x in m.val) else None
    return [f if x is NONE else nv(x) for x in m.val]


def same(ctx, tag, c, val, kind, info, cats=None):
    """c stands for val"""
    mm = M()
    mm.val, mm.kind = val, kind
    ctx.evals += 1
    got = norm(c.expand_array)
    exp = expanded(c, mm)
    if got != exp:
        ctx.fail(tag + ":expand", f"{tag} expand_array\n input: {info}\n expected {exp}\n got {got}")
        return False
    isf = norm(c.isfiltered())
    if isf != [x is NONE for x in val]:
        ctx.fail(tag + ":isfiltered", f"{tag} isfiltered\n input: {info}\n expected {[x is NONE for x in val]}\n got {isf}")
        return False
    for i in range(len(val)):
        g = nv(c[i])
        e = nv(c.filtered_name) if val[i] is NONE else nv(val[i])
        if g != e:
            ctx.fail(tag + ":item", f"{tag} item {i}\n input: {info}\n expected {e!r}\n got {g!r}")
            return False
    if cats is not None:
        gc = norm(c.category_array)
        if gc != [nv(x) for x in cats]:
            ctx.fail(tag + ":cats", f"{tag} category_array\n input: {info}\n expected {cats}\n got {gc}")
            return False
    if is_str(kind) or kind in ("int", "uint"):
        gs = norm(c.as_string_array)
        es = [nv(c.filtered_name) if x is NONE else str(x) for x in val]
        if gs != es:
            ctx.fail(tag + ":as_string", f"{tag} as_string_array\n input: {info}\n expected {es}\n got {gs}")
            return False
    return True


@section("build", bound="Categoricals of strings, ints, uints, floats from values, codes, values+categories, filters, base 0/1; n<=21, <=6 categories; expand, items, isfiltered, as_string_array, nunique, one_hot, bins, copy, meta data")
def s_build(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(4000, 60000):
        it += 1
        okc, m = ctx.call("construct", lambda: make(ctx, rt))
        if not okc:
            continue
        info = info_of(m)
        ctx.at(info)
        c = m.cat
        okc, _ = ctx.call("views", lambda: same(ctx, "build", c, m.val, m.kind, info, m.cats), info)
        ctx.eq("unique_count", c.unique_count, len(m.cats), info)
        ctx.eq("nunique", c.nunique(), len(set(x for x in m.val if x is not NONE)), info)
        labels, hot = c.one_hot_encode()
        ctx.eq("one_hot", [norm(h) for h in hot], [[int(x is not NONE and x == k) for x in m.val] for k in m.cats], info)
        lab = norm(labels)
        if is_str(m.kind):
            ctx.eq("one_hot:labels", lab, m.cats, info)
        for b, k in enumerate(m.cats):
            ctx.eq("from_bin", nv(c.from_bin(b + m.base)), nv(k), info)
            ctx.eq("from_category", c.from_category(k), b + m.base, info)
        ctx.raises("from_bin:range", lambda: c.from_bin(len(m.cats) + m.base), info)
        for k in rng.sample(ABSENT[m.kind], 2):
            ctx.raises("from_category:absent", lambda: c.from_category(k), dict(info, absent=k), ValueError)
        okc, d = ctx.call("copy", lambda: c.copy(), info)
        if okc:
            ctx.call("copy:views", lambda: same(ctx, "copy", d, m.val, m.kind, info, m.cats), info)
        okc, d = ctx.call("constructor-copy", lambda: rt.Categorical(c), info)
        if okc:
            ctx.call("ccopy:views", lambda: same(ctx, "ccopy", d, m.val, m.kind, info, m.cats), info)
        # a filter given to an existing Categorical
        if rng.random() < 0.5:
            flt = [rng.random() < 0.6 for _ in range(m.n)]
            v2 = [x if k else NONE for x, k in zip(m.val, flt)]
            left = [k for k in m.cats if k in v2]
            okc, d = ctx.call("set_valid", lambda: c.set_valid(npf(flt)), dict(info, filter=flt))
            if okc:
                ctx.call("set_valid:views", lambda: same(ctx, "set_valid", d, v2, m.kind, dict(info, filter=flt)), info)
                ctx.eq("set_valid:cats", sorted(map(str, norm(d.category_array))), sorted(str(nv(x)) for x in left), dict(info, filter=flt))
        ctx.call("after", lambda: same(ctx, "unchanged", c, m.val, m.kind, info, m.cats), info)


def rowsel(rng, n):
    how = rng.choice(["slice", "fancy", "mask", "list", "neg", "step"])
    idx = list(range(n))
    if how == "slice":
        a, b = sorted((rng.randrange(0, n + 1), rng.randrange(0, n + 1)))
        return slice(a, b), idx[a:b]
    if how == "step":
        s = rng.choice([2, 3, -1, -2])
        return slice(None, None, s), idx[::s]
    if how == "neg":
        f = [rng.randrange(-n, n) for _ in range(rng.randrange(1, n + 1))]
        return np.array(f), [idx[i] for i in f]
    if how == "mask":
        f = [rng.random() < 0.5 for _ in range(n)]
        return np.array(f, dtype=bool), [i for i in idx if f[i]]
    f = [rng.randrange(n) for _ in range(rng.randrange(1, n + 1))]
    return (np.array(f, dtype=rng.choice([np.int32, np.int64])) if how == "fancy" else f), f


@section("select", bound="row selection chains, shift_cat, argsort over Categoricals; n<=21")
def s_select(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(4000, 60000):
        it += 1
        m = make(ctx, rt)
        c, val = m.cat, list(m.val)
        chain = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if not val:
                break
            sel, idx = rowsel(rng, len(val))
            chain.append(sel.tolist() if isinstance(sel, np.ndarray) else str(sel))
            info = info_of(m, chain=chain)
            ctx.at(info)
            okc, c2 = ctx.call("getitem", lambda: c[sel], info)
            if not okc:
                break
            val2 = [val[i] for i in idx]
            if val2:
                ctx.call("getitem:views", lambda: same(ctx, "getitem", c2, val2, m.kind, info, m.cats), info)
            else:
                ctx.eq("getitem:empty", len(c2), 0, info)
            c, val = c2, val2
        if not val:
            continue
        info = info_of(m, chain=chain)
        p = rng.choice([-30, -3, -2, -1, 0, 1, 2, 3, 30])
        if m.base == 1:
            e = [val[i - p] if 0 <= i - p < len(val) else NONE for i in range(len(val))]
            okc, r = ctx.call("shift_cat", lambda: c.shift_cat(p), dict(info, p=p))
            if okc:
                ctx.call("shift_cat:views", lambda: same(ctx, "shift_cat", r, e, m.kind, dict(info, p=p), m.cats), info)
        if m.sorted:
            a = norm(c.argsort())
            key = lambda i: (0,) if val[i] is NONE else (1, m.cats.index(val[i]))
            ctx.ok("argsort", sorted(a) == list(range(len(val))) and all(key(a[i]) <= key(a[i + 1]) for i in range(len(a) - 1)), lambda: f"argsort {a} of {info} values {val}")
        ctx.call("after", lambda: same(ctx, "unchanged", m.cat, m.val, m.kind, info, m.cats), info)


@section("compare", bound="== != < <= > >= with scalars, numeric arrays, lists and Categoricals, isin and string indexing; n<=21")
def s_compare(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(6000, 90000):
        it += 1
        m = make(ctx, rt)
        c = m.cat
        # scalar
        x = rng.choice(m.cats + POOLS[m.kind] + ABSENT[m.kind])
        xx = x.encode() if m.kind in ("bytes", "list") and rng.random() < 0.3 else x
        info = info_of(m, other=x)
        ctx.at(info)
        for op, f in OPS.items():
            if op not in ("==", "!="):
                if not m.sorted:
                    continue
                k = (lambda s: s.encode()) if m.kind in ("bytes", "list") else (lambda s: s)
                e = ["any" if v is NONE else f(k(v), k(x)) for v in m.val]
            else:
                e = [(op == "!=") if v is NONE else f(v, x) for v in m.val]
            okc, r = ctx.call("cmp" + op, lambda: f(c, xx), info)
            if okc:
                g = norm(r)
                ctx.ok("cmp" + op, len(g) == len(e) and all(b == "any" or a is b for a, b in zip(g, e)), lambda: f"c {op} {xx!r}\n input: {info}\n expected {e}\n got {g}")
        if is_str(m.kind):
            ctx.eq("index-str", norm(c[xx]), [v is not NONE and v == x for v in m.val], info)
        # numeric array of the same length
        if not is_str(m.kind) and m.n > 1 and c.category_array.dtype.char in "ild":  # each dtype is a compilation
            y = [v if v is not NONE and rng.random() < 0.6 else rng.choice(POOLS[m.kind] + ABSENT[m.kind]) for v in m.val]
            yy = np.array(y, dtype=np.float64 if m.kind == "float" else np.int64)
            info2 = info_of(m, array=y)
            for op, f in OPS.items():
                okc, r = ctx.call("cmparr" + op, lambda: f(c, yy), info2)
                if okc:
                    e = [("any" if op not in ("==", "!=") else op == "!=") if v is NONE else f(v, w) for v, w in zip(m.val, y)]
                    g = norm(r)
                    ctx.ok("cmparr" + op, len(g) == len(e) and all(b == "any" or a is b for a, b in zip(g, e)), lambda: f"c {op} array\n input: {info2}\n expected {e}\n got {g}")
        # lists of categories
        lst = [rng.choice(m.cats + POOLS[m.kind] + ABSENT[m.kind]) for _ in range(rng.choice([1, 2, 3, 5]))]
        e = [v is not NONE and v in lst for v in m.val]
        how = rng.choice(["list", "set", "array", "tuple", "scalar", "cat"])
        info = info_of(m, isin=lst, how=how)
        if how == "scalar":
            e = [v is not NONE and v == lst[0] for v in m.val]
        arg = {"list": lambda: list(lst), "set": lambda: set(lst), "tuple": lambda: tuple(lst), "scalar": lambda: lst[0], "array": lambda: arr_of(rt, lst, "bytes" if m.kind == "list" else m.kind, rng), "cat": lambda: rt.Categorical(arr_of(rt, lst, m.kind, rng))}[how]
        okc, r = ctx.call("isin", lambda: c.isin(arg()), info)
        if okc:
            ctx.eq("isin-" + how, norm(r), e, info)
        if is_str(m.kind):
            okc, r = ctx.call("index-list", lambda: c[list(lst)], info)
            if okc:
                ctx.eq("index-list", norm(r), [v is not NONE and v in lst for v in m.val], info)
        ctx.eq("isin-empty", norm(c.isin([])), [False] * m.n, info)
        # another Categorical over the same rows
        d = make(ctx, rt, kinds=(m.kind,), n=m.n)
        if rng.random() < 0.4:  # mostly equal rows
            w = [v if v is not NONE and rng.random() < 0.7 else rng.choice(POOLS[m.kind]) for v in m.val]
            d.val, d.base, d.sorted, d.mode = w, 1, True, "values"
            d.cat = rt.Categorical(arr_of(rt, w, m.kind, rng))
        info = info_of(m, other=info_of(d))
        for op in ("==", "!=", "<", "<=", ">", ">="):
            if op not in ("==", "!=") and not (m.sorted and d.sorted):
                continue
            f = OPS[op]
            okc, r = ctx.call("cmpcat" + op, lambda: f(c, d.cat), info)
            if okc:
                k = (lambda s: s.encode()) if m.kind in ("bytes", "list") else (lambda s: s)
                e = [("any" if v is NONE and w is NONE or op not in ("==", "!=") else op == "!=") if v is NONE or w is NONE else f(k(v), k(w)) for v, w in zip(m.val, d.val)]
                g = norm(r)
                ctx.ok("cmpcat" + op, len(g) == len(e) and all(b == "any" or a is b for a, b in zip(g, e)), lambda: f"c {op} other Categorical\n input: {info}\n expected {e}\n got {g}")
        ctx.call("after", lambda: same(ctx, "unchanged", c, m.val, m.kind, info, m.cats), info)


@section("map", bound="map with dict (total/partial) and array, strings/ints/floats, invalid=; n<=21")
def s_map(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(4000, 60000):
        it += 1
        m = make(ctx, rt)
        c = m.cat
        tk = rng.choice(["str", "int", "float"])
        tv = {"str": ["X", "YY", "ZZZ", "", "W", "longer value", "t"], "int": [10, 20, 30, -5, 0, 7, 8], "float": [1.5, 2.5, -3.25, 0.0, 100.0, 6.5, 9.75]}[tk]
        newv = [rng.choice(tv) for _ in m.cats]
        inv = None
        if rng.random() < 0.4:
            inv = {"str": "NOPE", "int": 666, "float": 666.5}[tk]
        dinv = inv if inv is not None else {"str": "Inv", "int": -(2**63), "float": "NaN"}[tk]
        if rng.random() < 0.5:
            arr = rt.FastArray(np.array(newv, dtype={"str": "S", "int": np.int64, "float": np.float64}[tk]))
            info = info_of(m, array=newv, invalid=inv)
            ctx.at(info)
            okc, r = ctx.call("map-array", lambda: c.map(arr, invalid=inv), info)
            if okc:
                ctx.eq("map-array", norm(r), [nv(dinv) if v is NONE else nv(newv[m.cats.index(v)]) for v in m.val], info)
        else:
            keep = [k for k in m.cats if rng.random() < rng.choice([0.5, 1.0])]
            if not keep:
                continue
            d = {k: newv[m.cats.index(k)] for k in keep}
            if rng.random() < 0.5:
                d[ABSENT[m.kind][0]] = tv[0]
            items = list(d.items())
            rng.shuffle(items)
            d = dict(items)
            info = info_of(m, mapper=d, invalid=inv)
            ctx.at(info)
            okc, r = ctx.call("map-dict", lambda: c.map(dict(d), invalid=inv), info)
            if okc:
                g = norm(r)
                total = all(k in d for k in m.cats)
                fv = "any" if total and tk == "str" else nv({"str": "Inv", "int": -(2**63), "float": "NaN"}[tk]) if total else nv(dinv)
                e = [fv if v is NONE else nv(d[v]) if v in d else nv(dinv) for v in m.val]
                ctx.ok("map-dict", len(g) == len(e) and all(b == "any" or a == b for a, b in zip(g, e)), lambda: f"map\n input: {info}\n expected {e}\n got {g}")
        ctx.call("after", lambda: same(ctx, "unchanged", c, m.val, m.kind, info, m.cats), info)


@section("assign", bound="histories of <=5 element assignments, category add/remove/replace, auto_add; strings, base 0/1; n<=21")
def s_assign(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(4000, 60000):
        it += 1
        m = make(ctx, rt, kinds=("bytes", "unicode", "list", "float", "int"))
        c, val, cats = m.cat, list(m.val), list(m.cats)
        if rng.random() < 0.3 and m.n > 1:
            sel, idx = rowsel(rng, len(val))
            if len(idx):
                c = c[sel].copy()
                val = [val[i] for i in idx]
        orig = c.copy()
        oval = list(val)
        n = len(val)
        hist = []
        mk = m.kind
        for _ in range(rng.choice([1, 2, 3, 5])):
            how = rng.choice(["int", "slice", "mask", "fancy", "str", "add", "replace", "merge", "code", "auto", "query", "cat", "cat"])
            if not is_str(mk) and how in ("add", "replace", "merge", "str", "auto"):
                continue
            info = info_of(m, start=[None if x is NONE else x for x in oval], hist=hist)
            ctx.at(dict(info, next=how))
            v = rng.choice(cats) if cats else None
            if v is None:
                break
            vv = v
            if mk == "int":
                vv = cats.index(v) + m.base  # integers are category codes
            if how == "int":
                i = rng.randrange(-n, n)
                hist.append(f"c[{i}]={vv!r}")
                okc, _ = ctx.call("set", lambda: c.__setitem__(i, vv), info)
                val[i] = v
            elif how == "slice":
                a, b = sorted((rng.randrange(0, n + 1), rng.randrange(0, n + 1)))
                st = rng.choice([1, 1, 2])
                hist.append(f"c[{a}:{b}:{st}]={vv!r}")
                okc, _ = ctx.call("set", lambda: c.__setitem__(slice(a, b, st), vv), info)
                for i in range(a, b, st):
                    val[i] = v
            elif how == "mask":
                f = [rng.random() < 0.4 for _ in range(n)]
                hist.append(f"c[{f}]={vv!r}")
                okc, _ = ctx.call("set", lambda: c.__setitem__(np.array(f, dtype=bool), vv), info)
                val = [v if f[i] else val[i] for i in range(n)]
            elif how == "fancy":
                f = [rng.randrange(n) for _ in range(rng.randrange(1, 4))]
                hist.append(f"c[{f}]={vv!r}")
                okc, _ = ctx.call("set", lambda: c.__setitem__(np.array(f) if rng.random() < 0.5 else f, vv), info)
                for i in f:
                    val[i] = v
            elif how == "cat":  # from another Categorical with other categories
                a, b = sorted((rng.randrange(0, n + 1), rng.randrange(0, n + 1)))
                if a == b:
                    continue
                w = [rng.choice(cats) for _ in range(a, b)]
                kw = rng.choice([{}, {"base_index": 0}, {"ordered": False}])
                if m.base == 1 and not kw and rng.random() < 0.5:
                    f = [rng.random() < 0.6 for _ in w]
                    f[0] = True
                    kw = {"filter": npf(f)}
                    wv = [x if k else NONE for x, k in zip(w, f)]
                else:
                    wv = w
                hist.append(f"c[{a}:{b}]=Categorical({w}, {kw})")
                info = dict(info, hist=hist)
                src = arr_of(rt, w, mk, rng) if mk != "int" else rt.FastArray(np.array(w, dtype=c.category_array.dtype))
                if mk == "float":
                    src = src.astype(c.category_array.dtype)
                other = rt.Categorical(src, **kw)
                okc, _ = ctx.call("set-cat", lambda: c.__setitem__(slice(a, b), other), info)
                val[a:b] = wv
                if okc:
                    ctx.call("set-cat:other", lambda: same(ctx, "set-cat-other", other, wv, mk, info), info)
            elif how == "code":
                k = rng.randrange(m.base, len(cats) + m.base)
                i = rng.randrange(n)
                hist.append(f"c[{i}]=code {k}")
                okc, _ = ctx.call("set", lambda: c.__setitem__(i, k), info)
                val[i] = cats[k - m.base]
            elif how == "str":
                w = rng.choice(cats)
                hist.append(f"c[{w!r}]={v!r}")
                okc, _ = ctx.call("set", lambda: c.__setitem__(w, v), info)
                val = [v if x is not NONE and x == w else x for x in val]
            elif how == "add":
                w = rng.choice(["q1", "A0", "zzzz"])
                if w in cats:
                    continue
                hist.append(f"category_add({w!r})")
                okc, _ = ctx.call("category_add", lambda: c.category_add(w), info)
                cats.append(w)
            elif how == "replace":
                w = rng.choice(cats)
                r = rng.choice(["r", "k", "longer than any"])
                if r in cats:
                    continue
                hist.append(f"category_replace({w!r},{r!r})")
                okc, _ = ctx.call("category_replace", lambda: c.category_replace(w, r), info)
                cats[cats.index(w)] = r
                val = [r if x is not NONE and x == w else x for x in val]
            elif how == "merge":
                if len(cats) < 2:
                    continue
                w, r = rng.sample(cats, 2)
                hist.append(f"category_replace({w!r},{r!r})")
                okc, _ = ctx.call("category_replace", lambda: c.category_replace(w, r), info)
                val = [r if x is not NONE and x == w else x for x in val]
            elif how == "auto":
                w = rng.choice(["q1", "A0", "zz9"])
                i = rng.randrange(n)
                if w in cats:
                    continue
                if m.base == 1 and any(x is NONE for x in val) and False:
                    continue
                hist.append(f"auto_add c[{i}]={w!r}")
                c.auto_add_on()
                okc, _ = ctx.call("auto_add", lambda: c.__setitem__(i, w), info)
                c.auto_add_off()
                val[i] = w
                cats = [nv(x) for x in norm(c.category_array)] if okc else cats
                if okc:
                    ctx.eq("auto_add:cats", sorted(cats), sorted(set(cats) | {w}), info)
            else:
                v0 = rng.choice(cats)
                okc, r = ctx.call("query", lambda: c == v0, info)
                if okc:
                    ctx.eq("query", norm(r), [x is not NONE and x == v0 for x in val], dict(info, q=v0))
            if not okc:
                break
            info = info_of(m, start=[None if x is NONE else x for x in oval], hist=hist)
            okc, r = ctx.call("views", lambda: same(ctx, "assign-" + how, c, val, mk, info, cats), info)
            if not (okc and r):
                break
            # the grouping agrees with the values after the edit
            okc, r = ctx.call("count", lambda: c.count(), info)
            if okc:
                k0 = [x for x in r.keys()]
                lab = [x for x in k0 if x != "Count"][0]
                g = dict(zip([str(nv(x)) for x in norm(r[lab])], norm(r["Count"])))
                e = {str(nv(k)): sum(1 for x in val if x is not NONE and x == k) for k in cats}
                if not ctx.eq("count-after-" + how, g, e, info):
                    break
        ctx.call("orig", lambda: same(ctx, "copy-unchanged", orig, oval, mk, info_of(m, hist=hist)), None)


@section("multi", bound="multi-key Categoricals: expand, items, selection, tuple lookup, as_singlekey; n<=21")
def s_multi(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(2500, 40000):
        it += 1
        n = rng.choice([1, 2, 3, 5, 8, 13, 21])
        card = rng.choice([1, 2, 3])
        rows = [(rng.choice(["x", "w", "yy"][:card]), rng.choice([2, 1, 3][:card])) for _ in range(n)]
        if rng.random() < 0.4:
            rows = [r + (rng.choice([0.5, 1.5]),) for r in rows]
        flt = [rng.random() < 0.7 for _ in range(n)] if rng.random() < 0.5 else None
        val = [r if flt is None or flt[i] else NONE for i, r in enumerate(rows)]
        cols = [list(x) for x in zip(*rows)]
        arrs = [rt.FastArray(cols[0], unicode=rng.random() < 0.5)] + [rt.FastArray(np.array(x)) for x in cols[1:]]
        kw = {"lex": True} if rng.random() < 0.3 else {}
        asd = rng.random() < 0.5
        info = dict(rows=rows, filter=flt, kw=kw)
        ctx.at(info)
        okc, c = ctx.call("multi", lambda: rt.Categorical({f"k{i}": a for i, a in enumerate(arrs)} if asd else arrs, filter=npf(flt), **kw), info)
        if not okc:
            continue

        def look(tag, c, val):
            ex = c.expand_array
            got = list(zip(*[norm(a) for a in ex]))
            ctx.evals += 1
            bad = [i for i in range(len(val)) if val[i] is not NONE and tuple(got[i]) != tuple(nv(x) for x in val[i])]
            if bad:
                ctx.fail(tag + ":expand", f"{tag} {info} rows {bad} got {got} expected {val}")
            ed = c.expand_dict
            if [norm(a) for a in ed.values()] != [norm(a) for a in ex]:
                ctx.fail(tag + ":expand_dict", f"{tag} {info} {ed}")
            ctx.eq(tag + ":isfiltered", norm(c.isfiltered()), [v is NONE for v in val], info)
            for i in range(len(val)):
                if val[i] is not NONE:
                    g = c[i]
                    if tuple(nv(x) for x in g) != tuple(nv(x) for x in val[i]):
                        ctx.fail(tag + ":item", f"{tag} {info} item {i} got {g}")

        ctx.call("look", lambda: look("multi", c, val), info)
        q = rng.choice(rows) if rng.random() < 0.7 else ("w", 99) + ((0.5,) if len(rows[0]) == 3 else ())
        for op in ("==", "!="):
            okc, r = ctx.call("multi" + op, lambda: OPS[op](c, q), info)
            if okc:
                ctx.eq("multi" + op, norm(r), [(op == "!=") if v is NONE else OPS[op](v, q) for v in val], dict(info, q=q))
        if q in val:
            b = c.from_category(q)
            ctx.eq("multi:bin", tuple(nv(x) for x in c.from_bin(b)), tuple(nv(x) for x in q), dict(info, q=q))
        sel, idx = rowsel(rng, n)
        if idx:
            okc, c2 = ctx.call("multi-getitem", lambda: c[sel], info)
            if okc:
                ctx.call("look2", lambda: look("multi-getitem", c2, [val[i] for i in idx]), info)
        if all(v is NONE for v in val):
            continue
        okc, s = ctx.call("as_singlekey", lambda: c.as_singlekey(), info)
        if okc and len(rows[0]) == 2:
            e = ["Filtered" if v is NONE else f"{v[0]}_{v[1]}" for v in val]
            ctx.eq("as_singlekey", norm(s.expand_array), e, info)
        # assignment by tuple
        live = [v for v in val if v is not NONE]
        if live:
            t = rng.choice(live)
            i = rng.randrange(n)
            okc, _ = ctx.call("multi-set", lambda: c.__setitem__(i, t), info)
            val = list(val)
            val[i] = t
            ctx.call("look3", lambda: look("multi-set", c, val), dict(info, set=(i, t)))


@section("enum", bound="mapping (enum) Categoricals: expand, items, compare, selection, mapping edits; n<=21")
def s_enum(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(2500, 40000):
        it += 1
        n = rng.choice([1, 2, 3, 5, 8, 13])
        names = ["ab", "b", "cc", "d"][: rng.choice([1, 2, 4])]
        codes = rng.sample([-5, 0, 1, 2, 44, 100, 7, 10], len(names))
        mp = dict(zip(names, codes))
        cv = [rng.choice(codes) for _ in range(n)]
        inv = {v: k for k, v in mp.items()}
        d = dict(mp) if rng.random() < 0.5 else {v: k for k, v in mp.items()}
        info = dict(codes=cv, mapping=d)
        ctx.at(info)
        okc, c = ctx.call("enum", lambda: rt.Categorical(np.array(cv, dtype=rng.choice([np.int32, np.int64])), d), info)
        if not okc:
            continue
        val = [inv[x] for x in cv]
        hist = []

        def look(tag):
            ctx.eq(tag + ":expand", norm(c.expand_array), [mp[x] for x in val], dict(info, hist=hist))  # a mapping expands to its codes
            ctx.eq(tag + ":items", [nv(c[i]) for i in range(n)], val, dict(info, hist=hist))
            ctx.eq(tag + ":as_string", norm(c.as_string_array), val, dict(info, hist=hist))
            k = rng.choice(sorted(mp))
            ctx.eq(tag + ":==", norm(c == k), [v == k for v in val], dict(info, hist=hist, k=k))
            ctx.eq(tag + ":!=", norm(c != k), [v != k for v in val], dict(info, hist=hist, k=k))
            ctx.eq(tag + ":bin", c.from_category(k), mp[k], dict(info, hist=hist, k=k))
            ctx.eq(tag + ":isin", norm(c.isin([k])), [v == k for v in val], dict(info, hist=hist, k=k))

        ctx.call("look", lambda: look("enum"), dict(info))
        for _ in range(rng.choice([0, 1, 2, 3])):
            how = rng.choice(["add", "set", "setcode", "replace", "select"])
            if how == "add":
                k, v = rng.choice(["new", "n2"]), rng.choice([55, 66, 77])
                if k in mp or v in inv:
                    continue
                hist.append(("add", v, k))
                okc, _ = ctx.call("mapping_add", lambda: c.mapping_add(v, k), dict(info, hist=hist))
                mp[k] = v
                inv[v] = k
            elif how == "set":
                k = rng.choice(sorted(mp))
                i = rng.randrange(n)
                hist.append(("set", i, k))
                okc, _ = ctx.call("enum-set", lambda: c.__setitem__(i, k), dict(info, hist=hist))
                val[i] = k
            elif how == "setcode":
                k = rng.choice(sorted(mp))
                i = rng.randrange(n)
                hist.append(("setcode", i, mp[k]))
                okc, _ = ctx.call("enum-set", lambda: c.__setitem__(i, mp[k]), dict(info, hist=hist))
                val[i] = k
            elif how == "replace":
                v = rng.choice(sorted(inv))
                k = rng.choice(["rep", "rp2"])
                if k in mp:
                    continue
                hist.append(("replace", v, k))
                okc, _ = ctx.call("mapping_replace", lambda: c.mapping_replace(v, k), dict(info, hist=hist))
                old = inv[v]
                val = [k if x == old else x for x in val]
                del mp[old]
                inv[v] = k
                mp[k] = v
                ctx.raises("mapping_replace:old-name", lambda: c.from_category(old), dict(info, hist=hist, old=old), ValueError)
            else:
                sel, idx = rowsel(rng, n)
                if not idx:
                    continue
                hist.append(("select", idx))
                okc, c2 = ctx.call("enum-getitem", lambda: c[sel], dict(info, hist=hist))
                if okc:
                    ctx.eq("enum-getitem", norm(c2.as_string_array), [val[i] for i in idx], dict(info, hist=hist))
            if okc:
                ctx.call("look", lambda: look("enum-" + how), dict(info, hist=hist))


@section("combine", bound="hstack, align, shrink, isin across Categoricals with different categories; n<=21 each")
def s_combine(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(3000, 50000):
        it += 1
        kind = rng.choice(["bytes", "unicode", "int", "float", "list"])
        base0 = rng.random() < 0.25
        modes = ("base0", "base0u", "codes0") if base0 else ("values", "values", "unordered", "codes", "valcats")
        ms = [make(ctx, rt, kinds=(kind,), modes=modes) for _ in range(rng.choice([2, 2, 3]))]
        if kind == "int":
            dt = [m.cat.category_array.dtype for m in ms]
            if len(set(dt)) > 1:
                continue
        info = [info_of(m) for m in ms]
        ctx.at(info)
        allv = [v for m in ms for v in m.val]
        okc, r = ctx.call("hstack", lambda: rt.hstack([m.cat for m in ms]), info)
        if okc:
            ctx.call("hstack:views", lambda: same(ctx, "hstack", r, allv, kind, info), info)
            g = [nv(x) for x in norm(r.category_array)]
            ctx.eq("hstack:cats", sorted(map(str, g)), sorted({str(nv(k)) for m in ms for k in m.cats}), info)
        okc, rs = ctx.call("align", lambda: rt.Categorical.align([m.cat for m in ms]), info)
        if okc:
            for m, r in zip(ms, rs):
                ctx.call("align:views", lambda: same(ctx, "align", r, m.val, kind, info), info)
            ctx.ok("align:cats", len({tuple(map(str, norm(r.category_array))) for r in rs}) == 1, lambda: f"align {info}: {[norm(r.category_array) for r in rs]}")
        # Dataset columns stacked together
        if rng.random() < 0.3:
            okc, r = ctx.call("ds-hstack", lambda: rt.hstack([rt.Dataset({"c": m.cat}) for m in ms]), info)
            if okc:
                ctx.call("dsh:views", lambda: same(ctx, "ds-hstack", r["c"], allv, kind, info), info)
        m = ms[0]
        if is_str(kind) and not base0:
            nc = rng.sample(m.cats, rng.randrange(1, len(m.cats) + 1)) if m.cats else ["b"]
            misc = rng.choice([None, "MISC"])
            e = [NONE if v is NONE else v if v in nc else (NONE if misc is None else misc) for v in m.val]
            okc, r = ctx.call("shrink", lambda: m.cat.shrink(list(nc), misc=misc), dict(i=info[0], newcats=nc, misc=misc))
            if okc:
                ctx.call("shrink:views", lambda: same(ctx, "shrink", r, e, kind, dict(i=info[0], newcats=nc, misc=misc)), info)
        for m in ms:
            ctx.call("after", lambda: same(ctx, "unchanged", m.cat, m.val, m.kind, info, m.cats), info)


@section("remove", bound="category_remove on one Categorical (a listed known finding)")
def s_remove(ctx):
    import riptable as rt

    c = rt.Categorical(list("bbcdebc"))
    ctx.call("category_remove", lambda: c.category_remove("b"), None)
    ctx.eq("values after category_remove", norm(c.expand_array), ["Filtered", "Filtered", "c", "d", "e", "Filtered", "c"], "Categorical(list('bbcdebc')).category_remove('b')")
