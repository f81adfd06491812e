"""C03: vectorised string operations agree with Python's string operations, element by element."""
import re
import numpy as np
from bounded.common import section

ASCII = "aAbBzZ09 x[`{@_"
UNI = ASCII + "éßΩ中ñ"
LOWER = {chr(c): chr(c + 32) for c in range(65, 91)}
UPPER = {v: k for k, v in LOWER.items()}


def up(s):
    return "".join(UPPER.get(c, c) for c in s)


def low(s):
    return "".join(LOWER.get(c, c) for c in s)


def word(rng, alpha, m):
    return "".join(rng.choice(alpha) for _ in range(rng.randint(0, m)))


def strings(ctx, kind, n=None):
    rng = ctx.rng
    alpha = rng.choice(["ab", "aAb ", ASCII, ASCII if kind == "S" else UNI])
    if n is None:
        n = rng.choice([1, 1, 2, 3, 5, 8, 30])
    m = rng.choice([0, 1, 2, 3, 4, 7, 12])
    # keep trailing NULs out by construction (alphabet has none)
    return [word(rng, alpha, m) for _ in range(n)], alpha


def mk(rt, ss, kind, rng):
    a = np.array(ss, dtype=kind)
    if rng.random() < 0.3:
        a = np.array(ss, dtype=f"{kind}{max(1, a.itemsize // (4 if kind == 'U' else 1)) + rng.choice([1, 3])}")
    return rt.FastArray(a, unicode=True) if kind == "U" else rt.FastArray(a)


def needle(rng, ss, alpha):
    r = rng.random()
    if r < 0.55:
        s = rng.choice(ss)
        if s:
            i = rng.randrange(len(s))
            j = rng.randint(i + 1, len(s))
            return s[i:j]
    return "".join(rng.choice(alpha) for _ in range(rng.randint(1, 3)))


def removetrailing(s, ch):
    return s.rstrip(ch)


def loop(ctx, quick, thorough):
    it = 0
    while ctx.more() and it < ctx.scale(quick, thorough):
        it += 1
        yield it


def pick(ctx, it):
    import riptable as rt

    kind = "SU"[it % 2]
    big = it % 40 == 39
    ss, alpha = strings(ctx, kind, n=ctx.rng.choice([10001, 12000]) if big else None)
    if big:
        ss[ctx.rng.randrange(len(ss))] = "".join(ctx.rng.choice(alpha) for _ in range(5))
    return rt, kind, ss, alpha, mk(rt, ss, kind, ctx.rng)


def chk(ctx, key, fn, exp, info):
    ctx.at(key)
    ok, r = ctx.call(key, fn, info)
    if ok:
        ctx.eq(key, r, exp, info)
        ctx.ok(key + " length", len(r) == len(exp), lambda: f"{key} {info}")


@section("case", bound="upper/lower/reverse/removetrailing/strlen, byte and unicode strings, width <= 15, <= 12000 elements")
def case(ctx):
    for it in loop(ctx, 260, 4000):
        rt, kind, ss, alpha, a = pick(ctx, it)
        info = (kind, ss if len(ss) < 40 else len(ss))
        src = a.copy()
        chk(ctx, "upper", lambda: a.str.upper, [up(s) for s in ss], info)
        chk(ctx, "lower", lambda: a.str.lower, [low(s) for s in ss], info)
        chk(ctx, "reverse", lambda: a.str.reverse, [s[::-1] for s in ss], info)
        chk(ctx, "strlen", lambda: a.str.strlen, [len(s) for s in ss], info)
        chk(ctx, "removetrailing", lambda: a.str.removetrailing(), [s.rstrip(" ") for s in ss], info)
        ch = ctx.rng.choice(alpha)
        chk(ctx, "removetrailing(c)", lambda: a.str.removetrailing(ord(ch)), [s.rstrip(ch) for s in ss], (info, ch))
        ctx.eq("input unchanged", a, src, info)
        if it % 3 == 0:
            b = a.copy()
            chk(ctx, "upper_inplace", lambda: b.str.upper_inplace, [up(s) for s in ss], info)
            ctx.eq("upper_inplace writes", b, [up(s) for s in ss], info)
            b = a.copy()
            chk(ctx, "reverse_inplace", lambda: b.str.reverse_inplace, [s[::-1] for s in ss], info)
            ctx.eq("reverse_inplace writes", b, [s[::-1] for s in ss], info)


@section("search", bound="contains/index/index_any_of/startswith/endswith, byte and unicode, width <= 15, needle <= width+3, <= 12000 elements")
def search(ctx):
    for it in loop(ctx, 320, 6000):
        rt, kind, ss, alpha, a = pick(ctx, it)
        rng = ctx.rng
        if rng.random() < 0.05:
            nd = ""
        else:
            nd = needle(rng, ss, alpha)
        info = (kind, ss if len(ss) < 40 else len(ss), nd)
        pn = nd.encode("latin1") if (kind == "S" and rng.random() < 0.3 and nd) else nd
        chk(ctx, "contains", lambda: a.str.contains(pn), [nd in s for s in ss], info)
        chk(ctx, "index", lambda: a.str.index(pn), [s.find(nd) for s in ss], info)
        chk(ctx, "startswith", lambda: a.str.startswith(pn), [s.startswith(nd) for s in ss], info)
        chk(ctx, "endswith", lambda: a.str.endswith(pn), [s.endswith(nd) for s in ss], info)
        if nd:
            chk(ctx, "index_any_of", lambda: a.str.index_any_of(pn), [min([i for i, c in enumerate(s) if c in nd], default=-1) for s in ss], info)


@section("replace", bound="replace with shorter/longer/equal/empty replacement, byte and unicode, width <= 15")
def replace(ctx):
    for it in loop(ctx, 320, 6000):
        rt, kind, ss, alpha, a = pick(ctx, it)
        rng = ctx.rng
        old = needle(rng, ss, alpha)
        new = word(rng, alpha, 4)
        info = (kind, ss if len(ss) < 40 else len(ss), old, new)
        src = a.copy()
        chk(ctx, "replace", lambda: a.str.replace(old, new), [s.replace(old, new) for s in ss], info)
        ctx.eq("replace leaves input", a, src, info)


@section("substr", bound="substr with scalar and per-element bounds in [-9, 9], char positions, substr_char_stop; byte and unicode")
def substr(ctx):
    for it in loop(ctx, 260, 5000):
        rt, kind, ss, alpha, a = pick(ctx, it)
        rng = ctx.rng
        n = len(ss)
        big = n > 1000
        f = lambda: rng.choice([-9, -3, -2, -1, 0, 1, 2, 3, 9])
        i, j = f(), f()
        info = (kind, ss if n < 40 else n, i, j)
        chk(ctx, "substr(i,j)", lambda: a.str.substr(i, j), [s[i:j] for s in ss], info)
        chk(ctx, "substr[i:j]", lambda: a.str.substr[i:j], [s[i:j] for s in ss], info)
        chk(ctx, "substr[i:]", lambda: a.str.substr[i:], [s[i:] for s in ss], info)
        chk(ctx, "substr(j)", lambda: a.str.substr(j), [s[:j] for s in ss], info)
        chk(ctx, "substr[:j]", lambda: a.str.substr[:j], [s[:j] for s in ss], info)
        si, sj = [f() for _ in ss], [f() for _ in ss]
        chk(ctx, "substr(array)", lambda: a.str.substr(np.array(si), np.array(sj)), [s[x:y] for s, x, y in zip(ss, si, sj)], (info, si if not big else 0, sj if not big else 0))
        chk(ctx, "substr[array:]", lambda: a.str.substr[np.array(si) :], [s[x:] for s, x in zip(ss, si)], (info, si if not big else 0))
        # char: within the width of the array
        w = a.str._itemsize
        p = [rng.randrange(-len(s), w) if s else rng.randrange(0, w) for s in ss]
        chk(ctx, "char(array)", lambda: a.str.char(np.array(p)), [(s[x] if -len(s) <= x < len(s) else "") for s, x in zip(ss, p)], (info, p if not big else 0))
        q = rng.randrange(0, w)
        chk(ctx, "char(scalar)", lambda: a.str.char(q), [s[q : q + 1] for s in ss], (info, q))
        ctx.raises("char beyond the width", lambda: a.str.char(int(w)), (info, int(w)), (ValueError,))
        m = min(len(s) for s in ss)
        if m:
            q = -rng.randint(1, m)
            chk(ctx, "char(negative scalar)", lambda: a.str.char(q), [s[q] for s in ss], (info, q))
        st = rng.choice(alpha)
        cut = lambda s, inc: s if st not in s else s[: s.index(st) + (1 if inc else 0)]
        chk(ctx, "substr_char_stop", lambda: a.str.substr_char_stop(st), [cut(s, 0) for s in ss], (info, st))
        chk(ctx, "substr_char_stop(inclusive)", lambda: a.str.substr_char_stop(st, inclusive=True), [cut(s, 1) for s in ss], (info, st))


@section("regex", bound="regex_match / regex_replace / extract with patterns over {a,b}, byte and unicode, apply_unique both ways")
def regex(ctx):
    pats = ["a", "^a", "b$", "a+b", "(a)(b)", "[ab]{2}", "a|b", "(?P<x>a+)", "^$", "a.b"]
    for it in loop(ctx, 200, 3000):
        rt, kind, ss, alpha, a = pick(ctx, it)
        rng = ctx.rng
        pat = rng.choice(pats)
        au = rng.random() < 0.5
        info = (kind, ss if len(ss) < 40 else len(ss), pat, au)
        cp = re.compile(pat)
        chk(ctx, "regex_match", lambda: a.str.regex_match(pat, apply_unique=au), [bool(cp.search(s)) for s in ss], info)
        rep = rng.choice(["", "Q", "zz"])
        chk(ctx, "regex_replace", lambda: a.str.regex_replace(pat, rep, apply_unique=au), [cp.sub(rep, s) for s in ss], (info, rep))
        if cp.groups:
            ctx.at("extract")
            ok, r = ctx.call("extract", lambda: a.str.extract(pat, apply_unique=au), info)
            if ok:
                exp = [[(m.groups()[g] if (m := cp.search(s)) else "") for s in ss] for g in range(cp.groups)]
                got = [r[k] for k in r.keys()] if hasattr(r, "keys") else [r]
                ctx.eq("extract", got, exp, info)


@section("cat", bound="string methods of a Categorical (with and without filtered rows) agree with the same method on the expanded strings")
def cat(ctx):
    import riptable as rt

    for it in loop(ctx, 160, 2500):
        rng = ctx.rng
        kind = "SU"[it % 2]
        ss, alpha = strings(ctx, kind)
        ss = [s or "q" for s in ss]
        base = 1 if rng.random() < 0.7 else 0
        filt = [rng.random() < 0.8 for _ in ss] if base == 1 and rng.random() < 0.4 else None
        arr = rt.FastArray(np.array(ss, dtype=kind), unicode=(kind == "U"))
        ok, c = ctx.call("Categorical", lambda: rt.Cat(arr, base_index=base, filter=None if filt is None else rt.FastArray(filt)), (ss, base, filt))
        if not ok:
            continue
        if filt is not None and not any(filt):
            continue
        keep = filt or [True] * len(ss)
        nd = needle(rng, ss, alpha)
        info = (kind, ss, base, filt, nd)
        for key, fn, spec in (
            ("cat.contains", lambda: c.str.contains(nd), lambda s: nd in s),
            ("cat.startswith", lambda: c.str.startswith(nd), lambda s: s.startswith(nd)),
            ("cat.endswith", lambda: c.str.endswith(nd), lambda s: s.endswith(nd)),
            ("cat.strlen", lambda: c.str.strlen, len),
            ("cat.index", lambda: c.str.index(nd), lambda s: s.find(nd)),
            ("cat.upper", lambda: c.str.upper, up),
            ("cat.reverse", lambda: c.str.reverse, lambda s: s[::-1]),
            ("cat.replace", lambda: c.str.replace(nd, "RR"), lambda s: s.replace(nd, "RR")),
            ("cat.substr", lambda: c.str.substr[1:], lambda s: s[1:]),
        ):
            ctx.at(key)
            ok, r = ctx.call(key, fn, info)
            if not ok:
                continue
            if hasattr(r, "expand_array"):
                r = r.expand_array
            g = [x.decode("latin1") if isinstance(x, bytes) else x for x in np.asarray(r).tolist()]
            ctx.eq(key, [x for x, k in zip(g, keep) if k], [spec(s) for s, k in zip(ss, keep) if k], info)
            ctx.ok(key + " length", len(g) == len(ss), lambda: f"{key} {info}")
