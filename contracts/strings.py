"""Contracts for the vectorised string kernels (riptable/rt_str.py).

A string array of n strings of width `itemsize` is the flat array src of n*itemsize code units."""
from pyvc.symex import Contract, SpecLib, ArrRef, Unsupported

F = "riptable/rt_str.py"
SPECS = SpecLib(
    '''
def up(c): return c - 32 if 97 <= c and c <= 122 else c
def lo(c): return c + 32 if 65 <= c and c <= 90 else c
def rb(a, sz): return (a // sz) * sz
def slen(s, b, sz, j) -> int: return sz if j >= sz else (j if s[b + j] == 0 else slen(s, b, sz, j + 1))
def rlen(s, b, j) -> int: return 0 if j <= 0 else (j if s[b + j - 1] != 0 else rlen(s, b, j - 1))
def tlen(s, b, rc, j) -> int: return 0 if j <= 0 else (j if (s[b + j - 1] != 0 and s[b + j - 1] != rc) else tlen(s, b, rc, j - 1))
def member(s2, c, k) -> bool: return False if k >= len(s2) else (s2[k] == c or member(s2, c, k + 1))
def firstany(s, b, sz, s2, j) -> int: return -1 if j >= sz else (j if member(s2, s[b + j], 0) else firstany(s, b, sz, s2, j + 1))
def eqfrom(s, p, s2, k) -> bool: return True if k >= len(s2) else (s[p + k] == s2[k] and eqfrom(s, p, s2, k + 1))
def eqto(s, p, s2, k) -> bool: return True if k <= 0 else (s[p + k - 1] == s2[k - 1] and eqto(s, p, s2, k - 1))
def firstat(s, b, sz, s2, j) -> int: return -1 if j > sz - len(s2) else (j if eqfrom(s, b + j, s2, 0) else firstat(s, b, sz, s2, j + 1))
def hit(s, b, sz, s2, q, p) -> bool: return False if (p < q or q > sz - len(s2)) else ((p == q or hit(s, b, sz, s2, q + len(s2), p)) if eqfrom(s, b + q, s2, 0) else hit(s, b, sz, s2, q + 1, p))
def olen(loc, r, sz, ol, nl, q) -> int: return 0 if q >= sz else ((nl + olen(loc, r, sz, ol, nl, q + ol)) if loc[r, q] else (1 + olen(loc, r, sz, ol, nl, q + 1)))
def och(s, b, loc, r, sz, ol, new, nl, q, dq, p) -> int: return 0 if q >= sz else ((new[p - dq] if (dq <= p and p < dq + nl) else och(s, b, loc, r, sz, ol, new, nl, q + ol, dq + nl, p)) if loc[r, q] else (s[b + q] if p == dq else och(s, b, loc, r, sz, ol, new, nl, q + 1, dq + 1, p)))
def first_bad(pos, sz, ln, k) -> int: return -1 if k >= len(pos) else (k if badpos(pos, sz, ln, k) else first_bad(pos, sz, ln, k + 1))
def badpos(pos, sz, ln, k): return epos(pos, ln, k) >= sz or epos(pos, ln, k) < 0
def epos(pos, ln, k): return ln[k] + pos[k] if pos[k] < 0 else pos[k]
def s_lo(start, n): return max(start + n, 0) if start < 0 else start
def s_hi(stop, n): return min(stop + n, n) if stop < 0 else min(stop, n)
''',
    lemmas={
        "slen": ["implies(j <= sz, r <= sz)", "implies(j <= sz, r >= j)", "implies(j <= sz and r < sz, s[b + r] == 0)"],
        "rlen": ["r >= 0", "implies(j >= 0, r <= j)", "implies(r > 0, s[b + r - 1] != 0)"],
        "tlen": ["r >= 0", "implies(j >= 0, r <= j)", "implies(r > 0, s[b + r - 1] != 0 and s[b + r - 1] != rc)"],
        "olen": ["implies(nl >= 0, r >= 0)"],
    },
    measure={
        "slen": "sz - j",
        "rlen": "j",
        "tlen": "j",
        "member": "len(s2) - k",
        "firstany": "sz - j",
        "eqfrom": "len(s2) - k",
        "eqto": "k",
        "firstat": "sz - len(s2) + 1 - j",
        "first_bad": "len(pos) - k",
    },
    shift={"eqfrom": ("s", "p"), "eqto": ("s", "p")},
)
C = []
R = "(len(src) // itemsize)"
BASE = ["itemsize >= 1", f"len(src) == {R} * itemsize"]
CH = "int[]:uint32"


def k(name, params, requires, ensures, invariants, modifies, **kw):
    C.append(Contract(name, f"{F}::FAString.{name}", params, requires=BASE + requires, ensures=ensures, invariants=invariants, modifies=modifies, **kw))


SRC = [("src", CH), ("itemsize", "int")]
# ---- case mapping
k(
    "_nb_upper_inplace",
    SRC,
    [],
    ["forall(a, 0, len(src), src[a] == up(old(src)[a]))"],
    [
        (1, "forall(a, 0, it1 * itemsize, src[a] == up(old(src)[a]))"),
        (1, "forall(a, it1 * itemsize, len(src), src[a] == old(src)[a])"),
        (2, "forall(a, 0, it1 * itemsize + it2, src[a] == up(old(src)[a]))"),
        (2, "forall(a, it1 * itemsize + it2, len(src), src[a] == old(src)[a])"),
    ],
    ("src",),
)
for nm, fn in (("_nb_upper", "up"), ("_nb_lower", "lo")):
    k(
        nm,
        SRC + [("dest", CH)],
        ["len(dest) == len(src)"],
        [f"forall(a, 0, len(src), dest[a] == {fn}(src[a]))", "untouched(src)"],
        [
            (1, f"forall(a, 0, it1 * itemsize, dest[a] == {fn}(src[a]))"),
            (2, f"forall(a, 0, it1 * itemsize + it2, dest[a] == {fn}(src[a]))"),
        ],
        ("dest",),
    )
# ---- trailing removal: keep the first tlen code units of every row, zero the rest
RT = "(src[a] if a - rb(a, itemsize) < tlen(src, rb(a, itemsize), removechar, itemsize) else 0)"
RTI = "(src[it1 * itemsize + p] if p < tlen(src, it1 * itemsize, removechar, itemsize) else 0)"
k(
    "_nb_removetrailing",
    SRC + [("dest", CH), ("removechar", "int")],
    ["len(dest) == len(src)"],
    [f"forall(a, 0, len(src), dest[a] == {RT})", "untouched(src)"],
    [
        (1, f"forall(a, 0, it1 * itemsize, dest[a] == {RT})"),
        (2, f"forall(a, 0, it1 * itemsize, dest[a] == {RT})"),
        (2, f"forall(p, it2 + 1, itemsize, dest[it1 * itemsize + p] == {RTI})"),
        (2, "tlen(src, it1 * itemsize, removechar, itemsize) == tlen(src, it1 * itemsize, removechar, it2 + 1)"),
        (2, "it2 + 1 <= tlen(src, it1 * itemsize, removechar, itemsize)"),
    ],
    ("dest",),
)
# ---- reverse
SL = lambda b: f"slen(old(src), {b}, itemsize, 0)"
RV = f"(old(src)[rb(a, itemsize) + {SL('rb(a, itemsize)')} - 1 - (a - rb(a, itemsize))] if a - rb(a, itemsize) < {SL('rb(a, itemsize)')} else 0)"
RVI = f"(old(src)[it1 * itemsize + {SL('it1 * itemsize')} - 1 - p] if p < {SL('it1 * itemsize')} else 0)"
k(
    "_nb_reverse",
    SRC + [("dest", CH)],
    ["len(dest) == len(src)"],
    [f"forall(a, 0, len(src), dest[a] == {RV})", "untouched(src)"],
    [
        ((1, 2), f"forall(a, 0, it1 * itemsize, dest[a] == {RV})"),
        (2, f"slen(src, it1 * itemsize, itemsize, 0) == slen(src, it1 * itemsize, itemsize, strlen)"),
        (2, "strlen + srcpos == slen(src, it1 * itemsize, itemsize, 0)"),
        (2, "strlen <= itemsize"),
        (2, "srcpos <= itemsize"),
        (2, f"forall(p, strlen, slen(src, it1 * itemsize, itemsize, 0), dest[it1 * itemsize + p] == {RVI})"),
        (2, f"forall(p, 0, srcpos, dest[it1 * itemsize + p] == {RVI})"),
    ],
    ("dest",),
)
RVK = f"(old(src)[a] if a - rb(a, itemsize) >= {SL('rb(a, itemsize)')} else old(src)[rb(a, itemsize) + {SL('rb(a, itemsize)')} - 1 - (a - rb(a, itemsize))])"
RVKI = f"(old(src)[a] if a - it1 * itemsize >= {SL('it1 * itemsize')} else old(src)[it1 * itemsize + {SL('it1 * itemsize')} - 1 - (a - it1 * itemsize)])"
k(
    "_nb_reverse_inplace",
    SRC,
    [],
    [f"forall(a, 0, len(src), src[a] == {RVK})"],
    [
        ((1, 2), f"forall(a, 0, it1 * itemsize, src[a] == {RVK})"),
        (1, "forall(a, it1 * itemsize, len(src), src[a] == old(src)[a])"),
        (2, f"slen(old(src), it1 * itemsize, itemsize, 0) == slen(old(src), it1 * itemsize, itemsize, strlen)"),
        (2, "strlen <= itemsize"),
        (2, f"start + end == 2 * it1 * itemsize + {SL('it1 * itemsize')} - 1"),
        (2, f"start >= it1 * itemsize"),
        (2, f"start <= end + 1 or start == it1 * itemsize"),
        (2, f"forall(a, it1 * itemsize, start, src[a] == {RVKI})"),
        (2, f"forall(a, end + 1, it1 * itemsize + itemsize, src[a] == {RVKI})"),
        (2, "forall(a, start, end + 1, src[a] == old(src)[a])"),
        (2, "forall(a, it1 * itemsize + itemsize, len(src), src[a] == old(src)[a])"),
    ],
    ("src",),
)
# ---- length
k(
    "_nb_strlen",
    SRC + [("dest", "int[]")],
    [f"len(dest) >= {R}"],
    [f"forall(r, 0, {R}, dest[r] == slen(src, r * itemsize, itemsize, 0))", "untouched(src)"],
    [
        (1, "forall(r, 0, it1, dest[r] == slen(src, r * itemsize, itemsize, 0))"),
        (2, "slen(src, it1 * itemsize, itemsize, 0) == slen(src, it1 * itemsize, itemsize, strlen)"),
        (2, "strlen <= itemsize"),
    ],
    ("dest",),
)
S2 = [("str2", CH)]
# ---- searching
k(
    "_nb_index_any_of",
    SRC + [("dest", "int[]")] + S2,
    [f"len(dest) >= {R}"],
    [f"forall(r, 0, {R}, dest[r] == firstany(src, r * itemsize, itemsize, str2, 0))", "untouched(src)", "untouched(str2)"],
    [
        ((1, 2, 3), "forall(r, 0, it1, dest[r] == firstany(src, r * itemsize, itemsize, str2, 0))"),
        (2, "firstany(src, it1 * itemsize, itemsize, str2, 0) == firstany(src, it1 * itemsize, itemsize, str2, it2)"),
        ((2, 3), "found == 0"),
        (3, "member(str2, src[it1 * itemsize + it2], 0) == member(str2, src[it1 * itemsize + it2], it3)"),
    ],
    ("dest",),
)
C.append(
    Contract(
        "_str_equal",
        f"{F}::_str_equal",
        [("str1", CH), ("str2", CH)],
        requires=["len(str1) >= len(str2)"],
        ensures=["iff(result, eqfrom(str1, 0, str2, 0))"],
        invariants=["eqfrom(str1, 0, str2, 0) == eqfrom(str1, 0, str2, it)"],
        result="bool",
    )
)
EQF = "eqfrom"
k(
    "_nb_index",
    SRC + [("dest", "int[]")] + S2,
    [f"len(dest) >= {R}", "len(str2) >= 1"],
    [f"forall(r, 0, {R}, dest[r] == firstat(src, r * itemsize, itemsize, str2, 0))", "untouched(src)"],
    [
        ((1, 2), "forall(r, 0, it1, dest[r] == firstat(src, r * itemsize, itemsize, str2, 0))"),
        (2, "dest[it1] == -1"),
        (2, "firstat(src, it1 * itemsize, itemsize, str2, 0) == firstat(src, it1 * itemsize, itemsize, str2, it2)"),
    ],
    ("dest",),
)
k(
    "_nb_contains",
    SRC + [("dest", "bool[]")] + S2,
    [f"len(dest) >= {R}", "len(str2) >= 1"],
    [f"forall(r, 0, {R}, dest[r] == (firstat(src, r * itemsize, itemsize, str2, 0) >= 0))", "untouched(src)"],
    [
        ((1, 2), "forall(r, 0, it1, dest[r] == (firstat(src, r * itemsize, itemsize, str2, 0) >= 0))"),
        (2, "dest[it1] == False"),
        (2, "firstat(src, it1 * itemsize, itemsize, str2, 0) == firstat(src, it1 * itemsize, itemsize, str2, it2)"),
    ],
    ("dest",),
)
k(
    "_nb_find",
    SRC + [("dest", "bool[,]")] + S2,
    [f"dest.shape[0] >= {R}", "dest.shape[1] == itemsize", "len(str2) >= 1", "forall((r, p), 0 <= r and 0 <= p, not dest[r, p])"],
    [f"forall((r, p), 0 <= r and r < {R} and 0 <= p and p < itemsize, dest[r, p] == hit(src, r * itemsize, itemsize, str2, 0, p))", "untouched(src)"],
    [
        ((1, 2), "forall((r, p), 0 <= r and r < it1 and 0 <= p and p < itemsize, dest[r, p] == hit(src, r * itemsize, itemsize, str2, 0, p))"),
        (1, "forall((r, p), r >= it1 and 0 <= p and p < itemsize, not dest[r, p])"),
        (2, "forall((r, p), r > it1 and 0 <= p and p < itemsize, not dest[r, p])"),
        (2, "forall(p, 0, itemsize, dest[it1, p] == (hit(src, it1 * itemsize, itemsize, str2, 0, p) if p < str_pos else False))"),
        (2, "forall(p, str_pos, itemsize, hit(src, it1 * itemsize, itemsize, str2, 0, p) == hit(src, it1 * itemsize, itemsize, str2, str_pos, p))"),
    ],
    ("dest",),
)
k(
    "_nb_startswith",
    SRC + [("dest", "bool[]")] + S2,
    [f"len(dest) >= {R}"],
    [f"forall(r, 0, {R}, dest[r] == (itemsize >= len(str2) and eqfrom(src, r * itemsize, str2, 0)))", "untouched(src)"],
    [
        ((1, 2), "forall(r, 0, it1, dest[r] == (itemsize >= len(str2) and eqfrom(src, r * itemsize, str2, 0)))"),
        (2, "dest[it1] == False"),
        (2, "eqfrom(src, it1 * itemsize, str2, 0) == eqfrom(src, it1 * itemsize, str2, k)"),
        (2, "eqfrom(src, it1 * itemsize, str2, 0) == (meta_ok and eqfrom(src, it1 * itemsize, str2, k))"),
        (2, "k <= len(str2)"),
    ],
    ("dest",),
)
RL = lambda b: f"rlen(src, {b}, itemsize)"
ENDS = lambda b: f"({RL(b)} >= len(str2) and eqto(src, {b} + {RL(b)} - len(str2), str2, len(str2)))"
k(
    "_nb_endswith",
    SRC + [("dest", "bool[]")] + S2,
    [f"len(dest) >= {R}"],
    [f"forall(r, 0, {R}, dest[r] == {ENDS('r * itemsize')})", "untouched(src)"],
    [
        ((1, 2), f"forall(r, 0, it1, dest[r] == {ENDS('r * itemsize')})"),
        (2, "dest[it1] == False"),
        (2, f"rlen(src, it1 * itemsize, itemsize) == rlen(src, it1 * itemsize, k)"),
        (2, "k <= itemsize"),
        (2, f"eqto(src, it1 * itemsize + {RL('it1 * itemsize')} - len(str2), str2, len(str2)) == eqto(src, it1 * itemsize + {RL('it1 * itemsize')} - len(str2), str2, k2)"),
        (2, f"k - k2 == {RL('it1 * itemsize')} - len(str2)"),
        (2, "k2 <= len(str2)"),
    ],
    ("dest",),
)
OCH = lambda r, q, dq, p: f"och(src, {r} * itemsize, locations, {r}, itemsize, len(old), new, (0 if (len(new) == 1 and new[0] == 0) else len(new)), {q}, {dq}, {p})"
NL = "(0 if (len(new) == 1 and new[0] == 0) else len(new))"
OLEN = lambda r, q: f"olen(locations, {r}, itemsize, len(old_), {NL}, {q})"
OCH = lambda r, q, dq, p: f"och(src, {r} * itemsize, locations, {r}, itemsize, len(old_), new, {NL}, {q}, {dq}, {p})"
k(
    "_nb_replace",
    SRC + [("dest", CH), ("dest_itemsize", "int"), ("old_", CH), ("new", CH), ("locations", "bool[,]")],
    [
        "dest_itemsize >= 0",
        f"len(dest) == {R} * dest_itemsize",
        f"locations.shape[0] == {R}",
        "locations.shape[1] == itemsize",
        "len(old_) >= 1",
        "len(new) >= 1",
        f"forall(r, 0, {R}, {OLEN('r', '0')} <= dest_itemsize)",
        "forall(a, 0, len(dest), dest[a] == 0)",
    ],
    [f"forall((r, p), 0 <= r and r < {R} and 0 <= p and p < dest_itemsize, dest[r * dest_itemsize + p] == {OCH('r', '0', '0', 'p')})", "untouched(src)"],
    [
        ((1, 2), f"forall((r, p), 0 <= r and r < it1 and 0 <= p and p < dest_itemsize, dest[r * dest_itemsize + p] == {OCH('r', '0', '0', 'p')})"),
        (1, "forall(a, it1 * dest_itemsize, len(dest), dest[a] == 0)"),
        (2, "forall(a, dest_pos, len(dest), dest[a] == 0)"),
        (2, f"dest_pos - it1 * dest_itemsize + {OLEN('it1', 'src_pos')} == {OLEN('it1', '0')}"),
        (2, "src_pos >= 0"),
        (2, "dest_pos >= it1 * dest_itemsize"),
        (2, f"forall(p, 0, dest_pos - it1 * dest_itemsize, dest[it1 * dest_itemsize + p] == {OCH('it1', '0', '0', 'p')})"),
        (2, f"forall(p, dest_pos - it1 * dest_itemsize, dest_itemsize, {OCH('it1', '0', '0', 'p')} == {OCH('it1', 'src_pos', 'dest_pos - it1 * dest_itemsize', 'p')})"),
    ],
    ("dest",),
)
k(
    "_nb_char",
    [("src", CH), ("position", "int[]"), ("itemsize", "int"), ("strlen", "int[]"), ("out", CH)],
    [f"len(position) == {R}", f"len(strlen) == {R}", f"len(out) == {R}"],
    [
        "result == first_bad(position, itemsize, strlen, 0)",
        f"forall(r, 0, {R}, out[r] == (0 if badpos(position, itemsize, strlen, r) else src[r * itemsize + epos(position, strlen, r)]))",
        "untouched(src)",
    ],
    [
        "forall(r, 0, it1, out[r] == (0 if badpos(position, itemsize, strlen, r) else src[r * itemsize + epos(position, strlen, r)]))",
        "first_bad(position, itemsize, strlen, 0) == (first_bad(position, itemsize, strlen, it1) if broken_at == len(position) else broken_at)",
        "broken_at == len(position) or broken_at < it1",
    ],
    ("out",),
)


def _sol(ex, st, args, kw, e):
    x, i = args
    if isinstance(x, ArrRef):
        i = ex.norm_index(st, i, ex.length(st, x), e, None)
        return ex.reader(st, x)(i)
    return x


for suffix, ty, acc in (("scalar", "int", lambda n, r: n), ("array", "int[]", lambda n, r: f"{n}[{r}]")):
    lo_ = lambda r: f"s_lo({acc('start_', r)}, strlen[{r}])"
    hi_ = lambda r: f"s_hi({acc('stop_', r)}, strlen[{r}])"
    cell = lambda r, p: f"(src[{r} * itemsize + {lo_(r)} + {p}] if {p} < {hi_(r)} - {lo_(r)} else 0)"
    C.append(
        Contract(
            f"_nb_substr[{suffix}]",
            f"{F}::FAString._nb_substr",
            [("src", CH), ("out", "int[,]:uint32"), ("itemsize", "int"), ("start_", ty), ("stop_", ty), ("strlen", "int[]")],
            requires=[
                "itemsize >= 1",
                f"len(src) == {R} * itemsize",
                f"out.shape[0] == {R}",
                "out.shape[1] == itemsize",
                f"len(strlen) == {R}",
                f"forall(r, 0, {R}, 0 <= strlen[r] and strlen[r] <= itemsize)",
                f"forall((r, p), 0 <= r and 0 <= p, out[r, p] == 0)",
            ]
            + ([f"len(start_) == {R}", f"len(stop_) == {R}"] if suffix == "array" else []),
            ensures=[
                f"forall((r, p), 0 <= r and r < {R} and 0 <= p and p < itemsize, out[r, p] == {cell('r', 'p')})",
                f"forall(r, 0, {R}, {hi_('r')} - {lo_('r')} <= result.shape[1])",
                "result.shape[1] == 0 or exists(r, 0, len(strlen), " + f"{hi_('r')} - {lo_('r')} == result.shape[1])",
                f"result.shape[0] == {R}",
                f"forall((r, p), 0 <= r and r < {R} and 0 <= p and p < result.shape[1], result[r, p] == out[r, p])",
            ],
            invariants=[
                ((1, 2), f"forall((r, p), 0 <= r and r < it1 and 0 <= p and p < itemsize, out[r, p] == {cell('r', 'p')})"),
                (1, "forall((r, p), r >= it1 and 0 <= p and p < itemsize, out[r, p] == 0)"),
                (2, "forall((r, p), r > it1 and 0 <= p and p < itemsize, out[r, p] == 0)"),
                ((1, 2), f"forall(r, 0, it1, {hi_('r')} - {lo_('r')} <= max_chars)"),
                (1, "max_chars == 0 or exists(r, 0, it1, " + f"{hi_('r')} - {lo_('r')} == max_chars)"),
                (2, f"max_chars == 0 or exists(r, 0, it1, {hi_('r')} - {lo_('r')} == max_chars) or max_chars == it2"),
                ((1, 2), "max_chars <= itemsize"),
                (2, "max_chars >= it2"),
                (2, f"forall(p, 0, itemsize, out[it1, p] == ({cell('it1', 'p')} if p < it2 else 0))"),
            ],
            models={"scalar_or_lookup": _sol},
            modifies=("out",),
        )
    )
REG = {(F, "_str_equal"): [c for c in C if c.name == "_str_equal"][0]}
