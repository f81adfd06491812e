"""Contracts for the numba grouped fill kernels (riptable/rt_groupbynumba.py)."""
from pyvc.symex import Contract, SpecLib

F = "riptable/rt_groupbynumba.py"
SPECS = SpecLib("", {}, {})
C = []

# ---- grouped fill: every group is filled on its own, from the last (next) valid row of the same group
GSP = """
def ginv(x, inv): return isnan(x) or x == inv
def glast(a, ig, inv, s, p) -> int: return s - 1 if p < s else (p if not ginv(a[ig[p]], inv) else glast(a, ig, inv, s, p - 1))
def gnext(a, ig, inv, p, e) -> int: return e if p >= e else (p if not ginv(a[ig[p]], inv) else gnext(a, ig, inv, p + 1, e))
def gf_src(a, ig, inv, fv, s, p): return fv if glast(a, ig, inv, s, p) < s else a[ig[glast(a, ig, inv, s, p)]]
def gb_src(a, ig, inv, fv, p, e): return fv if gnext(a, ig, inv, p, e) >= e else a[ig[gnext(a, ig, inv, p, e)]]
def gfwd(a, ig, inv, fv, lim, s, p): return gf_src(a, ig, inv, fv, s, p) if lim <= 0 or p - glast(a, ig, inv, s, p) <= lim else a[ig[p]]
def gbwd(a, ig, inv, fv, lim, p, e): return gb_src(a, ig, inv, fv, p, e) if lim <= 0 or gnext(a, ig, inv, p, e) - p <= lim else a[ig[p]]
"""
SPECS.src += GSP
SPECS.measure.update({"glast": "p - s + 1", "gnext": "e - p"})
SPECS.lemmas.update(
    {
        "glast": ["implies(p >= s - 1, r >= s - 1 and r <= p)", "implies(p >= s - 1 and r >= s, not ginv(a[ig[r]], inv))"],
        "gnext": ["implies(p <= e, r <= e and r >= p)", "implies(p <= e and r < e, not ginv(a[ig[r]], inv))"],
    }
)
SPECS.__init__(SPECS.src, SPECS.lemmas, SPECS.measure)
# iGroup lists each row once; group g owns the positions [iFirstGroup[g], iFirstGroup[g] + nCountGroup[g]);
# grp[p] is the group owning position p and pos[r] the position of row r (ghosts)
SEG = lambda lo, hi: [
    "len(iFirstGroup) == len(nCountGroup)",
    f"0 <= {lo} and {hi} <= len(iFirstGroup)",
    "len(pos) == len(data) and len(grp) == len(iGroup)",
    "forall(p, 0, len(iGroup), iGroup[p] >= 0 and iGroup[p] < len(data) and pos[iGroup[p]] == p)",
    "forall(g, 0, len(iFirstGroup), iFirstGroup[g] >= 0 and nCountGroup[g] >= 0 and iFirstGroup[g] + nCountGroup[g] <= len(iGroup))",
    "forall(p, 0, len(iGroup), grp[p] >= 0 and grp[p] < len(iFirstGroup) and iFirstGroup[grp[p]] <= p and p < iFirstGroup[grp[p]] + nCountGroup[grp[p]])",
    "forall(g, 0, len(iFirstGroup), forall(p, iFirstGroup[g], iFirstGroup[g] + nCountGroup[g], grp[p] == g))",
]
for kind, direction, inplace in [(k, d, i) for k in ("int", "float") for d in (1, -1) for i in (False, True)]:
        inv = "INV" if kind == "int" else "NAN"
        D = "old(data)" if inplace else "data"
        S0, E0 = "iFirstGroup[grp[p]]", "(iFirstGroup[grp[p]] + nCountGroup[grp[p]])"
        st, en = "iFirstGroup[it1]", "(iFirstGroup[it1] + nCountGroup[it1])"
        if direction == 1:
            val = f"gfwd({D}, iGroup, {inv}, fill_val, limit, {S0}, p)"
            vin = f"gfwd({D}, iGroup, {inv}, fill_val, limit, {st}, p)"
            inner = [
                f"forall(p, {st}, it2, same(ret[iGroup[p]], {vin}))",
                f"same(last_valid, gf_src({D}, iGroup, {inv}, fill_val, {st}, it2 - 1))",
                f"counter == max(0, limit - (it2 - 1 - glast({D}, iGroup, {inv}, {st}, it2 - 1)))",
            ]
        else:
            val = f"gbwd({D}, iGroup, {inv}, fill_val, limit, p, {E0})"
            vin = f"gbwd({D}, iGroup, {inv}, fill_val, limit, p, {en})"
            inner = [
                f"forall(p, it2 + 1, {en}, same(ret[iGroup[p]], {vin}))",
                f"same(last_valid, gb_src({D}, iGroup, {inv}, fill_val, it2 + 1, {en}))",
                f"counter == max(0, limit - (gnext({D}, iGroup, {inv}, it2 + 1, {en}) - (it2 + 1)))",
            ]
        C.append(
            Contract(
                f"_numba_fill_direction[{kind},{direction}{',inplace' if inplace else ''}]",
                f"{F}::GroupbyNumba._numba_fill_direction",
                [
                    ("direction", f"const:{direction}"),
                    ("iGroup", "int[]"),
                    ("iFirstGroup", "int[]"),
                    ("nCountGroup", "int[]"),
                    ("binLow", "int"),
                    ("binHigh", "int"),
                    ("data", kind + "[]"),
                    ("ret", "alias:data" if inplace else kind + "[]"),
                    ("fill_val", kind),
                    ("limit", "int"),
                ],
                ghosts=[("INV", "int"), ("grp", "int[]"), ("pos", "int[]")],
                requires=SEG("binLow", "binHigh") + ["len(ret) == len(data)", "binLow <= binHigh"],
                ensures=[f"forall(p, 0, len(iGroup), implies(binLow <= grp[p] and grp[p] < binHigh, same(ret[iGroup[p]], {val})))"] + ([] if inplace else ["untouched(data)"]),
                invariants=[
                    ((1, 2), f"forall(p, 0, len(iGroup), implies(binLow <= grp[p] and grp[p] < it1, same(ret[iGroup[p]], {val})))"),
                    *[(2, x) for x in inner],
                    *([(1, "forall(p, 0, len(iGroup), implies(grp[p] >= it1, same(data[iGroup[p]], old(data)[iGroup[p]])))"),
                       (2, "forall(p, 0, len(iGroup), implies(grp[p] > it1, same(data[iGroup[p]], old(data)[iGroup[p]])))"),
                       (2, f"forall(p, it2, {en}, same(data[iGroup[p]], old(data)[iGroup[p]]))" if direction == 1 else f"forall(p, {st}, it2 + 1, same(data[iGroup[p]], old(data)[iGroup[p]]))")] if inplace else []),
                ],
                modifies=("ret", "data") if inplace else ("ret",),
                binds={"NAN": float("nan")},
                models={"is_valid": (lambda ex, st, args, kw, e: ~args[0].nan if hasattr(args[0], "nan") else args[0] != ex.paramvals["INV"])},
            )
        )


# ---- the NaN-only variants used by grpFillForward / grpFillBackward (groups 1..)
for word, direction in (("Forward", 1), ("Backward", -1)):
    S0, E0 = "iFirstGroup[grp[p]]", "(iFirstGroup[grp[p]] + nCountGroup[grp[p]])"
    st, en = "iFirstGroup[it1]", "(iFirstGroup[it1] + nCountGroup[it1])"
    nc = "nCountGroup[it1]"
    if direction == 1:
        val = f"gfwd(data, iGroup, NAN, NAN, 0, {S0}, p)"
        inner = [
            f"forall(k, 0, it2, same(rows[k], gfwd(data, iGroup, NAN, NAN, 0, {st}, {st} + k)))",
            f"forall(k, it2, {nc}, same(rows[k], data[iGroup[{st} + k]]))",
            f"same(fill, gf_src(data, iGroup, NAN, NAN, {st}, {st} + it2 - 1))",
        ]
    else:
        val = f"gbwd(data, iGroup, NAN, NAN, 0, p, {E0})"
        inner = [
            f"forall(k, {nc} - it2, {nc}, same(rows[k], gbwd(data, iGroup, NAN, NAN, 0, {st} + k, {en})))",
            f"forall(k, 0, {nc} - it2, same(rows[k], data[iGroup[{st} + k]]))",
            f"same(fill, gb_src(data, iGroup, NAN, NAN, {en} - it2, {en}))",
        ]
    C.append(
        Contract(
            f"_numbaFill{word}",
            f"{F}::GroupbyNumba._numbaFill{word}",
            [("iGroup", "int[]"), ("iFirstGroup", "int[]"), ("nCountGroup", "int[]"), ("data", "float[]"), ("ret", "float[]")],
            ghosts=[("grp", "int[]"), ("pos", "int[]")],
            requires=SEG("0", "len(iFirstGroup)") + ["len(ret) == len(data)"],
            ensures=[f"forall(p, 0, len(iGroup), implies(grp[p] >= 1, same(ret[iGroup[p]], {val})))", "untouched(data)"],
            invariants=[
                (1, f"forall(p, 0, len(iGroup), implies(grp[p] >= 1 and grp[p] < it1, same(ret[iGroup[p]], {val})))"),
                *[(2, x) for x in inner],
            ],
            modifies=("ret",),
            binds={"NAN": float("nan")},
        )
    )
