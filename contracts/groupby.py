"""Contracts for the numba group-by kernels (riptable/rt_groupbynumba.py, rt_categorical.py)."""
from pyvc.symex import Contract, SpecLib

F = "riptable/rt_groupbynumba.py"
SPECS = SpecLib(
    """
def gsum(data, ikey, g, k) -> int: return 0 if k <= 0 else gsum(data, ikey, g, k - 1) + (data[k - 1] if ikey[k - 1] == g else 0)
def gsumf(data, ikey, g, k) -> float: return 0.0 if k <= 0 else (gsumf(data, ikey, g, k - 1) + data[k - 1] if ikey[k - 1] == g else gsumf(data, ikey, g, k - 1))
""",
    measure={"gsum": "k", "gsumf": "k"},
)
C = []

# ---- division of the groups among cores: contiguous, disjoint, complete
C.append(
    Contract(
        "build_core_list",
        f"{F}::build_core_list",
        [("cores", "int"), ("unique_rows", "int"), ("binLow", "int[]"), ("binHigh", "int[]")],
        requires=["cores > 0", "unique_rows >= 0", "len(binLow) == cores", "len(binHigh) == cores"],
        ensures=[
            "binLow[0] == 0",
            "binHigh[cores - 1] == unique_rows",
            "forall(i, 0, cores, binLow[i] <= binHigh[i])",
            "forall(i, 0, cores - 1, binHigh[i] == binLow[i + 1])",
        ],
        invariants=[
            "low == it * (unique_rows // cores) + (unique_rows % cores) - remainder",
            "remainder >= 0 and remainder <= unique_rows % cores",
            "implies(remainder > 0, remainder == unique_rows % cores - it)",
            "implies(remainder == 0, it >= unique_rows % cores)",
            "implies(it > 0, binLow[0] == 0)",
            "implies(it == 0, low == 0)",
            "implies(it > 0, binHigh[it - 1] == low)",
            "forall(i, 0, it, binLow[i] <= binHigh[i])",
            "forall(i, 0, it - 1, binHigh[i] == binLow[i + 1])",
        ],
        modifies=("binLow", "binHigh"),
    )
)
BINS = [
    "len(binLow) == len(binHigh)",
    "forall(c, 0, len(binLow), 0 <= binLow[c] and binLow[c] <= binHigh[c] and binHigh[c] <= len(ret))",
    "forall(c, 0, len(binLow), forall(d, c + 1, len(binLow), binHigh[c] <= binLow[d]))",
]
for kind in ("int", "float"):
    fn = "gsum" if kind == "int" else "gsumf"
    eq = lambda a, b: f"same({a}, {b})" if kind == "float" else f"{a} == {b}"
    S = lambda g, k: f"{fn}(data, ikey, {g}, {k})"
    C.append(
        Contract(
            f"_numbasum[{kind}]",
            f"{F}::GroupbyNumba._numbasum",
            [("ikey", "int[]"), ("unique_rows", "int"), ("binLow", "int[]"), ("binHigh", "int[]"), ("data", kind + "[]"), ("ret", kind + "[]")],
            requires=BINS + ["len(data) == len(ikey)"],
            ensures=[f"forall(c, 0, len(binLow), forall(g, binLow[c], binHigh[c], {eq('ret[g]', S('g', 'len(ikey)'))}))", "untouched(data)", "untouched(ikey)"],
            invariants=[
                ((1, 2), f"forall(c, 0, it1, forall(g, binLow[c], binHigh[c], {eq('ret[g]', S('g', 'len(ikey)'))}))"),
                (2, f"forall(g, binLow[it1], it2, {eq('ret[g]', '0')})"),
                (2, f"forall(g, binLow[it1], binHigh[it1], {eq('ret[g]', S('g', 'it2'))})"),
            ],
            modifies=("ret",),
        )
    )

# ---- per-group kernels over (iGroup, iFirstGroup, nCountGroup)
SPECS.src += """
def fexp(x) -> float: return np.exp(x)
def gema(d, t, ig, r, s, p) -> float: return 0.0 if p < s else d[ig[p]] + gema(d, t, ig, r, s, p - 1) * np.exp(-r * (t[ig[p]] - t[ig[p - 1 if p > s else s]]))
"""
SPECS.measure["gema"] = "p - s + 1"
SPECS.__init__(SPECS.src, SPECS.lemmas, SPECS.measure)
from contracts.groupfill import SEG

GI = [("iGroup", "int[]"), ("iFirstGroup", "int[]"), ("nCountGroup", "int[]")]
GH = [("grp", "int[]"), ("pos", "int[]")]
S0 = "iFirstGroup[grp[p]]"
ST = "iFirstGroup[it1]"
val = f"gema(data, time, iGroup, decayRate, {S0}, p)"
C.append(
    Contract(
        "_numbaEMA",
        f"{F}::GroupbyNumba._numbaEMA",
        GI + [("binLow", "int"), ("binHigh", "int"), ("data", "float[]"), ("ret", "float[]"), ("time", "float[]"), ("decayRate", "float")],
        ghosts=GH,
        # the kernel reads time[iGroup[start]] of every group, so iFirstGroup of an empty group must still be a position
        requires=SEG("binLow", "binHigh") + ["len(ret) == len(data)", "len(time) == len(data)", "binLow <= binHigh", "forall(g, binLow, binHigh, iFirstGroup[g] < len(iGroup))"],
        ensures=[f"forall(p, 0, len(iGroup), implies(binLow <= grp[p] and grp[p] < binHigh, same(ret[iGroup[p]], {val})))", "untouched(data)", "untouched(time)"],
        invariants=[
            ((1, 2), f"forall(p, 0, len(iGroup), implies(binLow <= grp[p] and grp[p] < it1, same(ret[iGroup[p]], {val})))"),
            (2, f"forall(p, {ST}, it2, same(ret[iGroup[p]], gema(data, time, iGroup, decayRate, {ST}, p)))"),
            (2, f"same(lastEma, gema(data, time, iGroup, decayRate, {ST}, it2 - 1))"),
            (2, f"same(lastTime, time[iGroup[it2 - 1 if it2 > {ST} else {ST}]])"),
        ],
        modifies=("ret",),
    )
)

# ---- numba_apply: the user function sees exactly the rows of one group, in order, and its result goes to that group
K = "riptable/rt_categorical.py"


def userfunc(scalar):
    def model(ex, st, args, kw, e):
        import z3
        from pyvc import symex as sx
        from pyvc.logic import FAll

        a = args[0]
        m, ra = ex.length(st, a), ex.reader(st, a)
        P = ex.paramvals
        U = P["U"]  # ghost: value of userfunc on the rows of group g (at position k)
        data, ig, fi, nc = P["args"].xs[0], P["iGroup"], P["iFirstGroup"], P["nCountGroup"]
        rd, rig, rfi, rnc = (ex.reader(st, x) for x in (data, ig, fi, nc))
        rU = ex.reader(st, U)
        same_rows = lambda g: sx.f_and(sx.z3i(m) == rnc(g), FAll(1, lambda k: sx.f_imp(z3.And(k >= 0, k < sx.z3i(m)), sx.same(ra(k), rd(rig(rfi(g) + k))))))
        n = ex.length(st, fi)
        if scalar:
            r = sx.fresh_val("float", "ures")
            st.assume(FAll(1, lambda g: sx.f_imp(sx.f_and(g >= 0, g < sx.z3i(n), same_rows(g)), sx.same(r, rU(g, 0)))))
            return r
        ref = ex.alloc(st, sx.fresh_arr("float", (m,), "ures"))
        rr = ex.reader(st, ref)
        st.assume(
            FAll(
                2,
                lambda g, k: sx.f_imp(sx.f_and(g >= 0, g < sx.z3i(n), same_rows(g), k >= 0, k < sx.z3i(m)), sx.same(rr(k), rU(g, k))),
            )
        )
        return ref

    return model


def argtup(ex, st, pn):
    from pyvc import symex as sx

    return sx.Tup([ex.mk_param(st, "args0", "float[]")])


def ufunc(ex, st, pn):
    from pyvc import symex as sx

    return sx.Ext("userfunc")


NROW = "len(iGroup)"
SEGA = [r.replace("len(data)", "len(args[0])") for r in SEG("0", "len(iFirstGroup)")] + ["len(iFirstGroup) > 0", "len(args[0]) == len(iGroup)"]
for name, scalar, ens, invs in (
    (
        "_scalar_compiled_numba_apply",
        True,
        ["len(result) == len(iFirstGroup) - 1", "forall(g, 1, len(iFirstGroup), same(result[g - 1], U[g, 0]))"],
        [(1, "forall(g, 1, it1, same(res[g - 1], U[g, 0]))")],
    ),
    (
        "_transformed_scalar_compiled_numba_apply",
        True,
        ["len(result) == len(iGroup)", "forall(p, 0, len(iGroup), same(result[iGroup[p]], U[grp[p], 0] if grp[p] >= 1 else NAN))"],
        [
            ((1, 2), "forall(p, 0, len(iGroup), same(res[iGroup[p]], U[grp[p], 0] if grp[p] >= 1 and grp[p] < it1 else res[iGroup[p]]))"),
            (1, "forall(p, 0, len(iGroup), implies(grp[p] < 1 or grp[p] >= it1, isnan(res[iGroup[p]])))"),
            (2, "forall(p, 0, len(iGroup), implies(grp[p] < 1 or grp[p] > it1, isnan(res[iGroup[p]])))"),
            (2, "forall(p, iFirstGroup[it1], iFirstGroup[it1] + it2, same(res[iGroup[p]], U[it1, 0]))"),
        ],
    ),
    (
        "_array_compiled_numba_apply",
        False,
        ["len(result) == len(iGroup)", "forall(p, 0, len(iGroup), same(result[iGroup[p]], U[grp[p], p - iFirstGroup[grp[p]]] if grp[p] >= 1 else NAN))"],
        [
            ((1, 2), "forall(p, 0, len(iGroup), same(res[iGroup[p]], U[grp[p], p - iFirstGroup[grp[p]]] if grp[p] >= 1 and grp[p] < it1 else res[iGroup[p]]))"),
            (1, "forall(p, 0, len(iGroup), implies(grp[p] < 1 or grp[p] >= it1, isnan(res[iGroup[p]])))"),
            (2, "forall(p, 0, len(iGroup), implies(grp[p] < 1 or grp[p] > it1, isnan(res[iGroup[p]])))"),
            (2, "forall(p, iFirstGroup[it1], iFirstGroup[it1] + it2, same(res[iGroup[p]], U[it1, p - iFirstGroup[it1]]))"),
        ],
    ),
):
    C.append(
        Contract(
            name,
            f"{K}::Categorical.{name}",
            GI + [("userfunc", ufunc), ("args", argtup)],
            ghosts=GH + [("U", "float[,]")],
            requires=SEGA,
            ensures=ens + ["untouched(iGroup)"],
            invariants=invs,
            models={"userfunc": userfunc(scalar)},
            binds={"NAN": float("nan")},
        )
    )
