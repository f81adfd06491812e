"""Contracts for gap filling and running extremes (riptable/rt_fastarraynumba.py)."""
from pyvc.symex import Contract, SpecLib

F = "riptable/rt_fastarraynumba.py"
SPECS = SpecLib(
    '''
def inval(x, inv): return isnan(x) or x == inv
def lastv(a, inv, k) -> int: return -1 if k < 0 else (k if not inval(a[k], inv) else lastv(a, inv, k - 1))
def nextv(a, inv, k, n) -> int: return n if k >= n else (k if not inval(a[k], inv) else nextv(a, inv, k + 1, n))
def fwd_src(a, inv, fv, k): return fv if lastv(a, inv, k) < 0 else a[lastv(a, inv, k)]
def bwd_src(a, inv, fv, k, n): return fv if nextv(a, inv, k, n) >= n else a[nextv(a, inv, k, n)]
def fwd(a, inv, fv, lim, k): return fwd_src(a, inv, fv, k) if lim <= 0 or k - lastv(a, inv, k) <= lim else a[k]
def bwd(a, inv, fv, lim, k, n): return bwd_src(a, inv, fv, k, n) if lim <= 0 or nextv(a, inv, k, n) - k <= lim else a[k]
''',
    lemmas={
        "lastv": ["r >= -1", "implies(k >= -1, r <= k)", "implies(r >= 0, not inval(a[r], inv))"],
        "nextv": ["implies(k <= n, r <= n)", "implies(k <= n, r >= k)", "implies(k >= 0 and r < n, not inval(a[r], inv))"],
    },
    measure={"lastv": "k + 1", "nextv": "n - k"},
)
C = []


def fill(name, kind, direction):
    inv = "inv" if kind == "int" else "0.5"
    isf = kind == "float"
    params = [("arr", kind + "[]")] + ([] if isf else [("inv", "int")]) + [("fill_val", kind), ("limit", "int")]
    # for floats invalid means NaN: inval(x, inv) with an inv no element equals is expressed by passing nan
    inv = "inv" if not isf else "NAN"
    if direction == "f":
        spec = lambda k: f"fwd(old(arr), {inv}, fill_val, limit, {k})"
        invs = [
            f"forall(k, 0, it, same(arr[k], {spec('k')}))",
            "forall(k, it, len(arr), same(arr[k], old(arr)[k]))",
            f"same(lastgood, fwd_src(old(arr), {inv}, fill_val, it - 1))",
            f"counter == max(0, limit - (it - 1 - lastv(old(arr), {inv}, it - 1)))",
            f"limit <= 0 or counter == max(0, limit - (it - 1 - lastv(old(arr), {inv}, it - 1)))",
        ]
    else:
        spec = lambda k: f"bwd(old(arr), {inv}, fill_val, limit, {k}, len(arr))"
        invs = [
            f"forall(k, it + 1, len(arr), same(arr[k], {spec('k')}))",
            "forall(k, 0, it + 1, same(arr[k], old(arr)[k]))",
            f"same(lastgood, bwd_src(old(arr), {inv}, fill_val, it + 1, len(arr)))",
            f"counter == max(0, limit - (nextv(old(arr), {inv}, it + 1, len(arr)) - (it + 1)))",
            f"limit <= 0 or counter == max(0, limit - (nextv(old(arr), {inv}, it + 1, len(arr)) - (it + 1)))",
        ]
    C.append(
        Contract(
            name,
            f"{F}::{name}",
            params,
            ensures=[f"forall(k, 0, len(arr), same(arr[k], {spec('k')}))"],
            invariants=invs,
            modifies=("arr",),
            binds={"NAN": float("nan")},
        )
    )


fill("fill_forward_int", "int", "f")
fill("fill_forward_float", "float", "f")
fill("fill_backward_int", "int", "b")
fill("fill_backward_float", "float", "b")

# ------------------------------------------------------------------ running extremes
for op, sym in (("min", "<"), ("max", ">")):
    for kind in ("int", "float"):
        SPECS.src += f"""
def c{op}{kind[0]}(a, inv, k) -> {kind}: return inv if k < 0 else (c{op}{kind[0]}(a, inv, k - 1) if inval(a[k], inv) or (not inval(c{op}{kind[0]}(a, inv, k - 1), inv) and not (a[k] {sym} c{op}{kind[0]}(a, inv, k - 1))) else a[k])
def s{op}{kind[0]}(a, inv, k) -> {kind}: return a[0] if k <= 0 else (a[k] if (not inval(s{op}{kind[0]}(a, inv, k - 1), inv)) and (inval(a[k], inv) or a[k] {sym} s{op}{kind[0]}(a, inv, k - 1)) else s{op}{kind[0]}(a, inv, k - 1))
"""
        SPECS.measure[f"c{op}{kind[0]}"] = "k + 1"
        SPECS.measure[f"s{op}{kind[0]}"] = "k"
        inv = "inv" if kind == "int" else "NAN"
        c_, s_ = f"c{op}{kind[0]}", f"s{op}{kind[0]}"
        C.append(
            Contract(
                f"nb_cum{op}_{kind}",
                f"{F}::nb_cum{op}_{kind}",
                [("arr", kind + "[]"), ("ret", kind + "[]")] + ([("inv", "int")] if kind == "int" else []) + [("skipna", "bool")],
                requires=["len(arr) > 0", "len(ret) == len(arr)"],
                ensures=[
                    f"forall(k, 0, len(arr), same(ret[k], {c_}(arr, {inv}, k) if skipna else {s_}(arr, {inv}, k)))",
                    "untouched(arr)",
                ],
                invariants=[
                    f"forall(k, 0, it, same(ret[k], {c_}(arr, {inv}, k)))",
                    f"forall(k, 0, it, same(ret[k], {s_}(arr, {inv}, k)))",
                    f"inval({c_}(arr, {inv}, it - 1), {inv})",
                    f"implies(it > start0, same(running_{op}, arr[it - 1]))",
                    f"same(running_{op}, {c_}(arr, {inv}, it - 1 if it > start0 else start0))",
                    f"same(running_{op}, {s_}(arr, {inv}, it - 1))",
                    f"not inval(running_{op}, {inv})",
                ],
                modifies=("ret",),
                binds={"NAN": float("nan")},
            )
        )
SPECS.__init__(SPECS.src, SPECS.lemmas, SPECS.measure)
