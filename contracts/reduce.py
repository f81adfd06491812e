"""Contracts for the filtered reductions (riptable/rt_fastarray.py): sum/mean/var over the rows the filter keeps,
the nan* versions over the kept rows that are not the invalid value of the element type."""
from pyvc.symex import Contract, SpecLib, INT_RANGES

F = "riptable/rt_fastarray.py"
SPECS = SpecLib(
    """
def keep(x, f, inv, k): return f[k] and not isnan(x[k]) and not (x[k] == inv)
def cnt(x, f, inv, k) -> int: return 0 if k <= 0 else cnt(x, f, inv, k - 1) + (1 if keep(x, f, inv, k - 1) else 0)
def isum(x, f, inv, k) -> int: return 0 if k <= 0 else isum(x, f, inv, k - 1) + (x[k - 1] if keep(x, f, inv, k - 1) else 0)
def fsum(x, f, inv, k) -> float: return 0.0 if k <= 0 else (fsum(x, f, inv, k - 1) + x[k - 1] if keep(x, f, inv, k - 1) else fsum(x, f, inv, k - 1))
def fssq(x, f, inv, m, k) -> float: return 0.0 if k <= 0 else (fssq(x, f, inv, m, k - 1) + (x[k - 1] - m) ** 2 if keep(x, f, inv, k - 1) else fssq(x, f, inv, m, k - 1))
def cnta(f, k) -> int: return 0 if k <= 0 else cnta(f, k - 1) + (1 if f[k - 1] else 0)
def isuma(x, f, k) -> int: return 0 if k <= 0 else isuma(x, f, k - 1) + (x[k - 1] if f[k - 1] else 0)
def fsuma(x, f, k) -> float: return 0.0 if k <= 0 else (fsuma(x, f, k - 1) + x[k - 1] if f[k - 1] else fsuma(x, f, k - 1))
def fssqa(x, f, m, k) -> float: return 0.0 if k <= 0 else (fssqa(x, f, m, k - 1) + (x[k - 1] - m) ** 2 if f[k - 1] else fssqa(x, f, m, k - 1))
""",
    lemmas={"cnt": ["r >= 0"], "cnta": ["r >= 0"]},
    measure={k: "k" for k in ("cnt", "isum", "fsum", "fssq", "cnta", "isuma", "fsuma", "fssqa")},
)
C = []
DT = {k: (v[0] if k[0] == "i" else v[1]) for k, v in INT_RANGES.items() if k in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")}
N = "len(x)"
for dt, inv in list(DT.items()) + [("float64", None)]:
    kind = "int" if inv is not None else "float"
    INV = repr(inv) if inv is not None else "NAN"
    S = ("isum" if kind == "int" else "fsum") + f"(x, filter, {INV}, "
    C.append(
        Contract(
            f"_fnansumhelper[{dt}]",
            f"{F}::_fnansumhelper",
            [("x", kind + "[]"), ("filter", "bool[]")],
            requires=["len(filter) == len(x)"],
            ensures=[f"same(result[0], {S}{N}))", f"result[1] == cnt(x, filter, {INV}, {N})", "untouched(x)", "untouched(filter)"],
            invariants=[f"same(ret, {S}it))", f"length == cnt(x, filter, {INV}, it)"],
            binds={"NAN": float("nan"), "nbtype": dt},
        )
    )
    MEAN = f"(fsum(x, filter, {INV}, {N}) / cnt(x, filter, {INV}, {N}))"
    C.append(
        Contract(
            f"_fnanvar[{dt}]",
            f"{F}::_fnanvar",
            [("x", kind + "[]"), ("filter", "bool[]")],
            requires=["len(filter) == len(x)"],
            raises=f"cnt(x, filter, {INV}, {N}) == 0",
            ensures=[
                f"same(result, NAN if cnt(x, filter, {INV}, {N}) == 1 else fssq(x, filter, {INV}, {MEAN}, {N}) / (cnt(x, filter, {INV}, {N}) - 1))",
                "untouched(x)",
                "untouched(filter)",
            ],
            invariants=[f"same(abc, fsum(x, filter, {INV}, it))", f"length == cnt(x, filter, {INV}, it)", f"length == cnt(x, filter, {INV}, {N})", f"same(ret, fssq(x, filter, {INV}, {MEAN}, it))"],
            binds={"NAN": float("nan"), "nbtype": dt},
        )
    )
for kind in ("int", "float"):
    S = ("isuma" if kind == "int" else "fsuma") + "(x, filter, "
    C.append(
        Contract(
            f"_fsumhelper[{kind}]",
            f"{F}::_fsumhelper",
            [("x", kind + "[]"), ("filter", "bool[]")],
            requires=["len(filter) == len(x)"],
            ensures=[f"same(result[0], {S}{N}))", f"result[1] == cnta(filter, {N})", "untouched(x)", "untouched(filter)"],
            invariants=[f"same(ret, {S}it))", "length == cnta(filter, it)"],
            binds={"NAN": float("nan")},
        )
    )
    MEAN = f"(fsuma(x, filter, {N}) / cnta(filter, {N}))"
    C.append(
        Contract(
            f"_fvar[{kind}]",
            f"{F}::_fvar",
            [("x", kind + "[]"), ("filter", "bool[]")],
            requires=["len(filter) == len(x)"],
            raises=f"cnta(filter, {N}) == 0",
            ensures=[f"same(result, NAN if cnta(filter, {N}) == 1 else fssqa(x, filter, {MEAN}, {N}) / (cnta(filter, {N}) - 1))", "untouched(x)", "untouched(filter)"],
            invariants=["same(abc, fsuma(x, filter, it))", "length == cnta(filter, it)", f"length == cnta(filter, {N})", f"same(ret, fssqa(x, filter, {MEAN}, it))"],
            binds={"NAN": float("nan")},
        )
    )
REG = {}


def pair(ex, st, sp):
    from pyvc import symex as sx

    return sx.Tup([sx.fresh_val("float", "tot"), sx.fresh_val("int", "n")])


byname = {c.name: c for c in C}
REG[(F, "_fnansumhelper")] = byname["_fnansumhelper[float64]"]
REG[(F, "_fsumhelper")] = byname["_fsumhelper[float]"]
byname["_fnansumhelper[float64]"].result = byname["_fsumhelper[float]"].result = pair
byname["_fvar[float]"].result = byname["_fnanvar[float64]"].result = "float"
REG[(F, "_fvar")] = byname["_fvar[float]"]
REG[(F, "_fnanvar")] = byname["_fnanvar[float64]"]
for name, ens, need in (
    ("_fnansum", f"fsum(x, filter, NAN, {N})", None),
    ("_fsum", f"fsuma(x, filter, {N})", None),
    ("_fnanmean", f"fsum(x, filter, NAN, {N}) / cnt(x, filter, NAN, {N})", f"cnt(x, filter, NAN, {N}) > 0"),
    ("_fmean", f"fsuma(x, filter, {N}) / cnta(filter, {N})", f"cnta(filter, {N}) > 0"),
):
    C.append(
        Contract(
            f"{name}[float64]",
            f"{F}::{name}",
            [("x", "float[]"), ("filter", "bool[]")],
            requires=["len(filter) == len(x)"] + ([need] if need else []),
            ensures=[f"same(result, {ens})", "untouched(x)"],
            binds={"NAN": float("nan"), "nbtype": "float64"},
        )
    )
