"""Which contracts and which bounded modules decide which property."""
TRUSTED_BASE = [
    "pyvc (verification-condition generator over the Python AST, /verif/pyvc)",
    "z3 4.x API (python3-vt), cvc5 as fallback",
    "CPython ast module",
    "riptide_cpp 1.19.0, numpy, numba (external; not in /repo)",
]
COMMON_ASSUMPTIONS = [
    "numba compiles the extracted function bodies with Python/NumPy semantics; prange iterations are independent (frame obligations show disjoint writes only where stated)",
    "machine integers are treated as mathematical integers, except where element-range obligations are generated for stores",
    "floats are treated as (is-NaN, real) pairs: no rounding, no signed zero",
    "the bounded layer samples; it never counts as proved",
]
PLAN = {
    "C01": dict(contracts=[("merge", None)], bounded="c01", budget=60, jobs=5, abudget=200, level="proof"),
    "C02": dict(contracts=[("asof", None)], bounded="c02", budget=70, jobs=4, abudget=240, level="proof"),
    "C03": dict(contracts=[("strings", None)], bounded="c03", budget=45, jobs=4, abudget=330, level="proof"),
    "C04": dict(contracts=[("fill", None), ("groupfill", None)], bounded="c04", budget=40, jobs=4, abudget=300, level="proof"),
    "C05": dict(contracts=[("grouping", None)], bounded="c05", budget=60, jobs=5, abudget=60, level="proof"),
    "C06": dict(contracts=[("groupby", None)], bounded="c06", budget=80, jobs=6, abudget=120, level="proof"),

    "C07": dict(contracts=[("catcmp", None)], bounded="c07", budget=80, jobs=6, abudget=60, level="proof"),
    "C08": dict(contracts=[("calendar", None)], bounded="c08", budget=90, jobs=5, abudget=150, level="proof"),
    "C09": dict(contracts=[("timezone", None)], bounded="c09", budget=60, jobs=4, abudget=100, level="proof"),
    "C10": dict(contracts=[("datearith", None)], bounded="c10", budget=60, jobs=4, abudget=100, level="proof"),
    "C13": dict(contracts=[], bounded="c13", budget=80, jobs=8, abudget=10, level="exploration"),
    "C14": dict(contracts=[("reduce", None)], bounded="c14", budget=80, jobs=5, abudget=120, level="proof"),
    "C11": dict(contracts=[("itemcontainer", None)], bounded="c11", budget=80, jobs=6, abudget=150, level="proof"),
    "C12": dict(contracts=[("sortcache", None)], bounded="c12", budget=80, jobs=7, abudget=100, level="proof"),
    "C15": dict(contracts=[], bounded="c15", budget=80, jobs=8, abudget=10, level="exploration"),
}
