"""Contracts for comparing a Categorical with an array of values (riptable/rt_categorical.py)."""
from pyvc.symex import Contract, SpecLib

F = "riptable/rt_categorical.py"
SPECS = SpecLib("", {}, {})
C = []
for nm, op in (("__eq__", "=="), ("__ne__", "!="), ("__gt__", ">"), ("__ge__", ">="), ("__le__", "<="), ("__lt__", "<")):
    for kind in ("int", "float"):
        C.append(
            Contract(
                f"CompareCheckHelper.{nm}[{kind}]",
                f"{F}::CompareCheckHelper.{nm}",
                [("a", kind + "[]"), ("x", "int[]"), ("y", kind + "[]")],
                requires=["len(x) == len(y)", "forall(i, 0, len(x), x[i] >= 0 and x[i] < len(a))"],
                ensures=["len(result) == len(x)", f"forall(i, 0, len(x), result[i] == (a[x[i]] {op} y[i]))", "untouched(a)", "untouched(x)", "untouched(y)"],
                invariants=[f"forall(i, 0, it, out[i] == (a[x[i]] {op} y[i]))"],
            )
        )
