"""Contracts for selecting whole groups out of grouped data (riptable/rt_grouping.py)."""
from pyvc.symex import Contract, SpecLib

F = "riptable/rt_grouping.py"
SPECS = SpecLib("", {}, {})
C = []
WF = [
    "len(ncountgroup) == len(ifirstgroup)",
    "forall(g, 0, len(ncountgroup), ncountgroup[g] >= 0 and ifirstgroup[g] >= 0 and ifirstgroup[g] + ncountgroup[g] <= len(grouped_data))",
]
for kind in ("int", "float"):
    # OF[i] is the ghost array of output offsets; partial sums of the selected group sizes (monotone, because sizes are >= 0)
    # own[q] is the selected group that output position q belongs to
    q = lambda n: f"forall(q, 0, OF[{n}], same(out[q], grouped_data[ifirstgroup[indices[own[q]]] + q - OF[own[q]]]))"
    O = lambda i: f"OF[{i}]"
    C.append(
        Contract(
            f"take_groups.impl[{kind}]",
            f"{F}::Grouping.take_groups.impl",
            [("grouped_data", kind + "[]"), ("indices", "int[]"), ("ncountgroup", "int[]"), ("ifirstgroup", "int[]"), ("out", kind + "[]")],
            ghosts=[("OF", "int[]"), ("own", "int[]")],
            requires=WF
            + [
                "forall(i, 0, len(indices), indices[i] >= 0 and indices[i] < len(ncountgroup))",
                "len(OF) == len(indices) + 1 and OF[0] == 0 and len(own) == len(out)",
                "forall(q, 0, len(out), own[q] >= 0 and own[q] < len(indices) and OF[own[q]] <= q and q < OF[own[q] + 1])",
                "forall(i, 0, len(indices), forall(q, OF[i], OF[i + 1], own[q] == i))",
                "forall(i, 0, len(indices), OF[i + 1] == OF[i] + ncountgroup[indices[i]])",
                f"forall(i, 0, len(indices) + 1, forall(j, i, len(indices) + 1, {O('i')} <= {O('j')}))",
                f"len(out) == {O('len(indices)')}",
            ],
            ensures=[q("len(indices)"), "untouched(grouped_data)"],
            invariants=[q("it"), f"out_idx == {O('it')}", (2, q("it1")), (2, f"out_idx == {O('it1')} + it2"), (2, q("it1").replace(f"OF[it1]", f"OF[it1] + it2", 1))],
            modifies=("out",),
        )
    )
    q2 = lambda n: f"forall(q, 0, OF[{n}], same(out[q], grouped_data[ifirstgroup[own[q]] + q - OF[own[q]]]))"
    O2 = lambda i: f"OF[{i}]"
    C.append(
        Contract(
            f"extract_groups.impl[{kind}]",
            f"{F}::Grouping.extract_groups.impl",
            [("grouped_data", kind + "[]"), ("condition", "bool[]"), ("ncountgroup", "int[]"), ("ifirstgroup", "int[]"), ("out", kind + "[]")],
            ghosts=[("OF", "int[]"), ("own", "int[]")],
            requires=WF
            + [
                "len(condition) == len(ncountgroup)",
                "len(OF) == len(condition) + 1 and OF[0] == 0 and len(own) == len(out)",
                "forall(q, 0, len(out), own[q] >= 0 and own[q] < len(condition) and OF[own[q]] <= q and q < OF[own[q] + 1])",
                "forall(i, 0, len(condition), forall(q, OF[i], OF[i + 1], own[q] == i))",
                "forall(i, 0, len(condition), OF[i + 1] == OF[i] + (ncountgroup[i] if condition[i] else 0))",
                f"forall(i, 0, len(condition) + 1, forall(j, i, len(condition) + 1, {O2('i')} <= {O2('j')}))",
                f"len(out) == {O2('len(condition)')}",
            ],
            ensures=[q2("len(condition)"), "untouched(grouped_data)"],
            invariants=[q2("it"), f"out_idx == {O2('it')}", (2, q2("it1")), (2, f"out_idx == {O2('it1')} + it2"), (2, q2("it1").replace(f"OF[it1]", f"OF[it1] + it2", 1))],
            modifies=("out",),
        )
    )
