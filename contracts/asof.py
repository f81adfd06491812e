"""Contracts for the as-of join kernels (riptable/rt_merge_asof.py).

For sorted 'on' keys the index written for a left row is the position of the last (backward) / first
(forward) right row -- within the row's own 'by' group when grouped -- that satisfies the comparison,
provided it lies within the tolerance, and the invalid index otherwise.
Ghosts: INV, the invalid value of the output dtype; HMIN/NMIN the value get_min_valid/get_max_valid returns;
hpos, the inverse of the (injective) haystack igroup.
"""
from pyvc.symex import Contract, SpecLib

F = "riptable/rt_merge_asof.py"
SPECS = SpecLib("")
C = []


def g(name):
    return lambda ex, st, args, kw, e: ex.paramvals[name]


def bound_model(ex, st, args, kw, e):
    a = args[0]
    return ex.paramvals["HB"] if a.id == ex.paramvals["haystack_2nd_key"].id else ex.paramvals["NB"]


def cmpop(direction, exact):
    op = {"b": "<", "f": ">"}[direction] + ("=" if exact else "")
    return lambda h, n: f"({h} {op} {n})"


def tolok(direction, tol):
    if not tol:
        return lambda h, n: "True"
    return (lambda h, n: f"(equality_tolerance >= {n} - {h})") if direction == "b" else (lambda h, n: f"(equality_tolerance >= {h} - {n})")


for direction in "bf":
    word = "backward" if direction == "b" else "forward"
    for exact in (True, None):
        for tol in (False, True):
            for kind in ("int", "float"):
                if kind == "float" and not tol:
                    continue
                le, ok = cmpop(direction, exact), tolok(direction, tol)
                suffix = f"[{'exact' if exact else 'strict'}{',tolerance' if tol else ''}{',float' if kind == 'float' else ''}]"
                H, N, O = "haystack_2nd_key", "needles_2nd_key", "needle_idx_in_haystack"
                LH, LN = f"len({H})", f"len({N})"
                if direction == "b":
                    edge = lambda k, n: f"({k} + 1 == {LH} or not {le(f'{H}[{k} + 1]', n)})"
                else:
                    edge = lambda k, n: f"({k} == 0 or not {le(f'{H}[{k} - 1]', n)})"

                def hit(o, n):
                    return f"({o} >= 0 and {o} < {LH} and {le(f'{H}[{o}]', n)} and {edge(o, n)} and {ok(f'{H}[{o}]', n)})"

                def SPEC(lo, hi):
                    return [
                        f"forall(i, {lo}, {hi}, implies({O}[i] != INV, {hit(f'{O}[i]', f'{N}[i]')}))",
                        f"forall(i, {lo}, {hi}, implies({O}[i] == INV, forall(k, 0, {LH}, not ({le(f'{H}[k]', f'{N}[i]')} and {edge('k', f'{N}[i]')} and {ok(f'{H}[k]', f'{N}[i]')}))))",
                    ]

                srt = lambda a: f"forall(i, 0, len({a}), forall(j, i, len({a}), {a}[i] <= {a}[j]))"
                notnan = [] if kind == "int" else [f"forall(i, 0, len({a}), not isnan({a}[i]))" for a in (H, N)] + ["not isnan(HB)", "not isnan(NB)"] + (["not isnan(equality_tolerance)"] if tol else [])
                rel = "<=" if direction == "b" else ">="
                if direction == "b":
                    invs = SPEC("0", "i_needle") + [
                        f"0 <= i_needle and i_needle <= {LN} and 0 <= i_haystack and implies({LH} > 0, i_haystack < {LH}) and implies({LH} == 0, i_haystack == 0)",
                        f"implies(i_needle < {LN} and i_haystack > 0, {le(f'{H}[i_haystack]', f'{N}[i_needle]')})",
                        f"implies(i_needle < {LN}, needle_key2_curr <= {N}[i_needle])",
                        f"implies(i_haystack < {LH}, haystack_key2_curr <= {H}[i_haystack])",
                    ]
                else:
                    invs = SPEC("i_needle + 1", LN) + [
                        f"-1 <= i_needle and i_needle < {LN} and i_haystack < {LH} and implies({LH} > 0, i_haystack >= 0) and implies({LH} == 0, i_haystack == -1)",
                        f"implies(i_needle >= 0 and i_haystack + 1 < {LH}, {le(f'{H}[i_haystack]', f'{N}[i_needle]')})",
                        f"implies(i_needle >= 0, needle_key2_curr >= {N}[i_needle])",
                        f"implies(i_haystack >= 0, haystack_key2_curr >= {H}[i_haystack])",
                        f"forall(i, 0, i_needle + 1, {O}[i] == INV)",
                    ]
                C.append(
                    Contract(
                        f"_merge_asof_{word}{suffix}",
                        f"{F}::_merge_asof_{word}",
                        [
                            (H, kind + "[]"),
                            (N, kind + "[]"),
                            (O, "int[]"),
                            ("haystack_first_unsorted_idx", "int[]"),
                            ("needle_first_unsorted_idx", "int[]"),
                            ("equality_tolerance", kind if tol else "none"),
                            ("allow_exact_matches", f"const:{exact}"),
                        ],
                        ghosts=[("INV", "int"), ("HB", kind), ("NB", kind)],
                        requires=[
                            f"len({O}) == {LN}",
                            f"{LN} > 0",
                            "INV < 0",
                            srt(H),
                            srt(N),
                            f"forall(i, 0, {LN}, {O}[i] == INV)",
                            f"forall(i, 0, {LH}, HB {rel} {H}[i])",
                            f"forall(i, 0, {LN}, NB {rel} {N}[i])",
                            "len(haystack_first_unsorted_idx) == 1",
                            "len(needle_first_unsorted_idx) == 1",
                        ]
                        + notnan,
                        ensures=SPEC("0", LN) + ["untouched(haystack_first_unsorted_idx)", "untouched(needle_first_unsorted_idx)"],
                        invariants=invs + ["untouched(haystack_first_unsorted_idx)", "untouched(needle_first_unsorted_idx)"],
                        modifies=(O, "haystack_first_unsorted_idx", "needle_first_unsorted_idx"),
                        models={"get_invalid": g("INV"), "get_min_valid": bound_model, "get_max_valid": bound_model},
                    )
                )

# nearest: keep whichever of the two candidates is closer, the earlier one on ties
B, W = "needle_idx_in_haystack_backward", "needle_idx_in_haystack_forward"
DB = lambda i: f"(needles_2nd_key[{i}] - haystack_2nd_key[{B}[{i}]])"
DF = lambda i: f"(haystack_2nd_key[old({W})[{i}]] - needles_2nd_key[{i}])"
NEAR = lambda i: f"{W}[{i}] == ({B}[{i}] if {B}[{i}] != INV and (old({W})[{i}] == INV or {DB(i)} <= {DF(i)}) else old({W})[{i}])"
for kind in ("int", "float"):
    C.append(
        Contract(
            f"_merge_asof_combine_into_nearest[{kind}]",
            f"{F}::_merge_asof_combine_into_nearest",
            [("haystack_2nd_key", kind + "[]"), ("needles_2nd_key", kind + "[]"), (B, "int[]"), (W, "int[]")],
            ghosts=[("INV", "int")],
            requires=[
                "INV < 0",
                f"len({B}) == len(needles_2nd_key) and len({W}) == len(needles_2nd_key)",
                *[f"forall(i, 0, len({x}), {x}[i] == INV or (0 <= {x}[i] and {x}[i] < len(haystack_2nd_key)))" for x in (B, W)],
            ],
            ensures=[f"forall(i, 0, len(needles_2nd_key), {NEAR('i')})", f"untouched({B})"],
            invariants=[f"forall(i, 0, it, {NEAR('i')})", f"forall(i, it, len({W}), {W}[i] == old({W})[i])"],
            modifies=(W,),
            models={"is_valid": lambda ex, st, args, kw, e: args[0] != ex.paramvals["INV"]},
        )
    )

# grouped
HI, HF, HN = "haystack_igroup", "haystack_ifirstgroup", "haystack_ncountgroup"
NI, NF, NN = "needles_igroup", "needles_ifirstgroup", "needles_ncountgroup"
H, N, O, M = "haystack_2nd_key", "needles_2nd_key", "needle_idx_in_haystack", "needle_key_to_haystack_key"


def groups_wf(I, Fi, Nc, K, nout):
    return [
        f"len({Fi}) == len({Nc})",
        f"forall(k, 0, len({Fi}), {Fi}[k] >= 0 and {Nc}[k] >= 0 and {Fi}[k] + {Nc}[k] <= len({I}))",
        f"forall(p, 0, len({I}), {I}[p] >= 0 and {I}[p] < {nout})",
    ]


for direction in "bf":
    word = "backward" if direction == "b" else "forward"
    for exact in (True, None):
        for tol in (False, True):
            kind = "int"
            le, ok = cmpop(direction, exact), tolok(direction, tol)
            suffix = f"[{'exact' if exact else 'strict'}{',tolerance' if tol else ''}]"
            rel = "<=" if direction == "b" else ">="
            if direction == "b":
                edge = lambda p, q: f"({q} + 1 == hi[{p}] or not {le(f'hv[{q} + 1]', f'nv[{p}]')})"
            else:
                edge = lambda p, q: f"({q} == lo[{p}] or not {le(f'hv[{q} - 1]', f'nv[{p}]')})"

            def good(p, q):
                return f"({le(f'hv[{q}]', f'nv[{p}]')} and {edge(p, q)} and {ok(f'hv[{q}]', f'nv[{p}]')})"

            def ROW(p):
                o = f"{O}[{NI}[{p}]]"
                q = f"hpos[{o}]"
                return [
                    f"implies(mp[{p}] < 0, {o} == INV)",
                    f"implies(mp[{p}] >= 0 and {o} != INV, 0 <= {o} and {o} < len(hpos) and lo[{p}] <= {q} and {q} < hi[{p}] and {HI}[{q}] == {o} and {good(p, q)})",
                    f"implies(mp[{p}] >= 0 and {o} == INV, forall(q, lo[{p}], hi[{p}], not {good(p, 'q')}))",
                ]

            # ngrp[p]: the group whose slice of needles_igroup holds position p (-1: the null group)
            ALL = lambda hi_: [f"forall(p, 0, len({NI}), implies(ngrp[p] >= 0 and ngrp[p] < {hi_}, {r}))" for r in ROW("p")]
            TODO = lambda lo_: f"forall(p, 0, len({NI}), implies(ngrp[p] >= {lo_}, {O}[{NI}[p]] == INV))"
            G = f"len({M})"
            cn, ch = f"{NF}[it1 + 1]", f"{HF}[{M}[it1] + 1]"
            ln, lh = f"{NN}[it1 + 1]", f"{HN}[{M}[it1] + 1]"
            nval = lambda j: f"nv[{cn} + {j}]"
            hval = lambda j: f"hv[{ch} + {j}]"
            if direction == "b":
                inner = [f"forall(p, {cn}, {cn} + i_needle, {r})" for r in ROW("p")] + [
                    f"0 <= i_needle and i_needle <= {ln} and 0 <= i_haystack and implies({lh} > 0, i_haystack < {lh}) and implies({lh} == 0, i_haystack == 0)",
                    f"implies(i_needle < {ln} and i_haystack > 0, {le(hval('i_haystack'), nval('i_needle'))})",
                    f"implies(i_needle < {ln}, needle_key2_curr <= {nval('i_needle')})",
                    f"implies(i_haystack < {lh}, haystack_key2_curr <= {hval('i_haystack')})",
                    f"forall(p, {cn} + i_needle, {cn} + {ln}, {O}[{NI}[p]] == INV)",
                ]
            else:
                inner = [f"forall(p, {cn} + i_needle + 1, {cn} + {ln}, {r})" for r in ROW("p")] + [
                    f"-1 <= i_needle and i_needle < {ln} and i_haystack < {lh} and implies({lh} > 0, i_haystack >= 0) and implies({lh} == 0, i_haystack == -1)",
                    f"implies(i_needle >= 0 and i_haystack + 1 < {lh}, {le(hval('i_haystack'), nval('i_needle'))})",
                    f"implies(i_needle >= 0, needle_key2_curr >= {nval('i_needle')})",
                    f"implies(i_haystack >= 0, haystack_key2_curr >= {hval('i_haystack')})",
                    f"forall(p, {cn}, {cn} + i_needle + 1, {O}[{NI}[p]] == INV)",
                ]
            U = ["untouched(haystack_first_unsorted_idx_in_group)", "untouched(needle_first_unsorted_idx_in_group)"]
            C.append(
                Contract(
                    f"_merge_asof_grouped_{word}{suffix}",
                    f"{F}::_merge_asof_grouped_{word}",
                    [
                        (HI, "int[]"), (HF, "int[]"), (HN, "int[]"), (H, "int[]"),
                        (NI, "int[]"), (NF, "int[]"), (NN, "int[]"), (N, "int[]"),
                        (M, "int[]"), (O, "int[]"),
                        ("haystack_first_unsorted_idx_in_group", "int[]"),
                        ("needle_first_unsorted_idx_in_group", "int[]"),
                        ("equality_tolerance", "int" if tol else "none"),
                        ("allow_exact_matches", f"const:{exact}"),
                    ],
                    ghosts=[("INV", "int"), ("HB", "int"), ("NB", "int"), ("hpos", "int[]"), ("ngrp", "int[]"), ("hgrp", "int[]")]
                    + [(x, "int[]") for x in ("nv", "hv", "lo", "hi", "mp")],
                    requires=[
                        *groups_wf(HI, HF, HN, None, f"len({H})"),
                        *groups_wf(NI, NF, NN, None, f"len({N})"),
                        f"len({O}) == len({N}) and len({N}) > 0",
                        f"len(hpos) == len({H})",
                        f"forall(q, 0, len({HI}), hpos[{HI}[q]] == q)",
                        f"forall(p, 0, len({NI}), forall(q, 0, len({NI}), implies(p != q, {NI}[p] != {NI}[q])))",
                        f"len({NF}) == len({M}) + 1",
                        f"len(ngrp) == len({NI}) and len(hgrp) == len({HI})",
                        f"forall(p, 0, len({NI}), ngrp[p] >= -1 and ngrp[p] + 1 < len({NF}) and {NF}[ngrp[p] + 1] <= p and p < {NF}[ngrp[p] + 1] + {NN}[ngrp[p] + 1])",
                        f"forall(k, 0, len({NF}), forall(p, {NF}[k], {NF}[k] + {NN}[k], ngrp[p] == k - 1))",
                        f"forall(k, 0, len({HF}), forall(p, {HF}[k], {HF}[k] + {HN}[k], hgrp[p] == k - 1))",
                        f"forall(k, 0, {G}, {M}[k] + 1 < len({HF}))",
                        f"len(nv) == len({NI}) and len(hv) == len({HI}) and len(lo) == len({NI}) and len(hi) == len({NI}) and len(mp) == len({NI})",
                        f"forall(p, 0, len({NI}), nv[p] == {N}[{NI}[p]])",
                        f"forall(q, 0, len({HI}), hv[q] == {H}[{HI}[q]])",
                        f"forall(p, 0, len({NI}), implies(ngrp[p] >= 0, mp[p] == {M}[ngrp[p]]))",
                        f"forall(p, 0, len({NI}), implies(ngrp[p] >= 0 and mp[p] >= 0, lo[p] == {HF}[mp[p] + 1] and hi[p] == {HF}[mp[p] + 1] + {HN}[mp[p] + 1]))",
                        "INV < 0",
                        f"forall(p, 0, len({HI}), forall(q, p, len({HI}), implies(hgrp[p] == hgrp[q], hv[p] <= hv[q])))",
                        f"forall(p, 0, len({NI}), forall(q, p, len({NI}), implies(ngrp[p] == ngrp[q], nv[p] <= nv[q])))",
                        f"forall(i, 0, len({O}), {O}[i] == INV)",
                        f"forall(i, 0, len({H}), HB {rel} {H}[i])",
                        f"forall(i, 0, len({N}), NB {rel} {N}[i])",
                        f"len(haystack_first_unsorted_idx_in_group) == len({HF})",
                        f"len(needle_first_unsorted_idx_in_group) == len({NF})",
                    ],
                    ensures=ALL(G) + U,
                    invariants=[((1, 2), r) for r in ALL("it1")]
                    + [((1, 2), u) for u in U]
                    + [(1, TODO("it1")), (2, TODO("it1 + 1"))]
                    + [(2, r) for r in inner],
                    modifies=(O, "haystack_first_unsorted_idx_in_group", "needle_first_unsorted_idx_in_group"),
                    models={"get_invalid": g("INV"), "get_min_valid": bound_model, "get_max_valid": bound_model},
                    xrounds=3,
                )
            )
