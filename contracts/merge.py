"""Contracts for the equi-join index kernels (riptable/rt_merge.py)."""
from pyvc.symex import Contract, SpecLib

F = "riptable/rt_merge.py"
SPECS = SpecLib(
    """
def off(cs, i): return 0 if i == 0 else cs[i - 1]
def nokey(ids, ng, i): return ids[i] <= 0 or ids[i] >= ng
def mapped(m, key, inv): return inv if (key == 0 or key > len(m)) else (m[key - 1] if m[key - 1] < 0 else m[key - 1] + 1)
"""
)
C = []
# every left row receives the right key number its own key number maps to
C.append(
    Contract(
        "_fancy_index_fetch_keymap",
        f"{F}::_fancy_index_fetch_keymap",
        [("left_keyid_to_right_keyid_map", "int[]"), ("left_ikey", "int[]"), ("invalid_value", "int"), ("output", "int[]")],
        requires=["len(output) == len(left_ikey)", "forall(i, 0, len(left_ikey), left_ikey[i] >= 0)"],
        ensures=[
            "forall(i, 0, len(left_ikey), output[i] == mapped(left_keyid_to_right_keyid_map, left_ikey[i], invalid_value))",
            "untouched(left_ikey)",
            "untouched(left_keyid_to_right_keyid_map)",
        ],
        invariants=["forall(i, 0, it, output[i] == mapped(left_keyid_to_right_keyid_map, left_ikey[i], invalid_value))"],
        modifies=("output",),
    )
)
MONO = lambda cs: [
    f"forall(i, 0, len({cs}), {cs}[i] >= 0)",
    f"forall(i, 0, len({cs}), forall(k, i, len({cs}), {cs}[i] <= {cs}[k]))",
]
# element i of the source fills exactly the positions [cumsum[i-1], cumsum[i]) of the output
for name, params, src in (
    ("_partial_repeat", [("arr", "int[]"), ("repeats_cumsum", "int[]"), ("output", "int[]")], "arr[i]"),
    ("_fused_arange_repeat", [("repeats_cumsum", "int[]"), ("output", "int[]")], "i"),
):
    q = f"forall(j, off(repeats_cumsum, i), repeats_cumsum[i], output[j] == {src})"
    C.append(
        Contract(
            name,
            f"{F}::{name}",
            params,
            requires=MONO("repeats_cumsum")
            + (["len(arr) == len(repeats_cumsum)"] if name == "_partial_repeat" else [])
            + ["implies(len(repeats_cumsum) > 0, len(output) == repeats_cumsum[len(repeats_cumsum) - 1])"],
            ensures=[f"forall(i, 0, len(repeats_cumsum), {q})", "untouched(repeats_cumsum)"],
            invariants=[
                ((1, 2), f"forall(i, 0, it1, {q})"),
                (2, f"forall(j, off(repeats_cumsum, it1), off(repeats_cumsum, it1) + it2, output[j] == {src.replace('i', 'it1')})"),
                (2, f"forall(j, off(repeats_cumsum, it1), it2, output[j] == {src.replace('i', 'it1')})"),
            ],
            modifies=("output",),
        )
    )
N = "len(left_rows_with_right_keyids)"
G = "len(right_iFirstGroup)"
K = lambda i: f"left_rows_with_right_keyids[{i}]"
DIFF = lambda i: f"(row_cumcount[{i}] - off(row_cumcount, {i}))"
NOK = lambda i: f"nokey(left_rows_with_right_keyids, {G}, {i})"
ROWS = lambda n: [
    f"forall(i, 0, {n}, forall(p, off(row_cumcount, i), row_cumcount[i], implies(not {NOK('i')}, right_fancyindex[p] == right_iGroup[right_iFirstGroup[{K('i')}] + p - off(row_cumcount, i)])))",
    f"forall(i, 0, {n}, implies({NOK('i')} and {DIFF('i')} == 1, right_fancyindex[off(row_cumcount, i)] == invalid_index))",
]
C.append(
    Contract(
        "_build_right_fancyindex_impl",
        f"{F}::_build_right_fancyindex_impl",
        [
            ("left_rows_with_right_keyids", "int[]"),
            ("right_iFirstGroup", "int[]"),
            ("right_iGroup", "int[]"),
            ("row_cumcount", "int[]"),
            ("invalid_index", "int"),
            ("right_fancyindex", "int[]"),
        ],
        requires=MONO("row_cumcount")
        + [
            f"len(row_cumcount) == {N}",
            f"implies({N} > 0, len(right_fancyindex) == row_cumcount[{N} - 1])",
            f"forall(i, 0, {N}, implies({NOK('i')}, {DIFF('i')} <= 1))",
            f"forall(i, 0, {N}, implies(not {NOK('i')}, right_iFirstGroup[{K('i')}] >= 0 and right_iFirstGroup[{K('i')}] + {DIFF('i')} <= len(right_iGroup)))",
        ],
        ensures=ROWS(N) + ["untouched(row_cumcount)", "untouched(right_iGroup)"],
        invariants=[
            *[((1, 2), r) for r in ROWS("it1")],
            (2, f"forall(p, off(row_cumcount, it1), off(row_cumcount, it1) + it2, right_fancyindex[p] == right_iGroup[right_iFirstGroup[{K('it1')}] + p - off(row_cumcount, it1)])"),
        ],
        modifies=("right_fancyindex",),
    )
)
