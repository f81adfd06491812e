"""Contracts of the sort cache (riptable/rt_sort_cache.py): any number of key columns, any cache contents."""
import z3
from pyvc.odict import Key, Val, Obj, I, NONE, Unsupported
from pyvc.cachevc import CC, AI, Sorted, crc, fresh

F = "riptable/rt_sort_cache.py::SortCache."
SPECS = None
j, u = z3.Int("j"), z3.Const("u", Key)
All, Imp, And, Not = z3.ForAll, z3.Implies, z3.And, z3.Not


class Crcs:
    """the crcs of the key columns, first key first"""

    def __init__(s, r):
        s.arr = fresh("ghost_crcs", AI)
        d = r.P.get("sortdict")
        if d is not None and not z3.is_expr(d):
            s.n = d.top
            val = d.at(d.nm(j))
        else:
            l = r.P["sortlist"]
            s.n = l.n
            val = l.at(j)
        s.axioms = [All([j], Imp(And(0 <= j, j < s.n), z3.Select(s.arr, j) == crc(val)), patterns=[z3.Select(s.arr, j)])]


def frame(x):
    return All([u], Imp(u != x.P["uid"], z3.Select(x.cache.M, u) == z3.Select(x.cache0.M, u)))


def sorted_result(x):
    g = x.G
    return z3.If(g.n > 0, And(x.result != NONE, Sorted(x.result, g.arr, g.n, x.P["ascending"], x.P["nrows"])), x.result == NONE)


C = [
    CC("get_sorted_row_index", F + "get_sorted_row_index", dict(uid="uid", nrows="int", sortdict="dict", ascending="asc"), ghosts=Crcs, ensures=[("the index is the sort of these columns", sorted_result), ("only this object's entry changes", frame)]),
    CC("get_sorted_row_index/none", F + "get_sorted_row_index", dict(uid="uid", nrows="int", sortdict="none", ascending="asc"), ensures=[("no keys, no index", lambda x: x.result == NONE), ("only this object's entry changes", frame)]),
    CC("invalidate", F + "invalidate", dict(uid="uid"), ensures=[("the entry is gone", lambda x: Not(z3.Select(x.cache.M, x.P["uid"]))), ("only this object's entry changes", frame)]),
    CC(
        "store_sort",
        F + "store_sort",
        dict(uid="uid", sortlist="list", sortidx="obj", ascending="asc"),
        ghosts=Crcs,
        requires=lambda r: [r.P["sortidx"] != NONE, Sorted(r.P["sortidx"], r.G.arr, r.G.n, r.P["ascending"], r.P["rows_of"](r.P["sortidx"]))],
        invs=dict(list=[("crcs so far", lambda x: And(x.obj.n == x.c, All([j], Imp(And(0 <= j, j < x.c), x.obj.at(j) == crc(x.src.at(j))))))]),
        ensures=[("only this object's entry changes", frame)],
    ),
]
