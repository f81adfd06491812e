"""Contracts of the ordered column container (riptable/rt_itemcontainer.py): any number of columns."""
import z3
from pyvc.odict import OC, Key, Obj, I, B, cat, cat_l, cat_r, repl, copyof, D, NONE, Unsupported

F = "riptable/rt_itemcontainer.py"
SPECS = None
C = []
a, b, k = z3.Consts("a b k", Key)
i = z3.Int("i")
All, Imp, And, Or, Not = z3.ForAll, z3.Implies, z3.And, z3.Or, z3.Not
IC = lambda m: f"{F}::ItemContainer.{m}"


def dictloop(x):
    if not isinstance(x.src, D) or not isinstance(x.obj, D):
        raise Unsupported("not a dict loop")


def renaming(name, params, Fn, Gn, raises=None, ensures=(), var=(), lst=(), ghosts=None, changed=None):
    """every name a becomes Fn(a), Gn is its inverse; items and order are kept"""

    def inv_members(x):
        dictloop(x)
        return All([k], x.obj.has(k) == And(Fn(x, Gn(x, k)) == k, x.vis(Gn(x, k))))

    def inv_vals(x):
        dictloop(x)
        return All([a], Imp(x.vis(a), x.obj.at(Fn(x, a)) == x.d0.at(a)))

    def inv_ord(x):
        dictloop(x)
        return All([a, b], Imp(And(x.vis(a), x.vis(b)), (x.d0.rank(a) < x.d0.rank(b)) == (x.obj.rank(Fn(x, a)) < x.obj.rank(Fn(x, b)))))

    C.append(
        OC(
            name,
            IC(name),
            params,
            raises=raises,
            ghosts=ghosts,
            invs=dict(dict=[("exactly the renamed visited names", inv_members), ("items follow their names", inv_vals), ("order kept", inv_ord)], var=list(var), list=list(lst)),
            ensures=[
                ("exactly the renamed names", lambda x: All([k], x.obj.has(k) == And(Fn(x, Gn(x, k)) == k, x.d0.has(Gn(x, k))))),
                ("every column keeps its item", lambda x: All([a], Imp(x.d0.has(a), And(x.obj.has(Fn(x, a)), x.obj.at(Fn(x, a)) == x.d0.at(a))))),
                ("the order of the columns is kept", lambda x: All([a, b], Imp(And(x.d0.has(a), x.d0.has(b)), (x.d0.rank(a) < x.d0.rank(b)) == (x.obj.rank(Fn(x, a)) < x.obj.rank(Fn(x, b)))))),
                ("arrays untouched", lambda x: All([a], Imp(x.d0.has(a), z3.Select(x.A0, x.d0.at(a)) == z3.Select(x.A00, x.d0.at(a))))),
            ]
            + list(ensures),
        )
    )


renaming(
    "item_rename",
    dict(old="name", new="name"),
    lambda x, n: z3.If(n == x.P["old"], x.P["new"], n),
    lambda x, n: z3.If(n == x.P["new"], x.P["old"], n),
    raises=lambda r: And(r.P["old"] != r.P["new"], Or(Not(r.d0.has(r.P["old"])), r.d0.has(r.P["new"]))),
    var=[("the renamed column's array once visited", lambda x: x.obj == z3.If(x.vis(x.P["old"]), z3.Select(x.A0, x.d0.at(x.P["old"])), x.obj0) if x.obj.sort() == Obj else z3.BoolVal(True))],
    ensures=[("returns the renamed column's array", lambda x: x.result == z3.If(x.P["old"] == x.P["new"], NONE, z3.Select(x.A00, x.d0.at(x.P["old"]))))],
)
renaming("item_add_prefix", dict(prefix="name"), lambda x, n: cat(x.P["prefix"], n), lambda x, n: cat_l(x.P["prefix"], n))
renaming("item_add_suffix", dict(suffix="name"), lambda x, n: cat(n, x.P["suffix"]), lambda x, n: cat_r(x.P["suffix"], n))


# ---------------------------------------------------------------- replacing text in names
class RepG:
    def __init__(s, r):
        P = r.P
        s.f = lambda n: repl(n, P["old"], P["new"], P["maxr"])
        s.axioms = []


def clash(r):
    """two columns would get the same name, or a changed name is already taken"""
    f = RepG(r).f
    return z3.Exists([a, b], And(r.d0.has(a), r.d0.has(b), f(a) != a, Or(f(a) == b, And(a != b, f(a) == f(b)))))


def rep_of(x):
    return RepG(x.run).f


def new_names(x):
    if not isinstance(x.src, D) or isinstance(x.obj, D):
        raise Unsupported("not the list of names")
    f = rep_of(x)
    at = x.obj.at(i)
    return And(x.obj.n == x.c, All([a], Imp(x.vis(a), x.obj.at(x.d0.rank(a)) == f(a))), All([i], Imp(And(0 <= i, i < x.obj.n), And(at == f(x.d0.nm(i)), x.d0.has(x.d0.nm(i)), x.d0.rank(x.d0.nm(i)) == i))))


def no_clash_yet(x):
    if not isinstance(x.src, D) or isinstance(x.obj, D):
        raise Unsupported("not the list of names")
    f = rep_of(x)
    return All([a, b], Imp(And(x.vis(a), x.d0.has(b), f(a) != a), And(f(a) != b, Imp(And(x.vis(b), a != b), f(a) != f(b)))))


def rep_dict_members(x):
    dictloop(x)
    f = rep_of(x)
    return And(All([a], Imp(x.vis(a), And(x.obj.has(f(a)), x.obj.at(f(a)) == x.d0.at(a)))), All([k], Imp(x.obj.has(k), z3.Exists([a], And(x.vis(a), f(a) == k)))))


def rep_dict_ord(x):
    dictloop(x)
    f = rep_of(x)
    return All([a, b], Imp(And(x.vis(a), x.vis(b)), (x.d0.rank(a) < x.d0.rank(b)) == (x.obj.rank(f(a)) < x.obj.rank(f(b)))))


C.append(
    OC(
        "item_str_replace",
        IC("item_str_replace"),
        dict(old="name", new="name", maxr="int"),
        raises=clash,
        invs=dict(
            list=[("new names so far", new_names), ("no clash so far", no_clash_yet)],
            dict=[("renamed visited names and their items", rep_dict_members), ("order kept", rep_dict_ord)],
            var=[
                ("a changed name was counted", lambda x: And(x.obj >= 0, Imp(x.obj == 0, All([a], Imp(x.vis(a), rep_of(x)(a) == a)))) if x.obj.sort() == I else z3.BoolVal(True)),
            ],
        ),
        ensures=[
            ("every column keeps its item under its new name", lambda x: All([a], Imp(x.d0.has(a), And(x.obj.has(rep_of(x)(a)), x.obj.at(rep_of(x)(a)) == x.d0.at(a))))),
            ("no other names", lambda x: All([k], Imp(x.obj.has(k), z3.Exists([a], And(x.d0.has(a), rep_of(x)(a) == k))))),
            ("the order of the columns is kept", lambda x: All([a, b], Imp(And(x.d0.has(a), x.d0.has(b)), (x.d0.rank(a) < x.d0.rank(b)) == (x.obj.rank(rep_of(x)(a)) < x.obj.rank(rep_of(x)(b)))))),
        ],
    )
)


# ---------------------------------------------------------------- moving columns
class FirstLast:
    """fo(k): first position of k in cols (cols.n when absent); lo(k, i): last position of k among the first i, or -1"""

    def __init__(s, r):
        c = r.P["cols"]
        s.c = c
        s.fo = z3.Function("first_occurrence", Key, I)
        s.lo = z3.Function("last_occurrence_before", Key, I, I)
        s.axioms = [
            All([k], And(s.fo(k) >= 0, s.fo(k) <= c.n, Imp(s.fo(k) < c.n, c.at(s.fo(k)) == k))),
            All([i], Imp(And(0 <= i, i < c.n), s.fo(c.at(i)) <= i), patterns=[c.at(i)]),
            All([k], s.lo(k, 0) == -1),
            All([k, i], Imp(And(0 <= i, i < c.n), s.lo(k, i + 1) == z3.If(c.at(i) == k, i, s.lo(k, i))), patterns=[s.lo(k, i + 1)]),
            All([k, i], Imp(And(0 <= i, i <= c.n), And(s.lo(k, i) >= -1, s.lo(k, i) < i, Imp(s.lo(k, i) >= 0, c.at(s.lo(k, i)) == k))), patterns=[s.lo(k, i)]),
        ]


def toomany(r):
    return r.P["cols"].n > r.d0.top


def front_before(x, p, q):
    g = x.G
    return Or(g.fo(p) < g.fo(q), And(g.fo(p) == g.fo(q), g.fo(p) == g.c.n, x.d0.rank(p) < x.d0.rank(q)))


def front_in(x, n):
    """names already placed"""
    if isinstance(x.src, D):
        return And(x.d0.has(n), Or(x.G.fo(n) < x.G.c.n, x.vis(n)))
    return And(x.d0.has(n), x.G.fo(n) < x.c)


def need_dict(x):
    if not isinstance(x.obj, D):
        raise Unsupported("not a dict")


def fi(f):
    def g(x):
        need_dict(x)
        return f(x)

    return g


SAME = [
    ("exactly the same names", lambda x: All([k], x.obj.has(k) == x.d0.has(k))),
    ("every column keeps its item", lambda x: All([k], Imp(x.d0.has(k), x.obj.at(k) == x.d0.at(k)))),
]
for _v, _k in (("", "names"), ("/one", "onename")):
  C.append(
    OC(
        "item_move_to_front" + _v,
        IC("item_move_to_front"),
        dict(cols=_k),
        ghosts=FirstLast,
        raises=toomany,
        invs=dict(
            dict=[
                ("the names placed so far", fi(lambda x: All([k], x.obj.has(k) == front_in(x, k)))),
                ("with their items", fi(lambda x: All([k], Imp(x.obj.has(k), x.obj.at(k) == x.d0.at(k))))),
                ("in their order", fi(lambda x: All([a, b], Imp(And(x.obj.has(a), x.obj.has(b)), (x.obj.rank(a) < x.obj.rank(b)) == front_before(x, a, b))))),
            ]
        ),
        ensures=SAME + [("moved columns first, in the order named; the others keep theirs", lambda x: All([a, b], Imp(And(x.d0.has(a), x.d0.has(b)), (x.obj.rank(a) < x.obj.rank(b)) == front_before(x, a, b))))],
    )
)


def back_before(x, p, q, n):
    g = x.G
    return Or(g.lo(p, n) < g.lo(q, n), And(g.lo(p, n) == g.lo(q, n), g.lo(p, n) == -1, x.d0.rank(p) < x.d0.rank(q)))


for _v, _k in (("", "names"), ("/one", "onename")):
  C.append(
    OC(
        "item_move_to_back" + _v,
        IC("item_move_to_back"),
        dict(cols=_k),
        ghosts=FirstLast,
        raises=toomany,
        invs=dict(
            dict=[
                ("the same names", fi(lambda x: All([k], x.obj.has(k) == x.d0.has(k)))),
                ("with their items", fi(lambda x: All([k], Imp(x.d0.has(k), x.obj.at(k) == x.d0.at(k))))),
                ("moved names last, in their order", fi(lambda x: All([a, b], Imp(And(x.d0.has(a), x.d0.has(b)), (x.obj.rank(a) < x.obj.rank(b)) == back_before(x, a, b, x.c))))),
            ]
        ),
        ensures=SAME + [("moved columns last, in the order named; the others keep theirs", lambda x: All([a, b], Imp(And(x.d0.has(a), x.d0.has(b)), (x.obj.rank(a) < x.obj.rank(b)) == back_before(x, a, b, x.G.c.n))))],
    )
)

# ---------------------------------------------------------------- single items
ORD = ("the order of the other columns is kept", lambda x: All([a, b], Imp(And(x.d0.has(a), x.d0.has(b), x.obj.has(a), x.obj.has(b)), (x.d0.rank(a) < x.d0.rank(b)) == (x.obj.rank(a) < x.obj.rank(b)))))
C.append(
    OC(
        "item_set_value",
        IC("item_set_value"),
        dict(key="name", value="value"),
        ensures=[
            ("the column exists and holds the value", lambda x: And(x.obj.has(x.P["key"]), z3.Select(x.A0, x.obj.at(x.P["key"])) == x.P["value"])),
            ("no other name comes or goes", lambda x: All([k], Imp(k != x.P["key"], x.obj.has(k) == x.d0.has(k)))),
            ("other columns keep item and array", lambda x: All([k], Imp(And(x.d0.has(k), k != x.P["key"]), And(x.obj.at(k) == x.d0.at(k), z3.Select(x.A0, x.d0.at(k)) == z3.Select(x.A00, x.d0.at(k)))))),
            ("a replaced column keeps its item", lambda x: Imp(x.d0.has(x.P["key"]), x.obj.at(x.P["key"]) == x.d0.at(x.P["key"]))),
            ORD,
            ("a new column comes last", lambda x: Imp(Not(x.d0.has(x.P["key"])), All([k], Imp(x.d0.has(k), x.obj.rank(k) < x.obj.rank(x.P["key"]))))),
        ],
    )
)
C.append(
    OC(
        "item_delete",
        IC("item_delete"),
        dict(key="name"),
        raises=lambda r: Not(r.d0.has(r.P["key"])),
        ensures=[
            ("only that name goes", lambda x: All([k], x.obj.has(k) == And(x.d0.has(k), k != x.P["key"]))),
            ("other columns keep item and array", lambda x: All([k], Imp(x.obj.has(k), And(x.obj.at(k) == x.d0.at(k), z3.Select(x.A0, x.d0.at(k)) == z3.Select(x.A00, x.d0.at(k)))))),
            ORD,
        ],
    )
)
C.append(OC("item_exists", IC("item_exists"), dict(item="name"), ensures=SAME + [("tells membership", lambda x: x.result == x.d0.has(x.P["item"]))]))
C.append(
    OC(
        "item_get_value",
        IC("item_get_value"),
        dict(key="name"),
        raises=lambda r: Not(r.d0.has(r.P["key"])),
        ensures=SAME + [("the column's array", lambda x: x.result == z3.Select(x.A00, x.d0.at(x.P["key"])))],
    )
)

# ---------------------------------------------------------------- replacing every array
C.append(
    OC(
        "item_replace_all",
        IC("item_replace_all"),
        dict(newdict="values", check_exists="true"),
        raises=lambda r: z3.Exists([k], r.P["newdict"].has(k) != r.d0.has(k)),
        invs=dict(
            loop=[
                ("visited new names exist", lambda x: All([k], Imp(x.vis(k), x.d0.has(k)))),
                ("visited names are given", lambda x: All([k], Imp(x.vis(k), x.P["newdict"].has(k)))),
            ],
            A0=[("the arrays of the visited names", lambda x: All([k], Imp(x.d0.has(k), z3.Select(x.A0, x.d0.at(k)) == z3.If(x.vis(k), x.P["newdict"].at(k), z3.Select(x.A00, x.d0.at(k))))))],
        ),
        ensures=SAME + [("every column holds its new array", lambda x: All([k], Imp(x.d0.has(k), z3.Select(x.A0, x.d0.at(k)) == x.P["newdict"].at(k))))],
    )
)


# ---------------------------------------------------------------- copying the container
S = z3.Select


def copied_in(x, n):
    if isinstance(x.src, D):
        return x.vis(n)
    return And(x.d0.has(n), x.G.fo(n) < x.c)


def copied_before(x, p, q):
    return x.d0.rank(p) < x.d0.rank(q) if x.G is None else x.G.fo(p) < x.G.fo(q)


def own_item(x, d, n):
    return And(
        S(x.A0, d.at(n)) == S(x.A00, x.d0.at(n)),
        All([b], Imp(x.d0.has(b), d.at(n) != x.d0.at(b))),
        z3.If(S(x.A10, x.d0.at(n)) == NONE, S(x.A1, d.at(n)) == NONE, And(S(x.A1, d.at(n)) != NONE, copyof(S(x.A1, d.at(n))) == S(x.A10, x.d0.at(n)), All([b], Imp(x.d0.has(b), S(x.A1, d.at(n)) != S(x.A10, x.d0.at(b)))))),
    )


def own_attr(x, d):
    return All([a, b], Imp(And(d.has(a), d.has(b), a != b), And(d.at(a) != d.at(b), Imp(S(x.A1, d.at(a)) != NONE, S(x.A1, d.at(a)) != S(x.A1, d.at(b))))))


def keepA(w):
    return lambda x: All([k], Imp(x.d0.has(k), S(getattr(x, w), x.d0.at(k)) == S(getattr(x, w + "0"), x.d0.at(k))))


def copying(name, params, member, ghosts=None, raises=None):
    C.append(
        OC(
            name,
            IC("copy"),
            params,
            ghosts=ghosts,
            raises=raises,
            invs=dict(
                dict=[
                    ("the names copied so far", fi(lambda x: All([k], x.obj.has(k) == copied_in(x, k)))),
                    ("each with an item of its own", fi(lambda x: All([k], Imp(x.obj.has(k), own_item(x, x.obj, k))))),
                    ("nothing shared inside", fi(lambda x: own_attr(x, x.obj))),
                    ("in order", fi(lambda x: All([a, b], Imp(And(x.obj.has(a), x.obj.has(b)), (x.obj.rank(a) < x.obj.rank(b)) == copied_before(x, a, b))))),
                ],
                loop=[("visited names exist", lambda x: All([i], Imp(And(0 <= i, i < x.c), x.d0.has(x.src.at(i)))) if not isinstance(x.src, D) else z3.BoolVal(True))],
                A0=[("the source's arrays stay", keepA("A0"))],
                A1=[("the source's attributes stay", keepA("A1"))],
            ),
            ensures=SAME
            + [
                ("the source's arrays stay", keepA("A0")),
                ("the source's attributes stay", keepA("A1")),
                ("exactly the names asked for", lambda x: All([k], x.result.has(k) == member(x, k))),
                ("each with the same array, an item and attributes of its own", lambda x: All([k], Imp(x.result.has(k), own_item(x, x.result, k)))),
                ("no two share an item or attributes", lambda x: own_attr(x, x.result)),
                ("in order", lambda x: All([a, b], Imp(And(x.result.has(a), x.result.has(b)), (x.result.rank(a) < x.result.rank(b)) == copied_before(x, a, b)))),
            ],
        )
    )


copying("copy", {}, lambda x, n: x.d0.has(n))
copying("copy/cols", dict(cols="names"), lambda x, n: x.G.fo(n) < x.G.c.n, ghosts=FirstLast, raises=lambda r: z3.Exists([i], And(0 <= i, i < r.P["cols"].n, Not(r.d0.has(r.P["cols"].at(i))))))
