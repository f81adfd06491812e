"""C11 bounded: a Dataset is an ordered table of equal-length named columns; histories of column and row operations against a model."""
import re
import numpy as np
from .common import section
from .c13 import content

KINDS = ["int32", "int64", "uint8", "float64", "bytes", "bool", "cat", "Date"]
NAMES = ["a", "b", "c", "ab", "xa", "xxa", "xb", "abx", "a_b", "z", "xz", "k1", "k2"]


def column(rt, rng, kind, n):
    if kind in ("int32", "int64", "uint8"):
        return rt.FastArray(np.array([rng.randrange(0, 90) for _ in range(n)], dtype=kind))
    if kind == "float64":
        return rt.FastArray(np.array([rng.choice([0.0, 1.5, -2.25, np.nan]) for _ in range(n)], dtype=kind))
    if kind == "bytes":
        return rt.FastArray(np.array([rng.choice(["", "a", "bcd"]) for _ in range(n)], dtype="S3"))
    if kind == "bool":
        return rt.FastArray(np.array([rng.random() < 0.5 for _ in range(n)], dtype=bool))
    if kind == "cat":
        if n == 0:
            return column(rt, rng, "int32", n)
        return rt.Categorical([rng.choice(["p", "q", "rr"]) for _ in range(n)])
    return rt.Date(rt.FastArray(np.array([rng.randrange(1, 20000) for _ in range(n)], dtype=np.int32)))


class M:
    """model: name -> the list of the column's values (shared between shallow copies), labels"""

    def __init__(self, cols, n, labels=()):
        self.cols, self.n, self.labels, self.locked = dict(cols), n, list(labels), False

    def shallow(self, names=None):
        names = list(self.cols) if names is None else names
        return M({k: self.cols[k] for k in names}, self.n, [x for x in self.labels if x in names])

    def rows(self, idx, names=None):
        names = list(self.cols) if names is None else names
        return M({k: [self.cols[k][i] for i in idx] for k in names}, len(idx), [x for x in self.labels if x in names])

    def reorder(self, names):
        self.cols = {k: self.cols[k] for k in names}

    def rename(self, f):
        self.cols = {f(k): v for k, v in self.cols.items()}
        self.labels = [f(x) for x in self.labels]


@section("history", bound="histories of 1..12 operations on a pool of up to 4 datasets of 0..8 rows and 0..6 columns (numeric, string, bool, Categorical, Date): set, replace, broadcast, delete, remove, pop, rename, map, swap, move, prefix, suffix, str_replace, select columns, select rows, assign rows, filter, copy (deep and shallow), labels, lock; every dataset of the pool is compared with the model after every operation, refused operations included")
def s_history(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(1500, 15000):
        it += 1
        n = rng.choice([0, 1, 2, 3, 5, 8])
        names = rng.sample(NAMES, rng.randrange(1, 6))
        c0 = {k: column(rt, rng, rng.choice(KINDS), n) for k in names}
        hist = [("new", n, {k: content(v) for k, v in c0.items()})]
        pool = [(rt.Dataset(dict(c0)), M({k: content(v) for k, v in c0.items()}, n))]
        for _ in range(rng.randrange(1, 13)):
            p = rng.randrange(len(pool))
            ds, m = pool[p]
            keys = list(m.cols)
            op = rng.choice(
                ["set", "set", "bcast", "badlen", "del", "remove", "like", "pop", "rename", "rename", "map", "swap", "front", "back",
                 "prefix", "suffix", "replace", "replace", "select", "slice", "mask", "fancy", "head", "tail", "filter", "cell", "cells", "setds", "copy", "shallow", "labels", "lock", "one", "colfilter", "getcol"]
            )
            if not keys and op not in ("set", "copy"):
                continue
            some = rng.sample(keys, rng.randrange(1, len(keys) + 1)) if keys else []
            k1 = rng.choice(keys) if keys else None
            fresh = [q for q in NAMES if q not in keys]
            call = None  # the call
            refuse = False  # expected to raise, changing nothing
            after = lambda r: None  # what the model does with it
            new = None
            L = m.locked
            if op in ("set", "bcast", "badlen"):
                nm = k1 if keys and rng.random() < 0.4 else rng.choice(fresh)
                refuse = L
                if op == "set":
                    if not keys:
                        m.n = rng.choice([1, 2, 4])
                    v = column(rt, rng, rng.choice(KINDS), m.n)
                    vals = content(v)
                    how = rng.choice(["item", "attr", "list"])
                    if how == "list" and (m.n < 1 or not isinstance(v, rt.FastArray) or type(v) is not rt.FastArray or v.ndim > 1 or v.dtype.kind not in "if"):
                        how = "item"
                    arg = v._np.tolist() if how == "list" else v
                    if how == "item" and m.n and rng.random() < 0.25:
                        # a Dataset with one column besides its labels stands for that column
                        src = {"val": v} if rng.random() < 0.4 else ({"lab": rt.arange(m.n), "val": v} if rng.random() < 0.7 else {"val": v, "lab": rt.arange(m.n)})
                        arg = rt.Dataset(src)
                        if "lab" in src:
                            arg.label_set_names(["lab"])
                    call = (lambda: setattr(ds, nm, arg)) if how == "attr" else (lambda: ds.__setitem__(nm, arg))
                elif op == "bcast":
                    if m.n == 0:
                        continue
                    arg = rng.choice([7, 2.5, "word", True, [9], rt.FastArray([4])])
                    one = arg if not isinstance(arg, (list, np.ndarray)) else int(arg[0])
                    vals = [one] * m.n
                    call = lambda: ds.__setitem__(nm, arg)
                else:
                    arg = rng.choice([[1] * (m.n + 2), rt.FastArray(np.arange(m.n + 3)), rt.Date(rt.FastArray(np.arange(1, m.n + 3, dtype=np.int32)))])
                    call = lambda: ds.__setitem__(nm, arg)
                    refuse = True
                    vals = None

                def after(r, nm=nm, vals=vals):
                    m.cols[nm] = vals

                hist.append((p, op, nm, vals if vals is not None else "wrong length"))
            elif op == "del":
                refuse = L
                how = rng.random() < 0.5
                call = (lambda: ds.__delitem__(k1)) if how else (lambda: delattr(ds, k1))
                after = lambda r: (m.cols.pop(k1), m.labels.__contains__(k1) and m.labels.remove(k1))
                hist.append((p, "del", k1))
            elif op in ("remove", "like", "colfilter"):
                q = dict(items=some if rng.random() < 0.7 else [keys.index(x) for x in some]) if op == "remove" else rng.choice([dict(like="x"), dict(regex="^a"), dict(like="b", items=[k1]), dict(regex="[xz]$"), dict(items=some)])
                hit = [x for x in keys if ("items" in q and (x in q["items"] or keys.index(x) in [y for y in q["items"] if isinstance(y, int)])) or ("like" in q and q["like"] in x) or ("regex" in q and re.search(q["regex"], x))]
                if op == "colfilter":
                    hist.append((p, "col_filter", q))
                    if not hit:
                        refuse = True
                    call = lambda: ds.col_filter(**q)

                    def after(r, q=q, hit=hit):
                        got = list(r.keys())
                        ctx.ok("col_filter", sorted(got) == sorted(hit) and all(content(r[x]) == m.cols[x] for x in got if x in m.cols), lambda: f"{hist}\n got columns {got}, expected {hit}")
                else:
                    hist.append((p, "col_remove", q))
                    refuse = L
                    call = lambda: ds.col_remove(**q)
                    after = lambda r: [(m.cols.pop(x), m.labels.__contains__(x) and m.labels.remove(x)) for x in hit]
            elif op == "pop":
                refuse = L
                if rng.random() < 0.5:
                    hist.append((p, "pop", k1))
                    call = lambda: ds.col_pop(k1)

                    def after(r):
                        ctx.ok("pop", content(r) == m.cols[k1], lambda: f"{hist}\n popped {content(r)}")
                        m.cols.pop(k1)
                        if k1 in m.labels:
                            m.labels.remove(k1)
                else:
                    hist.append((p, "pop", some))
                    call = lambda: ds.col_pop(list(some))

                    def after(r):
                        ctx.ok("pop", {q: content(c) for q, c in r.items()} == {q: m.cols[q] for q in some}, lambda: f"{hist}\n popped {r}")
                        for q in some:
                            m.cols.pop(q)
                            if q in m.labels:
                                m.labels.remove(q)
            elif op == "rename":
                nw = rng.choice(NAMES)
                hist.append((p, "rename", k1, nw))
                refuse = (nw in keys or L) and nw != k1
                call = lambda: ds.col_rename(k1, nw)
                after = lambda r: m.rename(lambda x: nw if x == k1 else x)
            elif op == "map":
                perm = list(some)
                rng.shuffle(perm)
                mp = dict(zip(some, perm))
                if rng.random() < 0.5:
                    # chain into a fresh name
                    tail = rng.choice(fresh)
                    mp = dict(zip(some, some[1:] + [tail]))
                hist.append((p, "map", mp))
                refuse = L
                call = lambda: ds.col_map(dict(mp))

                def after(r, mp=mp):
                    # the data moves to the new names; a permutation keeps the positions of the names
                    want = {mp.get(x, x): v for x, v in m.cols.items()}
                    got = list(ds.keys())
                    ctx.ok("map:names", sorted(got) == sorted(want), lambda: f"{hist}\n columns {got}, expected {list(want)}")
                    if sorted(got) == sorted(want):
                        m.cols = {x: want[x] for x in got}
                        m.labels = None

                m.maplabels = m.labels
            elif op == "swap":
                perm = list(some)
                rng.shuffle(perm)
                hist.append((p, "swap", some, perm))
                refuse = L
                call = lambda: ds.col_swap(list(some), list(perm))

                def after(r):
                    t = {x: m.cols[x] for x in some}
                    for x, y in zip(perm, some):
                        m.cols[x] = t[y]
            elif op in ("front", "back"):
                hist.append((p, op, some))
                arg = rng.choice([list(some), tuple(some), some[0], np.array(some)])
                mv = [some[0]] if isinstance(arg, str) else some
                refuse = L
                call = lambda: (ds.col_move_to_front if op == "front" else ds.col_move_to_back)(arg)
                rest = [x for x in keys if x not in mv]
                after = lambda r: m.reorder(mv + rest if op == "front" else rest + mv)
            elif op in ("prefix", "suffix"):
                hist.append((p, op))
                refuse = L
                call = lambda: (ds.col_add_prefix if op == "prefix" else ds.col_add_suffix)("x")
                after = lambda r: m.rename(lambda x: "x" + x if op == "prefix" else x + "x")
            elif op == "replace":
                o, w = rng.choice([("x", ""), ("a", "b"), ("x", "y"), ("xx", "x"), ("b", "a")])
                f = lambda x: x.replace(o, w)
                new_ = [f(x) for x in keys]
                hist.append((p, "str_replace", o, w, keys))
                refuse = L or any(f(x) != x and f(x) in keys for x in keys) or len(set(new_)) < len(keys)
                if any(not x for x in new_):
                    continue
                call = lambda: ds.col_str_replace(o, w)
                after = lambda r: m.rename(f)
            elif op in ("select", "getcol"):
                if op == "getcol":
                    j = keys.index(k1)
                    hist.append((p, "get", k1))
                    call = lambda: (ds[k1], getattr(ds, k1), ds[j], ds[:, k1])
                    after = lambda r: [ctx.ok("getcol", content(x) == m.cols[k1], lambda: f"{hist}\n got {content(x)}") for x in (r[0], r[1], r[3])]
                else:
                    hist.append((p, "select", some))
                    arg = rng.choice([list(some), np.array([x in some for x in keys])])
                    sel = list(some) if isinstance(arg, list) else [x for x in keys if x in some]
                    call = lambda: ds[arg] if rng.random() < 0.5 else ds[:, arg]
                    new = lambda: m.shallow(sel)
            elif op in ("slice", "mask", "fancy", "head", "tail", "one"):
                if op == "slice":
                    s = slice(rng.choice([None, 0, 1, -2, m.n]), rng.choice([None, m.n, -1, 2]), rng.choice([None, 1, 2, -1]))
                    if s.step == -1:
                        s = slice(None, None, -1)
                    idx = list(range(m.n))[s]
                    arg = s
                elif op == "mask":
                    b = [rng.random() < 0.5 for _ in range(m.n)]
                    idx = [i for i in range(m.n) if b[i]]
                    arg = rt.FastArray(np.array(b, dtype=bool))
                elif op == "fancy":
                    if m.n == 0:
                        continue
                    idx = [rng.randrange(m.n) for _ in range(rng.randrange(0, 6))]
                    arg = rt.FastArray(np.array([i if rng.random() < 0.7 else i - m.n for i in idx], dtype=np.int64))
                elif op == "one":
                    if m.n == 0:
                        continue
                    i = rng.randrange(m.n)
                    idx = [i]
                    arg = i if rng.random() < 0.5 else i - m.n
                else:
                    k = rng.choice([0, 1, 2, m.n, m.n + 3])
                    idx = list(range(m.n))[:k] if op == "head" else list(range(m.n))[max(0, m.n - k):]
                    arg = k
                hist.append((p, op, str(arg)))
                if op in ("head", "tail"):
                    call = lambda: getattr(ds, op)(arg)
                    sel = keys
                else:
                    sel = list(some) if rng.random() < 0.5 else keys
                    call = lambda: ds[arg, list(sel)] if sel is not keys else ds[arg, :]

                def after(r, idx=idx, sel=sel):
                    got = {q: content(c) for q, c in r.items()}
                    exp = m.rows(idx, sel).cols
                    ctx.ok("rows:" + op, got == exp and list(got) == list(exp) and r._nrows == len(idx), lambda: f"{hist}\n got {got}, {r._nrows} rows\n expected {exp}")
                    for q, c in r.items():
                        ctx.ok("rows:class", type(c) is type(ds[q]) and c.dtype == ds[q].dtype, lambda: f"{hist}\n column {q} became {type(c)} {c.dtype}")
            elif op == "filter":
                b = [rng.random() < 0.6 for _ in range(m.n)]
                idx = [i for i in range(m.n) if b[i]]
                if m.n and rng.random() < 0.4:
                    idx = [rng.randrange(m.n) for _ in range(3)]
                    arg = np.array(idx)
                else:
                    arg = rt.FastArray(np.array(b, dtype=bool))
                inp = rng.random() < 0.5
                if inp and L:
                    continue
                hist.append((p, "filter", idx, "inplace" if inp else ""))
                call = lambda: ds.filter(arg, inplace=inp)
                if inp:

                    def after(r):
                        x = m.rows(idx)
                        m.cols, m.n = x.cols, x.n
                else:
                    new = lambda: m.rows(idx)
            elif op in ("cell", "cells"):
                num = [k for k in keys if isinstance(ds[k], rt.FastArray) and type(ds[k]) is rt.FastArray and ds[k].ndim == 1 and ds[k].dtype.kind in "if"]
                if not num or m.n == 0:
                    continue
                k1 = rng.choice(num)
                if op == "cell":
                    i = rng.randrange(m.n)
                    hist.append((p, "cell", i, k1))
                    arg = i if rng.random() < 0.5 else i - m.n
                    call = lambda: ds.__setitem__((arg, k1), 77)
                    idx = [i]
                    vals = [77]
                else:
                    idx = sorted(rng.sample(range(m.n), rng.randrange(0, m.n + 1)))
                    b = np.zeros(m.n, dtype=bool)
                    b[idx] = True
                    vals = [33 + j for j in range(len(idx))]
                    hist.append((p, "cells", idx, k1))
                    arg = rt.FastArray(b) if rng.random() < 0.5 or not idx else rt.FastArray(np.array(idx))
                    call = lambda: ds.__setitem__((arg, k1), np.array(vals))

                def after(r, k1=k1, idx=idx, vals=vals):
                    for i, v in zip(idx, vals):
                        m.cols[k1][i] = v  # in place: shallow copies see it
            elif op == "setds":
                if L or len(some) < 2:
                    continue
                src = {f"s{j}": column(rt, rng, "int32", m.n) for j in range(len(some))}
                vals = [content(v) for v in src.values()]
                hist.append((p, "set columns", some))
                call = lambda: ds.__setitem__(list(some), rt.Dataset(src))
                after = lambda r: [m.cols.__setitem__(x, v) for x, v in zip(some, vals)]
            elif op == "copy":
                hist.append((p, "copy"))
                call = lambda: ds.copy()
                new = lambda: M({q: list(v) for q, v in m.cols.items()}, m.n, m.labels)
            elif op == "shallow":
                hist.append((p, "shallow copy"))
                call = lambda: ds.copy(deep=False)
                new = lambda: m.shallow()
            elif op == "labels":
                hist.append((p, "labels", some))
                call = lambda: ds.label_set_names(list(some))
                after = lambda r: setattr(m, "labels", list(some))
            elif op == "lock":
                hist.append((p, "lock" if not L else "unlock"))
                call = lambda: ds._lock() if not L else ds._unlock()
                after = lambda r: setattr(m, "locked", not L)
            if call is None:
                continue
            ctx.at(hist)
            if refuse:
                hist[-1] = hist[-1] + ("to be refused",)
                ctx.raises("refuse:" + op, call, hist)
            else:
                ok, r = ctx.call(op, call, hist)
                if not ok:
                    break
                after(r)
                if m.labels is None:
                    m.labels = ds.label_get_names()
                if new is not None:
                    nm_ = new()
                    if len(pool) < 4:
                        pool.append((r, nm_))
                    else:
                        pool[rng.randrange(4)] = (r, nm_)
            bad = False
            for q, (d, mm) in enumerate(pool):
                got = {x: content(c) for x, c in d.items()}
                bad |= not ctx.ok("state:names", list(got) == list(mm.cols), lambda: f"{hist}\n dataset {q} has columns {list(got)}, expected {list(mm.cols)}")
                bad |= not ctx.ok("state:data", got == mm.cols, lambda: f"{hist}\n dataset {q}\n has      {got}\n expected {mm.cols}")
                bad |= not ctx.ok("state:labels", d.label_get_names() == mm.labels, lambda: f"{hist}\n dataset {q} has labels {d.label_get_names()}, expected {mm.labels}")
                if mm.cols:
                    bad |= not ctx.ok("state:shape", d.shape == (mm.n, len(mm.cols)) and all(len(c) == mm.n for c in d.values()), lambda: f"{hist}\n dataset {q} has shape {d.shape}, expected {(mm.n, len(mm.cols))}")
            if bad:
                break


@section("whole", bound="datasets of 1..8 rows: copies are equal and independent (every element of every column, Categorical category lists included), equals compares names and data, row-wise reductions and trim/keep/drop_duplicates leave the source as it was and give the rows they name")
def s_whole(ctx):
    import riptable as rt

    rng = ctx.rng
    it = 0
    while ctx.more() and it < ctx.scale(1200, 12000):
        it += 1
        n = rng.choice([1, 2, 3, 5, 8])
        names = rng.sample(["a", "b", "c", "d", "e"], rng.randrange(1, 6))
        cols = {k: column(rt, rng, rng.choice(KINDS), n) for k in names}
        ds = rt.Dataset(cols)
        before = {k: (content(v), str(v.dtype), type(v)) for k, v in ds.items()}
        info = before
        ctx.at(info)
        # copies
        ok, e = ctx.call("copy", lambda: ds.copy(), info)
        if ok:
            ctx.ok("copy:equal", {k: content(v) for k, v in e.items()} == {k: before[k][0] for k in before}, lambda: f"{info}")
            for k in names:
                ctx.ok("copy:memory", not np.shares_memory(np.asarray(e[k]._np), np.asarray(ds[k]._np)), lambda: f"{info}: column {k} of the copy shares its memory")
        # equality
        ok, g = ctx.call("equals", lambda: bool(ds.equals(e)), info)
        if ok:
            ctx.ok("equals:same", g is True, lambda: f"{info}: a dataset does not equal its copy")
        num = [k for k in names if type(ds[k]) is rt.FastArray and ds[k].dtype.kind in "if"]
        if num:
            k = rng.choice(num)
            i = rng.randrange(n)
            e[k][i] = 91 if content(e[k])[i] != 91 else 90
            ok, g = ctx.call("equals", lambda: bool(ds.equals(e)), info)
            if ok:
                ctx.ok("equals:differs", g is False, lambda: f"{info}: equals although row {i} of {k} differs")
        # row-wise reductions
        val = {k: [x for x in before[k][0]] for k in names if ds[k].iscomputable()}
        fl = [k for k in val if ds[k].dtype.kind in "if"]
        only = ds[fl] if fl else None
        if only is not None:
            was = {k: (content(v), str(v.dtype)) for k, v in only.items()}
            for f in rng.sample(["sum", "nansum", "mean", "nanmean", "std", "var", "median"], 2):
                ok, r = ctx.call("rowwise", lambda: getattr(only, f)(axis=1), info)
                if not ok:
                    continue
                now = {k: (content(v), str(v.dtype)) for k, v in only.items()}
                ctx.ok("rowwise:source", now == was, lambda: f"{info}: {f}(axis=1) changed the dataset to {now}")
                if f in ("sum", "nansum"):
                    exp = []
                    for i in range(n):
                        x = [content(only[k])[i] for k in fl]
                        exp.append(None if f == "sum" and any(y is None for y in x) else sum(y for y in x if y is not None))
                    got = [None if y != y else y for y in np.asarray(r).tolist()]
                    ctx.eq("rowwise:" + f, got, exp, info)
        # the rows where every number is zero or invalid
        lab = [k for k in names if k not in val]
        z = lambda x: x is None or x == 0
        keepc = [k for k in names if k in lab or not all(z(x) for x in val[k])]
        ok, r = ctx.call("trim", lambda: ds.trim(), info) if keepc else (False, None)
        if ok:
            cc = [k for k in keepc if k in val]
            rows = [i for i in range(n) if not cc or not all(z(val[k][i]) for k in cc)]
            exp = {k: [before[k][0][i] for i in rows] for k in keepc}
            got = {k: content(v) for k, v in r.items()}
            ctx.ok("trim", got == exp and list(got) == list(exp), lambda: f"{info}\n trim gave {got}\n expected {exp}")
        keysub = rng.sample(names, rng.randrange(1, len(names) + 1))
        for kp in ("first", "last", False):
            ok, r = ctx.call("drop_duplicates", lambda: ds.drop_duplicates(list(keysub), keep=kp), info)
            if not ok:
                continue
            seen = {}
            for i in range(n):
                seen.setdefault(tuple(before[k][0][i] for k in keysub), []).append(i)
            rows = [v[0] if kp == "first" else v[-1] for v in seen.values() if kp is not False or len(v) == 1]
            exp = {k: [before[k][0][i] for i in rows] for k in names}
            got = {k: content(v) for k, v in r.items()}
            if any(isinstance(ds[k], rt.Categorical) for k in keysub):
                # keys are in category order then
                exp = sorted(map(repr, zip(*[exp[k] for k in names])))
                got = sorted(map(repr, zip(*[got[k] for k in names]))) if list(got) == names else got
            ctx.ok(f"drop_duplicates:{kp}", got == exp, lambda: f"{info}\n drop_duplicates({keysub}, keep={kp}) gave {got}\n expected {exp}")
        now = {k: (content(v), str(v.dtype), type(v)) for k, v in ds.items()}
        ctx.ok("source", now == before, lambda: f"{info}: the source became {now}")
