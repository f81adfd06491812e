"""VC generator for the sort cache (riptable/rt_sort_cache.py): lists of any length, a cache of any contents.

Built on odict.Run. A cache entry is (crc list, sort index, rows, ascending). Sorted(idx, crcs, n, ascending, rows) says idx is the
stable sort of the n key columns with these crcs; it depends on the crcs at 0..n-1, the row count and the directions only.
"""
import ast, time
import z3
from .odict import Run, D, Lst, Ref, View, St, Ctx, Key, Val, Obj, I, B, NONE, RAISE, fresh, fresh_dict, wf, Unsupported, OC

Asc = z3.DeclareSort("Ascending")
AI = z3.ArraySort(I, I)
crc = z3.Function("crc64", Val, I)
atype, bval, alen = z3.Function("type_of", Asc, I), z3.Function("bool_of", Asc, B), z3.Function("len_of", Asc, I)
aelt, aeq = z3.Function("direction", Asc, I, B), z3.Function("py_eq", Asc, Asc, B)
Sorted = z3.Function("Sorted", Obj, AI, I, Asc, I, B)
dc, da = z3.Function("diff_crc", AI, AI, I, I), z3.Function("diff_dir", Asc, Asc, I)
BOOL = 0


def axioms():
    x, y = z3.Consts("asc1 asc2", Asc)
    c1, c2 = z3.Consts("c1 c2", AI)
    o = z3.Const("o", Obj)
    n, m, r, s = z3.Ints("n m r s")
    d, e = dc(c1, c2, n), da(x, y)
    same_c = z3.Not(z3.And(0 <= d, d < n, z3.Select(c1, d) != z3.Select(c2, d)))
    same_a = z3.And(
        (atype(x) == BOOL) == (atype(y) == BOOL),
        z3.If(atype(x) == BOOL, bval(x) == bval(y), z3.And(alen(x) == alen(y), z3.Not(z3.And(0 <= e, e < alen(x), aelt(x, e) != aelt(y, e))))),
    )
    return [
        z3.ForAll([x], alen(x) >= 0),
        z3.ForAll([x, y], z3.Implies(z3.And(atype(x) == BOOL, atype(y) == BOOL), aeq(x, y) == (bval(x) == bval(y)))),
        z3.ForAll([o, c1, c2, n, x, y, r], z3.Implies(z3.And(Sorted(o, c1, n, x, r), same_c, same_a), Sorted(o, c2, n, y, r)), patterns=[z3.MultiPattern(Sorted(o, c1, n, x, r), Sorted(o, c2, n, y, r))]),
    ]


class Cache:
    F = ("M", "n", "crcs", "idx", "rows", "asc")

    def __init__(s, **k):
        s.__dict__.update(k)

    def put(s, u, t):
        c, i, r, a = t
        return Cache(M=z3.Store(s.M, u, True), n=z3.Store(s.n, u, c.n), crcs=z3.Store(s.crcs, u, c.arr), idx=z3.Store(s.idx, u, i), rows=z3.Store(s.rows, u, r), asc=z3.Store(s.asc, u, a))


def fresh_cache():
    A = lambda nm, so: fresh("cache." + nm, z3.ArraySort(Key, so))
    return Cache(M=A("M", B), n=A("n", I), crcs=A("crcs", AI), idx=A("idx", Obj), rows=A("rows", I), asc=A("asc", Asc))


def cache_inv(c):
    u = z3.Const("u", Key)
    S = lambda a: z3.Select(a, u)
    return z3.ForAll([u], z3.Implies(S(c.M), z3.And(S(c.n) >= 0, S(c.idx) != NONE, Sorted(S(c.idx), S(c.crcs), S(c.n), S(c.asc), S(c.rows)))), patterns=[S(c.M)])


class Cls:
    pass


class CacheRef:
    pass


class Clo:
    def __init__(s, node):
        s.node = node


class CC(OC):
    def verify(self, budget):
        t0 = time.time()
        try:
            return CRun(self, t0 + budget).run(t0)
        except Unsupported as e:
            return dict(name=self.name, target=self.target, status="unsupported", reason=str(e), t=time.time() - t0, obligations=[])
        except Exception:
            import traceback

            return dict(name=self.name, target=self.target, status="unsupported", reason="engine: " + traceback.format_exc()[-900:], t=time.time() - t0, obligations=[])


class CRun(Run):
    def check(self, pc, goal, t=8.0):
        return super().check(axioms() + list(pc), goal, t)

    def lift(self, x, v):
        """list-like values as Lst"""
        if isinstance(v, Ref):
            o = x.heap[v.id]
            return o if isinstance(o, Lst) else None
        if isinstance(v, View) and v.what == "values":
            d = x.heap[v.ref.id]
            arr = fresh("vals", z3.ArraySort(I, Val))
            j = z3.Int("j")
            x.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < d.top), z3.Select(arr, j) == d.at(d.nm(j))), patterns=[z3.Select(arr, j)]))
            return Lst(d.top, arr)
        if isinstance(v, Lst):
            return v
        if z3.is_expr(v) and v.sort() == Asc:
            arr = fresh("dirs", z3.ArraySort(I, B))
            j = z3.Int("j")
            x.pc.append(z3.ForAll([j], z3.Select(arr, j) == aelt(v, j), patterns=[z3.Select(arr, j)]))
            return Lst(alen(v), arr)
        return None

    def e_Name(self, e, st):
        if e.id == "bool" and e.id not in st.env:
            return [(st, "bool")]
        return super().e_Name(e, st)

    def e_Attribute(self, e, st):
        if isinstance(e.value, ast.Name) and isinstance(st.env.get(e.value.id), Cls):
            if e.attr == "_cache":
                return [(st, CacheRef())]
            if e.attr == "_logging":
                return [(st, fresh("logging", B))]
        raise Unsupported("attribute " + e.attr)

    def e_Tuple(self, e, st):
        return [(x, vs if vs is RAISE else tuple(vs)) for x, vs in self.evs(e.elts, st)]

    def e_List(self, e, st):
        if len(e.elts) == 0:
            return [(st, self.alloc(st, Lst(z3.IntVal(0), fresh("lst", AI))))]
        raise Unsupported("list")

    def e_Compare(self, e, st):
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
            op = e.ops[0]
            pos = isinstance(op, (ast.Is, ast.Eq, ast.In))
            outs = []
            for x, vs in self.evs([e.left, e.comparators[0]], st):
                if vs is RAISE:
                    outs.append((x, RAISE))
                    continue
                a, b = vs
                if isinstance(op, (ast.In, ast.NotIn)):
                    if not isinstance(b, CacheRef):
                        raise Unsupported("in")
                    t = z3.Select(x.heap["cache"].M, a)
                elif isinstance(b, str):
                    t = a == b if isinstance(a, str) else (a == BOOL)
                    t = z3.BoolVal(t) if isinstance(t, bool) else t
                elif z3.is_expr(a) and z3.is_expr(b) and a.sort() == Asc and b.sort() == Asc:
                    t = aeq(a, b)
                elif z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
                    t = a == b
                elif z3.is_expr(b) and z3.eq(b, NONE):
                    t = z3.BoolVal(False)
                else:
                    la, lb = self.lift(x, a), self.lift(x, b)
                    if la is None or lb is None or la.arr.sort() != lb.arr.sort():
                        raise Unsupported("comparison")
                    j = z3.Int("j")
                    t = z3.And(la.n == lb.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < la.n), la.at(j) == lb.at(j))))
                outs.append((x, t if pos else z3.Not(t)))
            return outs
        return super().e_Compare(e, st)

    def e_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            if s.lower is None and s.upper is None and s.step is not None and ast.unparse(s.step) == "-1":
                return [(x, RAISE if v is RAISE else self.alloc(x, self.rev(x, v))) for x, v in self.ev(e.value, st)]
            raise Unsupported("slice")
        outs = []
        for x, vs in self.evs([e.value, e.slice], st):
            if vs is RAISE:
                outs.append((x, RAISE))
                continue
            b, k = vs
            if isinstance(b, tuple) and z3.is_int_value(k):
                outs.append((x, b[k.as_long()]))
            elif isinstance(b, CacheRef):
                c = x.heap["cache"]
                y = x.copy()
                y.pc.append(z3.Not(z3.Select(c.M, k)))
                if self.feasible(y.pc):
                    outs.append((y, RAISE))
                x.pc.append(z3.Select(c.M, k))
                outs.append((x, self.entry_of(c, k)))
            else:
                raise Unsupported("subscript")
        return outs

    def entry_of(self, c, k):
        return (Lst(z3.Select(c.n, k), z3.Select(c.crcs, k)), z3.Select(c.idx, k), z3.Select(c.rows, k), z3.Select(c.asc, k))

    def rev(self, x, v):
        o = self.lift(x, v)
        if o is None:
            raise Unsupported("reverse")
        arr = fresh("rev", o.arr.sort())
        j = z3.Int("j")
        x.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < o.n), z3.Select(arr, j) == o.at(o.n - 1 - j)), patterns=[z3.Select(arr, j)]))
        x.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < o.n), z3.Select(arr, o.n - 1 - j) == o.at(j)), patterns=[o.at(j)]))
        return Lst(o.n, arr)

    def comp(self, e, st):
        """generator over one list or a zip of lists -> (n, function of the index, state)"""
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported("comprehension")
        g = e.generators[0]
        it, zipped = g.iter, False
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip":
            srcs, zipped = it.args, True
        else:
            srcs = [it]
        r = self.evs(srcs, st)
        if len(r) != 1 or r[0][1] is RAISE:
            raise Unsupported("comprehension source")
        x, vs = r[0]
        ls = [self.lift(x, v) for v in vs]
        if any(l is None for l in ls):
            raise Unsupported("comprehension source")
        n = ls[0].n
        for l in ls[1:]:
            n = z3.If(l.n < n, l.n, n)
        j = z3.Int("jc")
        y = x.copy()
        tg = g.target
        if zipped:
            if not isinstance(tg, ast.Tuple) or len(tg.elts) != len(ls):
                raise Unsupported("comprehension target")
            for t, l in zip(tg.elts, ls):
                y.env[t.id] = l.at(j)
        else:
            y.env[tg.id] = ls[0].at(j)
        npc = len(y.pc)
        r = self.ev(e.elt, y)
        if len(r) != 1 or r[0][1] is RAISE or len(r[0][0].pc) != npc or not z3.is_expr(r[0][1]):
            raise Unsupported("comprehension body")
        return x, n, j, r[0][1]

    def e_ListComp(self, e, st):
        x, n, j, v = self.comp(e, st)
        arr = fresh("comp", z3.ArraySort(I, v.sort()))
        x.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(arr, j) == v), patterns=[z3.Select(arr, j)]))
        return [(x, self.alloc(x, Lst(n, arr)))]

    def e_Call(self, e, st):
        f = e.func
        nm = f.id if isinstance(f, ast.Name) else None
        if nm == "print":
            return [(st, NONE)]
        if nm in ("any", "all") and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            x, n, j, v = self.comp(e.args[0], st)
            t = self.truth(v)
            rg = z3.And(0 <= j, j < n)
            return [(x, z3.Exists([j], z3.And(rg, t)) if nm == "any" else z3.ForAll([j], z3.Implies(rg, t)))]
        if nm and isinstance(st.env.get(nm), Clo):
            clo = st.env[nm].node
            if e.keywords or len(e.args) != len(clo.args.args):
                raise Unsupported("call of " + nm)
            outs = []
            for x, vs in self.evs(e.args, st):
                save = dict(x.env)
                x.env.update({p.arg: v for p, v in zip(clo.args.args, vs)})
                for y, sig in self.block(clo.body, x):
                    y.env = dict(save)
                    outs.append((y, NONE if sig is None else RAISE if sig[0] == "raise" else sig[1]))
            return outs
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and isinstance(st.env.get(f.value.id), Cls):
            return self.clsmethod(f.attr, e, st)
        outs = []
        recv = [f.value] if isinstance(f, ast.Attribute) else []
        for x, vs in self.evs(recv + list(e.args), st):
            if vs is RAISE:
                outs.append((x, RAISE))
                continue
            if nm == "crc64" and len(vs) == 1:
                outs.append((x, crc(vs[0])))
            elif nm == "type":
                outs.append((x, atype(vs[0])))
            elif nm == "isinstance" and vs[1] == "bool":
                outs.append((x, atype(vs[0]) == BOOL))
            elif nm == "len":
                v = vs[0]
                if isinstance(v, Ref) and isinstance(x.heap[v.id], D):
                    outs.append((x, x.heap[v.id].top))
                elif z3.is_expr(v) and v.sort() == Obj:
                    outs.append((x, self.P["rows_of"](v)))
                else:
                    l = self.lift(x, v)
                    if l is None:
                        raise Unsupported("len")
                    outs.append((x, l.n))
            elif nm in ("list", "tuple"):
                v = vs[0]
                if isinstance(v, View) and v.what == "keys":
                    outs.append((x, View(v.ref, "keys")))
                    continue
                l = self.lift(x, v)
                if l is None:
                    raise Unsupported("list of")
                outs.append((x, self.alloc(x, l)))
            elif nm == "reversed":
                outs.append((x, self.alloc(x, self.rev(x, vs[0]))))
            elif nm == "lexsort" and len(vs) == 1:
                kw = {q.arg: q.value for q in e.keywords}
                if set(kw) != {"ascending"}:
                    raise Unsupported("lexsort arguments")
                r = self.ev(kw["ascending"], x)
                l = self.lift(x, vs[0])
                if len(r) != 1 or l is None:
                    raise Unsupported("lexsort arguments")
                self.assumed.add("lexsort(keys, ascending): the stable sort by the keys, last key first")
                o = fresh("lexsort", Obj)
                c = fresh("crcs", AI)
                j = z3.Int("j")
                x.pc += [o != NONE, Sorted(o, c, l.n, r[0][1], self.P["nrows"])]
                x.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.n), z3.Select(c, j) == crc(l.at(l.n - 1 - j))), patterns=[z3.Select(c, j)]))
                outs.append((x, o))
            elif isinstance(f, ast.Attribute) and f.attr == "reverse" and isinstance(vs[0], Ref):
                self.write(vs[0].id)
                x.heap[vs[0].id] = self.rev(x, vs[0])
                outs.append((x, NONE))
            elif isinstance(f, ast.Attribute) and f.attr in ("values", "keys") and isinstance(vs[0], Ref) and isinstance(x.heap[vs[0].id], D):
                outs.append((x, View(vs[0], f.attr)))
            elif isinstance(f, ast.Attribute) and f.attr == "append" and isinstance(vs[0], Ref) and isinstance(x.heap[vs[0].id], Lst):
                o = x.heap[vs[0].id]
                self.write(vs[0].id)
                x.heap[vs[0].id] = Lst(o.n + 1, z3.Store(o.arr, o.n, vs[1]))
                outs.append((x, NONE))
            elif isinstance(f, ast.Attribute) and f.attr == "get" and isinstance(vs[0], CacheRef) and len(vs) == 2:
                raise Unsupported("cache.get")
            elif isinstance(f, ast.Attribute) and f.attr == "pop" and isinstance(vs[0], CacheRef):
                c = x.heap["cache"]
                if len(vs) != 3:
                    raise Unsupported("cache.pop")
                self.write("cache")
                x.heap["cache"] = Cache(**dict(c.__dict__, M=z3.Store(c.M, vs[1], False)))
                outs.append((x, NONE))
            else:
                raise Unsupported("call " + ast.unparse(f))
        return outs

    def clsmethod(self, name, e, st):
        from .extract import find

        m, node = find(self.c.target.split("::")[0] + "::" + self.cls + "." + name)
        if node is None or e.keywords:
            raise Unsupported("method " + name)
        self.inlined.add(name)
        ps = [a.arg for a in node.args.args]
        outs = []
        for x, vs in self.evs(e.args, st):
            if vs is RAISE or len(vs) != len(ps) - 1:
                raise Unsupported("arguments of " + name)
            save = x.env
            x.env = dict(zip(ps, [Cls()] + vs))
            for y, sig in self.block(node.body, x):
                y.env = dict(save)
                outs.append((y, NONE if sig is None else RAISE if sig[0] == "raise" else sig[1]))
        return outs

    def truth(self, v):
        if isinstance(v, (Lst, tuple)):
            raise Unsupported("truth")
        return super().truth(v)

    def stmt(self, s, st):
        if isinstance(s, ast.FunctionDef):
            st.env[s.name] = Clo(s)
            return [(st, None)]
        if isinstance(s, ast.Delete):
            outs = [(st, None)]
            for t in s.targets:
                nxt = []
                for x, sig in outs:
                    for y, vs in self.evs([t.value, t.slice], x):
                        if vs is RAISE or not isinstance(vs[0], CacheRef):
                            raise Unsupported("del")
                        c = y.heap["cache"]
                        z = y.copy()
                        z.pc.append(z3.Not(z3.Select(c.M, vs[1])))
                        if self.feasible(z.pc):
                            nxt.append((z, ("raise",)))
                        y.pc.append(z3.Select(c.M, vs[1]))
                        y.heap["cache"] = Cache(**dict(c.__dict__, M=z3.Store(c.M, vs[1], False)))
                        nxt.append((y, None))
                outs = nxt
            return outs
        return super().stmt(s, st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Subscript):
            outs = []
            for x, vs in self.evs([t.value, t.slice], st):
                if vs is RAISE:
                    outs.append((x, ("raise",)))
                    continue
                if not isinstance(vs[0], CacheRef) or not isinstance(v, tuple) or len(v) != 4:
                    raise Unsupported("store")
                l = self.lift(x, v[0])
                if l is None or l.arr.sort() != AI:
                    raise Unsupported("store")
                a = v[3]
                if z3.is_expr(a) and a.sort() == B:
                    a = fresh("asc", Asc)
                    x.pc += [atype(a) == BOOL, bval(a) == v[3]]
                if [q.sort() for q in (v[1], v[2], a) if z3.is_expr(q)] != [Obj, I, Asc]:
                    raise Unsupported("store")
                x.heap["cache"] = x.heap["cache"].put(vs[1], (l, v[1], v[2], a))
                outs.append((x, None))
            return outs
        if isinstance(t, ast.Tuple) and isinstance(v, tuple) and len(t.elts) != len(v):
            raise Unsupported("unpacking")
        return super().assign(t, v, st)

    def feasible(self, pc):
        return super().feasible(pc)

    def run(self, t0):
        c = self.c
        cache = fresh_cache()
        st = St({}, {"cache": cache}, fresh("A0", z3.ArraySort(Val, Obj)), [cache_inv(cache)], None)
        ps = [x.arg for x in self.node.args.args]
        if ps[1:] != list(c.params):
            raise Unsupported("parameters changed")
        st.env[ps[0]] = Cls()
        P = dict(rows_of=z3.Function("rows_of", Obj, I))
        d0 = None
        for n, kind in c.params.items():
            if kind == "uid":
                P[n] = st.env[n] = fresh(n, Key)
            elif kind == "int":
                P[n] = st.env[n] = fresh(n, I)
            elif kind == "asc":
                P[n] = st.env[n] = fresh(n, Asc)
            elif kind == "obj":
                P[n] = st.env[n] = fresh(n, Obj)
            elif kind == "none":
                P[n] = st.env[n] = NONE
            elif kind == "dict":
                d0 = fresh_dict(n, True)
                st.pc += wf(d0, True)
                P[n] = d0
                st.env[n] = self.alloc(st, d0)
            elif kind == "list":
                l = Lst(fresh(n + ".n", I), fresh(n, z3.ArraySort(I, Val)))
                st.pc.append(l.n >= 0)
                P[n] = l
                st.env[n] = self.alloc(st, l)
        P.setdefault("nrows", fresh("nrows", I))
        self.P, self.d0, self.cache0 = P, d0, cache
        self.G = c.ghosts(self) if c.ghosts else None
        if self.G:
            st.pc += self.G.axioms
        self.entry = st.copy()
        if c.requires:
            st.pc += c.requires(self)
        for y, sig in self.block(self.node.body, st):
            if not self.feasible(y.pc):
                continue
            self.exits += 1
            if sig is not None and sig[0] == "raise":
                self.oblige(y, "raises", "never raises", z3.BoolVal(False))
                continue
            x = Ctx(self, self.entry, None, None, y)
            x.result = sig[1] if sig is not None else NONE
            x.cache, x.cache0 = y.heap["cache"], cache
            for lab, f in c.ensures:
                self.oblige(y, "ensures", lab, f(x))
            self.oblige(y, "invariant", "every cached index is the sort of what it is cached for", cache_inv(x.cache))
        return dict(name=c.name, target=c.target, status="failed" if self.fails else "proved", failed=self.fails, obligations=self.obls, dropped=[list(map(str, d)) for d in self.dropped], invariants=[], inlined=sorted(self.inlined), assumed=sorted(self.assumed), exits=self.exits, loops=self.loops, t=time.time() - t0, stats=dict(time=self.tq, queries=self.nq), reason="")
