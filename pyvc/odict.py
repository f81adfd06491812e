"""VC generator for methods over an insertion-ordered dict (ItemContainer): unbounded number of names.

A dict is (M, R, top, V): M membership of a name, R its rank in iteration order, top a rank above all members, V its item.
An inserted new name gets rank top; replacing keeps the rank; removing clears M. Items are identities with a mutable
field 0 (the array) held in the field map A0. A loop over a dict visits the members in rank order: at the loop head exactly
the members of rank < c have been visited. Names are an uninterpreted sort; concatenation is injective in each argument.
"""
import ast, time, traceback
import z3
from . import logic as L
from .extract import find, module
from .symex import Unsupported

Key, Val, Obj = z3.DeclareSort("Name"), z3.DeclareSort("Item"), z3.DeclareSort("Value")
NONE = z3.Const("None", Obj)
cat = z3.Function("concat", Key, Key, Key)
cat_l, cat_r = z3.Function("unprefix", Key, Key, Key), z3.Function("unsuffix", Key, Key, Key)
copyof = z3.Function("copy_of", Obj, Obj)
repl = z3.Function("str.replace", Key, Key, Key, z3.IntSort(), Key)
I, B = z3.IntSort(), z3.BoolSort()
_n = [0]


def fresh(name, sort):
    _n[0] += 1
    return z3.Const(f"{name}!{_n[0]}", sort)


def axioms():
    a, b = z3.Consts("a b", Key)
    return [z3.ForAll([a, b], cat_l(a, cat(a, b)) == b, patterns=[cat(a, b)]), z3.ForAll([a, b], cat_r(b, cat(a, b)) == a, patterns=[cat(a, b)])]


class D:
    def __init__(s, M, R, top, V, contig=False):
        s.M, s.R, s.top, s.V, s.contig = M, R, top, V, contig

    def has(s, k):
        return z3.Select(s.M, k)

    def rank(s, k):
        return z3.Select(s.R, k)

    def at(s, k):
        return z3.Select(s.V, k)


def fresh_dict(name, contig=False):
    return D(fresh(name + ".M", z3.ArraySort(Key, B)), fresh(name + ".R", z3.ArraySort(Key, I)), fresh(name + ".top", I), fresh(name + ".V", z3.ArraySort(Key, Val)), contig)


def wf(d, contig=False):
    """ranks of members are distinct and below top"""
    a, b = z3.Consts("a b", Key)
    out = [
        z3.ForAll([a], z3.Implies(d.has(a), z3.And(d.rank(a) >= 0, d.rank(a) < d.top))),
        z3.ForAll([a, b], z3.Implies(z3.And(d.has(a), d.has(b), d.rank(a) == d.rank(b)), a == b)),
        d.top >= 0,
    ]
    if contig:
        j = z3.Int("j")
        nm = z3.Function(f"nameat!{_n[0]}", I, Key)
        _n[0] += 1
        d.nm = nm
        out.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < d.top), z3.And(d.has(nm(j)), d.rank(nm(j)) == j)), patterns=[nm(j)]))
    return out


class Lst:
    def __init__(s, n, arr):
        s.n, s.arr = n, arr

    def at(s, i):
        return z3.Select(s.arr, i)


class Ref:
    def __init__(s, id):
        s.id = id


class Self:
    pass


class Cont:
    """another container, made by the method"""

    def __init__(s, ref):
        s.ref = ref


class St:
    def __init__(s, env, heap, A0, pc, items, A1=None):
        s.env, s.heap, s.A0, s.pc, s.items, s.A1 = env, heap, A0, pc, items, A1

    def copy(s):
        return St(dict(s.env), dict(s.heap), s.A0, list(s.pc), s.items, s.A1)


class View:
    def __init__(s, ref, what, enum=False):
        s.ref, s.what, s.enum = ref, what, enum


class OC:
    """contract of one ItemContainer method"""

    def __init__(self, name, target, params, requires=None, raises=None, ensures=(), invs=(), ghosts=None, assume_calls=(), note="", keeps_wf=True):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    def verify(self, budget):
        t0 = time.time()
        try:
            return Run(self, t0 + budget).run(t0)
        except Unsupported as e:
            return dict(name=self.name, target=self.target, status="unsupported", reason=str(e), t=time.time() - t0, obligations=[])
        except Exception:
            return dict(name=self.name, target=self.target, status="unsupported", reason="engine: " + traceback.format_exc()[-900:], t=time.time() - t0, obligations=[])


class Run:
    def __init__(self, c, deadline):
        self.c, self.deadline = c, deadline
        self.mod, self.node = find(c.target)
        if self.node is None:
            raise Unsupported("not found: " + c.target)
        self.cls = c.target.split("::")[1].split(".")[0]
        self.obls, self.fails, self.inlined, self.assumed = [], [], set(), set()
        self.ids = 0
        self.record = None
        self.quiet = 0
        self.tq, self.nq, self.exits, self.loops = 0.0, 0, 0, 0
        self.dropped = []

    # ---------------------------------------------------------------- solving
    def check(self, pc, goal, t=8.0):
        if time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        q = time.time()
        s = z3.Solver()
        s.set("timeout", int(t * 1000 * L.TSCALE))
        s.add(*axioms(), *pc, z3.Not(goal))
        r = s.check()
        self.tq += time.time() - q
        self.nq += 1
        return "proved" if r == z3.unsat else ("sat" if r == z3.sat else "unknown")

    def feasible(self, pc):
        s = z3.Solver()
        s.set("timeout", 300)
        s.add(*pc)
        return s.check() != z3.unsat

    def oblige(self, st, kind, label, goal, line=0):
        if self.quiet or len(self.fails) >= 3:
            return
        r = self.check(st.pc, goal)
        d = dict(fn=self.c.name, kind=kind, label=label, line=line, status=r, backend="z3")
        self.obls.append(d)
        if r != "proved":
            self.fails.append(dict(d, reason="no proof"))

    def alloc(self, st, o):
        self.ids += 1
        st.heap[self.ids] = o
        return Ref(self.ids)

    def write(self, i):
        if self.record is not None:
            self.record.add(i)

    # ---------------------------------------------------------------- expressions: list of (state, value); value RAISE
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + ast.unparse(e)[:80])
        return m(e, st)

    def evs(self, es, st):
        outs = [(st, [])]
        for e in es:
            nxt = []
            for x, vs in outs:
                if vs is RAISE:
                    nxt.append((x, RAISE))
                    continue
                for y, v in self.ev(e, x):
                    nxt.append((y, RAISE if v is RAISE else vs + [v]))
            outs = nxt
        return outs

    def e_Constant(self, e, st):
        if e.value is None:
            return [(st, NONE)]
        if isinstance(e.value, bool):
            return [(st, z3.BoolVal(e.value))]
        if isinstance(e.value, int):
            return [(st, z3.IntVal(e.value))]
        if isinstance(e.value, str):
            return [(st, z3.Const("lit:" + e.value, Key))]
        raise Unsupported("constant")

    def e_Name(self, e, st):
        if e.id not in st.env:
            raise Unsupported("name " + e.id)
        return [(st, st.env[e.id])]

    def e_Attribute(self, e, st):
        outs = []
        for x, b in self.ev(e.value, st):
            if isinstance(b, Self) and e.attr == "_items":
                outs.append((x, x.items))
            elif isinstance(b, Cont) and e.attr == "_items":
                outs.append((x, b.ref))
            else:
                raise Unsupported("attribute " + e.attr)
        return outs

    def e_List(self, e, st):
        if len(e.elts) == 0:
            return [(st, self.alloc(st, Lst(z3.IntVal(0), fresh("lst", z3.ArraySort(I, Key)))))]
        if len(e.elts) == 1:
            return [(x, RAISE if v is RAISE else self.alloc(x, Lst(z3.IntVal(1), z3.Store(fresh("lst", z3.ArraySort(I, Key)), 0, v)))) for x, v in self.ev(e.elts[0], st)]
        if len(e.elts) == 2:  # an item [value, attributes]
            outs = []
            for x, vs in self.evs(e.elts, st):
                if vs is RAISE:
                    outs.append((x, RAISE))
                    continue
                if not all(z3.is_expr(q) and q.sort() == Obj for q in vs):
                    raise Unsupported("item")
                outs.append((x, self.newitem(x, vs[0], vs[1])))
            return outs
        raise Unsupported("list")

    def newitem(self, x, val, attr):
        v = fresh("item", Val)
        for o in x.heap.values():
            if isinstance(o, D) and o.V.sort().range() == Val:
                k = z3.Const("k", Key)
                x.pc.append(z3.ForAll([k], z3.Implies(o.has(k), o.at(k) != v)))
        self.write("A0")
        self.write("A1")
        x.A0 = z3.Store(x.A0, v, val)
        x.A1 = z3.Store(x.A1, v, attr)
        return v

    def e_Dict(self, e, st):
        if e.keys:
            raise Unsupported("dict literal")
        return [(st, self.alloc(st, self.empty(st)))]

    def empty(self, st):
        d = fresh_dict("new", True)
        return D(z3.K(Key, z3.BoolVal(False)), d.R, z3.IntVal(0), d.V, True)

    def e_JoinedStr(self, e, st):
        parts = []
        for p in e.values:
            if isinstance(p, ast.FormattedValue) and p.conversion == -1 and p.format_spec is None:
                parts.append(p.value)
            elif isinstance(p, ast.Constant):
                parts.append(p)
            else:
                return [(st, fresh("text", Key))]
        outs = []
        for x, vs in self.evs(parts, st):
            if vs is RAISE:
                outs.append((x, RAISE))
            elif len(vs) == 2 and all(z3.is_expr(v) and v.sort() == Key for v in vs):
                outs.append((x, cat(vs[0], vs[1])))
            else:
                outs.append((x, fresh("text", Key)))
        return outs

    def e_BinOp(self, e, st):
        outs = []
        for x, vs in self.evs([e.left, e.right], st):
            if vs is RAISE:
                outs.append((x, RAISE))
                continue
            a, b = vs
            if isinstance(e.op, ast.Add) and a.sort() == Key and b.sort() == Key:
                outs.append((x, cat(a, b)))
            elif isinstance(e.op, (ast.Add, ast.Sub)) and a.sort() == I and b.sort() == I:
                outs.append((x, a + b if isinstance(e.op, ast.Add) else a - b))
            else:
                raise Unsupported("operator")
        return outs

    def e_UnaryOp(self, e, st):
        outs = []
        for x, v in self.ev(e.operand, st):
            if v is RAISE:
                outs.append((x, v))
            elif isinstance(e.op, ast.Not):
                outs.append((x, z3.Not(self.truth(v))))
            elif isinstance(e.op, ast.USub):
                outs.append((x, -v))
            else:
                raise Unsupported("unary")
        return outs

    def truth(self, v):
        if z3.is_expr(v) and v.sort() == B:
            return v
        if z3.is_expr(v) and v.sort() == I:
            return v != 0
        raise Unsupported("truth of a value")

    def e_BoolOp(self, e, st):
        outs = [(st, None)]
        res = []
        isand = isinstance(e.op, ast.And)
        for j, s in enumerate(e.values):
            nxt = []
            for x, acc in outs:
                for y, v in self.ev(s, x):
                    if v is RAISE:
                        res.append((y, RAISE))
                        continue
                    t = self.truth(v)
                    if j == len(e.values) - 1:
                        res.append((y, t))
                        continue
                    z = y.copy()
                    z.pc.append(z3.Not(t) if isand else t)
                    res.append((z, z3.BoolVal(not isand)))
                    y.pc.append(t if isand else z3.Not(t))
                    nxt.append((y, None))
            outs = nxt
        return res

    def e_IfExp(self, e, st):
        outs = []
        for x, v in self.ev(e.test, st):
            if v is RAISE:
                outs.append((x, v))
                continue
            t = self.truth(v)
            for c, br in ((t, e.body), (z3.Not(t), e.orelse)):
                y = x.copy()
                y.pc.append(c)
                if self.feasible(y.pc):
                    outs += self.ev(br, y)
        return outs

    def member(self, x, k, c):
        if isinstance(c, View) and c.what in ("keys", "list"):
            c = c.ref
        if isinstance(c, Ref):
            o = x.heap[c.id]
            if isinstance(o, D):
                return o.has(k)
            j = z3.Int("jm")
            return z3.Exists([j], z3.And(0 <= j, j < o.n, o.at(j) == k))
        if isinstance(c, Self):
            return x.heap[x.items.id].has(k)
        raise Unsupported("in")

    def e_Compare(self, e, st):
        if len(e.ops) != 1:
            raise Unsupported("chain")
        op = e.ops[0]
        outs = []
        for x, vs in self.evs([e.left, e.comparators[0]], st):
            if vs is RAISE:
                outs.append((x, RAISE))
                continue
            a, b = vs
            if isinstance(op, (ast.In, ast.NotIn)):
                t = self.member(x, a, b)
                outs.append((x, t if isinstance(op, ast.In) else z3.Not(t)))
            elif isinstance(op, (ast.Is, ast.IsNot)) and isinstance(a, (Ref, Self, Cont)) and z3.is_expr(b) and z3.eq(b, NONE):
                outs.append((x, z3.BoolVal(isinstance(op, ast.IsNot))))
            elif isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                if not (z3.is_expr(a) and z3.is_expr(b)):
                    raise Unsupported("comparison")
                if a.sort() != b.sort():
                    if a.sort() == Obj or b.sort() == Obj:
                        t = z3.BoolVal(False)  # a name, item or number is never None
                    else:
                        raise Unsupported("comparison")
                else:
                    t = a == b
                outs.append((x, t if isinstance(op, (ast.Eq, ast.Is)) else z3.Not(t)))
            elif z3.is_expr(a) and z3.is_expr(b) and a.sort() == I and b.sort() == I:
                outs.append((x, {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]))
            else:
                raise Unsupported("comparison")
        return outs

    def e_Subscript(self, e, st):
        outs = []
        for x, vs in self.evs([e.value, e.slice], st):
            if vs is RAISE:
                outs.append((x, RAISE))
                continue
            b, k = vs
            if isinstance(b, Self):
                b = x.items
            if isinstance(b, Ref) and isinstance(x.heap[b.id], D):
                outs += self.getitem(x, x.heap[b.id], k)
            elif isinstance(b, Ref):
                o = x.heap[b.id]
                self.oblige(x, "index", ast.unparse(e), z3.And(k >= 0, k < o.n), e.lineno)
                outs.append((x, o.at(k)))
            elif z3.is_expr(b) and b.sort() == Val and z3.is_int_value(k) and k.as_long() in (0, 1):
                outs.append((x, z3.Select(x.A1 if k.as_long() else x.A0, b)))
            else:
                raise Unsupported("subscript " + ast.unparse(e))
        return outs

    def getitem(self, x, d, k):
        outs = []
        y = x.copy()
        y.pc.append(z3.Not(d.has(k)))
        if self.feasible(y.pc):
            outs.append((y, RAISE))
        x.pc.append(d.has(k))
        outs.append((x, d.at(k)))
        return outs

    def e_Call(self, e, st):
        f = e.func
        if isinstance(f, ast.Name) and f.id in ("len", "list", "enumerate", "dict", "iter", "tuple", "bool"):
            outs = []
            for x, vs in self.evs(e.args, st):
                if vs is RAISE:
                    outs.append((x, RAISE))
                    continue
                if f.id == "dict" and not vs:
                    outs.append((x, self.alloc(x, self.empty(x))))
                    continue
                v = vs[0]
                if isinstance(v, Self):
                    v = x.items
                if f.id == "len":
                    o = x.heap[v.id]
                    if isinstance(o, D):
                        if not o.contig:
                            raise Unsupported("len of a dict after removal")
                        outs.append((x, o.top))
                    else:
                        outs.append((x, o.n))
                elif f.id == "dict":
                    if isinstance(v, View) and v.what == "items":
                        v = v.ref
                    outs.append((x, self.alloc(x, x.heap[v.id])))
                elif f.id == "enumerate":
                    if isinstance(v, Ref):
                        v = View(v, "keys" if isinstance(x.heap[v.id], D) else "list")
                    outs.append((x, View(v.ref, v.what, True)))
                elif f.id == "bool":
                    outs.append((x, self.truth(v)))
                else:
                    if isinstance(v, Ref) and isinstance(x.heap[v.id], D):
                        v = View(v, "keys")
                    if isinstance(v, View) and f.id != "iter":
                        v = View(self.alloc(x, x.heap[v.ref.id]), v.what)  # a snapshot
                    outs.append((x, v))
            return outs
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "warnings":
            return [(st, NONE)]
        if isinstance(f, ast.Name) and f.id == self.cls and not e.args and not e.keywords:
            self.assumed.add(f"{self.cls}() is an empty container")
            return [(st, Cont(self.alloc(st, self.empty(st))))]
        if isinstance(f, ast.Name) and f.id == "isinstance" and len(e.args) == 2:
            ts = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
            tn = {ast.unparse(q).split(".")[-1] for q in ts}
            if not tn <= {"str", "bytes", "int", "integer", "ndarray", "list", "tuple", "dict", "bool"}:
                raise Unsupported("isinstance")
            outs = []
            for x, v in self.ev(e.args[0], st):
                if v is RAISE:
                    outs.append((x, RAISE))
                    continue
                if z3.is_expr(v) and v.sort() in (Key, I):
                    k = "str" if v.sort() == Key else "int"
                elif isinstance(v, Ref):
                    k = "dict" if isinstance(x.heap[v.id], D) else "list"
                else:
                    raise Unsupported("isinstance")
                outs.append((x, z3.BoolVal(k in tn)))
            return outs
        if not isinstance(f, ast.Attribute):
            raise Unsupported("call " + ast.unparse(f))
        outs = []
        for x, vs in self.evs([f.value] + list(e.args), st):
            if vs is RAISE:
                outs.append((x, RAISE))
                continue
            b, args = vs[0], vs[1:]
            kw = {}
            for q in e.keywords:
                r = self.ev(q.value, x)
                if len(r) != 1 or r[0][1] is RAISE:
                    raise Unsupported("keyword")
                kw[q.arg] = r[0][1]
            if isinstance(b, Self):
                if f.attr in ("items", "values", "keys"):
                    b = x.items
                else:
                    outs += self.method(f.attr, args, kw, x, e)
                    continue
            if isinstance(b, Ref) and isinstance(x.heap[b.id], D):
                outs += self.dictcall(b, f.attr, args, x)
            elif isinstance(b, Ref) and f.attr == "append":
                o = x.heap[b.id]
                self.write(b.id)
                x.heap[b.id] = Lst(o.n + 1, z3.Store(o.arr, o.n, args[0]))
                outs.append((x, NONE))
            elif z3.is_expr(b) and b.sort() == Val and f.attr == "copy" and not args and not kw:
                outs.append((x, self.newitem(x, z3.Select(x.A0, b), z3.Select(x.A1, b))))
            elif z3.is_expr(b) and b.sort() == Obj and f.attr == "copy" and not args and not kw:
                self.oblige(x, "call", "copy is not called on None", b != NONE, e.lineno)
                w = fresh("copied", Obj)
                v = z3.Const("v", Val)
                x.pc += [w != NONE, copyof(w) == b, z3.ForAll([v], z3.And(z3.Select(x.A0, v) != w, z3.Select(x.A1, v) != w))]
                outs.append((x, w))
            elif z3.is_expr(b) and b.sort() == Key and f.attr == "replace" and len(args) == 3 and not kw:
                outs.append((x, repl(b, *args)))
            elif isinstance(b, View) and f.attr in ("__iter__",):
                outs.append((x, b))
            else:
                raise Unsupported("call " + ast.unparse(f))
        return outs

    def dictcall(self, b, a, args, x):
        d = x.heap[b.id]
        if a in ("items", "values", "keys"):
            return [(x, View(b, a))]
        if a == "copy":
            return [(x, self.alloc(x, d))]
        if a == "clear":
            self.write(b.id)
            x.heap[b.id] = self.empty(x)
            return [(x, NONE)]
        if a == "__contains__":
            return [(x, d.has(args[0]))]
        if a == "setdefault":
            y = x.copy()
            x.pc.append(d.has(args[0]))
            y.pc.append(z3.Not(d.has(args[0])))
            outs = []
            if self.feasible(x.pc):
                outs.append((x, d.at(args[0])))
            if self.feasible(y.pc):
                self.setitem(y, b, args[0], args[1])
                outs.append((y, args[1]))
            return outs
        if a == "pop" and len(args) == 1:
            outs = []
            y = x.copy()
            y.pc.append(z3.Not(d.has(args[0])))
            if self.feasible(y.pc):
                outs.append((y, RAISE))
            x.pc.append(d.has(args[0]))
            self.write(b.id)
            x.heap[b.id] = D(z3.Store(d.M, args[0], False), d.R, d.top, d.V, False)
            outs.append((x, d.at(args[0])))
            return outs
        if a == "update" and len(args) == 1 and isinstance(args[0], Ref):
            k = z3.Const("k", Key)
            src = x.heap[args[0].id]
            if not isinstance(src, D) or self.check(x.pc, z3.ForAll([k], z3.Not(d.has(k))), 3.0) != "proved":
                raise Unsupported("update of a non-empty dict")
            self.write(b.id)
            x.heap[b.id] = src
            return [(x, NONE)]
        raise Unsupported("dict." + a)

    def setitem(self, x, b, k, v):
        d = x.heap[b.id]
        self.write(b.id)
        h = d.has(k)
        x.heap[b.id] = D(z3.Store(d.M, k, True), z3.If(h, d.R, z3.Store(d.R, k, d.top)), z3.If(h, d.top, d.top + 1), z3.Store(d.V, k, v), d.contig)

    def method(self, name, args, kw, x, e):
        if name in self.c.assume_calls:
            self.assumed.add(f"{name}: for a list argument it returns that list (or refuses it); decided by the bounded layer")
            return [(x, args[0])]
        m, node = find(self.c.target.split("::")[0] + "::" + self.cls + "." + name)
        if node is None:
            raise Unsupported("method " + name)
        self.inlined.add(name)
        ps = [a.arg for a in node.args.args]
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list)
        env = {}
        if not static:
            env[ps[0]] = Self()
            ps = ps[1:]
        for p, v in zip(ps, args):
            env[p] = v
        env.update(kw)
        dfl = node.args.defaults
        for p, dv in zip(ps[len(ps) - len(dfl) :], dfl):
            if p not in env:
                env[p] = self.ev(dv, x)[0][1]
        if set(ps) - set(env):
            raise Unsupported("arguments of " + name)
        save = x.env
        x.env = env
        outs = []
        for y, sig in self.block(node.body, x):
            y.env = dict(save)
            if sig is None:
                outs.append((y, NONE))
            elif sig[0] == "return":
                outs.append((y, sig[1]))
            elif sig[0] == "raise":
                outs.append((y, RAISE))
        return outs

    # ---------------------------------------------------------------- statements
    def block(self, body, st):
        outs = [(st, None)]
        for s in body:
            nxt = []
            for x, sig in outs:
                if sig is not None:
                    nxt.append((x, sig))
                else:
                    nxt += self.stmt(s, x)
            outs = nxt
            if len(outs) > 64:
                raise Unsupported("too many paths")
        return outs

    def stmt(self, s, st):
        if time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        if isinstance(s, ast.Pass):
            return [(st, None)]
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return [(st, None)]
            return [(x, ("raise",) if v is RAISE else None) for x, v in self.ev(s.value, st)]
        if isinstance(s, ast.Return):
            if s.value is None:
                return [(st, ("return", NONE))]
            return [(x, ("raise",) if v is RAISE else ("return", v)) for x, v in self.ev(s.value, st)]
        if isinstance(s, ast.Raise):
            return [(st, ("raise",))]
        if isinstance(s, ast.Break):
            return [(st, ("break",))]
        if isinstance(s, ast.Continue):
            return [(st, ("continue",))]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [(st, None)]
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            outs = []
            if isinstance(s.value, ast.DictComp):
                return self.dictcomp(s, ts, st)
            for x, v in self.ev(s.value, st):
                if v is RAISE:
                    outs.append((x, ("raise",)))
                    continue
                ys = [(x, None)]
                for t in ts:
                    ys = [z for y, sg in ys for z in (self.assign(t, v, y) if sg is None else [(y, sg)])]
                outs += ys
            return outs
        if isinstance(s, ast.AugAssign):
            return self.stmt(ast.copy_location(ast.fix_missing_locations(ast.Assign(targets=[s.target], value=ast.BinOp(left=_load(s.target), op=s.op, right=s.value))), s), st)
        if isinstance(s, ast.Delete):
            outs = [(st, None)]
            for t in s.targets:
                if not isinstance(t, ast.Subscript):
                    raise Unsupported("del")
                nxt = []
                for x, sig in outs:
                    for y, vs in self.evs([t.value, t.slice], x) if sig is None else []:
                        if vs is RAISE or not isinstance(vs[0], (Ref, Self)):
                            raise Unsupported("del")
                        b = y.items if isinstance(vs[0], Self) else vs[0]
                        nxt += [(z, ("raise",) if r is RAISE else None) for z, r in self.dictcall(b, "pop", [vs[1]], y)]
                outs = nxt
            return outs
        if isinstance(s, ast.If):
            outs = []
            for x, v in self.ev(s.test, st):
                if v is RAISE:
                    outs.append((x, ("raise",)))
                    continue
                t = self.truth(v)
                for c, br in ((t, s.body), (z3.Not(t), s.orelse)):
                    y = x.copy()
                    y.pc.append(z3.simplify(c))
                    if self.feasible(y.pc):
                        outs += self.block(br, y) if br else [(y, None)]
            return outs
        if isinstance(s, ast.For):
            return self.loop(s, st)
        raise Unsupported("statement " + type(s).__name__)

    def dictcomp(self, s, ts, st):
        g = s.value.generators
        if len(g) != 1 or len(ts) != 1:
            raise Unsupported("comprehension")
        tmp = f"__dc{s.lineno}"
        put = ast.Assign(targets=[ast.Subscript(value=ast.Name(id=tmp, ctx=ast.Load()), slice=s.value.key, ctx=ast.Store())], value=s.value.value)
        for cond in reversed(g[0].ifs):
            put = ast.If(test=cond, body=[put], orelse=[])
        body = [
            ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=ast.Dict(keys=[], values=[])),
            ast.For(target=g[0].target, iter=g[0].iter, body=[put], orelse=[]),
            ast.Assign(targets=ts, value=ast.Name(id=tmp, ctx=ast.Load())),
        ]
        for b in body:
            ast.copy_location(b, s)
            ast.fix_missing_locations(b)
        return self.block(body, st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [(st, None)]
        if isinstance(t, ast.Tuple) and isinstance(v, tuple):
            for a, b in zip(t.elts, v):
                st.env[a.id] = b
            return [(st, None)]
        if isinstance(t, ast.Attribute) and t.attr == "_items" and isinstance(t.value, ast.Name) and isinstance(st.env.get(t.value.id), Self) and isinstance(v, Ref):
            self.write("items")
            st.items = v
            return [(st, None)]
        if isinstance(t, ast.Subscript):
            outs = []
            for x, vs in self.evs([t.value, t.slice], st):
                if vs is RAISE:
                    outs.append((x, ("raise",)))
                    continue
                b, k = vs
                if isinstance(b, Self):
                    b = x.items
                if isinstance(b, Ref) and isinstance(x.heap[b.id], D):
                    self.setitem(x, b, k, v)
                    outs.append((x, None))
                elif z3.is_expr(b) and b.sort() == Val and z3.is_int_value(k) and k.as_long() in (0, 1) and z3.is_expr(v) and v.sort() == Obj:
                    f = "A1" if k.as_long() else "A0"
                    self.write(f)
                    setattr(x, f, z3.Store(getattr(x, f), b, v))
                    outs.append((x, None))
                else:
                    raise Unsupported("store " + ast.unparse(t))
            return outs
        raise Unsupported("assign " + ast.unparse(t))

    # ---------------------------------------------------------------- loops
    def loop(self, s, st):
        if s.orelse:
            raise Unsupported("for-else")
        res = []
        for x, v in self.ev(s.iter, st):
            if v is RAISE:
                res.append((x, ("raise",)))
                continue
            if isinstance(v, Self):
                v = x.items
            if isinstance(v, Ref):
                v = View(v, "keys" if isinstance(x.heap[v.id], D) else "list")
            if not isinstance(v, View):
                raise Unsupported("for over " + ast.unparse(s.iter))
            res += self.loop1(s, x, v)
        return res

    def bind(self, s, view, cur, idx, item, st):
        v = {"keys": cur, "list": cur, "values": item, "items": (cur, item)}[view.what]
        t = s.target
        if view.enum:
            if not (isinstance(t, ast.Tuple) and len(t.elts) == 2):
                raise Unsupported("enumerate target")
            st.env[t.elts[0].id] = idx
            t = t.elts[1]
        if isinstance(t, ast.Tuple):
            if not isinstance(v, tuple):
                raise Unsupported("loop target")
            for a, b in zip(t.elts, v):
                st.env[a.id] = b
        else:
            if isinstance(v, tuple):
                raise Unsupported("loop target")
            st.env[t.id] = v

    def havoc(self, st, ws, names, kinds):
        h = st.copy()
        for i in ws:
            if i == "A0":
                h.A0 = fresh("A0", z3.ArraySort(Val, Obj))
            elif i == "A1":
                h.A1 = fresh("A1", z3.ArraySort(Val, Obj))
            elif i == "items":
                raise Unsupported("the container's dict is replaced inside a loop")
            elif i in h.heap:
                o = h.heap[i]
                if isinstance(o, D):
                    h.heap[i] = fresh_dict("h", kinds.get(i, False))
                else:
                    h.heap[i] = Lst(fresh("n", I), fresh("lst", o.arr.sort()))
        for n in names:
            v = h.env.get(n)
            if z3.is_expr(v):
                h.env[n] = fresh(n, v.sort())
            elif n in h.env:
                del h.env[n]
        return h

    def loop1(self, s, st, view):
        self.loops += 1
        src = st.heap[view.ref.id]
        isd = isinstance(src, D)
        names = {n.id for b in [s.target] + s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

        def begin(h, c):
            """head state with ghost c -> (state of one iteration, current, next c)"""
            b = h.copy()
            if isd:
                cur = fresh("cur", Key)
                k = z3.Const("k", Key)
                b.pc += [src.has(cur), src.rank(cur) >= c]
                if src.contig:
                    b.pc += [src.rank(cur) == c, c < src.top]
                else:
                    b.pc.append(z3.ForAll([k], z3.Implies(z3.And(src.has(k), src.rank(k) < src.rank(cur)), src.rank(k) < c)))
                if view.enum and not src.contig:
                    raise Unsupported("enumerate after removal")
                self.bind(s, view, cur, c, src.at(cur), b)
                return b, cur, src.rank(cur) + 1
            b.pc += [c >= 0, c < src.n]
            cur = src.at(c)
            self.bind(s, view, cur, c, None, b)
            return b, cur, c + 1

        # discovery of what the body writes
        save, self.record = self.record, set()
        self.quiet += 1
        ws = set()
        contig_ok = {i: isinstance(o, D) and o.contig for i, o in st.heap.items()}
        for _ in range(2):
            h = self.havoc(st, ws, names, contig_ok)
            c = fresh("c", I)
            b, cur, c2 = begin(h, c)
            for y, sig in self.block(s.body, b):
                for i, o in y.heap.items():
                    if i in st.heap and isinstance(o, D) and not o.contig:
                        contig_ok[i] = False
            ws = {i for i in self.record if i in ("A0", "A1", "items") or i in st.heap}
        self.quiet -= 1
        self.record = save
        if self.record is not None:
            self.record |= ws
        if view.ref.id in ws:
            raise Unsupported("the dict is changed while it is iterated")
        h = self.havoc(st, ws, names, contig_ok)
        c = fresh("c", I)
        x0 = Ctx(self, st, src, view, st)
        cands = []
        for i in sorted(ws, key=str):
            if i in ("A0", "A1"):
                for lab, f in self.c.invs.get(i, []):
                    cands.append((f"{lab}", lambda z, cc, f=f: f(Ctx(self, st, src, view, z, c=cc))))
            elif i in st.heap:
                o = st.heap[i]
                kind = "dict" if isinstance(o, D) else "list"
                for lab, f in self.c.invs.get(kind, []):
                    cands.append((f"{lab} [{kind} {i}]", lambda z, cc, f=f, i=i: f(Ctx(self, st, src, view, z, c=cc, obj=z.heap[i]))))
                if kind == "dict":
                    for j, w in enumerate(("below top", "distinct", "top")):
                        cands.append((f"ranks {w} [dict {i}]", lambda z, cc, i=i, j=j: wf(z.heap[i])[j]))
        for n in sorted(names):
            v0 = st.env.get(n)
            if z3.is_expr(v0):
                for lab, f in self.c.invs.get("var", []):
                    cands.append((f"{lab} [{n}]", lambda z, cc, f=f, n=n, v0=v0: f(Ctx(self, st, src, view, z, c=cc, obj=z.env[n], obj0=v0))))
                if v0.sort() == I and (not isd or src.contig):
                    cands.append((f"counts the iterations [{n}]", lambda z, cc, n=n, v0=v0: z.env[n] == v0 + cc))
        for lab, f in self.c.invs.get("loop", []):
            cands.append((lab, lambda z, cc, f=f: f(Ctx(self, st, src, view, z, c=cc))))
        cands.append(("c in range", lambda z, cc: (z3.And(cc >= 0, cc <= src.top) if isd else z3.And(cc >= 0, cc <= src.n))))
        alive = []
        for lab, f in cands:
            try:
                g = f(st, z3.IntVal(0))
            except (Unsupported, z3.Z3Exception, AttributeError, KeyError):
                continue
            if self.check(st.pc, g, 3.0) == "proved":
                alive.append((lab, f))
            else:
                self.dropped.append((lab, "init", s.lineno))
        while True:
            hh = h.copy()
            hh.pc += [f(hh, c) for _, f in alive]
            b, cur, c2 = begin(hh, c)
            self.quiet += 1
            outs = self.block(s.body, b)
            self.quiet -= 1
            bad = set()
            for y, sig in outs:
                if sig is not None and sig[0] in ("break", "return", "raise"):
                    continue
                for lab, f in alive:
                    if lab not in bad and self.check(y.pc, f(y, c2), 6.0) != "proved":
                        bad.add(lab)
                        self.dropped.append((lab, "step", s.lineno))
            if not bad:
                break
            alive = [a for a in alive if a[0] not in bad]
        if not self.quiet:
            for lab, _ in alive:
                for k in ("invariant-init", "invariant-step"):
                    self.obls.append(dict(fn=self.c.name, kind=k, label=lab, line=s.lineno, status="proved", backend="z3"))
        hh = h.copy()
        hh.pc += [f(hh, c) for _, f in alive]
        res = []
        # exit
        ex = hh.copy()
        if isd:
            k = z3.Const("k", Key)
            ex.pc.append(z3.ForAll([k], z3.Implies(src.has(k), src.rank(k) < c)))
            if src.contig:
                ex.pc.append(c >= src.top)
        else:
            ex.pc.append(c >= src.n)
        res.append((ex, None))
        b, cur, c2 = begin(hh, c)
        for y, sig in self.block(s.body, b):
            if sig is None or sig[0] == "continue":
                continue
            res.append((y, None if sig[0] == "break" else sig))
        return [r for r in res if self.feasible(r[0].pc)]

    # ---------------------------------------------------------------- whole method
    def run(self, t0):
        c = self.c
        d0 = fresh_dict("items", True)
        st = St({}, {}, fresh("A0", z3.ArraySort(Val, Obj)), list(wf(d0, True)), None, fresh("A1", z3.ArraySort(Val, Obj)))
        a, b = z3.Consts("a b", Key)
        st.pc.append(z3.ForAll([a, b], z3.Implies(z3.And(d0.has(a), d0.has(b), d0.at(a) == d0.at(b)), a == b)))  # every name has its own item
        st.items = self.alloc(st, d0)
        ps = [x.arg for x in self.node.args.args]
        st.env[ps[0]] = Self()
        P = {}
        for n, kind in c.params.items():
            if n not in ps:
                raise Unsupported("parameter " + n)
            if kind == "name":
                P[n] = st.env[n] = fresh(n, Key)
            elif kind == "int":
                P[n] = st.env[n] = fresh(n, I)
            elif kind == "value":
                P[n] = st.env[n] = fresh(n, Obj)
            elif kind == "names":
                l = Lst(fresh(n + ".n", I), fresh(n, z3.ArraySort(I, Key)))
                st.pc.append(l.n >= 0)
                P[n] = l
                st.env[n] = self.alloc(st, l)
            elif kind == "onename":
                st.env[n] = fresh(n, Key)
                P[n] = Lst(z3.IntVal(1), z3.Store(fresh("lst", z3.ArraySort(I, Key)), 0, st.env[n]))
            elif kind == "values":
                d = D(fresh(n + ".M", z3.ArraySort(Key, B)), fresh(n + ".R", z3.ArraySort(Key, I)), fresh(n + ".top", I), fresh(n + ".V", z3.ArraySort(Key, Obj)), True)
                st.pc += wf(d, True)
                P[n] = d
                st.env[n] = self.alloc(st, d)
            elif kind == "true":
                P[n] = st.env[n] = z3.BoolVal(True)
            elif kind == "false":
                P[n] = st.env[n] = z3.BoolVal(False)
        dfl = self.node.args.defaults
        for p, dv in zip(ps[len(ps) - len(dfl) :], dfl):
            if p not in st.env:
                st.env[p] = self.ev(dv, st)[0][1]
        if set(ps) - set(st.env):
            raise Unsupported("parameters changed")
        self.P, self.d0, self.entry = P, d0, st.copy()
        self.G = c.ghosts(self) if c.ghosts else None
        if self.G:
            st.pc += self.G.axioms
        if c.requires:
            st.pc += c.requires(self)
        for y, sig in self.block(self.node.body, st):
            if not self.feasible(y.pc):
                continue
            self.exits += 1
            x = Ctx(self, self.entry, None, None, y, obj=y.heap[y.items.id])
            if sig is not None and sig[0] == "raise":
                cond = c.raises(self) if c.raises else z3.BoolVal(False)
                self.oblige(y, "raises", "refused only when the contract says so", cond)
                k = z3.Const("k", Key)
                k2 = z3.Const("k2", Key)
                o = x.obj
                self.oblige(y, "frame", "a refused operation changes nothing", z3.And(z3.ForAll([k], z3.And(o.has(k) == d0.has(k), z3.Implies(d0.has(k), z3.And(o.at(k) == d0.at(k), z3.Select(y.A0, d0.at(k)) == z3.Select(self.entry.A0, d0.at(k)))))), z3.ForAll([k, k2], z3.Implies(z3.And(d0.has(k), d0.has(k2)), (d0.rank(k) < d0.rank(k2)) == (o.rank(k) < o.rank(k2))))))
                continue
            x.result = sig[1] if sig is not None else NONE
            if isinstance(x.result, Cont):
                x.result = y.heap[x.result.ref.id]
            if c.raises:
                self.oblige(y, "raises", "accepted only when the contract says so", z3.Not(c.raises(self)))
            for lab, f in c.ensures:
                self.oblige(y, "ensures", lab, f(x))
            if c.keeps_wf:
                for f in wf(x.obj)[:2]:
                    self.oblige(y, "invariant", "the result is an ordered dict", f)
        return dict(name=c.name, target=c.target, status="failed" if self.fails else "proved", failed=self.fails, obligations=self.obls, dropped=[list(map(str, d)) for d in self.dropped], invariants=[], inlined=sorted(self.inlined), assumed=sorted(self.assumed), exits=self.exits, loops=self.loops, t=time.time() - t0, stats=dict(time=self.tq, queries=self.nq), reason="")


RAISE = object()


def _load(t):
    import copy

    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


class Ctx:
    """what a specification may speak of"""

    def __init__(self, run, st0, src, view, st, c=None, obj=None, obj0=None):
        self.run, self.st0, self.src, self.view, self.st, self.c, self.obj, self.obj0 = run, st0, src, view, st, c, obj, obj0
        self.d0, self.P, self.G, self.A0, self.A00 = run.d0, run.P, run.G, st.A0, run.entry.A0
        self.A1, self.A10 = st.A1, run.entry.A1
        self.result = None

    def vis(self, k):
        """k was visited by the enclosing loop over the original names"""
        if not isinstance(self.src, D):
            raise Unsupported("no dict loop")
        return z3.And(self.src.has(k), self.src.rank(k) < self.c)
