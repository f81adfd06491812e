"""Symbolic execution of real Python function bodies against contracts, with loop invariants."""
import ast, itertools, time
import z3
from . import logic as L
from .logic import f_and, f_or, f_not, f_imp, FAll, FEx, isfm, prove, fresh_name, fresh_int, mk_mul
from . import extract


class Unsupported(Exception):
    pass


class Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = Unbound()


class Flt:
    """float: (isnan, real value); infinities are ordinary ordered values"""

    __slots__ = ("nan", "val")

    def __init__(self, nan, val):
        self.nan, self.val = nan, val


class Ratio:
    """int / int kept symbolic until it is truncated"""

    def __init__(self, a, b):
        self.a, self.b = a, b


class Tup:
    def __init__(self, xs):
        self.xs = list(xs)


class ArrRef:
    def __init__(self, id, off=None, ln=None):
        self.id, self.off, self.ln = id, off, ln


class Dtype:
    def __init__(self, arr_id=None, kind=None):
        self.arr_id, self.kind = arr_id, kind


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Ext({self.name})"


class FuncVal:
    def __init__(self, node, mod, closure=None, contract=None):
        self.node, self.mod, self.closure, self.contract = node, mod, closure or {}, contract


class RangeVal:
    def __init__(self, a, b, s, par=False):
        self.a, self.b, self.s, self.par = a, b, s, par


class SeqVal:
    """finite sequence: length and element function of the state"""

    def __init__(self, n, at):
        self.n, self.at = n, at


class Arr:
    __slots__ = ("shape", "at", "kind", "rng", "name", "opt")

    def __init__(self, shape, at, kind, rng=None, name="a", opt=None):
        self.shape, self.at, self.kind, self.rng, self.name, self.opt = tuple(shape), at, kind, rng, name, opt


class Obj:
    """record with symbolic fields, by reference in heap"""

    def __init__(self, id, cls=""):
        self.id, self.cls = id, cls


def isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (z3.is_expr(v) and z3.is_int(v))


def isbool(v):
    return isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)) or isfm(v)


def isfloat(v):
    return isinstance(v, (Flt, float, Ratio))


def to_flt(v):
    if isinstance(v, Flt):
        return v
    if isinstance(v, Ratio):
        return Flt(False, z3.ToReal(z3i(v.a)) / z3.ToReal(z3i(v.b)))
    if isinstance(v, bool):
        return Flt(False, z3.RealVal(1 if v else 0))
    if isinstance(v, float):
        if v != v:
            return Flt(True, z3.RealVal(0))
        if v in (float("inf"), float("-inf")):
            raise Unsupported("inf literal")
        return Flt(False, z3.RealVal(repr(v)))
    if isinstance(v, int):
        return Flt(False, z3.RealVal(v))
    if z3.is_bool(v):
        return Flt(False, z3.If(v, z3.RealVal(1), z3.RealVal(0)))
    return Flt(False, z3.ToReal(v))


def z3i(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if z3.is_expr(v) and z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def z3b(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def sconst(v):
    """fold constants"""
    if z3.is_expr(v):
        v2 = z3.simplify(v)
        if z3.is_int_value(v2):
            return v2.as_long()
        if z3.is_true(v2):
            return True
        if z3.is_false(v2):
            return False
    return v


def ite(c, a, b):
    c = sconst(c) if not isfm(c) else c
    if c is True:
        return a
    if c is False:
        return b
    if isfm(c):
        if isbool(a) and isbool(b):
            return f_and(f_imp(c, a), f_or(c, b))
        raise Unsupported("quantified condition in value")
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs):
        return Tup([ite(c, x, y) for x, y in zip(a.xs, b.xs)])
    if isfloat(a) or isfloat(b):
        a, b = to_flt(a), to_flt(b)
        return Flt(z3.If(c, z3b(a.nan), z3b(b.nan)), z3.If(c, a.val, b.val))
    if isbool(a) and isbool(b):
        if isfm(a) or isfm(b):
            return f_and(f_imp(c, a), f_or(c, b))
        return z3.If(c, z3b(a), z3b(b))
    if (isint(a) or isbool(a)) and (isint(b) or isbool(b)):
        return z3.If(c, z3i(a), z3i(b))
    if a is b:
        return a
    if isinstance(a, (str, type(None))) and a == b:
        return a
    if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
        return z3.If(c, a, b)
    raise Unsupported(f"ite over {type(a).__name__}/{type(b).__name__}")


def truth(v):
    if isbool(v):
        return v
    if v is None:
        return False
    if isinstance(v, (str, bytes)):
        return bool(v)
    if isinstance(v, int):
        return bool(v)
    if isint(v):
        return v != 0
    if isinstance(v, (Flt, float)):
        v = to_flt(v)
        return f_or(v.nan, v.val != 0)
    if isinstance(v, Tup):
        return len(v.xs) > 0
    raise Unsupported(f"truth of {v!r}")


def b_and(a, b):
    return f_and(a, b)


def cmp_eq(a, b):
    if a is None or b is None:
        return (a is None) and (b is None)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        if isinstance(a, type(b)):
            return a == b
        return False
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.xs) != len(b.xs):
            return False
        return f_and(*[cmp_eq(x, y) for x, y in zip(a.xs, b.xs)])
    if isfloat(a) or isfloat(b):
        a, b = to_flt(a), to_flt(b)
        return f_and(f_not(a.nan), f_not(b.nan), a.val == b.val)
    if isbool(a) and isbool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isfm(a) or isfm(b):
            return f_and(f_imp(a, b), f_imp(b, a))
        return z3b(a) == z3b(b)
    if (isint(a) or isbool(a)) and (isint(b) or isbool(b)):
        r = z3i(a) == z3i(b) if not (isinstance(a, int) and isinstance(b, int)) else a == b
        return r
    if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
        return a == b
    if isinstance(a, Ext) or isinstance(b, Ext):
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
    raise Unsupported(f"== over {a!r},{b!r}")


def same(a, b):
    """spec equality: NaN equals NaN"""
    if isfloat(a) or isfloat(b):
        a, b = to_flt(a), to_flt(b)
        return f_or(f_and(a.nan, b.nan), f_and(f_not(a.nan), f_not(b.nan), a.val == b.val))
    return cmp_eq(a, b)


def cmp_rel(op, a, b):
    if isfloat(a) or isfloat(b):
        a, b = to_flt(a), to_flt(b)
        r = {"<": lambda: a.val < b.val, "<=": lambda: a.val <= b.val, ">": lambda: a.val > b.val, ">=": lambda: a.val >= b.val}[op]()
        return f_and(f_not(a.nan), f_not(b.nan), r)
    if isbool(a):
        a = z3i(a)
    if isbool(b):
        b = z3i(b)
    if not (isint(a) and isint(b)):
        raise Unsupported(f"compare {a!r} {b!r}")
    return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()


def arith(op, a, b):
    if isbool(a) and isbool(b) and op in ("&", "|", "^"):
        if op == "&":
            return f_and(a, b)
        if op == "|":
            return f_or(a, b)
        return z3.Xor(z3b(a), z3b(b))
    if isinstance(a, str) and isinstance(b, str) and op == "+":
        return a + b
    if isinstance(a, Tup) and isinstance(b, Tup) and op == "+":
        return Tup(a.xs + b.xs)
    if isfloat(a) or isfloat(b):
        if isinstance(a, float) and isinstance(b, (float, int)) or isinstance(b, float) and isinstance(a, int):
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()
            except Exception:
                pass
        a, b = to_flt(a), to_flt(b)
        n = f_or(a.nan, b.nan)
        if op == "+":
            return Flt(n, a.val + b.val)
        if op == "-":
            return Flt(n, a.val - b.val)
        if op == "*":
            return Flt(n, a.val * b.val)
        if op == "/":
            return Flt(f_or(n, b.val == 0), a.val / b.val)
        if op == "**" and z3.is_rational_value(z3.simplify(b.val)) and z3.simplify(b.val).as_fraction() == 2:
            return Flt(a.nan, a.val * a.val)
        raise Unsupported("float op " + op)
    if isbool(a):
        a = z3i(a)
    if isbool(b):
        b = z3i(b)
    if not (isint(a) and isint(b)):
        raise Unsupported(f"arith {op} {a!r} {b!r}")
    a, b = sconst(a), sconst(b)
    if isinstance(a, int) and isinstance(b, int):
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "//":
            return a // b
        if op == "%":
            return a % b
        if op == "/":
            return a / b
        if op == "<<":
            return a << b
        if op == ">>":
            return a >> b
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "**":
            return a**b
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return mk_mul(a, b)
    if op == "//":
        if isinstance(b, int):
            if b > 0:
                return z3i(a) / b  # z3 integer division = floor for positive divisors
            raise Unsupported("div by non-positive const")
        return L.FDIV(z3i(a), z3i(b))
    if op == "%":
        if isinstance(b, int) and b > 0:
            return z3i(a) % b
        q = L.FDIV(z3i(a), z3i(b))
        return z3i(a) - mk_mul(q, z3i(b))
    if op == "/":
        return Ratio(a, b)
    if op == "<<" and isinstance(b, int):
        return a * (1 << b)
    raise Unsupported("int op " + op)


OPS = {
    ast.Add: "+",
    ast.Sub: "-",
    ast.Mult: "*",
    ast.FloorDiv: "//",
    ast.Mod: "%",
    ast.Div: "/",
    ast.BitAnd: "&",
    ast.BitOr: "|",
    ast.BitXor: "^",
    ast.LShift: "<<",
    ast.RShift: ">>",
    ast.Pow: "**",
}
INT_RANGES = {
    "int8": (-(2**7), 2**7 - 1),
    "int16": (-(2**15), 2**15 - 1),
    "int32": (-(2**31), 2**31 - 1),
    "int64": (-(2**63), 2**63 - 1),
    "uint8": (0, 2**8 - 1),
    "uint16": (0, 2**16 - 1),
    "uint32": (0, 2**32 - 1),
    "uint64": (0, 2**64 - 1),
}


def _bz(x):
    return z3b(x) if not z3.is_expr(x) else x


def fresh_arr(kind, shape, name, rng=None):
    nd = len(shape)
    ints = [z3.IntSort()] * nd
    nm = fresh_name(name)
    if kind == "int":
        f = z3.Function(nm, *ints, z3.IntSort())
        at = lambda *k: f(*[z3i(x) for x in k])
    elif kind == "bool":
        f = z3.Function(nm, *ints, z3.BoolSort())
        at = lambda *k: f(*[z3i(x) for x in k])
    elif kind == "float":
        fn = z3.Function(nm + "_nan", *ints, z3.BoolSort())
        fv = z3.Function(nm + "_val", *ints, z3.RealSort())
        at = lambda *k: Flt(fn(*[z3i(x) for x in k]), fv(*[z3i(x) for x in k]))
    else:
        raise Unsupported("array kind " + kind)
    return Arr(shape, at, kind, rng, nm)


def fresh_val(kind, name):
    if kind == "int":
        return z3.Int(fresh_name(name))
    if kind == "bool":
        return z3.Bool(fresh_name(name))
    if kind == "float":
        return Flt(z3.Bool(fresh_name(name + "_nan")), z3.Real(fresh_name(name + "_val")))
    raise Unsupported("value kind " + kind)


def kind_of(v):
    if isbool(v):
        return "bool"
    if isint(v):
        return "int"
    if isfloat(v):
        return "float"
    if isinstance(v, Tup):
        return ("tup", tuple(kind_of(x) for x in v.xs))
    return None


class State:
    __slots__ = ("env", "heap", "pc", "entry", "loops", "trace", "ghost")

    def __init__(self, env, heap, pc, entry=None, loops=(), trace=(), ghost=None):
        self.env, self.heap, self.pc, self.entry, self.loops, self.trace = env, heap, pc, entry, loops, trace
        self.ghost = ghost or {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), list(self.pc), self.entry, self.loops, self.trace, dict(self.ghost))

    def assume(self, f):
        if f is True:
            return
        if not isfm(f) and z3.is_expr(f) and z3.is_true(f):
            return
        self.pc.append(f)


class Obligation:
    def __init__(self, fn, kind, label, line, res, hyps=None, goal=None):
        self.fn, self.kind, self.label, self.line, self.res = fn, kind, label, line, res
        self.status = res.status

    def row(self):
        return dict(fn=self.fn, kind=self.kind, label=self.label, line=self.line, status=self.status, backend=self.res.backend, t=round(self.res.t, 3))


class Contract:
    def __init__(
        self,
        name,
        target,
        params,
        requires=(),
        ensures=(),
        invariants=(),
        specs="",
        raises=None,
        modifies=(),
        binds=None,
        result=None,
        timeout=10.0,
        rounds=3,
        inline=(),
        assume_only=False,
        elem_ranges=None,
        auto=True,
        footprint=None,
        note="",
        props=(),
        hints=(),
        models=None,
        lemmas=(),
        nomerge=False,
        at_calls=None,
        ghosts=(),
        xrounds=0,
    ):
        self.__dict__.update(locals())
        del self.__dict__["self"]


# -------------------------------------------------------------------- spec functions
class SpecLib:
    """spec functions written as python source; each usable symbolically and concretely.
    lemmas: fn -> [facts over its parameters and r (its value)], each proved by induction on measure"""

    def __init__(self, src, lemmas=None, measure=None, shift=None):
        self.src = src
        self.shift = shift or {}  # fn -> (array param, position param): s only ever read at p + ...
        self.lemmas = lemmas or {}
        self.measure = measure or {}
        self.fns = {}
        for n in ast.parse(src).body:
            if isinstance(n, ast.FunctionDef):
                self.fns[n.name] = n

    def isrec(self, name, _seen=None):
        n = self.fns[name]
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == name:
                return True
        return False


class Exec:
    def __init__(self, contract, registry, speclib, deadline=None, quiet=True):
        self.c = contract
        self.reg = registry  # dict target-> Contract (callee contracts)
        self.lib = speclib
        self.obls = []
        self.discover = 0
        self.deadline = deadline
        self._ids = itertools.count()
        self.recfns = {}
        self.module, self.node = extract.find(contract.target)
        if self.node is None:
            raise Unsupported(f"function {contract.target} not found")
        self.fnname = contract.target.split("::")[1]
        self.callstack = []
        self.failed = []
        self.houdini_dropped = []
        self.used_inv = []
        self.assumed = set()
        self.loops_seen = 0
        self.inlined = set()
        self.in_houdini = 0
        self.lemma_done = set()
        self.visit = {}
        self.dropcache = {}

    # ------------------------------------------------------------ helpers
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")

    def new_id(self):
        return next(self._ids)

    def alloc(self, st, arr):
        i = self.new_id()
        st.heap[i] = arr
        return ArrRef(i)

    def arr(self, st, ref):
        return st.heap[ref.id]

    def shape(self, st, ref):
        if isinstance(ref, ArrRef) and ref.ln is not None:
            return (ref.ln,)
        return st.heap[ref.id].shape

    def length(self, st, ref):
        return self.shape(st, ref)[0]

    def reader(self, st, ref):
        a = st.heap[ref.id]
        if ref.off is None:
            return a.at
        off = ref.off
        return lambda k: a.at(arith("+", off, k))

    def oblige(self, st, kind, goal, node, label=None, hard=True):
        if self.discover:
            return True
        self.tick()
        if goal is True:
            return True
        line = getattr(node, "lineno", 0) if node is not None else 0
        if label is None:
            label = ast.unparse(node) if node is not None else kind
        r = prove(st.pc, goal, timeout=self.c.timeout, rounds=self.c.rounds, extra_terms=self.extra(st))
        o = Obligation(self.c.name, kind, label, line, r)
        if not self.in_houdini:
            self.obls.append(o)
            if r.status != "proved":
                self.failed.append((o, st, goal))
        if r.status == "proved":
            st.assume(goal)
        else:
            st.assume(goal)  # continue past a reported failure
        return r.status == "proved"

    def extra(self, st):
        out = []
        for v in list(st.env.values()) + [lp[0] for lp in st.loops]:
            if z3.is_expr(v) and z3.is_int(v) and v.num_args() == 0 and not z3.is_int_value(v):
                out.append(v)
        return out[:6]

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, spec=None):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}: {ast.unparse(e)}")
        return m(e, st, spec)

    def ev_Constant(self, e, st, spec):
        return e.value

    def ev_JoinedStr(self, e, st, spec):
        return "<fstring>"

    def ev_Name(self, e, st, spec):
        n = e.id
        if spec is not None:
            if n in spec:
                return spec[n]
        if n in st.env:
            v = st.env[n]
            if v is UNBOUND:
                raise Unsupported(f"possibly unbound {n}")
            return v
        return self.global_name(n, st, spec)

    def global_name(self, n, st, spec=None):
        if self.c.binds and n in self.c.binds:
            v = self.c.binds[n]
            return v(self, st) if callable(v) and not isinstance(v, type) and getattr(v, "_lazy", False) else v
        if n in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[n]
        if spec is not None and n in self.lib.fns:
            return ("spec", n)
        m = self.curmod()
        if n in m.defs:
            return FuncVal(m.defs[n], m)
        if n in m.consts:
            try:
                return ast.literal_eval(m.consts[n])
            except Exception:
                try:
                    return self.ev(m.consts[n], st)
                except Unsupported:
                    return Ext(n)
        if n in ("np", "numpy", "nb", "numba", "rc"):
            return Ext({"numpy": "np", "numba": "nb"}.get(n, n))
        if n in m.imports:
            tgt = m.imports[n]
            if isinstance(tgt, str) and ":" in tgt:
                modn, fn = tgt.split(":")
                if modn in ("numba",):
                    return Ext("nb." + fn)
                if modn in ("numpy",):
                    return Ext("np." + fn)
                return Ext(fn)
            return Ext(tgt)
        return Ext(n)

    def curmod(self):
        return self.callstack[-1] if self.callstack else self.module

    def ev_Tuple(self, e, st, spec):
        return Tup([self.ev(x, st, spec) for x in e.elts])

    def ev_List(self, e, st, spec):
        return Tup([self.ev(x, st, spec) for x in e.elts])

    def ev_Attribute(self, e, st, spec):
        v = self.ev(e.value, st, spec)
        return self.attr(v, e.attr, st, e)

    def attr(self, v, a, st, e=None):
        if isinstance(v, ArrRef):
            if a == "shape":
                return Tup(self.shape(st, v))
            if a == "size":
                s = self.shape(st, v)
                r = s[0]
                for x in s[1:]:
                    r = arith("*", r, x)
                return r
            if a == "dtype":
                return Dtype(v.id, st.heap[v.id].kind)
            if a == "ndim":
                return len(self.shape(st, v))
            if a in ("_np", "_fa"):
                return v
            return ("method", v, a)
        if isinstance(v, Ext):
            if v.name in ("np", "math") and a in ("nan", "NaN", "NAN"):
                return float("nan")
            return Ext(v.name + "." + a)
        if isinstance(v, Obj):
            flds = st.heap[v.id]
            if a in flds:
                return flds[a]
            return ("method", v, a)
        if isinstance(v, Dtype):
            return ("dtypeattr", v, a)
        if isinstance(v, (Tup, str)):
            return ("method", v, a)
        h = self.c.models and self.c.models.get("attr:" + a)
        if h:
            return h(self, st, v)
        raise Unsupported(f"attribute .{a} of {v!r}")

    def ev_BinOp(self, e, st, spec):
        a = self.ev(e.left, st, spec)
        b = self.ev(e.right, st, spec)
        return self.binop(OPS.get(type(e.op), "?"), a, b, st, e, spec)

    def binop(self, op, a, b, st, e, spec):
        if isinstance(a, ArrRef) or isinstance(b, ArrRef):
            return self.elementwise(lambda x, y: arith(op, x, y), [a, b], st, e)
        if op in ("//", "%") and spec is None and isint(b):
            if not isinstance(b, int):
                self.oblige(st, "divisor-nonzero", b > 0, e, "divisor positive: " + ast.unparse(e))
        return arith(op, a, b)

    def elementwise(self, fn, args, st, e):
        shp = None
        rs = []
        for a in args:
            if isinstance(a, ArrRef):
                s = self.shape(st, a)
                if shp is None:
                    shp = s
                elif not self.discover:
                    for x, y in zip(shp, s):
                        q = cmp_eq(x, y)
                        if sconst(q) is not True if not isfm(q) else True:
                            self.oblige(st, "shape", q, e, "shapes agree: " + ast.unparse(e))
                rs.append(self.reader(st, a))
            else:
                rs.append(None)
        args = list(args)

        def at(*k):
            return fn(*[r(*k) if r is not None else a for r, a in zip(rs, args)])

        probe = at(*[z3.Int("probe!") for _ in shp])
        return self.alloc(st, Arr(shp, at, kind_of(probe) or "int"))

    def ev_UnaryOp(self, e, st, spec):
        v = self.ev(e.operand, st, spec)
        if isinstance(e.op, ast.Not):
            return f_not(truth(v))
        if isinstance(v, ArrRef):
            if isinstance(e.op, ast.Invert):
                return self.elementwise(lambda x: f_not(x) if isbool(x) else -x - 1, [v], st, e)
            if isinstance(e.op, ast.USub):
                return self.elementwise(lambda x: arith("-", 0, x), [v], st, e)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, Flt):
                return Flt(v.nan, -v.val)
            return -z3i(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isbool(v):
                return f_not(v)
            return -z3i(v) - 1
        raise Unsupported(ast.unparse(e))

    def guarded(self, st, cond, fn):
        n = len(st.pc)
        c = cond
        st.pc.append(c)
        try:
            r = fn()
        finally:
            extra = st.pc[n + 1 :]
            del st.pc[n:]
        for x in extra:
            st.assume(f_imp(c, x))
        return r

    def ev_BoolOp(self, e, st, spec):
        isand = isinstance(e.op, ast.And)
        acc = self.ev(e.values[0], st, spec)
        for nxt in e.values[1:]:
            t = truth(acc)
            tc = sconst(t) if not isfm(t) else t
            if tc is (not isand):
                return acc if isbool(acc) else tc
            if tc is isand:
                acc = self.ev(nxt, st, spec)
                continue
            g = t if isand else f_not(t)
            v = self.guarded(st, g, lambda: self.ev(nxt, st, spec))
            acc = f_and(t, truth(v)) if isand else f_or(t, truth(v))
        return acc

    def ev_IfExp(self, e, st, spec):
        c = truth(self.ev(e.test, st, spec))
        cc = sconst(c) if not isfm(c) else c
        if cc is True:
            return self.ev(e.body, st, spec)
        if cc is False:
            return self.ev(e.orelse, st, spec)
        a = self.guarded(st, c, lambda: self.ev(e.body, st, spec))
        b = self.guarded(st, f_not(c), lambda: self.ev(e.orelse, st, spec))
        return ite(c, a, b)

    def ev_Lambda(self, e, st, spec):
        ret = ast.copy_location(ast.Return(e.body), e)
        fd = ast.FunctionDef(name="<lambda>", args=e.args, body=[ret], decorator_list=[], returns=None)
        ast.copy_location(fd, e)
        return FuncVal(fd, self.curmod(), closure=dict(st.env))

    def ev_Compare(self, e, st, spec):
        left = self.ev(e.left, st, spec)
        out = None
        for op, rn in zip(e.ops, e.comparators):
            right = self.ev(rn, st, spec)
            r = self.compare(op, left, right, st, e, spec)
            out = r if out is None else f_and(out, r)
            left = right
        return out

    def compare(self, op, a, b, st, e, spec):
        def one(x, y):
            if isinstance(op, ast.Eq):
                return cmp_eq(x, y)
            if isinstance(op, ast.NotEq):
                return f_not(cmp_eq(x, y))
            if isinstance(op, ast.Lt):
                return cmp_rel("<", x, y)
            if isinstance(op, ast.LtE):
                return cmp_rel("<=", x, y)
            if isinstance(op, ast.Gt):
                return cmp_rel(">", x, y)
            if isinstance(op, ast.GtE):
                return cmp_rel(">=", x, y)
            raise Unsupported("cmp")

        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                r = (a is None) and (b is None)
                if isinstance(a, OptVal):
                    r = a.isnone
                return r if isinstance(op, ast.Is) else f_not(r)
            if isinstance(a, ArrRef) and isinstance(b, ArrRef):
                r = a.id == b.id
                return r if isinstance(op, ast.Is) else not r
            if isbool(a) and isbool(b):
                r = cmp_eq(a, b)
                return r if isinstance(op, ast.Is) else f_not(r)
            raise Unsupported("is")
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Tup):
                r = f_or(*[cmp_eq(a, x) for x in b.xs])
                return r if isinstance(op, ast.In) else f_not(r)
            if isinstance(b, str) and isinstance(a, str):
                r = a in b
                return r if isinstance(op, ast.In) else not r
            raise Unsupported("in")
        if isinstance(b, Ext) and b.name.startswith("nb.") and isinstance(op, (ast.Eq, ast.NotEq)) and "nbtype" in (self.c.binds or {}):
            # numba type test inside an @overload function: decided by the element type the contract is stated for
            r = b.name[3:] == self.c.binds["nbtype"]
            return r if isinstance(op, ast.Eq) else not r
        if isinstance(a, ArrRef) or isinstance(b, ArrRef):
            return self.elementwise(one, [a, b], st, e)
        return one(a, b)

    # ---- subscripts
    def norm_index(self, st, i, n, e, spec):
        """bounds obligation + wraparound; returns the effective index"""
        if isbool(i):
            i = z3i(i)
        if not isint(i):
            raise Unsupported(f"index {i!r}")
        i = sconst(i)
        if spec is not None:
            return i
        if isinstance(i, int) and i < 0:
            self.oblige(st, "bounds", z3i(n) >= -i, e, "index in bounds: " + ast.unparse(e))
            return arith("+", n, i)
        if isinstance(i, int) and isinstance(n, int):
            if 0 <= i < n:
                return i
        if not self.discover:
            self.tick()
            if any(isinstance(x, ast.USub) for x in ast.walk(e.slice)) if isinstance(e, ast.Subscript) else False:
                w = prove(st.pc, z3.And(z3i(i) < 0, z3i(i) >= -z3i(n)), timeout=2.0, rounds=self.c.rounds)
                if w.status == "proved":
                    if not self.in_houdini:
                        self.obls.append(Obligation(self.c.name, "bounds", "index in bounds (from the end): " + ast.unparse(e), e.lineno, w))
                    return arith("+", n, i)
            ok = prove(st.pc, z3.And(z3i(i) >= 0, z3i(i) < z3i(n)), timeout=self.c.timeout, rounds=self.c.rounds, extra_terms=self.extra(st))
            if ok.status != "proved":
                # python semantics: negative indices wrap
                w = prove(st.pc, z3.And(z3i(i) >= -z3i(n), z3i(i) < z3i(n)), timeout=self.c.timeout, rounds=self.c.rounds)
                if w.status == "proved":
                    o = Obligation(self.c.name, "bounds", "index in bounds (wrapping): " + ast.unparse(e), e.lineno, w)
                    if not self.in_houdini:
                        self.obls.append(o)
                    return z3.If(z3i(i) < 0, z3i(i) + z3i(n), z3i(i))
            o = Obligation(self.c.name, "bounds", "index in bounds: " + ast.unparse(e), e.lineno, ok)
            if not self.in_houdini:
                self.obls.append(o)
                if ok.status != "proved":
                    self.failed.append((o, st, None))
            st.assume(z3.And(z3i(i) >= 0, z3i(i) < z3i(n)))
        return i

    def ev_Subscript(self, e, st, spec):
        base = self.ev(e.value, st, spec)
        return self.subscript(base, e.slice, st, e, spec)

    def subscript(self, base, sl, st, e, spec):
        if isinstance(base, Tup):
            i = self.ev(sl, st, spec) if not isinstance(sl, ast.Slice) else None
            if isinstance(sl, ast.Slice):
                lo = self.ev(sl.lower, st, spec) if sl.lower else None
                hi = self.ev(sl.upper, st, spec) if sl.upper else None
                return Tup(base.xs[lo:hi])
            i = sconst(i)
            if isinstance(i, int) and -len(base.xs) <= i < len(base.xs):
                return base.xs[i]
            if isint(i):
                self.oblige(st, "bounds", z3.And(i >= 0, i < len(base.xs)), e)
                r = base.xs[-1]
                for k in range(len(base.xs) - 2, -1, -1):
                    r = ite(i == k, base.xs[k], r)
                return r
            raise Unsupported("tuple index")
        if isinstance(base, ArrRef):
            a = st.heap[base.id]
            shp = self.shape(st, base)
            if isinstance(sl, ast.Tuple):
                parts = sl.elts
            else:
                parts = [sl]
            if len(parts) == 1 and isinstance(parts[0], ast.Slice):
                if len(shp) != 1:
                    raise Unsupported("slice of nd array")
                return self.slice_view(base, parts[0], st, e, spec)
            if any(isinstance(p, ast.Slice) for p in parts):
                if len(parts) == 2 and isinstance(parts[0], ast.Slice) and not isinstance(parts[1], ast.Slice) and parts[0].lower is None and parts[0].upper is None:
                    j = self.ev(parts[1], st, spec)
                    j = self.norm_index(st, j, shp[1], e, spec)
                    rd = self.reader(st, base)
                    return self.alloc(st, Arr((shp[0],), lambda k: rd(k, j), a.kind))
                if len(parts) == 2 and all(isinstance(p, ast.Slice) for p in parts) and parts[0].lower is None and parts[0].upper is None and parts[1].lower is None and parts[0].step is None and parts[1].step is None and parts[1].upper is not None:
                    hi = z3i(self.ev(parts[1].upper, st, spec))
                    n = z3i(shp[1])
                    hi = z3.If(hi < 0, z3.If(hi + n < 0, 0, hi + n), z3.If(hi > n, n, hi))
                    return self.alloc(st, Arr((shp[0], hi), self.reader(st, base), a.kind))
                raise Unsupported("nd slice")
            idx = [self.ev(p, st, spec) for p in parts]
            if len(idx) == 1 and isinstance(idx[0], Tup):
                idx = idx[0].xs
            if len(idx) == 1 and isinstance(idx[0], ArrRef):
                return self.fancy(base, idx[0], st, e, spec)
            if len(idx) < len(shp):
                if len(idx) == 1 and len(shp) == 2:
                    i = self.norm_index(st, idx[0], shp[0], e, spec)
                    rd = self.reader(st, base)
                    return self.alloc(st, Arr((shp[1],), lambda k: rd(i, k), a.kind))
                raise Unsupported("partial index")
            ks = [self.norm_index(st, i, n, e, spec) for i, n in zip(idx, shp)]
            return self.reader(st, base)(*ks)
        h = self.c.models and self.c.models.get("getitem")
        if h:
            return h(self, st, base, sl, e, spec)
        raise Unsupported(f"subscript of {base!r}")

    def slice_view(self, base, s, st, e, spec):
        n = self.length(st, base)
        if s.step is not None:
            step = self.ev(s.step, st, spec)
            if step != 1:
                raise Unsupported("slice step")
        lo = self.ev(s.lower, st, spec) if s.lower else 0
        hi = self.ev(s.upper, st, spec) if s.upper else n
        lo = sconst(lo)
        hi = sconst(hi)

        def clamp(x):
            if isinstance(x, int) and x == 0:
                return 0
            if x is n:
                return n
            if isinstance(x, int) and x < 0:
                y = arith("+", n, x)
                return z3.If(z3i(y) < 0, 0, z3i(y))
            zx = z3i(x)
            if spec is None and not self.discover:
                r = prove(st.pc, z3.And(zx >= 0, zx <= z3i(n)), timeout=self.c.timeout)
                if r.status == "proved":
                    return zx
            x2 = z3.If(zx < 0, zx + z3i(n), zx)
            return z3.If(x2 < 0, 0, z3.If(x2 > z3i(n), z3i(n), x2))

        lo, hi = clamp(lo), clamp(hi)
        ln = arith("-", hi, lo)
        if not (isinstance(lo, int) and lo == 0):
            ln = z3.If(z3i(ln) < 0, 0, z3i(ln))
        off = lo if base.off is None else arith("+", base.off, lo)
        return ArrRef(base.id, off, ln)

    def fancy(self, base, idx, st, e, spec):
        ia = st.heap[idx.id]
        rd, ri = self.reader(st, base), self.reader(st, idx)
        n = self.length(st, base)
        if ia.kind == "bool":
            return self.bool_index(base, idx, st, e)
        m = self.length(st, idx)
        if spec is None and not self.discover:
            self.oblige(
                st,
                "bounds",
                FAll(1, lambda k: f_imp(z3.And(k >= 0, k < z3i(m)), z3.And(ri(k) >= -z3i(n), ri(k) < z3i(n)))),
                e,
                "fancy index in bounds: " + ast.unparse(e),
            )
        def at(k):
            i = ri(k)
            return rd(z3.If(i < 0, i + z3i(n), i))
        return self.alloc(st, Arr((m,), at, st.heap[base.id].kind))

    def bool_index(self, base, mask, st, e):
        """a[mask]: order-preserving compaction. modelled with a fresh strictly increasing index map
        pos: [0,m) -> [0,n), covering exactly the True positions (assumed numpy contract)"""
        n = self.length(st, base)
        rm = self.reader(st, mask)
        rd = self.reader(st, base)
        m, pos, rank = self.compaction(st, n, rm)
        return self.alloc(st, Arr((m,), lambda k: rd(pos(z3i(k))), st.heap[base.id].kind))

    def compaction(self, st, n, rm):
        nm = fresh_name("cmp")
        pos = z3.Function(nm + "_pos", z3.IntSort(), z3.IntSort())
        rank = z3.Function(nm + "_rank", z3.IntSort(), z3.IntSort())
        m = z3.Int(nm + "_m")
        n = z3i(n)
        st.assume(z3.And(m >= 0, m <= n))
        st.assume(FAll(1, lambda k: f_imp(z3.And(k >= 0, k < m), f_and(pos(k) >= 0, pos(k) < n, rm(pos(k)), rank(pos(k)) == k))))
        st.assume(FAll(1, lambda j: f_imp(f_and(j >= 0, j < n, rm(j)), z3.And(rank(j) >= 0, rank(j) < m, pos(rank(j)) == j))))
        st.assume(FAll(2, lambda a, b: f_imp(z3.And(a >= 0, a < b, b < m), pos(a) < pos(b))))
        return m, pos, rank

    # ---- calls
    def ev_Call(self, e, st, spec):
        if spec is not None and isinstance(e.func, ast.Name):
            r = self.spec_call(e, st, spec)
            if r is not NotImplemented:
                return r
        f = self.ev(e.func, st, spec)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, spec)
                if not isinstance(v, Tup):
                    raise Unsupported("starred")
                args += v.xs
            else:
                args.append(self.ev(a, st, spec))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("**kwargs call")
            kw[k.arg] = self.ev(k.value, st, spec)
        return self.call(f, args, kw, st, e, spec)

    def spec_call(self, e, st, spec):
        n = e.func.id
        if n in spec:
            return NotImplemented
        if n in ("forall", "exists"):
            # forall(k, lo, hi, body) or forall((k,m), cond, body)
            v = e.args[0]
            names = [v.id] if isinstance(v, ast.Name) else [x.id for x in v.elts]
            if len(e.args) == 4:
                lo_e, hi_e, body = e.args[1:]
                lo, hi = self.ev(lo_e, st, spec), self.ev(hi_e, st, spec)

                def rng(*ks):
                    return f_and(*[f_and(z3i(lo) <= k, k < z3i(hi)) for k in ks])

            else:
                cond_e, body = e.args[1:]
                rng = None
            frozen = st.copy()

            def mk(*ks):
                sp = dict(spec)
                for nm, k in zip(names, ks):
                    sp[nm] = k
                tmp = frozen.copy()
                tmp.pc = []
                c = rng(*ks) if rng else truth(self.ev(cond_e, tmp, sp))
                b = truth(self.ev(body, tmp, sp))
                return f_imp(c, b) if n == "forall" else f_and(c, b)

            return FAll(len(names), mk, "_".join(names)) if n == "forall" else FEx(len(names), mk, "_".join(names))
        if n == "implies":
            a = truth(self.ev(e.args[0], st, spec))
            b = truth(self.ev(e.args[1], st, spec))
            return f_imp(a, b)
        if n == "iff":
            a = truth(self.ev(e.args[0], st, spec))
            b = truth(self.ev(e.args[1], st, spec))
            return f_and(f_imp(a, b), f_imp(b, a))
        if n == "old":
            es = st.entry if st.entry is not None else st
            tmp = es.copy()
            tmp.entry = es
            return self._old_val(self.ev(e.args[0], tmp, spec), es)
        if n == "same":
            return same(self.ev(e.args[0], st, spec), self.ev(e.args[1], st, spec))
        if n == "isnan":
            v = self.ev(e.args[0], st, spec)
            return to_flt(v).nan if isfloat(v) else False
        if n == "ite":
            return ite(truth(self.ev(e.args[0], st, spec)), self.ev(e.args[1], st, spec), self.ev(e.args[2], st, spec))
        if n == "untouched":
            # array unchanged since entry
            v = self.ev(e.args[0], st, spec)
            es = st.entry
            ra, ro = self.reader(st, v), self.reader(es, v)
            nn = self.length(st, v)
            return FAll(1, lambda k: f_imp(z3.And(k >= 0, k < z3i(nn)), same(ra(k), ro(k))))
        if n in self.lib.fns:
            args = [self.ev(a, st, spec) for a in e.args]
            return self.spec_apply(n, args, st, spec)
        return NotImplemented

    def _old_val(self, v, es):
        # an array value read through old() must keep reading the entry heap
        if isinstance(v, ArrRef):
            return FrozenArr(v, es)
        return v

    def spec_apply(self, name, args, st, spec):
        node = self.lib.fns[name]
        ps = [a.arg for a in node.args.args]
        body = [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        assert len(body) == 1 and isinstance(body[0], ast.Return), name
        if not self.lib.isrec(name):
            tmp = st.copy()
            sp = {}
            for p, a in zip(ps, args):
                sp[p] = a
            return self.ev(body[0].value, tmp, sp)
        # recursive: UF over the non-array args
        if name in self.lib.shift:
            sn, pn = self.lib.shift[name]
            self.check_shift(node, body[0].value, name, sn, pn)
            args = list(args)
            i, j = ps.index(sn), ps.index(pn)
            if isinstance(args[i], ArrRef) and args[i].off is not None:
                args[j] = arith("+", args[i].off, args[j])
                args[i] = ArrRef(args[i].id)
        fixed, var = [], []
        for p, a in zip(ps, args):
            if isinstance(a, (ArrRef, FrozenArr, Ext, str, Tup)) or a is None:
                fixed.append((p, a))
            else:
                var.append((p, a))
        key = [name]
        for p, a in fixed:
            if isinstance(a, FrozenArr):
                arr = a.st.heap[a.ref.id]
                key.append((p, id(arr), str(a.ref.off)))
            elif isinstance(a, ArrRef):
                arr = st.heap[a.id]
                key.append((p, id(arr), str(a.off)))
            else:
                key.append((p, str(a)))
        kinds = tuple(kind_of(a) for _, a in var)
        key.append(kinds)
        key = tuple(map(str, key))
        if key not in self.recfns:
            ret = ast.unparse(node.returns) if node.returns else "int"
            nm = fresh_name(name)
            sorts = []
            for k in kinds:
                if k == "int":
                    sorts.append(z3.IntSort())
                elif k == "bool":
                    sorts.append(z3.BoolSort())
                elif k == "float":
                    sorts += [z3.BoolSort(), z3.RealSort()]
                else:
                    raise Unsupported("rec arg kind")
            frozen = st.copy()
            frozen.pc = []
            keep = [a for _, a in fixed]

            def unpack(zs):
                out, i = [], 0
                for k in kinds:
                    if k == "float":
                        out.append(Flt(zs[i], zs[i + 1]))
                        i += 2
                    else:
                        out.append(zs[i])
                        i += 1
                return out

            def body_val(*zs):
                sp = dict(fixed)
                for (p, _), z in zip(var, unpack(zs)):
                    sp[p] = z
                tmp = frozen.copy()
                return self.ev(body[0].value, tmp, sp)

            if ret == "float":
                fn_ = z3.Function(nm + "_nan", *sorts, z3.BoolSort())
                fv_ = z3.Function(nm + "_val", *sorts, z3.RealSort())
                app = lambda *z: Flt(fn_(*z), fv_(*z))
                decls = [fn_, fv_]
            else:
                f_ = z3.Function(nm, *sorts, z3.BoolSort() if ret == "bool" else z3.IntSort())
                app = lambda *z: f_(*z)
                decls = [f_]
            self.recfns[key] = (app, keep, [st.heap.get(a.id) for _, a in fixed if isinstance(a, ArrRef)])

            def bdy(*zs):
                return same(app(*zs), body_val(*zs))

            for d in decls:
                L.REC[d.name()] = L.RecDef(d, bdy, maxdepth=getattr(self.c, "recdepth", 2))
            self.rec_lemmas(name, app, decls, sorts, unpack, var, fixed, frozen, body_val, body[0].value)
        app = self.recfns[key][0]
        zs = []
        for (_, a), k in zip(var, kinds):
            if k == "float":
                a = to_flt(a)
                zs += [z3b(a.nan), a.val]
            elif k == "bool":
                zs.append(z3b(a))
            else:
                zs.append(L.norm(z3i(a)))
        return app(*zs)

    def check_shift(self, node, body, name, sn, pn):
        """s is read only at p+..., and recursive calls pass s and p unchanged: so a view of s at offset o
        with position p means the same as s with position o+p"""
        ps = [a.arg for a in node.args.args]
        ok = set()
        for n in ast.walk(body):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == sn:
                x = n.slice
                while isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub)):
                    x = x.left
                if not (isinstance(x, ast.Name) and x.id == pn):
                    raise Unsupported("shift")
                ok.add(id(n.value))
                ok.add(id(x))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == name:
                a, b = n.args[ps.index(sn)], n.args[ps.index(pn)]
                if not (isinstance(a, ast.Name) and a.id == sn and isinstance(b, ast.Name) and b.id == pn):
                    raise Unsupported("shift")
                ok.add(id(a))
                ok.add(id(b))
        for n in ast.walk(body):
            if isinstance(n, ast.Name) and n.id in (sn, pn) and id(n) not in ok:
                raise Unsupported("shift")

    def rec_lemmas(self, name, app, decls, sorts, unpack, var, fixed, frozen, body_val, body_expr):
        lems = self.lib.lemmas.get(name, ())
        if not lems:
            return

        def fact(text, zs):
            sp = dict(fixed)
            for (p, _), z in zip(var, unpack(zs)):
                sp[p] = z
            sp["r"] = app(*zs)
            return self.spec_formula(text, frozen, sp, entry=frozen)

        xs = [z3.Const(fresh_name("ind"), so) for so in sorts]
        ids = [x.get_id() for x in xs]
        proved = []

        def mk(text, hyp_only):
            def ax(*args):
                if hyp_only and [a.get_id() for a in args] == ids:
                    return True
                return fact(text, args)

            return ax

        key = (self.c.name, name)
        for text in lems:
            for d in decls:
                L.GLOBAL_AX[d.name()] = [mk(t, False) for t in proved] + [mk(text, True)]
            saved = {d.name(): L.REC[d.name()] for d in decls}
            goal = fact(text, xs)
            r = prove([saved[decls[0].name()].body(*xs)] + list(self.base_pc()), goal, timeout=10.0, rounds=2)
            if self.lemma_log is not None and (key, text) not in self.lemma_done:
                self.lemma_done.add((key, text))
                o = Obligation(self.c.name, "lemma-induction", f"{name}: {text}", 0, r)
                self.obls.append(o)
                if r.status != "proved":
                    raise Unsupported(f"lemma {name}: {text} not provable")
            if r.status == "proved":
                proved.append(text)
        for d in decls:
            L.GLOBAL_AX[d.name()] = [mk(t, False) for t in proved]
        # well-foundedness: every recursive call decreases the measure, which is non-negative there
        ms = self.lib.measure.get(name)
        if ms and (key, "measure") not in self.lemma_done:
            self.lemma_done.add((key, "measure"))
            sp = dict(fixed)
            for (p, _), z in zip(var, unpack(xs)):
                sp[p] = z
            fnode = self.lib.fns[name]
            ps = [a.arg for a in fnode.args.args]
            for cond, call in rec_calls(body_expr, name):
                st = frozen.copy()
                cz = [truth(self.ev(c, st, SpecEnv(sp))) if pos else f_not(truth(self.ev(c, st, SpecEnv(sp)))) for c, pos in cond]
                m0 = z3i(self.ev(parse_spec(ms), st, SpecEnv(sp)))
                sp2 = dict(sp)
                for p, a in zip(ps, call.args):
                    sp2[p] = self.ev(a, st, SpecEnv(sp))
                m1 = z3i(self.ev(parse_spec(ms), st, SpecEnv(sp2)))
                r = prove(cz, z3.And(m1 < m0, m0 >= 0), timeout=5.0, rounds=1)
                self.obls.append(Obligation(self.c.name, "measure", f"{name} decreases {ms}", 0, r))
                if r.status != "proved":
                    raise Unsupported(f"measure of {name}")

    lemma_log = True

    def base_pc(self):
        return ()

    def call(self, f, args, kw, st, e, spec):
        if isinstance(f, tuple) and f and f[0] == "method":
            return self.call_method(f[1], f[2], args, kw, st, e, spec)
        if isinstance(f, tuple) and f and f[0] == "spec":
            return self.spec_apply(f[1], args, st, spec)
        if isinstance(f, Ext):
            mdl = (self.c.models or {}).get(f.name)
            if mdl:
                return mdl(self, st, args, kw, e)
            return self.call_ext(f.name, args, kw, st, e, spec)
        if isinstance(f, FuncVal):
            c = self.reg.get((f.mod.path, f.node.name)) if self.reg else None
            if c is not None and c is not self.c and c.name not in self.c.inline:
                return self.call_contract(c, f, args, kw, st, e)
            ov = self.overload_of(f)
            if ov is not None:
                # numba runs the implementation its @overload function selects from the argument types
                impl = self.call_inline(ov, args, kw, st, e)
                if not isinstance(impl, FuncVal):
                    raise Unsupported("overload does not return an implementation")
                return self.call_inline(impl, args, kw, st, e)
            return self.call_inline(f, args, kw, st, e)
        raise Unsupported(f"call {ast.unparse(e)}")

    def overload_of(self, f):
        if not isinstance(f.node, ast.FunctionDef) or f.mod.defs.get(f.node.name) is not f.node:
            return None
        for g in f.mod.tree.body:
            if isinstance(g, ast.FunctionDef):
                for d in g.decorator_list:
                    if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] in ("overload", "register_jitable_overload"):
                        if d.args and isinstance(d.args[0], ast.Name) and d.args[0].id == f.node.name:
                            return FuncVal(g, f.mod)
        return None

    def bind_args(self, node, args, kw):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(names):
            raise Unsupported("too many args")
        for n, v in zip(names, args):
            out[n] = v
        for k, v in kw.items():
            if k not in names and k not in [x.arg for x in a.kwonlyargs]:
                raise Unsupported("unknown kwarg")
            out[k] = v
        defs = a.defaults
        for n, d in zip(names[len(names) - len(defs) :], defs):
            if n not in out:
                try:
                    out[n] = ast.literal_eval(d)
                except Exception:
                    raise Unsupported("default")
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = ast.literal_eval(d)
        for n in names:
            if n not in out:
                raise Unsupported("missing arg " + n)
        return out

    def call_inline(self, f, args, kw, st, e):
        if len(self.callstack) > 6:
            raise Unsupported("inline depth")
        self.inlined.add(f.node.name)
        env = self.bind_args(f.node, args, kw)
        saved_env, saved_loops = st.env, st.loops
        sub = st.copy()
        sub.env = dict(f.closure)
        sub.env.update(env)
        self.callstack.append(f.mod)
        try:
            outs = self.block(f.node.body, sub)
        finally:
            self.callstack.pop()
        rets = []
        for s, sig in outs:
            if sig is None:
                rets.append((s, None))
            elif sig[0] == "return":
                rets.append((s, sig[1]))
            elif sig[0] == "raise":
                self.raised.append((s, sig))
            else:
                raise Unsupported("signal")
        if not rets:
            st.assume(False)
            return None
        if len(rets) == 1:
            s, v = rets[0]
            st.heap, st.pc = s.heap, s.pc
            st.env, st.loops = saved_env, saved_loops
            return v
        # merge: values ite'd over path conditions
        base = len(st.pc)
        conds = []
        for s, v in rets:
            conds.append(f_and(*s.pc[base:]))
        # heap differences unsupported unless identical
        changed = set()
        for s, v in rets:
            for k, a in s.heap.items():
                if k in st.heap and st.heap[k] is not a:
                    changed.add(k)
        val = rets[-1][1]
        if any(isfm(c) for c in conds):
            # keep the quantified part as facts under a selector
            sels = []
            for (s, v), c in zip(rets, conds):
                p = z3.Bool(fresh_name("sel"))
                st.assume(f_imp(p, c))
                sels.append(p)
            st.assume(z3.Or(*sels))
            conds = sels
        else:
            st.assume(f_or(*conds))
        for (s, v), c in list(zip(rets, conds))[-2::-1]:
            val = ite(c, v, val)
        for s, v in rets:
            for k, a in s.heap.items():
                if k not in st.heap:
                    st.heap[k] = a
        for k in changed:
            rs = [(s.heap[k], c) for (s, v), c in zip(rets, conds)]

            def at(*i, rs=rs):
                r = rs[-1][0].at(*i)
                for a, c in rs[-2::-1]:
                    r = ite(c, a.at(*i), r)
                return r

            a0 = st.heap[k]
            st.heap[k] = Arr(a0.shape, at, a0.kind, a0.rng, a0.name)
        return val

    def call_contract(self, c, f, args, kw, st, e):
        """modular call: check requires, havoc modifies, assume ensures"""
        env = self.bind_args(f.node, args, kw)
        actual = [x.arg for x in f.node.args.args]
        sp = {}
        for (pn, pt), an in zip(c.params, actual):
            sp[pn] = env[an]
        entry = st.copy()
        for r in c.requires:
            g = self.spec_formula(r, st, sp, entry=st)
            self.oblige(st, "call-requires", g, e, f"{c.name} requires {r}")
        for m in c.modifies:
            ref = sp[m]
            a = st.heap[ref.id]
            if ref.off is not None:
                raise Unsupported("modifies through a view")
            st.heap[ref.id] = fresh_arr(a.kind, a.shape, a.name.split("!")[0], a.rng)
            self.range_facts(st, st.heap[ref.id])
        if c.result is None:
            res = None
        elif isinstance(c.result, str):
            res = fresh_val(c.result, "ret_" + c.name)
        else:
            res = c.result(self, st, sp)
        sp2 = dict(sp)
        sp2["result"] = res
        for en in c.ensures:
            st.assume(self.spec_formula(en, st, sp2, entry=entry))
        return res

    def spec_formula(self, text, st, sp, entry=None):
        tree = parse_spec(text)
        tmp = st.copy()
        tmp.pc = []
        if entry is not None:
            en = entry.copy()
            tmp.entry = en
        spx = SpecEnv(sp)
        return truth(self.ev(tree, tmp, spx))

    def range_facts(self, st, a):
        if a.rng and a.kind == "int":
            lo, hi = a.rng
            at = a.at
            n = len(a.shape)
            st.assume(FAll(n, lambda *k: z3.And(at(*k) >= lo, at(*k) <= hi)))

    def call_method(self, v, name, args, kw, st, e, spec):
        mdl = (self.c.models or {}).get("." + name)
        if mdl:
            return mdl(self, st, v, args, kw, e)
        if isinstance(v, ArrRef):
            if name == "copy":
                rd = self.reader(st, v)
                a = st.heap[v.id]
                return self.alloc(st, Arr(self.shape(st, v), rd, a.kind, a.rng))
            if name in ("view", "ravel", "_np"):
                return v
            if name in ("astype",):
                return v
            if name == "isnan":
                return self.elementwise(lambda x: to_flt(x).nan if isfloat(x) else False, [v], st, e)
            if name == "searchsorted":
                return self.searchsorted(v, args, kw, st, e)
        raise Unsupported(f"method .{name}")

    IDENT = {
        "np.int64", "np.int32", "np.int16", "np.int8", "int", "np.intp", "np.uint64", "np.uint32", "np.uint8",
        "np.asarray", "np.asanyarray", "np.ascontiguousarray", "np.float64", "float", "np.bool_",
    }  # fmt: skip

    def call_ext(self, name, args, kw, st, e, spec):
        if name in ("range", "nb.prange", "prange", "np.arange_", "numba.prange"):
            a = [sconst(x) if isint(x) else x for x in args]
            for x in a:
                if not isint(x):
                    raise Unsupported("range arg")
            if len(a) == 1:
                return RangeVal(0, a[0], 1, "prange" in name)
            if len(a) == 2:
                return RangeVal(a[0], a[1], 1, "prange" in name)
            if not isinstance(a[2], int) or a[2] == 0:
                raise Unsupported("range step")
            return RangeVal(a[0], a[1], a[2], "prange" in name)
        if name == "len":
            v = args[0]
            if isinstance(v, FrozenArr):
                return self.length(v.st, v.ref)
            if isinstance(v, ArrRef):
                return self.length(st, v)
            if isinstance(v, (Tup,)):
                return len(v.xs)
            if isinstance(v, str):
                return len(v)
            raise Unsupported("len")
        if name in self.IDENT or (name == "nb.int64" and not isinstance(sconst(args[0]) if isint(args[0]) else None, int)):
            v = args[0]
            if isinstance(v, Ratio):
                # trunc(a/b), exact below 2**53 (assumption)
                self.assumed.add("int(a/b) == a//b for 0<=a<2**53")
                self.oblige(st, "trunc-nonneg", z3.And(z3i(v.a) >= 0, z3i(v.b) > 0), e)
                return L.FDIV(z3i(v.a), z3i(v.b))
            if isbool(v) and name not in ("np.bool_",) and not isinstance(v, L.Fm):
                return z3i(v) if "int" in name else v
            if isinstance(v, (Flt, float)) and "int" in name:
                fv = to_flt(v)
                return z3.If(fv.val >= 0, z3.ToInt(fv.val), -z3.ToInt(-fv.val))
            if isint(v) and name in ("float", "np.float64"):
                return to_flt(v)
            return v
        if name in ("np.isnan", "isnan", "math.isnan"):
            v = args[0]
            if isinstance(v, ArrRef):
                return self.elementwise(lambda x: to_flt(x).nan if isfloat(x) else False, [v], st, e)
            return to_flt(v).nan if isfloat(v) else False
        if name in ("min", "max"):
            xs = args[0].xs if len(args) == 1 and isinstance(args[0], Tup) else args
            r = xs[0]
            for x in xs[1:]:
                c = cmp_rel("<" if name == "min" else ">", x, r)
                r = ite(c, x, r)
            return r
        if name == "abs":
            v = args[0]
            return ite(cmp_rel("<", v, 0), arith("-", 0, v), v)
        if name == "bool":
            return truth(args[0])
        if name in ("np.zeros", "np.empty", "np.ones", "np.full", "zeros", "empty", "ones", "full"):
            return self.mk_array(name.split(".")[-1], args, kw, st, e)
        if name in ("np.empty_like", "np.zeros_like", "np.full_like", "np.ones_like", "empty_like", "zeros_like", "full_like", "ones_like"):
            ref = args[0]
            shp = self.shape(st, ref)
            nm = name.split(".")[-1][: -len("_like")]
            kind = self.dtype_kind(kw.get("dtype", args[1] if len(args) > 1 and nm != "full" else None), st) or st.heap[ref.id].kind
            a2 = [Tup(shp)] + ([args[1]] if nm == "full" else [])
            return self.mk_array(nm, a2, {"kind!": kind}, st, e)
        if name in ("np.where", "where"):
            if len(args) == 3:
                return self.elementwise(lambda c, a, b: ite(truth(c), a, b), args, st, e)
        if name in ("np.putmask", "putmask"):
            a, m, v = args
            return self.masked_store(a, m, v, st, e)
        if name in ("np.minimum", "np.maximum"):
            op = "<" if name.endswith("minimum") else ">"
            f = lambda x, y: ite(cmp_rel(op, y, x), y, x)
            if any(isinstance(a, ArrRef) for a in args):
                return self.elementwise(f, args, st, e)
            return f(args[0], args[1])
        if name == "zip":
            ss = [self.as_seq(a, st) for a in args]
            n = z3i(ss[0].n)
            for q in ss[1:]:
                n = z3.If(z3i(q.n) < n, z3i(q.n), n)
            n = sconst(n)
            return SeqVal(n, lambda x, k: Tup([q.at(x, k) for q in ss]))
        if name == "enumerate":
            q = self.as_seq(args[0], st)
            return SeqVal(q.n, lambda x, k: Tup([k, q.at(x, k)]))
        if name.startswith("operator."):
            nm = name[9:].strip("_")
            ops = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}
            if nm in ops and len(args) == 2:
                return self.compare(ops[nm](), args[0], args[1], st, e, spec)
        if name in ("np.exp", "math.exp"):
            f = z3.Function("exp!", z3.RealSort(), z3.RealSort())
            self.assumed.add("np.exp is an uninterpreted function of its argument")
            v = to_flt(args[0])
            return Flt(v.nan, f(v.val))
        if name.startswith("nb.") and name[3:] in INT_RANGES and len(args) == 1 and isinstance(sconst(args[0]), int):
            lo, hi = INT_RANGES[name[3:]]
            return (sconst(args[0]) - lo) % (hi - lo + 1) + lo
        if name == "slice":
            raise Unsupported("slice()")
        if name == "print" or name.startswith("warnings.") or name.startswith("logger."):
            return None
        if name == "isinstance":
            t = args[1]
            if isinstance(t, Ext) and t.name.endswith("types.NoneType") and not isinstance(args[0], OptVal):
                return args[0] is None
            raise Unsupported("isinstance")
        raise Unsupported(f"external call {name}")

    def searchsorted(self, v, args, kw, st, e):
        raise Unsupported("searchsorted")

    def dtype_kind(self, d, st):
        if d is None:
            return None
        if isinstance(d, Dtype):
            return d.kind
        if isinstance(d, Ext):
            n = d.name.split(".")[-1]
            if n in ("bool", "bool_"):
                return "bool"
            if "int" in n:
                return "int"
            if "float" in n:
                return "float"
        if isinstance(d, str):
            if d.startswith("bool"):
                return "bool"
            if "int" in d:
                return "int"
            if "float" in d:
                return "float"
        raise Unsupported(f"dtype {d!r}")

    def mk_array(self, nm, args, kw, st, e):
        shp = args[0]
        shp = tuple(shp.xs) if isinstance(shp, Tup) else (shp,)
        kind = kw.get("kind!")
        dt = kw.get("dtype")
        if kind is None:
            pos = 2 if nm == "full" else 1
            if dt is None and len(args) > pos:
                dt = args[pos]
            kind = self.dtype_kind(dt, st)
        rng = None
        d = dt
        if isinstance(d, Ext):
            rng = INT_RANGES.get(d.name.split(".")[-1])
        if kind is None:
            kind = kind_of(args[1]) if nm == "full" else "float"
        if nm == "empty":
            return self.alloc(st, fresh_arr(kind, shp, "empty", rng))
        if nm == "full":
            v = args[1] if len(args) > 1 else kw["fill_value"]
        else:
            v = 0 if nm == "zeros" else 1
        if kind == "bool":
            v = truth(v)
            v = z3b(v)
        elif kind == "float":
            v = to_flt(v)
        else:
            v = z3i(v)
        return self.alloc(st, Arr(shp, lambda *k: v, kind, rng, nm))

    def masked_store(self, a, m, v, st, e):
        arr = st.heap[a.id]
        if a.off is not None:
            raise Unsupported("masked store through view")
        rm = self.reader(st, m)
        rv = self.reader(st, v) if isinstance(v, ArrRef) else None
        old = arr.at
        st.heap[a.id] = Arr(arr.shape, lambda *k: ite(truth(rm(*k)), rv(*k) if rv else v, old(*k)), arr.kind, arr.rng, arr.name)
        self.note_write(a.id)
        return None

    # ------------------------------------------------------------ statements
    def note_write(self, i):
        for s in self.writes:
            s.add(i)

    writes = ()

    def block(self, stmts, st):
        outs = [(st, None)]
        for s in stmts:
            nxt = []
            for x, sig in outs:
                if sig is not None:
                    nxt.append((x, sig))
                    continue
                nxt += self.stmt(s, x)
            outs = nxt
            if not any(sig is None for _, sig in outs):
                break
            if len(outs) > 400:
                raise Unsupported("path explosion")
        return outs

    def stmt(self, s, st):
        self.tick()
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} line {s.lineno}")
        return m(s, st)

    def st_Pass(self, s, st):
        return [(st, None)]

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        self.ev(s.value, st)
        return [(st, None)]

    def st_Import(self, s, st):
        return [(st, None)]

    st_ImportFrom = st_Import
    st_Global = st_Import

    def st_Assert(self, s, st):
        g = truth(self.ev(s.test, st))
        self.oblige(st, "assert", g, s)
        return [(st, None)]

    def st_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else None
        return [(st, ("return", v))]

    def st_Break(self, s, st):
        return [(st, ("break",))]

    def st_Continue(self, s, st):
        return [(st, ("continue",))]

    def st_Raise(self, s, st):
        return [(st, ("raise", s))]

    def st_FunctionDef(self, s, st):
        st.env[s.name] = FuncVal(s, self.curmod(), closure=dict(st.env))
        return [(st, None)]

    def st_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                raise Unsupported("del")
        return [(st, None)]

    def st_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return [(st, None)]

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, None)]
        v = self.ev(s.value, st)
        self.assign(s.target, v, st, s)
        return [(st, None)]

    def st_AugAssign(self, s, st):
        load = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s.target)
        for n in ast.walk(load):
            if hasattr(n, "lineno"):
                n.lineno = s.lineno
        cur = self.ev(load, st)
        v = self.ev(s.value, st)
        if isinstance(cur, ArrRef) and isinstance(s.target, ast.Name):
            op = OPS[type(s.op)]
            r = self.elementwise(lambda x, y: arith(op, x, y), [cur, v], st, s)
            a = st.heap[cur.id]
            na = st.heap[r.id]
            st.heap[cur.id] = Arr(a.shape, na.at, a.kind, a.rng, a.name)
            self.note_write(cur.id)
            return [(st, None)]
        r = self.binop(OPS[type(s.op)], cur, v, st, s, None)
        self.assign(s.target, r, st, s)
        return [(st, None)]

    def assign(self, t, v, st, s):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, Tup) or len(v.xs) != len(t.elts):
                raise Unsupported("unpack")
            for x, y in zip(t.elts, v.xs):
                self.assign(x, y, st, s)
            return
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            if isinstance(base, ArrRef):
                return self.store(base, t.slice, v, st, t)
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            if isinstance(base, Obj):
                d = dict(st.heap[base.id])
                d[t.attr] = v
                st.heap[base.id] = d
                self.note_write(base.id)
                return
        raise Unsupported(f"assign to {ast.unparse(t)}")

    def elem_check(self, st, arr, v, t):
        if arr.rng and arr.kind == "int" and (isint(v) or isbool(v)):
            vv = z3i(v)
            self.oblige(st, "element-range", z3.And(vv >= arr.rng[0], vv <= arr.rng[1]), t, "stored value fits element type: " + ast.unparse(t))

    def store(self, base, sl, v, st, t):
        arr = st.heap[base.id]
        shp = self.shape(st, base)
        parts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        self.note_write(base.id)
        off = base.off
        old = arr.at
        if len(parts) == 1 and isinstance(parts[0], ast.Slice):
            view = self.slice_view(base, parts[0], st, t, None)
            lo, ln = view.off if view.off is not None else 0, view.ln
            if isinstance(v, ArrRef):
                n2 = self.length(st, v)
                self.oblige(st, "shape", z3i(ln) == z3i(n2), t, "slice assignment sizes agree: " + ast.unparse(t))
                rv = self.reader(st, v)
                val = lambda k: rv(arith("-", k, lo))
            else:
                val = lambda k: v
            vv = val

            def at(k):
                return ite(z3.And(z3i(k) >= z3i(lo), z3i(k) < z3i(lo) + z3i(ln)), self.coerce(arr, vv(k)), old(k))

            st.heap[base.id] = Arr(arr.shape, at, arr.kind, arr.rng, arr.name)
            return
        idx = [self.ev(p, st) for p in parts]
        if len(idx) == 1 and isinstance(idx[0], Tup):
            idx = idx[0].xs
        if len(idx) == 1 and isinstance(idx[0], ArrRef):
            if st.heap[idx[0].id].kind == "bool":
                return self.masked_store(base, idx[0], v, st, t)
            if isinstance(v, Tup) or len(shp) != 1:
                raise Unsupported("fancy store")
            return self.fancy_store(base, idx[0], v, st, t)
        if len(idx) != len(shp):
            raise Unsupported("partial store")
        ks = [self.norm_index(st, i, n, t, None) for i, n in zip(idx, shp)]
        if off is not None:
            ks = [arith("+", off, ks[0])]
        if isinstance(v, ArrRef):
            raise Unsupported("array into element")
        v = self.coerce(arr, v)
        self.elem_check(st, arr, v, t)
        ks = [z3i(k) for k in ks]

        def at(*q):
            return ite(z3.And(*[z3i(a) == b for a, b in zip(q, ks)]), v, old(*q))

        st.heap[base.id] = Arr(arr.shape, at, arr.kind, arr.rng, arr.name)
        for fp in self.footchecks:
            fp(base.id, ks, st, t)

    def fancy_store(self, base, idx, v, st, t):
        """a[idx] = scalar: positions listed in idx get v, every changed position is listed (witness wit)"""
        arr = st.heap[base.id]
        n, m = self.length(st, base), self.length(st, idx)
        ri = self.reader(st, idx)
        if not self.discover:
            self.oblige(
                st,
                "bounds",
                FAll(1, lambda k: f_imp(z3.And(k >= 0, k < z3i(m)), z3.And(ri(k) >= -z3i(n), ri(k) < z3i(n)))),
                t,
                "fancy store in bounds: " + ast.unparse(t),
            )
        if isinstance(v, ArrRef):
            n2 = self.length(st, v)
            if not self.discover:
                self.oblige(st, "shape", z3i(m) == z3i(n2), t, "fancy store sizes agree: " + ast.unparse(t))
            if arr.rng:
                raise Unsupported("ranged fancy store")
            rv = self.reader(st, v)
            old = arr.at
            new = fresh_arr(arr.kind, arr.shape, arr.name.split("!")[0], arr.rng)
            wit = z3.Function(fresh_name("wit"), z3.IntSort(), z3.IntSort())
            o = z3i(base.off) if base.off is not None else z3.IntVal(0)
            pos = lambda k: o + z3.If(ri(k) < 0, ri(k) + z3i(n), ri(k))
            st.heap[base.id] = new
            # the last of the listed writes to a position wins
            st.assume(
                FAll(
                    1,
                    lambda k: f_imp(
                        z3.And(k >= 0, k < z3i(m)),
                        f_and(wit(pos(k)) >= k, wit(pos(k)) < z3i(m), pos(wit(pos(k))) == pos(k), same(new.at(pos(k)), self.coerce(arr, rv(wit(pos(k)))))),
                    ),
                )
            )
            st.assume(FAll(1, lambda p: f_or(same(new.at(p), old(p)), f_and(wit(p) >= 0, wit(p) < z3i(m), pos(wit(p)) == p))))
            return
        v = self.coerce(arr, v)
        self.elem_check(st, arr, v, t)
        old = arr.at
        new = fresh_arr(arr.kind, arr.shape, arr.name.split("!")[0], arr.rng)
        wit = z3.Function(fresh_name("wit"), z3.IntSort(), z3.IntSort())
        o = z3i(base.off) if base.off is not None else z3.IntVal(0)
        pos = lambda k: o + z3.If(ri(k) < 0, ri(k) + z3i(n), ri(k))
        st.heap[base.id] = new
        st.assume(FAll(1, lambda k: f_imp(z3.And(k >= 0, k < z3i(m)), same(new.at(pos(k)), v))))
        st.assume(
            FAll(1, lambda p: f_or(same(new.at(p), old(p)), f_and(wit(p) >= 0, wit(p) < z3i(m), pos(wit(p)) == p, same(new.at(p), v))))
        )

    footchecks = ()

    def coerce(self, arr, v):
        if arr.kind == "float":
            return to_flt(v)
        if arr.kind == "int":
            if isfloat(v):
                raise Unsupported("float into int array")
            return z3i(v)
        if arr.kind == "bool":
            return z3b(truth(v))
        return v

    def feasible(self, st, c):
        if self.discover:
            return True
        cc = sconst(c) if not isfm(c) else c
        if cc is True:
            return True
        if cc is False:
            return False
        return L.satisfiable(st.pc + [c], timeout=1.0, rounds=1)

    def st_If(self, s, st):
        c = truth(self.ev(s.test, st))
        cc = sconst(c) if not isfm(c) else c
        if cc is True:
            return self.block(s.body, st)
        if cc is False:
            return self.block(s.orelse, st)
        outs = []
        a = st.copy()
        if self.feasible(a, c):
            a.assume(c)
            outs += self.block(s.body, a)
        b = st.copy()
        nc = f_not(c)
        if self.feasible(b, nc):
            b.assume(nc)
            outs += self.block(s.orelse, b)
        return self.merge(st, c, outs, s)

    def merge(self, base, c, outs, node):
        """join the two normal exits of a loop-free conditional"""
        normal = [(s, sig) for s, sig in outs if sig is None]
        rest = [(s, sig) for s, sig in outs if sig is not None]
        if len(normal) != 2 or self.c.nomerge or isfm(c):
            return outs
        for n in ast.walk(node):
            if isinstance(n, (ast.For, ast.While)):
                return outs
        x, y = normal[0][0], normal[1][0]
        m = base.copy()
        env = {}
        try:
            for k in set(x.env) | set(y.env):
                va, vb = x.env.get(k, UNBOUND), y.env.get(k, UNBOUND)
                if va is vb:
                    env[k] = va
                elif va is UNBOUND or vb is UNBOUND:
                    v = vb if va is UNBOUND else va
                    if kind_of(v) not in ("int", "bool", "float"):
                        env[k] = UNBOUND
                    else:
                        f = fresh_val(kind_of(v), k)
                        env[k] = ite(c, f if va is UNBOUND else va, f if vb is UNBOUND else vb)
                elif isinstance(va, ArrRef) and isinstance(vb, ArrRef) and va.id == vb.id and va.off is vb.off and va.ln is vb.ln:
                    env[k] = va
                else:
                    if isfloat(va) != isfloat(vb) or isbool(va) != isbool(vb):
                        return outs
                    if kind_of(va) is None or kind_of(vb) is None:
                        if isinstance(va, (str, type(None))) and va == vb and type(va) is type(vb):
                            env[k] = va
                            continue
                        return outs
                    env[k] = ite(c, va, vb)
            heap = {}
            for k in set(x.heap) | set(y.heap):
                ha, hb = x.heap.get(k), y.heap.get(k)
                if ha is hb or hb is None:
                    heap[k] = ha
                elif ha is None:
                    heap[k] = hb
                elif isinstance(ha, Arr) and isinstance(hb, Arr) and ha.shape == hb.shape:
                    heap[k] = Arr(ha.shape, lambda *i, ha=ha, hb=hb: ite(c, ha.at(*i), hb.at(*i)), ha.kind, ha.rng, ha.name)
                else:
                    return outs
        except (Unsupported, z3.Z3Exception):
            return outs
        m.env, m.heap = env, heap
        n0 = len(base.pc)
        for f in x.pc[n0:]:
            if f is not c:
                m.assume(f_imp(c, f))
        for f in y.pc[n0:]:
            m.assume(f_or(c, f))
        return [(m, None)] + rest

    def st_Try(self, s, st):
        raise Unsupported("try")

    def st_With(self, s, st):
        raise Unsupported("with")

    # ------------------------------------------------------------ loops
    def st_For(self, s, st):
        if s.orelse:
            raise Unsupported("for-else")
        it = self.ev(s.iter, st)
        if isinstance(it, Tup):
            outs = [(st, None)]
            for x in it.xs:
                nxt = []
                for y, sig in outs:
                    if sig is not None:
                        nxt.append((y, sig))
                        continue
                    self.assign(s.target, x, y, s)
                    for z, sg in self.block(s.body, y):
                        if sg is not None and sg[0] == "continue":
                            sg = None
                        nxt.append((z, sg))
                outs = nxt
            return [(y, None if sig is not None and sig[0] == "break" else sig) for y, sig in outs]
        arrs = None
        if isinstance(it, (ArrRef, SeqVal)):
            arrs = self.as_seq(it, st)
            it = RangeVal(0, arrs.n, 1)
        if not isinstance(it, RangeVal):
            raise Unsupported("for over " + ast.unparse(s.iter))
        step = it.s
        start, stop = z3i(it.a), z3i(it.b)
        if not arrs and not isinstance(s.target, ast.Name):
            raise Unsupported("for target")
        if isinstance(it.a, int) and isinstance(it.b, int) and len(range(it.a, it.b, step)) <= 8 and not it.par:
            # small constant loop: unrolled completely
            outs = [(st, None)]
            for x in range(it.a, it.b, step):
                nxt = []
                for y, sig in outs:
                    if sig is not None:
                        nxt.append((y, sig))
                        continue
                    self.assign(s.target, x if not arrs else arrs.at(y, z3i(x)), y, s)
                    for z, sg in self.block(s.body, y):
                        if sg is not None and sg[0] == "continue":
                            sg = None
                        nxt.append((z, sg))
                outs = nxt
            return [(y, None if sig is not None and sig[0] == "break" else sig) for y, sig in outs]

        def cond(x, c):
            return c < stop if step > 0 else c > stop

        def pre_body(x, c):
            self.assign(s.target, c if not arrs else arrs.at(x, c), x, s)

        return self.loop(s, st, counter=(start, stop, step), cond=cond, pre_body=pre_body, tname=s.target.id if isinstance(s.target, ast.Name) and not arrs else None, par=it.par)

    def as_seq(self, v, st):
        if isinstance(v, SeqVal):
            return v
        if isinstance(v, ArrRef):
            if len(self.shape(st, v)) != 1:
                raise Unsupported("iterate nd array")
            return SeqVal(self.length(st, v), lambda x, k, v=v: self.reader(x, v)(k))
        if isinstance(v, RangeVal):
            a, b, sp = z3i(v.a), z3i(v.b), v.s
            if sp == 1:
                n = z3.If(b > a, b - a, 0)
            elif sp == -1:
                n = z3.If(a > b, a - b, 0)
            else:
                raise Unsupported("seq step")
            return SeqVal(sconst(n), lambda x, k, a=a, sp=sp: a + sp * k)
        if isinstance(v, Tup):
            raise Unsupported("tuple seq")
        raise Unsupported("iterate " + repr(v))

    def st_While(self, s, st):
        if s.orelse:
            raise Unsupported("while-else")
        return self.loop(s, st)

    def assigned_names(self, stmts):
        out = set()
        for x in stmts:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
        return out

    def loop(self, s, st, counter=None, cond=None, pre_body=None, tname=None, par=False):
        self.tick()
        mods = self.assigned_names([s] if counter is None else s.body)
        if tname:
            mods.add(tname)
        elif counter is not None:
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    mods.add(n.id)
        # ---- discovery pass: kinds of modified variables and written arrays
        self.discover += 1
        ws = set()
        self.writes = tuple(self.writes) + (ws,)
        kinds = {}
        try:
            for _ in range(2):
                d = st.copy()
                for v in mods:
                    old = st.env.get(v, UNBOUND)
                    k = kinds.get(v) or (kind_of(old) if old is not UNBOUND else None)
                    if k in ("int", "bool", "float"):
                        d.env[v] = fresh_val(k, v)
                for i in ws:
                    a = d.heap.get(i)
                    if isinstance(a, Arr):
                        d.heap[i] = fresh_arr(a.kind, a.shape, a.name.split("!")[0], a.rng)
                c = None
                if counter is not None:
                    c = fresh_int("it")
                    d.loops = st.loops + ((c, counter),)
                    pre_body(d, c)
                else:
                    d.loops = st.loops + ((None, None),)
                    truth(self.ev(s.test, d))
                outs = self.block(s.body, d)
                for x, sig in outs:
                    for v in mods:
                        y = x.env.get(v, UNBOUND)
                        if y is UNBOUND:
                            continue
                        k = kind_of(y)
                        if k is None and isinstance(y, (ArrRef, Obj)):
                            k = "ref"
                        prev = kinds.get(v)
                        if prev is None:
                            o = st.env.get(v, UNBOUND)
                            prev = kind_of(o) if o is not UNBOUND else k
                        if prev != k:
                            if {prev, k} <= {"int", "float", "bool"}:
                                k = "float" if "float" in (prev, k) else "int"
                            else:
                                k = "ref"
                        kinds[v] = k
        finally:
            self.discover -= 1
            self.writes = self.writes[:-1]
        for w in self.writes:
            w |= ws
        entry_ids = set(st.heap)
        ws = {i for i in ws if i in entry_ids}
        # ---- head state
        head = st.copy()
        hv = {}
        for v in sorted(mods):
            k = kinds.get(v)
            if k is None:
                head.env.pop(v, None)
                continue
            if k == "ref" or isinstance(k, tuple):
                head.env[v] = UNBOUND  # rebinding of references must happen before use in each iteration
                continue
            hv[v] = head.env[v] = fresh_val(k, v)
        for i in sorted(ws):
            a = head.heap[i]
            if not isinstance(a, Arr):
                raise Unsupported("object field written in loop")
            head.heap[i] = fresh_arr(a.kind, a.shape, a.name.split("!")[0], a.rng)
            self.range_facts(head, head.heap[i])
        if counter is not None:
            it = fresh_int("it")
            start, stop, step = counter
            head.loops = st.loops + ((it, counter),)
        else:
            it = None
            head.loops = st.loops + ((None, None),)
        if self.discover:
            # no invariants needed while discovering
            outs = []
            e = head.copy()
            e.loops = st.loops
            outs.append((e, None))
            b = head.copy()
            if counter is not None:
                pre_body(b, it)
            for x, sig in self.block(s.body, b):
                if sig is not None and sig[0] in ("return", "raise"):
                    outs.append((x, sig))
            return outs
        self.loops_seen += 1
        # ---- candidate invariants
        cands = self.candidates(st, head, it, counter, hv, tname, ws, s)
        # initiation
        alive = []
        vkey = self.loopkey + ((s.lineno, s.col_offset, self.visit.setdefault((self.loopkey, s.lineno, s.col_offset), 0)),)
        self.visit[(self.loopkey, s.lineno, s.col_offset)] += 1
        dropped = self.dropcache.setdefault(vkey, set())
        cands = [cd for cd in cands if cd.text not in dropped]
        init = st.copy()
        init.loops = st.loops + (((counter[0] if counter else None), counter),)
        for v in hv:
            if init.env.get(v, UNBOUND) is UNBOUND:
                init.env[v] = fresh_val(kinds[v], v)  # not assigned yet: arbitrary
        for cd in cands:
            try:
                g = cd(init, counter[0] if counter else None)
            except Unsupported:
                continue
            if g is None:
                continue
            self.tick()
            r = prove(
                st.pc, g, timeout=min(4.0, self.c.timeout), rounds=self.c.rounds, use_cvc5=False, extra_terms=self.extra(init), maxstage=1 if cd.text.startswith("auto") else 9
            )
            if r.status == "proved":
                alive.append(cd)
                cd.init = r
            else:
                self.houdini_dropped.append((cd.text, "init", s.lineno))
                dropped.add(cd.text)
        # consecution (Houdini)
        rounds = 0
        while True:
            rounds += 1
            self.tick()
            h = head.copy()
            ok = []
            for cd in alive:
                try:
                    h.assume(cd(h, it))
                    ok.append(cd)
                except Unsupported:
                    pass
            alive = ok
            b = h.copy()
            self.in_houdini += 1
            savekey = self.loopkey
            self.loopkey = vkey
            self.reset_visits(vkey)
            try:
                if counter is not None:
                    b.assume(cond(b, it))
                    pre_body(b, it)
                    outs = self.block(s.body, b)
                else:
                    t = truth(self.ev(s.test, b))
                    b.assume(t)
                    outs = self.block(s.body, b)
            finally:
                self.in_houdini -= 1
                self.loopkey = savekey
            ends = [x for x, sig in outs if sig is None or sig[0] == "continue"]
            bad = set()
            for x in ends:
                nit = it + counter[2] if counter is not None else None
                x2 = x
                x2.loops = st.loops + ((nit, counter),)
                gs = []
                for cd in alive:
                    try:
                        gs.append((cd, cd(x2, nit)))
                    except Unsupported:
                        bad.add(cd)
                for cd, g in gs:
                    if cd in bad:
                        continue
                    self.tick()
                    r = prove(
                        x.pc, g, timeout=self.c.timeout, rounds=self.c.rounds, use_cvc5=False, extra_terms=self.extra(x2), maxstage=1 if cd.text.startswith("auto") else 9
                    )
                    if r.status != "proved":
                        bad.add(cd)
                        self.houdini_dropped.append((cd.text, "step", s.lineno))
                        dropped.add(cd.text)
                    else:
                        cd.step = r
            if not bad:
                break
            alive = [cd for cd in alive if cd not in bad]
            if rounds > 25:
                alive = []
        # final: record obligations, rerun the body outside houdini mode for its own obligations
        h = head.copy()
        for cd in alive:
            h.assume(cd(h, it))
            self.used_inv.append((s.lineno, cd.text))
            if not self.in_houdini:
                self.obls.append(Obligation(self.c.name, "invariant-init", cd.text, s.lineno, cd.init))
                if hasattr(cd, "step"):
                    self.obls.append(Obligation(self.c.name, "invariant-step", cd.text, s.lineno, cd.step))
        outs_all = []
        ex = h.copy()
        ex.loops = st.loops
        b = h.copy()
        if counter is not None:
            c = cond(ex, it)
            if self.feasible(ex, f_not(c)):
                ex.assume(f_not(c))
                outs_all.append((ex, None))
            b.assume(c)
            bfeas = self.feasible(b, True)
            pre_body(b, it)
        else:
            c = truth(self.ev(s.test, ex))
            if self.feasible(ex, f_not(c)):
                ex.assume(f_not(c))
                outs_all.append((ex, None))
            c2 = truth(self.ev(s.test, b))
            b.assume(c2)
        savekey = self.loopkey
        self.loopkey = vkey
        self.reset_visits(vkey)
        outs = self.block(s.body, b)
        self.loopkey = savekey
        for x, sig in outs:
            x.loops = st.loops
            if sig is None or sig[0] == "continue":
                continue
            if sig[0] == "break":
                outs_all.append((x, None))
            else:
                outs_all.append((x, sig))
        return outs_all

    loopkey = ()

    def reset_visits(self, vkey):
        n = len(vkey)
        for k in [k for k in self.visit if k[0][:n] == vkey]:
            del self.visit[k]

    def candidates(self, st, head, it, counter, hv, tname, ws, s):
        out = []

        class Cand:
            def __init__(self, text, fn):
                self.text, self.fn = text, fn

            def __call__(self, x, c):
                return self.fn(x, c)

        def add(text, fn):
            out.append(Cand(text, fn))

        if counter is not None:
            start, stop, step = counter
            if step > 0:
                add("auto: start<=it", lambda x, c: c >= start)
                add("auto: it<=max(start,stop)", lambda x, c: z3.Or(c <= stop, c == start) if abs(step) == 1 else True)
                if step != 1:
                    add("auto: step", lambda x, c: (c - start) % step == 0)
            else:
                add("auto: start>=it", lambda x, c: c <= start)
                add("auto: it>=min(start,stop)", lambda x, c: z3.Or(c >= stop, c == start) if abs(step) == 1 else True)
            if tname:

                def lv(x, c):
                    if c is start:
                        return True
                    v = x.env.get(tname)
                    if v is None or v is UNBOUND:
                        return True
                    return z3.Or(c == start, z3i(v) == c - step)

                add("auto: loop variable", lv)
                v0 = st.env.get(tname, UNBOUND)
                if v0 is not UNBOUND and isint(v0):
                    add("auto: loop variable before first", lambda x, c: z3.Implies(c == start, z3i(x.env[tname]) == z3i(v0)))
        carried = carried_names(s)
        initv = {v: st.env.get(v, UNBOUND) for v in hv}
        # also variables preset to a constant before the loop and only overwritten in it (found = -1; ...: found = j; break)
        carried = set(carried) | {v for v in hv if isinstance(initv[v], (int, bool))}
        ints = [v for v in hv if kind_of(hv[v]) == "int" and v != tname and v in carried]
        if self.c.auto:
            for v in ints:
                v0 = initv[v]
                if v0 is UNBOUND or not isint(v0):
                    continue
                z0 = z3i(v0)
                add(f"auto: {v}>=init", lambda x, c, v=v, z0=z0: z3i(x.env[v]) >= z0)
                add(f"auto: {v}<=init", lambda x, c, v=v, z0=z0: z3i(x.env[v]) <= z0)
                if not (isinstance(v0, int) and v0 == 0):
                    add(f"auto: {v}>=0", lambda x, c, v=v: z3i(x.env[v]) >= 0)
                if counter is not None and abs(counter[2]) == 1:
                    start = counter[0]
                    add(f"auto: {v}-it const", lambda x, c, v=v, z0=z0, start=start: z3i(x.env[v]) - c == z0 - start)
                    add(f"auto: {v}-it<=", lambda x, c, v=v, z0=z0, start=start: z3i(x.env[v]) - c <= z0 - start)
            for a, b in itertools.combinations(ints[:5], 2):
                if isint(initv[a]) and isint(initv[b]):
                    za, zb = z3i(initv[a]), z3i(initv[b])
                    add(f"auto: {a}+{b} const", lambda x, c, a=a, b=b, z=za + zb: z3i(x.env[a]) + z3i(x.env[b]) == z)
                    add(f"auto: {a}-{b} const", lambda x, c, a=a, b=b, z=za - zb: z3i(x.env[a]) - z3i(x.env[b]) == z)
            if counter is None:
                # bounds from the loop test:  v < e  gives  v <= max(init, e)
                try:
                    for cmpn in [n for n in ast.walk(s.test) if isinstance(n, ast.Compare) and len(n.ops) == 1]:
                        l, r = cmpn.left, cmpn.comparators[0]
                        op = cmpn.ops[0]
                        for (x1, x2, o) in ((l, r, op), (r, l, {ast.Lt: ast.Gt(), ast.Gt: ast.Lt(), ast.LtE: ast.GtE(), ast.GtE: ast.LtE()}.get(type(op)))):
                            if isinstance(x1, ast.Name) and x1.id in ints and o is not None and not (self.assigned_names(s.body) & {n.id for n in ast.walk(x2) if isinstance(n, ast.Name)}):
                                if isinstance(o, (ast.Lt, ast.LtE, ast.NotEq)):
                                    add(f"auto: {ast.unparse(cmpn)} bound", lambda x, c, a=x1.id, x2=x2: z3i(x.env[a]) <= z3i(self.ev(x2, x.copy(), SpecEnv({}))))
                                if isinstance(o, (ast.Gt, ast.GtE, ast.NotEq)):
                                    add(f"auto: {ast.unparse(cmpn)} bound", lambda x, c, a=x1.id, x2=x2: z3i(x.env[a]) >= z3i(self.ev(x2, x.copy(), SpecEnv({}))))
                except Unsupported:
                    pass
        if self.c.auto:
            for v in [v for v in hv if kind_of(hv[v]) == "bool" and v in carried and isbool(initv[v])][:3]:
                add(f"auto: {v} unchanged", lambda x, c, v=v, b0=z3b(initv[v]): z3b(x.env[v]) == b0)
        # frame for arrays written in the loop is left to the contract's invariants
        depth = len(head.loops)
        for inv in self.c.invariants:
            lv = None
            text = inv
            if isinstance(inv, tuple):
                lv, text = inv
                if lv is not None and depth not in ((lv,) if isinstance(lv, int) else lv):
                    continue
            for txt, subst in self.expand(text, st, head, counter, hv, tname):

                def fn(x, c, txt=txt, subst=subst):
                    sp = dict(self.paramvals)
                    for k, v in subst.items():
                        if v == "$it":
                            sp[k] = c
                        elif isinstance(v, tuple):
                            sp[k] = x.loops[v[1]][0]
                        else:
                            if v not in x.env or x.env[v] is UNBOUND:
                                raise Unsupported("unbound in invariant")
                            sp[k] = x.env[v]
                    if counter is not None:
                        sp.setdefault("start0", counter[0])
                        sp.setdefault("stop0", counter[1])
                    return self.spec_formula(txt, x, sp, entry=self.entry)

                add(txt + (" with " + str({k: v for k, v in subst.items() if k != v}) if any(k != v for k, v in subst.items()) else ""), fn)
        return out

    def expand(self, text, st, head, counter, hv, tname=None):
        """resolve the free names of an invariant: parameters, spec functions, locals, loop counters"""
        tree = parse_spec(text)
        bound = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("forall", "exists"):
                v = n.args[0]
                bound |= {v.id} if isinstance(v, ast.Name) else {x.id for x in v.elts}
        free = []
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id not in bound and n.id not in free:
                free.append(n.id)
        BUILT = {"forall", "exists", "implies", "iff", "old", "same", "isnan", "len", "min", "max", "abs", "ite", "untouched", "np", "start0", "stop0"}
        metas = []
        alias = []
        subst = {}
        loopidx = len(head.loops) - 1
        for n in free:
            if n in BUILT or n in self.lib.fns or n in self.paramvals:
                continue
            if n == "it":
                if counter is not None:
                    subst[n] = "$it"
                else:
                    metas.append(n)
                continue
            if n.startswith("it") and n[2:].isdigit():
                k = int(n[2:]) - 1
                if k < len(head.loops):
                    if k == loopidx:
                        if counter is not None:
                            subst[n] = "$it"
                        else:
                            metas.append(n)
                    elif head.loops[k][0] is not None:
                        subst[n] = ("loop", k)
                    else:
                        metas.append(n)
                    continue
                return
            if n in st.env or n in head.env:
                if tname is not None and n == tname and counter is not None:
                    alias.append(n)  # the name is this loop's counter: also try its value at the loop head
                subst[n] = n
                continue
            if self.c.binds and n in self.c.binds:
                continue
            metas.append(n)
        if alias:
            d = dict(subst)
            for n in alias:
                d[n] = "$it"
            if not metas:
                yield text, d
            else:
                subst = d
        if not metas:
            yield text, subst
            return
        pool = [v for v in head.env if v not in self.actual_params and kind_of(head.env[v]) in ("int", "float", "bool")]
        pool = [v for v in pool if v in hv] + [v for v in pool if v not in hv]
        choices = [p for p in pool[:6]]
        if counter is not None:
            choices.append("$it")
        if len(metas) > 2:
            return
        for combo in itertools.permutations(choices, len(metas)):
            d = dict(subst)
            for m, v in zip(metas, combo):
                d[m] = v
            yield text, d

    # ------------------------------------------------------------ whole function
    def initial(self):
        st = State({}, {}, [])
        self.paramvals = {}
        c = self.c
        a = self.node.args
        actual = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            actual.append(a.vararg.arg)
        actual += [x.arg for x in a.kwonlyargs]
        if len(actual) < len(c.params):
            raise Unsupported(f"parameter list changed: {actual}")
        extra_params = actual[len(c.params) :]
        # extra trailing parameters must have defaults
        self.actual_params = set(actual)
        names_match = set(p for p, _ in c.params) <= set(actual)
        for idx, (pn, pt) in enumerate(c.params):
            v = self.mk_param(st, pn, pt)
            self.paramvals[pn] = v
            st.env[pn if names_match else actual[idx]] = v
        if extra_params:
            defs = dict(zip(actual[len(actual) - len(a.defaults) :], a.defaults))
            for n in actual:
                if n not in st.env:
                    if n in defs:
                        st.env[n] = ast.literal_eval(defs[n])
                    else:
                        raise Unsupported("new parameter " + n)
        for gn, gt in c.ghosts:
            self.paramvals[gn] = self.mk_param(st, gn, gt)
        self.entry = st
        for r in c.requires:
            st.assume(self.spec_formula(r, st, self.paramvals, entry=st))
        return st

    def mk_param(self, st, pn, pt):
        rng = None
        if callable(pt):
            return pt(self, st, pn)
        if pt.startswith("const:"):
            return ast.literal_eval(pt[6:])
        if pt.startswith("alias:"):
            return self.paramvals[pt[6:]]
        if ":" in pt:
            pt, dt = pt.split(":")
            rng = INT_RANGES[dt]
        if pt in ("int", "bool", "float"):
            v = fresh_val(pt, pn)
            if rng and pt == "int":
                st.assume(z3.And(v >= rng[0], v <= rng[1]))
            return v
        if pt == "none":
            return None
        if pt.endswith("[]"):
            n = z3.Int(fresh_name("len_" + pn))
            st.assume(n >= 0)
            ar = fresh_arr(pt[:-2], (n,), pn, rng)
            ref = self.alloc(st, ar)
            self.range_facts(st, ar)
            return ref
        if pt.endswith("[,]"):
            n = z3.Int(fresh_name("rows_" + pn))
            m = z3.Int(fresh_name("cols_" + pn))
            st.assume(z3.And(n >= 0, m >= 0))
            ar = fresh_arr(pt[:-3], (n, m), pn, rng)
            ref = self.alloc(st, ar)
            self.range_facts(st, ar)
            return ref
        raise Unsupported("param type " + pt)

    def run(self):
        L.reset()
        L.XR = self.c.xrounds
        self.raised = []
        st = self.initial()
        self.entry = st.copy()
        self.vacuous = not L.satisfiable(st.pc, timeout=5.0)
        st.entry = self.entry
        if self.vacuous:
            raise Unsupported("VACUOUS requires")
        body = self.node.body
        outs = self.block(body, st)
        self.exit_paths = 0
        for x, sig in outs + self.raised:
            if sig is not None and sig[0] == "raise":
                if self.c.raises is None:
                    g = False
                else:
                    g = self.spec_formula(self.c.raises, x, self.paramvals, entry=self.entry)
                self.oblige(x, "raise", g, sig[1], f"raises only when {self.c.raises}")
                continue
            v = sig[1] if sig is not None else None
            self.exit_paths += 1
            sp = dict(self.paramvals)
            sp["result"] = v
            for en in self.c.ensures:
                g = self.spec_formula(en, x, sp, entry=self.entry)
                self.oblige(x, "ensures", g, None, en)
            # vacuity: this exit must be reachable
        return self


class FrozenArr:
    """array reference evaluated in an earlier heap"""

    def __init__(self, ref, st):
        self.ref, self.st = ref, st


class OptVal:
    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val


# FrozenArr support in the evaluator -----------------------------------------
_orig_sub = Exec.subscript


def _subscript(self, base, sl, st, e, spec):
    if isinstance(base, FrozenArr):
        if isinstance(sl, ast.Tuple):
            idx = [self.ev(p, st, spec) for p in sl.elts]
        else:
            if isinstance(sl, ast.Slice):
                raise Unsupported("slice of old array")
            idx = [self.ev(sl, st, spec)]
        return self.reader(base.st, base.ref)(*idx)
    return _orig_sub(self, base, sl, st, e, spec)


Exec.subscript = _subscript


class SpecEnv(dict):
    pass


_parsed = {}


def parse_spec(text):
    t = _parsed.get(text)
    if t is None:
        t = _parsed[text] = ast.parse(text.strip(), mode="eval").body
    return t


def rec_calls(expr, name, cond=()):
    """(path condition, call node) of each recursive call inside a conditional expression tree"""
    if isinstance(expr, ast.IfExp):
        yield from rec_calls(expr.test, name, cond)
        yield from rec_calls(expr.body, name, cond + ((expr.test, True),))
        yield from rec_calls(expr.orelse, name, cond + ((expr.test, False),))
        return
    if isinstance(expr, ast.BoolOp):
        acc = cond
        for v in expr.values:
            yield from rec_calls(v, name, acc)
            acc = acc + ((v, isinstance(expr.op, ast.And)),)
        return
    if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id == name:
        yield cond, expr
    for c in ast.iter_child_nodes(expr):
        yield from rec_calls(c, name, cond)


def carried_names(loop):
    """names whose first textual occurrence in the loop is a read (or an augmented assignment)"""
    seen = {}

    def visit(n):
        if isinstance(n, ast.AugAssign):
            visit(n.value)
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    seen.setdefault(x.id, True)
            return
        if isinstance(n, ast.Assign):
            visit(n.value)
            for t in n.targets:
                visit(t)
            return
        if isinstance(n, ast.For):
            visit(n.iter)
            visit(n.target)
            for b in n.body:
                visit(b)
            return
        if isinstance(n, ast.Name):
            seen.setdefault(n.id, isinstance(n.ctx, ast.Load))
            return
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(loop, ast.While):
        visit(loop.test)
    for b in loop.body:
        visit(b)
    return {k for k, v in seen.items() if v}
