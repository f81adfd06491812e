"""Pointwise verification of straight-line vectorised methods.

A method that only combines whole arrays element by element is decided for ONE generic row of arrays of ANY length:
every array is represented by the solver term of that row, masks and compressions by row-local conditions, and the
method's statements are executed symbolically from /repo's AST (all paths).  A callee under contract is replaced by
its contract; any other callee in the same modules is executed from its own source.  Anything this reading does not
cover raises Unsupported (no verdict).
Machine integers: the result of an arithmetic operation is the mathematical value when it fits the element type and
no operand is the invalid marker, and an ARBITRARY value otherwise (so an overflow cannot be relied upon)."""
import ast, json, os, subprocess, time, itertools
import z3
from .extract import REPO, Module, module
from . import logic as L

PY = "/opt/venv/bin/python"
RNG = {"i32": (-(2**31), 2**31 - 1), "i64": (-(2**63), 2**63 - 1), "i8": (-128, 127), "i16": (-(2**15), 2**15 - 1)}
_fresh = itertools.count()


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, name, msg=""):
        self.name = name
        self.msg = msg


class Return(Exception):
    def __init__(self, v):
        self.v = v


def fint(p="h"):
    return z3.Int(f"{p}!{next(_fresh)}")


def fbool(p="hb"):
    return z3.Bool(f"{p}!{next(_fresh)}")


def freal(p="hr"):
    return z3.Real(f"{p}!{next(_fresh)}")


class Cell:
    def __init__(self, dt, t, n=None):
        self.dt, self.t = dt, t
        self.n = n if n is not None else (z3.BoolVal(False) if dt == "f64" else None)


class Row:
    """one generic row of an array (a view on a cell)"""

    def __init__(self, cell, ln, mask=None, cls=None, attrs=None):
        self.cell, self.ln, self.mask, self.cls, self.attrs = cell, ln, mask, cls, attrs if attrs is not None else {}

    dt = property(lambda s: s.cell.dt)
    t = property(lambda s: s.cell.t)
    n = property(lambda s: s.cell.n)


class Sc:
    """a symbolic scalar"""

    def __init__(self, dt, t, n=None, py=False, cls=None, attrs=None):
        self.dt, self.t, self.py, self.cls, self.attrs = dt, t, py, cls, attrs or {}
        self.n = n if n is not None else (z3.BoolVal(False) if dt == "f64" else None)


class Table:
    def __init__(self, vals, name=""):
        self.vals, self.name = list(vals), name


class SymTable:
    """an arbitrary ascending table: only counts are known about it"""

    def __init__(self, name):
        self.name = name
        self.right = z3.Function(name + "_le", z3.IntSort(), z3.IntSort())
        self.left = z3.Function(name + "_lt", z3.IntSort(), z3.IntSort())


class Obj:
    def __init__(self, cls, **attrs):
        self.cls, self.attrs = cls, attrs


class Cls:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Cls) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class DType:
    def __init__(self, dt):
        self.dt = dt


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Func:
    def __init__(self, node, mod, qual, clsname=None):
        self.node, self.mod, self.qual, self.clsname = node, mod, qual, clsname


class Ext:
    """a name outside the verified modules"""

    def __init__(self, name):
        self.name = name


NPTYPES = {"np.int32": "i32", "np.int64": "i64", "np.float64": "f64", "np.bool_": "b", "bool": "b", "np.int8": "i8", "np.int16": "i16", "float": "f64", "int": "i64"}
CHARS = {"i32": "i", "i64": "l", "f64": "d", "b": "?", "i8": "b", "i16": "h"}
ARITH = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Div: "truediv", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor"}
CMP = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
CMPN = set(CMP.values())
FLIP = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}
NANV = float("nan")


def isnanv(v):
    return isinstance(v, float) and v != v


# ------------------------------------------------------------------ data of the tree under test
_DATA = None
DUMP = r"""
import json, sys
import numpy as np
import riptable as rt
from riptable import rt_datetime as D, rt_timezone as Z
out = {"consts": {}, "tables": {}, "zones": {}}
for m, nm in ((D, "riptable/rt_datetime.py"), (Z, "riptable/rt_timezone.py")):
    c, t = {}, {}
    for k, v in vars(m).items():
        if isinstance(v, (bool, str)):
            c[k] = v
        elif isinstance(v, (int, np.integer)):
            c[k] = int(v)
        elif isinstance(v, np.ndarray) and v.ndim == 1 and v.dtype.kind in "iu":
            t[k] = [int(x) for x in v]
    out["consts"][nm], out["tables"][nm] = c, t
for z in Z.TimeZone.valid_timezones:
    try:
        o = Z.TimeZone(from_tz=z, to_tz=z)
    except Exception as e:
        out["zones"][z] = {"error": repr(e)}
        continue
    l = lambda a: None if a is None else [int(x) for x in a]
    out["zones"][z] = dict(cut=l(o._dst_cutoffs), fix=int(o._fix_offset), rev=l(o._dst_reverse), off=int(o._offset), from_tz=o._from_tz, to_tz=o._to_tz)
out["attrs"] = {}
for c in ("Date", "DateSpan", "DateTimeNano", "TimeSpan", "DateTimeBase", "DateBase"):
    k = getattr(D, c)
    out["attrs"][c] = {}
    for base in reversed(k.__mro__):
        for a, v in vars(base).items():
            if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
                out["attrs"][c][a] = int(v)
            elif isinstance(v, list) and all(isinstance(x, str) for x in v):
                out["attrs"][c][a] = v
print("@@" + json.dumps(out))
"""


def data():
    """module constants, lookup tables and per-zone tables, read from the imported tree under test"""
    global _DATA
    if _DATA is None:
        e = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
        r = subprocess.run([PY, "-c", DUMP], cwd="/tmp", env=e, capture_output=True, text=True, timeout=300)
        ln = [x for x in r.stdout.split("\n") if x.startswith("@@")]
        if not ln:
            _DATA = {"error": r.stderr[-1500:]}
        else:
            _DATA = json.loads(ln[-1][2:])
    return _DATA


DTM, TZM = "riptable/rt_datetime.py", "riptable/rt_timezone.py"


class Exec:
    MAXSTEP = 20000

    def __init__(self, vc):
        self.vc = vc
        self.D = data()
        if "error" in self.D:
            raise Unsupported("the tree does not import: " + self.D["error"][-300:])
        self.inlined, self.assumed = set(), set()
        self.depth = 0
        self.steps = 0
        self.bcache, self.bcache_for = {}, None
        self.solver = z3.Solver()
        self.solver.set("timeout", int(8000 * L.TSCALE))

    # -------------------------------------------------- path exploration
    def branch(self, c):
        """decide a symbolic condition on this path"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = self.feasible(c)
            if v and self.feasible(z3.Not(c)):
                self.todo.append(self.taken + [False])
        self.taken.append(v)
        self.pc.append(c if v else z3.Not(c))
        return v

    def feasible(self, c):
        self.solver.push()
        self.solver.add(*self.pc, c)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def implied(self, c):
        return not self.feasible(z3.Not(c))

    def truth(self, v):
        if isinstance(v, Sc) and v.dt == "b":
            return self.branch(v.t)
        if isinstance(v, Sc) and v.dt != "f64":
            return self.branch(v.t != 0)
        if isinstance(v, Row):
            if v.dt == "b" and self.implied(v.ln == 1):
                return self.branch(v.t)
            raise Unsupported("truth of an array")
        if z3.is_expr(v):
            return self.branch(v)
        if v is None or isinstance(v, (bool, int, float, str, tuple, list, dict, bytes)):
            return bool(v)
        if isinstance(v, (Obj, Cls, Func, Table, SymTable)):
            return True
        raise Unsupported(f"truth of {type(v).__name__}")

    # -------------------------------------------------- name resolution
    def mro(self, name):
        """(class name, ClassDef, Module) in method resolution order, inside the verified modules"""
        for p in (DTM, TZM):
            m = module(p)
            d = m.defs.get(name)
            if isinstance(d, ast.ClassDef):
                bases = [self.mro(b.id) for b in d.bases if isinstance(b, ast.Name)]
                names = [[b.id] for b in d.bases if isinstance(b, ast.Name)]
                return [(name, d, m)] + self._merge([list(x) for x in bases if x] + [[b[0] for b in bases if b]])
        return []

    def _merge(self, seqs):
        out = []
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(any(h[0] == x[0] for x in t[1:]) for t in seqs):
                    break
            else:
                raise Unsupported("inconsistent class hierarchy")
            out.append(h)
            for t in seqs:
                if t and t[0][0] == h[0]:
                    t.pop(0)

    def bases(self, name):
        r = [x[0] for x in self.mro(name)]
        # external bases
        ext = set()
        for _, d, _ in self.mro(name):
            for b in d.bases:
                ext.add(ast.unparse(b))
        return set(r) | ext

    def lookup(self, clsname, attr):
        for nm, d, m in self.mro(clsname):
            hit = None
            for s in d.body:
                if isinstance(s, ast.FunctionDef) and s.name == attr:
                    hit = Func(s, m, f"{nm}.{attr}", nm)
                elif isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in s.targets):
                    hit = ("const", s.value, m, nm)
            if hit is not None:
                return hit
        return None

    def glob(self, name, mod):
        p = mod.path
        if name in self.D["consts"].get(p, {}):
            return self.D["consts"][p][name]
        if name in self.D["tables"].get(p, {}):
            return Table(self.D["tables"][p][name], name)
        d = mod.defs.get(name)
        if isinstance(d, ast.FunctionDef):
            return Func(d, mod, name)
        if isinstance(d, ast.ClassDef):
            return Cls(name)
        for q in (DTM, TZM):
            if isinstance(module(q).defs.get(name), ast.ClassDef) and name in mod.imports:
                return Cls(name)
        if name in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[name]
        return Ext(name)

    # -------------------------------------------------- statements
    def call_func(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 25:
            raise Unsupported("recursion")
        node = f.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if a.vararg or a.kwarg:
            raise Unsupported(f"*args in {f.qual}")
        if len(args) > len(names):
            raise PyRaise("TypeError", "too many arguments")
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kwargs.items():
            if k not in names + [x.arg for x in a.kwonlyargs]:
                raise PyRaise("TypeError", f"unexpected keyword {k}")
            env[k] = v
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if n not in defs:
                    raise PyRaise("TypeError", f"missing argument {n}")
                env[n] = self.ev(defs[n], {}, f)
        self.line_of = node.lineno
        try:
            self.block(node.body, env, f)
            return None
        except Return as r:
            return r.v
        finally:
            self.depth -= 1

    def block(self, body, env, f):
        for s in body:
            self.stmt(s, env, f)

    def stmt(self, s, env, f):
        self.steps += 1
        if self.steps > self.MAXSTEP:
            raise Unsupported("too many steps")
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            self.ev(s.value, env, f)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, f)
            for t in s.targets:
                self.assign(t, v, env, f)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env, f), env, f)
        elif isinstance(s, ast.AugAssign):
            self.augassign(s, env, f)
        elif isinstance(s, ast.Return):
            raise Return(None if s.value is None else self.ev(s.value, env, f))
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, env, f)) else s.orelse, env, f)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, env, f)
            if not isinstance(it, (tuple, list, range, str)):
                raise Unsupported("for over " + type(it).__name__)
            for v in it:
                self.assign(s.target, v, env, f)
                try:
                    self.block(s.body, env, f)
                except StopIteration as e:
                    if e.args and e.args[0] == "break":
                        return
            self.block(s.orelse, env, f)
        elif isinstance(s, ast.Continue):
            raise StopIteration("continue")
        elif isinstance(s, ast.Break):
            raise StopIteration("break")
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Raise):
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            raise PyRaise(ast.unparse(e) if e is not None else "reraise")
        elif isinstance(s, ast.Try):
            if s.finalbody:
                raise Unsupported("finally")
            try:
                self.block(s.body, env, f)
            except PyRaise as ex:
                for h in s.handlers:
                    hn = ast.unparse(h.type) if h.type is not None else None
                    if hn is None or hn == "Exception" or ex.name in hn:
                        self.block(h.body, env, f)
                        return
                raise
            self.block(s.orelse, env, f)
        elif isinstance(s, ast.With):
            raise Unsupported("with")
        elif isinstance(s, ast.Assert):
            if not self.truth(self.ev(s.test, env, f)):
                raise PyRaise("AssertionError")
        elif isinstance(s, (ast.FunctionDef,)):
            env[s.name] = Func(s, f.mod, f.qual + "." + s.name, f.clsname)
            env[s.name].env = env
        else:
            raise Unsupported("statement " + type(s).__name__)

    def assign(self, t, v, env, f):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, (tuple, list)) or len(v) != len(t.elts):
                raise Unsupported("unpacking")
            for a, b in zip(t.elts, v):
                self.assign(a, b, env, f)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env, f), t.slice, v, env, f)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, f)
            if isinstance(o, (Row, Obj)):
                o.attrs[t.attr] = v
            else:
                raise Unsupported("attribute assignment")
        else:
            raise Unsupported("assignment target")

    def setitem(self, o, sl, v, env, f):
        if not isinstance(o, Row) or o.mask is not None:
            raise Unsupported("item assignment")
        if isinstance(sl, ast.Slice) and sl.lower is None and sl.upper is None and sl.step is None:
            self.store(o, z3.BoolVal(True), v)
            return
        i = self.ev(sl, env, f)
        if isinstance(i, Row) and i.dt == "b" and i.mask is None:
            self.store(o, i.t, v, i.t)
            return
        raise Unsupported("item assignment index")

    def store(self, o, m, v, mask=None):
        """o[m] = v"""
        if isinstance(v, Row):
            if v.mask is not None and not (mask is not None and v.mask.eq(mask)):
                raise Unsupported("masked value under another mask")
            if v.mask is None and mask is not None and not self.implied(v.ln == 1):
                # an uncompressed array assigned under a mask would be misaligned unless every row is selected
                raise Unsupported("uncompressed value assigned under a mask")
        self.put(o, m, v)

    def put(self, o, m, v):
        t, n = self.as_dt(v, o.dt)
        c = o.cell
        c.t = z3.If(m, t, c.t)
        if o.dt == "f64":
            c.n = z3.If(m, n, c.n)

    def as_dt(self, v, dt):
        """raw store conversion of a value to an element type"""
        if isnanv(v):
            if dt == "f64":
                return z3.RealVal(0), z3.BoolVal(True)
            return (fbool() if dt == "b" else fint()), None
        t, n, sdt = self.num(v)
        if dt == "f64":
            if sdt == "f64":
                return t, n
            if sdt == "b":
                return z3.If(t, z3.RealVal(1), z3.RealVal(0)), z3.BoolVal(False)
            return z3.ToReal(t), z3.BoolVal(False)
        if dt == "b":
            return (t if sdt == "b" else t != 0), None
        if sdt == "b":
            return z3.If(t, z3.IntVal(1), z3.IntVal(0)), None
        if sdt == "f64":
            k = z3.ToInt(t)
            return z3.If(z3.And(z3.Not(n), z3.IsInt(t)), self.fit(k, dt), fint()), None
        return self.fit(t, dt), None

    def fit(self, t, dt):
        lo, hi = RNG[dt]
        if z3.is_int_value(t) and lo <= t.as_long() <= hi:
            return t
        return z3.If(z3.And(t >= lo, t <= hi), t, fint())

    def num(self, v):
        """(term, isnan, dtype) of a numeric value"""
        if isinstance(v, (Row, Sc)):
            return v.t, v.n, v.dt
        if isinstance(v, bool):
            return z3.BoolVal(v), None, "b"
        if isinstance(v, int):
            return z3.IntVal(v), None, "py"
        if isinstance(v, float):
            if v != v:
                return z3.RealVal(0), z3.BoolVal(True), "f64"
            return z3.RealVal(repr(v)), z3.BoolVal(False), "f64"
        raise Unsupported(f"number {type(v).__name__}")

    def augassign(self, s, env, f):
        op = ARITH.get(type(s.op))
        if op is None:
            raise Unsupported("augmented " + type(s.op).__name__)
        t = s.target
        rhs = lambda: self.ev(s.value, env, f)
        if isinstance(t, ast.Name):
            cur = self.ev(t, env, f)
            env[t.id] = self.inplace(op, cur, rhs())
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, f)
            cur = self.subscript(o, t.slice, env, f)
            v = self.binop(op, cur, rhs())
            self.setitem(o, t.slice, v, env, f)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, f)
            cur = self.getattr(o, t.attr)
            self.assign(t, self.inplace(op, cur, rhs()), env, f)
        else:
            raise Unsupported("augmented target")

    def inplace(self, op, cur, v):
        if isinstance(cur, Row) and cur.cls is None and cur.mask is None:
            if isinstance(v, Row) and v.cls is not None:
                v = self.plain(v)
            if isinstance(v, Row) and not z3.eq(v.ln, cur.ln) and not self.implied(z3.Or(v.ln == cur.ln, v.ln == 1)):
                raise Unsupported("in-place broadcast")
            if cur.dt == "b":
                # riptable: in-place + / * on booleans is or / and
                o2 = {"add": "or", "mul": "and"}.get(op, op)
                r = self.binop(o2, cur, v)
            else:
                r = self.binop(op, cur, v)
            if r.dt == "f64" and cur.dt != "f64":
                raise Unsupported("in-place float result into an integer array")
            t, n = self.as_dt(r, cur.dt)
            cur.cell.t = t
            if cur.dt == "f64":
                cur.cell.n = n
            return cur
        if isinstance(cur, Row) and cur.cls is not None:
            m = self.lookup(cur.cls, f"__i{op}__")
            if isinstance(m, Func):
                return self.call(Bound(cur, f"__i{op}__"), [v], {})
        return self.binop(op, cur, v)

    # -------------------------------------------------- expressions
    def ev(self, e, env, f):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, env, f)

    def e_Constant(self, e, env, f):
        return e.value

    def e_Name(self, e, env, f):
        if e.id in env:
            return env[e.id]
        if hasattr(f, "env") and e.id in f.env:
            return f.env[e.id]
        return self.glob(e.id, f.mod)

    def e_Tuple(self, e, env, f):
        return tuple(self.ev(x, env, f) for x in e.elts)

    def e_List(self, e, env, f):
        return [self.ev(x, env, f) for x in e.elts]

    def e_JoinedStr(self, e, env, f):
        return "<fstring>"

    def e_IfExp(self, e, env, f):
        return self.ev(e.body if self.truth(self.ev(e.test, env, f)) else e.orelse, env, f)

    def e_NamedExpr(self, e, env, f):
        v = self.ev(e.value, env, f)
        env[e.target.id] = v
        return v

    def e_BoolOp(self, e, env, f):
        v = None
        for x in e.values:
            v = self.ev(x, env, f)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, Sc) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, Sc) else True
        return v

    def e_UnaryOp(self, e, env, f):
        v = self.ev(e.operand, env, f)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, Row) and v.cls is not None:
                m = self.lookup(v.cls, "__neg__")
                if isinstance(m, Func):
                    return self.call(Bound(v, "__neg__"), [], {})
            return self.binop("sub", 0, v)
        if isinstance(e.op, ast.Invert) and isinstance(v, (Row, Sc)) and v.dt == "b":
            return Row(Cell("b", z3.Not(v.t)), v.ln, v.mask) if isinstance(v, Row) else Sc("b", z3.Not(v.t))
        raise Unsupported("unary")

    def e_BinOp(self, e, env, f):
        op = ARITH.get(type(e.op))
        a, b = self.ev(e.left, env, f), self.ev(e.right, env, f)
        if op is None:
            raise Unsupported("operator " + type(e.op).__name__)
        return self.dispatch(op, a, b)

    def e_Compare(self, e, env, f):
        l = self.ev(e.left, env, f)
        res = None
        for o, r in zip(e.ops, e.comparators):
            r = self.ev(r, env, f)
            v = self.compare(o, l, r)
            if len(e.ops) == 1:
                return v
            if not self.truth(v):
                return False
            l = r
        return True

    def compare(self, o, a, b):
        if isinstance(o, (ast.Is, ast.IsNot)):
            if b is None or a is None:
                r = a is None and b is None
            elif isinstance(a, (bool, Cls)) or isinstance(b, (bool, Cls)):
                r = type(a) == type(b) and a == b
            else:
                raise Unsupported("is")
            return r if isinstance(o, ast.Is) else not r
        if isinstance(o, (ast.In, ast.NotIn)):
            if isinstance(b, (tuple, list, dict, str)) and isinstance(a, (str, int)) and all(not isinstance(x, (Row, Sc)) for x in b):
                r = a in b
            elif isinstance(b, (tuple, list)) and isinstance(a, Obj) and a.cls == "symstr":
                r = self.truth(Sc("b", z3.Or(*[a.attrs["is"](x) for x in b])))
            else:
                raise Unsupported("in")
            return r if isinstance(o, ast.In) else not r
        op = CMP[type(o)]
        return self.dispatch(op, a, b)

    def e_Attribute(self, e, env, f):
        d = ast.unparse(e)
        if d in ("np.nan", "np.NaN"):
            return NANV
        if isinstance(e.value, ast.Name) and e.value.id in ("np", "rc", "math", "TypeRegister", "MATH_OPERATION", "warnings", "NumpyCharTypes"):
            if e.value.id == "TypeRegister":
                if module(DTM).defs.get(e.attr) is not None:
                    return Cls(e.attr)
                return Ext(d)
            if d == "NumpyCharTypes.AllInteger":
                return "bhilBHIL"
            return Ext(d)
        o = self.ev(e.value, env, f)
        if isinstance(o, Ext):
            return Ext(o.name + "." + e.attr)
        return self.getattr(o, e.attr)

    def e_Call(self, e, env, f):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "super" and not e.args:
            raise Unsupported("super()")
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env, f)
                if not isinstance(v, (tuple, list)):
                    raise Unsupported("starred")
                args += list(v)
            else:
                args.append(self.ev(x, env, f))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("**kwargs")
            kw[k.arg] = self.ev(k.value, env, f)
        return self.call(self.ev(fn, env, f), args, kw)

    def e_Subscript(self, e, env, f):
        return self.subscript(self.ev(e.value, env, f), e.slice, env, f)

    def subscript(self, o, sl, env, f):
        if isinstance(sl, ast.Slice):
            if isinstance(o, Row) and sl.lower is None and sl.upper is None and sl.step is None:
                return o
            raise Unsupported("slice")
        i = self.ev(sl, env, f)
        if isinstance(o, Ext) and o.name == "INVALID_DICT" and isinstance(i, DType):
            return {"f64": NANV, "b": False}.get(i.dt, RNG.get(i.dt, (None,))[0])
        if isinstance(o, Table):
            if isinstance(i, int):
                return o.vals[i]
            t, n, dt = self.num(i)
            if dt in ("f64", "b"):
                raise Unsupported("table index")
            # riptable: an index outside the table reads as some value (invalid or wrapped): arbitrary
            lo, hi = self.bounds(t)
            if lo is not None and lo == hi and 0 <= lo < len(o.vals):
                r = z3.IntVal(o.vals[lo])
            else:
                r = fint("oob")
                for k in reversed(range(len(o.vals))):
                    if lo is None or lo <= k <= hi:
                        r = z3.If(t == k, z3.IntVal(o.vals[k]), r)
            if isinstance(i, Row):
                return Row(Cell("i64", r), i.ln, i.mask)
            return Sc("i64", r)
        if isinstance(o, Row):
            if isinstance(i, Row) and i.dt == "b":
                if o.mask is not None or i.mask is not None:
                    raise Unsupported("nested compression")
                c = Cell(o.dt, o.t, o.n)
                return Row(c, z3.Int(f"cnt!{next(_fresh)}"), i.t, o.cls, o.attrs)
            if isinstance(i, int) and i in (0, -1) and o.mask is None and self.implied(o.ln == 1):
                return Sc(o.dt, o.t, o.n, cls=(o.cls + "Scalar") if o.cls else None, attrs=o.attrs)
            raise Unsupported("array index")
        if isinstance(o, (tuple, list)) and isinstance(i, int):
            return o[i]
        if isinstance(o, dict) and isinstance(i, str):
            if i not in o:
                raise PyRaise("KeyError")
            return o[i]
        raise Unsupported("subscript of " + type(o).__name__)

    # -------------------------------------------------- attributes and calls
    def plain(self, v):
        return Row(v.cell, v.ln, v.mask)

    def getattr(self, o, a):
        if isinstance(o, Row):
            if a in o.attrs:
                return o.attrs[a]
            if a in ("_fa", "_np"):
                return self.plain(o)
            if a == "dtype":
                return DType(o.dt)
            if a == "size":
                return Sc("i64", o.ln)
            if a == "shape":
                return (Sc("i64", o.ln),)
            if o.cls is not None:
                h = self.lookup(o.cls, a)
                if isinstance(h, Func):
                    if any(isinstance(d, ast.Name) and d.id == "property" for d in h.node.decorator_list):
                        return self.call_method(h, [o], {})
                    return Bound(o, a)
                if a in self.D["attrs"].get(o.cls, {}):
                    return self.D["attrs"][o.cls][a]
                if isinstance(h, tuple):
                    try:
                        return ast.literal_eval(h[1])
                    except ValueError:
                        raise Unsupported(f"class attribute {a}")
            if a in FAMETH or a.strip("_") in set(ARITH.values()) | CMPN | {"radd", "rsub", "iadd", "isub", "rmul"}:
                return Bound(o, a)
            if a.startswith("_timezone") or a.startswith("_"):
                raise PyRaise("AttributeError", a)
            raise Unsupported(f"array attribute {a}")
        if isinstance(o, Obj):
            if a in o.attrs:
                return o.attrs[a]
            h = self.lookup(o.cls, a)
            if isinstance(h, Func):
                if any(isinstance(d, ast.Name) and d.id == "property" for d in h.node.decorator_list):
                    return self.call_method(h, [o], {})
                return Bound(o, a)
            raise Unsupported(f"attribute {o.cls}.{a}")
        if isinstance(o, DType):
            if a == "num":
                return o
            if a == "char":
                return CHARS[o.dt]
            raise Unsupported("dtype." + a)
        if isinstance(o, Cls):
            h = self.lookup(o.name, a)
            if isinstance(h, Func):
                return h
            if a in self.D["attrs"].get(o.name, {}):
                return self.D["attrs"][o.name][a]
            if o.name == "FastArray" or a == "__name__":
                return Ext(f"{o.name}.{a}")
            raise Unsupported(f"class attribute {o.name}.{a}")
        if isinstance(o, (Table, SymTable)):
            return Bound(o, a)
        if isinstance(o, Sc):
            if a in o.attrs:
                return o.attrs[a]
            if a in ("_fa", "_np"):
                return Sc(o.dt, o.t, o.n)
            if a == "dtype":
                return DType(o.dt)
            return Bound(o, a)
        if isinstance(o, str):
            return Bound(o, a)
        raise Unsupported(f"attribute {a} of {type(o).__name__}")

    def call_method(self, h, args, kw):
        spec = self.vc.uses.get(h.qual)
        if spec is not None:
            r = spec(self, args, kw)
            if r is not NotImplemented:
                self.assumed_use(h.qual)
                return r
        self.inlined.add(h.qual)
        return self.call_func(h, args, kw)

    def assumed_use(self, q):
        self.used.add(q)

    def call(self, fn, args, kw):
        if isinstance(fn, Func):
            dec = [ast.unparse(d) for d in fn.node.decorator_list]
            if dec and any(d not in ("staticmethod", "classmethod", "property") for d in dec):
                raise Unsupported("decorator " + dec[0])
            if "classmethod" in dec:
                args = [Cls(fn.clsname)] + args
            return self.call_method(fn, args, kw)
        if isinstance(fn, Bound):
            o, nm = fn.obj, fn.name
            cls = o.cls if isinstance(o, (Row, Obj)) else None
            if cls is not None:
                h = self.lookup(cls, nm)
                if isinstance(h, Func):
                    if any(ast.unparse(d) == "staticmethod" for d in h.node.decorator_list):
                        return self.call_method(h, args, kw)
                    if any(ast.unparse(d) == "classmethod" for d in h.node.decorator_list):
                        return self.call_method(h, [Cls(cls)] + args, kw)
                    if h.node.decorator_list:
                        raise Unsupported("decorated method " + nm)
                    return self.call_method(h, [o] + args, kw)
            return self.method(o, nm, args, kw)
        if isinstance(fn, Cls):
            return self.construct(fn.name, args, kw)
        if isinstance(fn, Ext):
            return self.external(fn.name, args, kw)
        raise Unsupported("call of " + type(fn).__name__)

    def method(self, o, nm, args, kw):
        core = nm.strip("_") if nm.startswith("__") else nm
        if isinstance(o, Row):
            if nm.startswith("__"):
                if core in set(ARITH.values()) | CMPN:
                    return self.binop(core, o, self.dec(args[0]))
                if core.startswith("r") and core[1:] in set(ARITH.values()):
                    return self.binop(core[1:], self.dec(args[0]), o)
                if core.startswith("i") and core[1:] in set(ARITH.values()):
                    return self.inplace(core[1:], o, self.dec(args[0]))
            if nm == "astype":
                return self.astype(o, args[0], kw.get("copy", True))
            if nm == "view":
                c = args[0] if args else None
                if isinstance(c, Ext) and c.name in ("FastArray", "np.ndarray"):
                    return self.plain(o)
                if isinstance(c, Cls) and c.name == "FastArray":
                    return self.plain(o)
                raise Unsupported("view")
            if nm in ("isnan", "isnotnan", "isnanorzero"):
                t = self.isnan(o)
                if nm == "isnanorzero":
                    z = (o.t == 0) if o.dt != "f64" else z3.And(z3.Not(o.n), o.t == 0)
                    t = z3.Or(t, z)
                if nm == "isnotnan":
                    t = z3.Not(t)
                return Row(Cell("b", t), o.ln, o.mask)
            if nm == "copy":
                return Row(Cell(o.dt, o.t, o.n), o.ln, o.mask, o.cls, dict(o.attrs))
            if nm in ("any", "all", "sum", "max", "min", "searchsorted", "fill_invalid", "copy_invalid"):
                raise Unsupported("reduction " + nm)
            if nm == "putmask" and len(args) == 2:
                return self.external("putmask", [o] + args, kw)
        if isinstance(o, (Table, SymTable)):
            if nm == "searchsorted":
                return self.searchsorted(o, args[0], kw.get("side", args[1] if len(args) > 1 else "left"))
        if isinstance(o, Sc) and nm == "astype":
            return self.astype(o, args[0], True)
        if isinstance(o, Sc) and nm.startswith("__") and core in set(ARITH.values()) | CMPN:
            return self.binop(core, o, self.dec(args[0]))
        if isinstance(o, Sc) and nm in ("isnan",):
            return Sc("b", self.isnan(o))
        raise Unsupported(f"method {nm} of {type(o).__name__}")

    def dec(self, v):
        return self.plain(v) if isinstance(v, Row) and v.cls is not None else v

    def isnan(self, v):
        t, n, dt = self.num(v)
        if dt == "f64":
            return n
        if dt in ("b", "py"):
            return z3.BoolVal(False)
        return t == RNG[dt][0]

    def searchsorted(self, tab, x, side):
        t, n, dt = self.num(x)
        if dt in ("f64", "b") or side not in ("left", "right"):
            raise Unsupported("searchsorted")
        if isinstance(tab, SymTable):
            r = (tab.right if side == "right" else tab.left)(t)
            self.pc.append(r >= 0)
        else:
            if any(b < a for a, b in zip(tab.vals, tab.vals[1:])):
                self.fail("table ascending", f"searchsorted on {tab.name or 'table'}", "the table is not ascending")
            r = z3.IntVal(0)
            lo, hi = self.bounds(t)
            k0 = 0
            terms = []
            for v in tab.vals:
                if lo is not None and (v <= lo if side == "right" else v < lo):
                    k0 += 1
                elif hi is not None and (v > hi if side == "right" else v >= hi):
                    pass
                else:
                    terms.append(z3.If((t >= v) if side == "right" else (t > v), 1, 0))
            r = z3.Sum([z3.IntVal(k0)] + terms) if terms else z3.IntVal(k0)
        self.assumed.add("searchsorted(table, x, side) on an ascending table returns the number of entries <= x (right) or < x (left)")
        if isinstance(x, Row):
            return Row(Cell("i64", r), x.ln, x.mask)
        return Sc("i64", r)

    def bounds(self, t):
        key = t.get_id()
        if self.bcache_for is not self.vc_bounds:
            self.bcache, self.bcache_for = {}, self.vc_bounds
        hit = self.bcache.get(key)
        if hit is None:
            hit = self.bcache[key] = (t, self.bounds_(t))
        return hit[1]

    def bounds_(self, t):
        """interval of an integer term from the case's known bounds (sound, possibly (None, None))"""
        if z3.is_int_value(t):
            v = t.as_long()
            return v, v
        for k, lo, hi in self.vc_bounds:
            if k.eq(t):
                return lo, hi
        if z3.is_app(t):
            d = t.decl().kind()
            ch = [self.bounds(c) for c in t.children()] if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL) else None
            if d == z3.Z3_OP_ADD and all(None not in c for c in ch):
                return sum(c[0] for c in ch), sum(c[1] for c in ch)
            if d == z3.Z3_OP_SUB and len(ch) == 2 and all(None not in c for c in ch):
                return ch[0][0] - ch[1][1], ch[0][1] - ch[1][0]
            if d == z3.Z3_OP_MUL and len(ch) == 2 and all(None not in c for c in ch) and any(c[0] == c[1] for c in ch):
                ps = [a * b for a in ch[0] for b in ch[1]]
                return min(ps), max(ps)
            if d == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
                k = t.arg(1).as_long()
                a = self.bounds(t.arg(0))
                if None not in a and a[0] // k == a[1] // k:
                    return a[0] % k, a[1] % k
                return 0, k - 1
            if d == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
                k = t.arg(1).as_long()
                a = self.bounds(t.arg(0))
                if None not in a:
                    return a[0] // k, a[1] // k
            if d == z3.Z3_OP_ITE:
                c = self.decide(t.arg(0))
                if c is True:
                    return self.bounds(t.arg(1))
                if c is False:
                    return self.bounds(t.arg(2))
                a, b = self.bounds(t.arg(1)), self.bounds(t.arg(2))
                if None not in a and None not in b:
                    return min(a[0], b[0]), max(a[1], b[1])
        return None, None

    def decide(self, c):
        """truth of a condition from interval bounds, or None"""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.decl().kind()
        if k == z3.Z3_OP_AND:
            r = [self.decide(x) for x in c.children()]
            return False if False in r else (True if all(x is True for x in r) else None)
        if k == z3.Z3_OP_OR:
            r = [self.decide(x) for x in c.children()]
            return True if True in r else (False if all(x is False for x in r) else None)
        if k == z3.Z3_OP_NOT:
            r = self.decide(c.arg(0))
            return None if r is None else not r
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_int(c.arg(0)):
            (al, ah), (bl, bh) = self.bounds(c.arg(0)), self.bounds(c.arg(1))
            if None in (al, ah, bl, bh):
                return None
            if k == z3.Z3_OP_LE:
                return True if ah <= bl else (False if al > bh else None)
            if k == z3.Z3_OP_LT:
                return True if ah < bl else (False if al >= bh else None)
            if k == z3.Z3_OP_GE:
                return True if al >= bh else (False if ah < bl else None)
            if k == z3.Z3_OP_GT:
                return True if al > bh else (False if ah <= bl else None)
            if al == ah == bl == bh:
                return True
            return False if ah < bl or bh < al else None
        return None

    def red(self, t):
        """resolve conditionals whose condition the case's bounds decide, and terms with a single possible value"""
        if z3.is_int(t) and not z3.is_int_value(t):
            lo, hi = self.bounds(t)
            if lo is not None and lo == hi:
                return z3.IntVal(lo)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c = self.decide(t.arg(0))
            if c is True:
                return self.red(t.arg(1))
            if c is False:
                return self.red(t.arg(2))
        return t

    def astype(self, o, to, copy):
        dt = to.dt if isinstance(to, DType) else NPTYPES.get(getattr(to, "name", None))
        if dt is None and isinstance(to, Ext):
            dt = NPTYPES.get(to.name)
        if dt is None:
            raise Unsupported("astype")
        mk = lambda c: Row(c, o.ln, o.mask) if isinstance(o, Row) else Sc(c.dt, c.t, c.n)
        if dt == o.dt:
            if copy is False:
                return o if (isinstance(o, Sc) or o.cls is None) else self.plain(o)
            return mk(Cell(dt, o.t, o.n))
        keep = copy is True  # the converting astype carries the invalid marker over
        if o.dt == "b":
            t, n = self.as_dt(o, dt)
            return mk(Cell(dt, t, n))
        if dt == "b":
            return mk(Cell("b", o.t != 0 if o.dt != "f64" else z3.Or(o.n, o.t != 0)))
        inv = self.isnan(o)
        if dt == "f64":
            return mk(Cell("f64", z3.If(inv, freal(), z3.ToReal(o.t)), inv if keep else z3.If(inv, fbool(), z3.BoolVal(False))))
        if o.dt == "f64":
            t, _ = self.as_dt(o, dt)
        else:
            t = self.fit(o.t, dt)
        return mk(Cell(dt, self.red(z3.If(inv, z3.IntVal(RNG[dt][0]) if keep else fint(), t))))

    # -------------------------------------------------- arithmetic
    def dispatch(self, op, a, b):
        """a <op> b through the classes' own operators"""
        for x in (a, b):
            if isinstance(x, Obj) and x.cls == "symstr" and op in ("eq", "ne"):
                o = b if x is a else a
                if isinstance(o, Obj) and o.cls == "symstr":
                    t = x.attrs["id"] == o.attrs["id"]
                elif isinstance(o, str):
                    t = x.attrs["is"](o)
                else:
                    raise Unsupported("string comparison")
                return Sc("b", t if op == "eq" else z3.Not(t))
        if not isinstance(a, (Row, Sc)) and not isinstance(b, (Row, Sc)):
            if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)) or isinstance(a, Cls) or isinstance(b, Cls):
                import operator

                fn = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "floordiv": operator.floordiv, "mod": operator.mod, "truediv": operator.truediv, "and": operator.and_, "or": operator.or_, "xor": operator.xor}.get(op)
                if fn is None:
                    fn = {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}[op]
                return fn(a, b)
            if isinstance(a, Table) and isinstance(b, int) and op == "mul":
                return Table([x * b for x in a.vals], a.name)
            raise Unsupported(f"operator {op}")
        ac = a.cls if isinstance(a, Row) else None
        bc = b.cls if isinstance(b, Row) else None
        r = f"__{FLIP[op]}__" if op in FLIP else f"__r{op}__"
        if bc is not None and ac is None and isinstance(self.lookup(bc, r), Func):
            return self.call(Bound(b, r), [a], {})
        if ac is not None and isinstance(self.lookup(ac, f"__{op}__"), Func):
            return self.call(Bound(a, f"__{op}__"), [b], {})
        if ac is not None:
            a = self.plain(a)
        if bc is not None:
            b = self.plain(b)
        return self.binop(op, a, b)

    def ln_of(self, a, b):
        rs = [x for x in (a, b) if isinstance(x, Row)]
        if len(rs) == 1:
            return rs[0].ln
        x, y = rs
        if x.mask is not None or y.mask is not None:
            if x.mask is not None and y.mask is not None and x.mask.eq(y.mask):
                return x.ln
            raise Unsupported("arrays of different compressions")
        if z3.eq(x.ln, y.ln):
            return x.ln
        if self.implied(x.ln == y.ln) or self.implied(y.ln == 1):
            return x.ln
        if self.implied(x.ln == 1):
            return y.ln
        raise Unsupported("array lengths")

    def binop(self, op, a, b):
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            return self.dispatch(op, a, b)
        ta, na, da = self.num(a)
        tb, nb, db = self.num(b)
        isrow = isinstance(a, Row) or isinstance(b, Row)
        if isrow:
            ln = self.ln_of(a, b)
            mask = next((x.mask for x in (a, b) if isinstance(x, Row) and x.mask is not None), None)
            mk = lambda dt, t, n=None: Row(Cell(dt, t, n), ln, mask)
        else:
            mk = lambda dt, t, n=None: Sc(dt, t, n)
        if da == "b" and db == "b":
            if op in ("and", "mul"):
                return mk("b", z3.And(ta, tb))
            if op in ("or", "add"):
                return mk("b", z3.Or(ta, tb))
            if op in ("xor", "ne"):
                return mk("b", ta != tb)
            if op == "eq":
                return mk("b", ta == tb)
            raise Unsupported("boolean operator " + op)
        if da == "b":
            ta, da = z3.If(ta, z3.IntVal(1), z3.IntVal(0)), "py"
        if db == "b":
            tb, db = z3.If(tb, z3.IntVal(1), z3.IntVal(0)), "py"
        inv = z3.Or(*[t == RNG[d][0] for t, d in ((ta, da), (tb, db)) if d in RNG] or [z3.BoolVal(False)])
        fl = "f64" in (da, db) or op == "truediv"
        if fl:
            A = ta if da == "f64" else z3.ToReal(ta)
            B = tb if db == "f64" else z3.ToReal(tb)
            n = z3.Or(*[x for x in (na, nb) if x is not None] or [z3.BoolVal(False)])
            if op in CMPN:
                t = {"eq": A == B, "ne": A != B, "lt": A < B, "le": A <= B, "gt": A > B, "ge": A >= B}[op]
                # IEEE: a comparison with NaN is false, != is true; with an integer invalid: arbitrary
                return mk("b", z3.If(inv, fbool(), z3.If(n, z3.BoolVal(op == "ne"), t)))
            if op in ("add", "sub", "mul"):
                t = {"add": A + B, "sub": A - B, "mul": A * B}[op]
            elif op == "truediv":
                t = z3.If(B == 0, freal(), A / B)
                n = z3.If(B == 0, fbool(), n)
            else:
                t = freal()
            return mk("f64", z3.If(inv, freal(), t), z3.If(inv, fbool(), n))
        if op in CMPN:
            t = {"eq": ta == tb, "ne": ta != tb, "lt": ta < tb, "le": ta <= tb, "gt": ta > tb, "ge": ta >= tb}[op]
            if isinstance(a, Sc) and isinstance(b, Sc) and a.py and b.py or not isrow:
                return Sc("b", t)
            return mk("b", z3.If(inv, fbool(), t))
        # result element type
        order = ["i8", "i16", "i32", "i64"]
        if not isrow and (da == "py" or db == "py") and "py" in (da, db) and not any(isinstance(x, Sc) and not x.py for x in (a, b)):
            dt = "i64"
        elif "py" in (da, db):
            dt = db if da == "py" else da
            c = ta if da == "py" else tb
            if z3.is_int_value(c) and not RNG[dt][0] <= c.as_long() <= RNG[dt][1]:
                dt = "i64"
        elif isrow and isinstance(a, Row) != isinstance(b, Row):
            dt = a.dt if isinstance(a, Row) else b.dt
        else:
            dt = order[max(order.index(da), order.index(db))]
        if op in ("add", "sub", "mul"):
            t = {"add": ta + tb, "sub": ta - tb, "mul": ta * tb}[op]
        elif op in ("floordiv", "mod"):
            if not z3.is_int_value(tb) or tb.as_long() <= 0:
                raise Unsupported("division by a non-constant")
            t = ta / tb if op == "floordiv" else ta % tb
            inv = z3.Or(inv, ta < 0)  # negative operands: not assumed to round down
        elif op == "and":
            if z3.is_int_value(tb) and tb.as_long() == 1:
                t = ta % 2
                inv = z3.Or(inv, ta < 0)
            else:
                raise Unsupported("bit operation")
        else:
            raise Unsupported("operator " + op)
        lo, hi = RNG[dt]
        other = fint()
        if op == "mul" and dt == "i64":
            k, x, dx = (tb, ta, da) if z3.is_int_value(tb) else (ta, tb, db)
            if z3.is_int_value(k) and k.as_long() % 2 == 0 and dx in RNG:
                # the marker times an even number wraps around to 0
                self.assumed.add("riptide_cpp: the integer invalid marker (widened to int64) times an even number wraps around to 0")
                other = z3.If(x == RNG[dx][0], z3.IntVal(0), other)
        return mk(dt, self.red(z3.If(z3.Or(inv, t < lo, t > hi), other, t)))

    # -------------------------------------------------- assumed contracts of what is outside the verified modules
    def construct(self, name, args, kw):
        spec = self.vc.uses.get(name)
        if spec is not None:
            r = spec(self, args, kw)
            if r is not NotImplemented:
                self.used.add(name)
                return r
        if len(args) < 1 or not isinstance(args[0], (Row,)):
            raise Unsupported(f"constructor {name}")
        v = args[0]
        if v.mask is not None:
            raise Unsupported("constructor on a compressed array")
        if name == "Date" and not kw and len(args) == 1:
            self.assumed.add("Date(array) holds the array's day numbers as int32; Date(Date) is itself")
            if v.cls not in (None, "Date"):
                raise Unsupported("Date from " + v.cls)
            if v.dt == "f64":
                raise Unsupported("Date from floats")
            t = v.t if v.dt == "i32" else self.red(z3.If(z3.Or(v.t == RNG[v.dt][0], v.t < RNG["i32"][0], v.t > RNG["i32"][1]), z3.If(v.t == RNG[v.dt][0], z3.IntVal(RNG["i32"][0]), fint()), v.t))
            return Row(Cell("i32", t) if v.dt != "i32" else v.cell, v.ln, None, "Date")
        if name == "DateSpan" and not kw and len(args) == 1:
            self.assumed.add("DateSpan(array) holds the array's day counts as int32, invalid where the array is invalid")
            r = self.astype(self.plain(v), Ext("np.int32"), True)
            return Row(r.cell, v.ln, None, "DateSpan")
        if name == "TimeSpan" and len(args) == 1 and not kw:
            self.assumed.add("TimeSpan(array) holds the array's nanoseconds as float64, NaN where the array is invalid")
            r = self.astype(self.plain(v), Ext("np.float64"), v.dt != "f64")
            return Row(r.cell, v.ln, None, "TimeSpan")
        if name == "DateTimeNano" and len(args) == 1 and "from_tz" in kw and set(kw) <= {"from_tz", "to_tz"}:
            fz, tz = kw["from_tz"], kw.get("to_tz", "NYC")
            if v.cls is not None:
                raise Unsupported("DateTimeNano from " + v.cls)
            if v.dt not in ("i64",):
                raise Unsupported("DateTimeNano from " + v.dt)
            self.assumed.add("DateTimeNano(int64 array, from_tz, to_tz) holds the array converted by TimeZone.to_utc(from_tz) and displays in to_tz")
            t = v.t
            if not (isinstance(fz, str) and fz in ("GMT", "UTC")):
                if not (isinstance(fz, Obj) and fz.cls == "symstr"):
                    raise Unsupported("from_tz")
                t = z3.If(v.t == 0, z3.IntVal(0), fz.attrs["toutc"](v.t))
            if isinstance(tz, str):
                tz = tzobj(f"tz_{tz}")._to
            return Row(Cell("i64", t), v.ln, None, "DateTimeNano", {"_timezone": tz.attrs["tzobj"]})
        raise Unsupported(f"constructor {name}")

    def external(self, name, args, kw):
        n = name
        if n == "isinstance":
            return self.isinst(args[0], args[1])
        if n == "len":
            v = args[0]
            if isinstance(v, Row):
                return Sc("i64", v.ln, py=True)
            if isinstance(v, (tuple, list, str)):
                return len(v)
            if isinstance(v, Table):
                return len(v.vals)
        if n == "getattr" and len(args) >= 2 and isinstance(args[1], str):
            if isinstance(args[0], Ext) and args[0].name in ("FastArray",):
                return Ext("FastArray." + args[1])
            return self.getattr(args[0], args[1])
        if n.startswith("FastArray.__") and args:
            return self.method(self.dec(args[0]), n.split(".")[1], [self.dec(a) for a in args[1:]], kw)
        if n == "type":
            v = args[0]
            return Cls(v.cls or "FastArray") if isinstance(v, Row) else Ext("type")
        if n in ("np.isscalar",):
            return not isinstance(args[0], (Row, Table, SymTable, Obj)) and args[0] is not None
        if n in ("putmask", "np.putmask"):
            o, m, v = args
            if isinstance(o, Row) and isinstance(m, Row) and m.dt == "b" and o.mask is None and m.mask is None:
                if isinstance(v, Row) and not z3.eq(v.ln, o.ln) and not self.implied(v.ln == o.ln):
                    raise Unsupported("putmask lengths")
                if not z3.eq(m.ln, o.ln) and not self.implied(m.ln == o.ln):
                    raise Unsupported("putmask mask length")
                self.put(o, m.t, v)
                return None
            raise Unsupported("putmask")
        if n in ("where", "np.where") and len(args) == 3:
            m, x, y = args
            if not isinstance(m, Row) or m.dt != "b":
                raise Unsupported("where")
            dts = [self.num(x)[2], self.num(y)[2]]
            dt = "f64" if "f64" in dts else ("b" if dts == ["b", "b"] else ("i64" if "i64" in dts or "py" in dts else "i32"))
            tx, nx = self.as_dt(x, dt)
            ty, ny = self.as_dt(y, dt)
            return Row(Cell(dt, z3.If(m.t, tx, ty), z3.If(m.t, nx, ny) if dt == "f64" else None), m.ln, m.mask)
        if n in ("zeros", "ones", "full", "np.zeros", "np.ones", "np.full"):
            l = args[0]
            if not isinstance(l, Sc):
                raise Unsupported("allocation length")
            base = n.split(".")[-1]
            v = {"zeros": 0, "ones": 1}.get(base, args[1] if base == "full" else None)
            ty = kw.get("dtype", args[1] if base != "full" and len(args) > 1 else None)
            dt = NPTYPES.get(getattr(ty, "name", None)) if ty is not None else ("f64" if base != "full" or isinstance(v, float) or getattr(v, "dt", "") == "f64" else "i64")
            if dt is None:
                raise Unsupported("allocation dtype")
            t, nn = self.as_dt(v if dt != "b" else bool(v), dt)
            return Row(Cell(dt, t, nn), l.t)
        if n in ("isnan", "np.isnan", "isnotnan"):
            v = args[0]
            if isinstance(v, Row) and v.cls is not None:
                return self.call(Bound(v, n.split(".")[-1]), [], {})
            t = self.isnan(v)
            if n == "isnotnan":
                t = z3.Not(t)
            return Row(Cell("b", t), v.ln, v.mask) if isinstance(v, Row) else Sc("b", t)
        if n in ("searchsorted", "np.searchsorted") and isinstance(args[0], (Table, SymTable)):
            return self.searchsorted(args[0], args[1], kw.get("side", args[2] if len(args) > 2 else "left"))
        if n in ("np.floor_divide", "np.mod", "np.add", "np.subtract", "np.multiply", "np.remainder"):
            op = {"floor_divide": "floordiv", "mod": "mod", "remainder": "mod", "add": "add", "subtract": "sub", "multiply": "mul"}[n[3:]]
            r = self.binop(op, self.dec(args[0]), self.dec(args[1]))
            out = kw.get("out")
            if out is None:
                return r
            if not isinstance(out, Row) or out.mask is not None or r.dt != out.dt:
                raise Unsupported("out=")
            out.cell.t = r.t
            return out
        if n in NPTYPES and len(args) == 1:
            v = args[0]
            if isinstance(v, (int, float, Sc)):
                t, nn = self.as_dt(v, NPTYPES[n])
                return Sc(NPTYPES[n], t, nn, py=n in ("int", "float", "bool"))
        if n == "FastArray" and args and isinstance(args[0], Row):
            v = self.plain(args[0])
            return self.astype(v, kw["dtype"], True) if "dtype" in kw else v
        if n == "FastArray" and args and isinstance(args[0], Sc):
            v = args[0]
            one = z3.IntVal(1)
            return Row(Cell(v.dt, v.t, v.n), one)
        if n == "FastArray" and args and isinstance(args[0], (int, float)):
            t, nn, dt = self.num(args[0])
            dt = "i64" if dt == "py" else dt
            return Row(Cell(dt, t, nn), z3.IntVal(1))
        if n == "TypeRegister.MathLedger._BASICMATH_TWO_INPUTS":
            tup, op = args[0], args[1]
            if isinstance(op, Ext) and op.name == "MATH_OPERATION.SUBDATETIMES" and len(tup) == 2:
                a, b = tup
                self.assumed.add("riptide_cpp SUBDATETIMES: float64 difference, NaN where an operand is 0 or the invalid marker")
                ln = self.ln_of(a, b)
                bad = z3.Or(*[z3.Or(x.t == 0, self.isnan(x)) for x in tup])
                return Row(Cell("f64", z3.ToReal(a.t) - z3.ToReal(b.t), bad), ln)
        if n in ("warnings.warn", "print"):
            return None
        if n == "hasattr":
            try:
                self.getattr(args[0], args[1])
                return True
            except PyRaise:
                return False
        if n == "abs" and isinstance(args[0], int):
            return abs(args[0])
        raise Unsupported("call of " + n)

    def isinst(self, v, T):
        if isinstance(T, tuple):
            return any(self.isinst(v, t) for t in T)
        nm = T.name
        if isinstance(v, Row):
            if nm in ("np.ndarray", "FastArray"):
                return True
            if v.cls is not None and isinstance(T, Cls):
                return nm in self.bases(v.cls)
            return False
        if isinstance(v, Sc):
            if nm == "np.bool_" or nm == "bool":
                return v.dt == "b"
            if v.cls is not None and isinstance(T, Cls):
                return nm == v.cls
            if nm in ("int",):
                return v.py and v.dt != "f64"
            if nm == "float":
                return v.dt == "f64"
            if nm in ("np.number", "np.integer", "np.int64"):
                return not v.py
            return False
        if isinstance(v, (bool, int, float, str, bytes)):
            return {"int": isinstance(v, int), "float": isinstance(v, float), "str": isinstance(v, str), "bytes": isinstance(v, bytes), "bool": isinstance(v, bool)}.get(nm, False)
        if v is None:
            return False
        if isinstance(v, Obj):
            return isinstance(T, Cls) and nm in self.bases(v.cls)
        raise Unsupported("isinstance of " + type(v).__name__)

    # -------------------------------------------------- obligations
    def fail(self, kind, label, reason, model=None):
        self.fails.append(dict(kind=kind, label=label, line=self.vc.line, status="failed", backend="z3", reason=reason, model=model))
        self.obls.append(dict(kind=kind, label=label, line=self.vc.line, status="failed", backend="z3"))

    def check(self, kind, label, hyps, goal):
        self.nq += 1
        g = z3.simplify(goal)
        t0 = time.time()
        if z3.is_true(g):
            st = "proved"
            r = None
        else:
            s = z3.Solver()
            s.set("timeout", int(20000 * L.TSCALE))
            s.add(*hyps, z3.Not(g))
            r = s.check()
            st = "proved" if r == z3.unsat else ("failed" if r == z3.sat else "unknown")
        self.tq += time.time() - t0
        if st == "failed":
            m = s.model()
            ms = {str(d): str(m[d]) for d in m.decls() if "!" not in str(d)}
            self.fail(kind, label, "counterexample", json.dumps(ms)[:800])
        elif st == "unknown":
            raise Unsupported(f"solver gave no answer on {label}")
        else:
            self.agg[(kind, label)] = self.agg.get((kind, label), 0) + 1
        return st == "proved"


FAMETH = {"astype", "view", "isnan", "isnotnan", "isnanorzero", "copy", "any", "all", "sum", "max", "min", "searchsorted", "fill_invalid", "copy_invalid", "putmask"}


class TZ:
    pass


_TZC = {}


def tzobj(name):
    """an arbitrary timezone: its conversions are uninterpreted functions; two zones may be the same"""
    if name not in _TZC:
        z = TZ()
        loc = z3.Function(name + "_local", z3.IntSort(), z3.IntSort())
        utc = z3.Function(name + "_toutc", z3.IntSort(), z3.IntSort())
        ident = z3.Int(name + "_id")
        z.local, z.toutc = loc, utc
        tz = Obj("TimeZone")
        s = Obj("symstr", id=ident, toutc=utc, tzobj=tz)
        s.attrs["is"] = lambda x, ident=ident: ident == z3.Int("zone_" + x)
        tz.attrs.update(_to_tz=s, local=loc)
        z._to, z.obj = s, tz
        _TZC[name] = z
    return _TZC[name]


class VC:
    """contract of one method: setup(ex) -> (args, kwargs, pre, cases, post)"""

    def __init__(self, name, target, setup, uses=None, frame=True):
        self.name, self.target, self.setup, self.uses, self.frame = name, target, setup, uses or {}, frame
        self.line = 0

    def verify(self, budget):
        t0 = time.time()
        try:
            return self._verify(t0, budget)
        except Unsupported as e:
            return dict(name=self.name, target=self.target, status="unsupported", reason=str(e), t=time.time() - t0, obligations=[])
        except RecursionError:
            return dict(name=self.name, target=self.target, status="unsupported", reason="recursion", t=time.time() - t0, obligations=[])
        except Exception:
            import traceback

            return dict(name=self.name, target=self.target, status="unsupported", reason="engine: " + traceback.format_exc()[-900:], t=time.time() - t0, obligations=[])

    def _verify(self, t0, budget):
        path, qual = self.target.split("::")
        ex = Exec(self)
        ex.fails, ex.obls, ex.agg, ex.nq, ex.tq, ex.used = [], [], {}, 0, 0.0, set()
        m = module(path)
        if "." in qual:
            h = ex.lookup(*qual.split(".")) if not hasattr(self, "recv") else ex.lookup(self.recv, qual.split(".")[1])
        else:
            d = m.defs.get(qual)
            h = Func(d, m, qual) if isinstance(d, ast.FunctionDef) else None
        if not isinstance(h, Func):
            raise Unsupported("not found in the tree")
        self.line = h.node.lineno
        exits = 0
        ncase = 0
        S0 = self.setup(ex)
        ex.vc_bounds, ex.pc = [], []
        cases = S0["cases"] if "cases" in S0 else [("", [], [])]
        if len(cases) > 1:
            ex.check("completeness", "the cases cover the precondition", S0["pre"], z3.Or(*[z3.And(*c[1]) for c in cases]))
        for label, hyp, bnds in cases:
            todo = [[]]
            while todo:
                if time.time() - t0 > budget:
                    raise Unsupported("time budget")
                S = self.setup(ex)
                ex.prefix = todo.pop()
                ex.todo = todo
                ex.taken = []
                ex.pc = list(S["pre"]) + list(hyp)
                ex.vc_bounds = bnds
                ex.steps = ex.depth = 0
                ins = [(nm, r.cell, r.cell.t, r.cell.n, r) for nm, r in S.get("inputs", {}).items()]
                try:
                    out = ("return", ex.call_func(h, list(S["args"]), dict(S.get("kwargs", {}))))
                except PyRaise as e:
                    out = ("raise", e.name)
                ncase += 1
                # an infeasible path gives no obligation
                if ex.taken and not ex.feasible(z3.BoolVal(True)):
                    continue
                if out[0] == "raise":
                    if S.get("raises") and out[1] in S["raises"]:
                        exits += 1
                        ex.agg[("raises", out[1])] = ex.agg.get(("raises", out[1]), 0) + 1
                    else:
                        ex.fail("exception", f"does not raise ({out[1]}) {label}", "a feasible path raises")
                    continue
                if S.get("raises"):
                    ex.fail("exception", f"raises {S['raises']} {label}", "a feasible path returns")
                    continue
                exits += 1
                for lab, goal in S["post"](out[1]):
                    if goal is False:
                        ex.fail("post", lab + " " + label, "wrong kind of result")
                    elif goal is True:
                        ex.agg[("post", lab)] = ex.agg.get(("post", lab), 0) + 1
                    else:
                        if not ex.check("post", lab, ex.pc, goal):
                            ex.fails[-1]["label"] += " " + label
                if self.frame:
                    for nm, c, t, n, r in ins:
                        if not c.t.eq(t) or (n is not None and not c.n.eq(n)):
                            ex.check("frame", f"{nm} is left as it was", ex.pc, z3.And(c.t == t, c.n == n) if n is not None else c.t == t)
                        else:
                            ex.agg[("frame", f"{nm} is left as it was")] = ex.agg.get(("frame", f"{nm} is left as it was"), 0) + 1
                if len(ex.fails) >= 5:
                    break
            if len(ex.fails) >= 5:
                break
        obls = list(ex.obls)
        for (k, lab), cnt in ex.agg.items():
            obls += [dict(kind=k, label=lab, line=self.line, status="proved", backend="z3")] * cnt
        return dict(
            name=self.name,
            target=self.target,
            status="failed" if ex.fails else "proved",
            failed=ex.fails,
            obligations=obls,
            dropped=[],
            invariants=[],
            inlined=sorted(ex.inlined),
            assumed=sorted(ex.assumed) + ["callee contracts used: " + ", ".join(sorted(ex.used))] * bool(ex.used),
            exits=exits,
            loops=0,
            t=time.time() - t0,
            stats=dict(time=ex.tq, queries=ex.nq),
            reason="",
        )


class Lemma:
    """a closed fact about the tree's data, decided case by case"""

    def __init__(self, name, target, facts):
        self.name, self.target, self.facts = name, target, facts

    def verify(self, budget):
        t0 = time.time()
        try:
            if "error" in data():
                raise Unsupported("the tree does not import: " + data()["error"][-300:])
            obls, fails, tq = [], [], 0.0
            for lab, hyps, goal in self.facts():
                if goal is True or goal is False:
                    st, model = ("proved" if goal else "failed"), None
                else:
                    s = z3.Solver()
                    s.set("timeout", int(30000 * L.TSCALE))
                    s.add(*hyps, z3.Not(goal))
                    q = time.time()
                    r = s.check()
                    tq += time.time() - q
                    if r == z3.unknown:
                        raise Unsupported("no answer: " + lab)
                    st = "proved" if r == z3.unsat else "failed"
                    model = str(s.model())[:500] if st == "failed" else None
                d = dict(kind="lemma", label=lab, line=0, status=st, backend="z3")
                obls.append(d)
                if st == "failed":
                    fails.append(dict(d, reason="counterexample", model=model))
                    if len(fails) > 6:
                        break
            return dict(name=self.name, target=self.target, status="failed" if fails else "proved", failed=fails, obligations=obls, dropped=[], invariants=[], inlined=[], assumed=[], exits=1, loops=0, t=time.time() - t0, stats=dict(time=tq, queries=len(obls)), reason="")
        except Unsupported as e:
            return dict(name=self.name, target=self.target, status="unsupported", reason=str(e), t=time.time() - t0, obligations=[])
        except Exception:
            import traceback

            return dict(name=self.name, target=self.target, status="unsupported", reason="engine: " + traceback.format_exc()[-900:], t=time.time() - t0, obligations=[])
