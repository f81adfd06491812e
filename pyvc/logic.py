"""Formulas with quantifiers, trigger-based ground instantiation, and the prover.

Every obligation is  hyps |- goal.  hyps and the negated goal are put in NNF; existentials are
skolemised, universals are instantiated at ground terms found by matching (linear inversion of the
arguments of uninterpreted applications), recursive spec functions are unfolded a bounded number of
times at their ground applications.  The resulting quantifier-free formula goes to z3 (and to the
second solver when z3 says unknown).  UNSAT of the instantiated formula implies validity of the
obligation, so a proof is sound however few instances were made; a SAT answer is only a candidate
counterexample and is never reported without saying so.
"""
import itertools, time, os, subprocess, tempfile
import z3

STATS = {"queries": 0, "z3_unsat": 0, "cvc5_unsat": 0, "sat": 0, "unknown": 0, "time": 0.0}

XR = 0  # rounds of an intermediate exact-pattern stage; set per contract
SLOW = float(os.environ.get("PYVC_SLOW", "0"))
BUILD_LIMIT = 12.0
_fresh = itertools.count()


def fresh_name(p):
    return f"{p}!{next(_fresh)}"


def fresh_int(p="i"):
    return z3.Int(fresh_name(p))


# ---------------------------------------------------------------- formulas
class Fm:
    pass


class FAnd(Fm):
    def __init__(self, *xs):
        self.xs = xs


class FOr(Fm):
    def __init__(self, *xs):
        self.xs = xs


class FNot(Fm):
    def __init__(self, x):
        self.x = x


class FAll(Fm):
    """forall v in Int^n. body(v)   (body: python callable taking z3 Ints, returns formula)"""

    def __init__(self, n, body, name="q", hints=None, sort=None):
        self.n, self.body, self.name, self.hints = n, body, name, hints
        self.sort = sort
        self._trig = None


class FEx(Fm):
    def __init__(self, n, body, name="q", sort=None):
        self.n, self.body, self.name, self.sort = n, body, name, sort
        self._tree = None


def isfm(x):
    return isinstance(x, Fm)


def f_and(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if not isfm(x) and z3.is_true(x):
            continue
        ys.append(x)
    if not ys:
        return True
    if len(ys) == 1:
        return ys[0]
    if any(isfm(y) for y in ys):
        return FAnd(*ys)
    return z3.And(*ys)


def f_or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        if not isfm(x) and z3.is_false(x):
            continue
        ys.append(x)
    if not ys:
        return False
    if len(ys) == 1:
        return ys[0]
    if any(isfm(y) for y in ys):
        return FOr(*ys)
    return z3.Or(*ys)


def f_not(x):
    if isinstance(x, bool):
        return not x
    if isfm(x):
        return FNot(x)
    return z3.Not(x)


def f_imp(a, b):
    return f_or(f_not(a), b)


def nnf(x, pos=True):
    if isinstance(x, bool):
        return z3.BoolVal(x == pos)
    if not isfm(x):
        return x if pos else z3.Not(x)
    if isinstance(x, FNot):
        return nnf(x.x, not pos)
    if isinstance(x, FAnd):
        ys = [nnf(y, pos) for y in x.xs]
        return FAnd(*ys) if pos else FOr(*ys)
    if isinstance(x, FOr):
        ys = [nnf(y, pos) for y in x.xs]
        return FOr(*ys) if pos else FAnd(*ys)
    if isinstance(x, FAll):
        if pos:
            return x
        b = x.body
        return FEx(x.n, lambda *v: f_not(b(*v)), x.name, x.sort)
    if isinstance(x, FEx):
        if pos:
            return x
        b = x.body
        return FAll(x.n, lambda *v: f_not(b(*v)), x.name, sort=x.sort)
    raise TypeError(x)


# ---------------------------------------------------------------- recursive spec functions
class RecDef:
    def __init__(self, decl, body, maxdepth=2):
        self.decl, self.body, self.maxdepth = decl, body, maxdepth
        self.memo = {}

    def unfold(self, key, args):
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.body(*args)
            _KEEP.append(args)
        return r


REC = {}  # decl name -> RecDef
GLOBAL_AX = {}  # decl name -> list of callables(args)-> formula ; instantiated at each ground app


def reset():
    REC.clear()
    GLOBAL_AX.clear()
    GLOBAL_AX[MUL.name()] = [_mul_basic]
    GLOBAL_AX[FDIV.name()] = [_fdiv_basic]
    clear_memo()


# ---------------------------------------------------------------- nonlinear products
MUL = z3.Function("mul", z3.IntSort(), z3.IntSort(), z3.IntSort())
FDIV = z3.Function("fdiv", z3.IntSort(), z3.IntSort(), z3.IntSort())


def _mul_basic(x, y):
    m = MUL(x, y)
    d = mk_mul(x, y)
    return z3.And(
        z3.BoolVal(True) if d.eq(m) else m == d,
        z3.Implies(z3.Or(x == 0, y == 0), m == 0),
        z3.Implies(x == 1, m == y),
        z3.Implies(y == 1, m == x),
        z3.Implies(z3.And(x >= 0, y >= 0), m >= 0),
        z3.Implies(z3.And(x >= 1, y >= 1), z3.And(m >= x, m >= y)),
    )


def _fdiv_basic(a, b):
    q = FDIV(a, b)
    m = mk_mul(q, b)
    return z3.Implies(b > 0, z3.And(m <= a, a < m + b, z3.Implies(a >= 0, q >= 0)))


_KEEP = []  # keeps z3 asts alive so ids stay unique while memo tables exist
_APPS = {}  # expr id -> tuple of (declname, args, key)
_NORM = {}
_LIN = {}
_CANON = {}


def lin_memo(t):
    i = t.get_id()
    r = _LIN.get(i)
    if r is None:
        r = lin(t)
        _KEEP.append(t)
        _LIN[i] = r
    return r


def canon(d, const):
    """the one term for a linear form"""
    key = (tuple(sorted((i, v[0]) for i, v in d.items())), const)
    r = _CANON.get(key)
    if r is None:
        r = from_lin(dict(sorted(d.items())), const)
        _KEEP.append(r)
        for v in d.values():
            _KEEP.append(v[1])
        _CANON[key] = r
        _LIN[r.get_id()] = (d, const)
        _NORM[r.get_id()] = r
    return r


def lin_sub(a, b):
    """normalised a - b"""
    da, ca = lin_memo(a)
    db, cb = lin_memo(b)
    if not db:
        if cb == 0:
            return canon(da, ca)
        return canon(da, ca - cb)
    d = dict(da)
    for i, (c, t) in db.items():
        if i in d:
            n = d[i][0] - c
            if n:
                d[i] = (n, t)
            else:
                del d[i]
        else:
            d[i] = (-c, t)
    return canon(d, ca - cb)


def lin(t):
    """linear form {term_id: (coef, term)}, const  -- None when not linear over opaque atoms"""
    out = {}
    const = 0

    def add(t, c):
        nonlocal const
        if isinstance(t, int):
            const += c * t
            return
        if z3.is_int_value(t):
            const += c * t.as_long()
            return
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            for a in t.children():
                add(a, c)
            return
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            add(ch[0], c)
            for a in ch[1:]:
                add(a, -c)
            return
        if k == z3.Z3_OP_UMINUS:
            add(t.arg(0), -c)
            return
        if k == z3.Z3_OP_MUL:
            cs = [a for a in t.children() if z3.is_int_value(a)]
            ns = [a for a in t.children() if not z3.is_int_value(a)]
            if len(ns) <= 1:
                cc = c
                for a in cs:
                    cc *= a.as_long()
                if ns:
                    add(ns[0], cc)
                else:
                    const += cc
                return
        i = t.get_id()
        if i in out:
            out[i] = (out[i][0] + c, t)
        else:
            out[i] = (c, t)

    add(t, 1)
    return {i: v for i, v in out.items() if v[0] != 0}, const


def from_lin(d, const):
    r = None
    for c, t in d.values():
        x = t if c == 1 else (-t if c == -1 else c * t)
        r = x if r is None else r + x
    if r is None:
        return z3.IntVal(const)
    if const:
        r = r + const
    return r


def norm(t):
    if isinstance(t, int):
        return z3.IntVal(t)
    if not z3.is_int(t):
        return t
    d, c = lin(t)
    return from_lin(dict(sorted(d.items())), c)


def mk_mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) or z3.is_int_value(a) or isinstance(b, int) or z3.is_int_value(b):
        return a * b
    if z3.is_real(a) or z3.is_real(b):
        return a * b
    da, ca = lin(a)
    db, cb = lin(b)
    if not da:
        return ca * b
    if not db:
        return cb * a
    r = None

    def acc(x):
        nonlocal r
        r = x if r is None else r + x

    for c1, t1 in da.values():
        for c2, t2 in db.values():
            x, y = (t1, t2) if t1.get_id() <= t2.get_id() else (t2, t1)
            # canonical order by name for stability
            if str(x) > str(y):
                x, y = y, x
            m = MUL(x, y)
            acc(m if c1 * c2 == 1 else c1 * c2 * m)
        if cb:
            acc(cb * c1 * t1)
    if ca:
        for c2, t2 in db.values():
            acc(ca * c2 * t2)
        if cb:
            acc(z3.IntVal(ca * cb))
    return r


def mul_pairs(apps):
    """monotonicity instances for products sharing a factor"""
    out = []
    by = {}
    for x, y in apps:
        by.setdefault(y.get_id(), (y, []))[1].append(x)
        by.setdefault(x.get_id(), (x, []))[1].append(y)
    for y, xs in by.values():
        for i in range(len(xs)):
            for j in range(i):
                a, b = xs[i], xs[j]
                ma, mb = mk_mul(a, y), mk_mul(b, y)
                out.append(
                    z3.Implies(
                        y >= 0,
                        z3.And(
                            z3.Implies(a < b, ma + y <= mb),
                            z3.Implies(b < a, mb + y <= ma),
                            z3.Implies(a == b, ma == mb),
                        ),
                    )
                )
    return out


# ---------------------------------------------------------------- instantiation
def is_app_of_interest(e):
    return z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED




def clear_memo():
    _KEEP.clear()
    _APPS.clear()
    _NORM.clear()
    _LIN.clear()
    _CANON.clear()


def norm_memo(t):
    i = t.get_id()
    r = _NORM.get(i)
    if r is None:
        r = canon(*lin_memo(t)) if z3.is_int(t) else t
        _KEEP.append(t)
        _KEEP.append(r)
        _NORM[i] = r
        _NORM[r.get_id()] = r
    return r


def apps_of(e):
    """uninterpreted applications in e, with normalised integer arguments (memoised)"""
    i = e.get_id()
    r = _APPS.get(i)
    if r is not None:
        return r
    out = {}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_quantifier(x):
            continue
        ch = x.children()
        if ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            args = tuple(norm_memo(a) if z3.is_int(a) else a for a in ch)
            nm = x.decl().name()
            key = (nm, tuple(a.get_id() for a in args))
            if key not in out:
                out[key] = (nm, args)
                _KEEP.append(args)
        st.extend(ch)
    _KEEP.append(e)
    r = tuple((k, v[0], v[1]) for k, v in out.items())
    _APPS[i] = r
    return r


class TermBank:
    def __init__(self):
        self.apps = {}  # decl name -> list of arg tuples (normalised)
        self.keys = {}  # key -> depth

    def scan(self, e, depth):
        for key, nm, args in apps_of(e):
            if key not in self.keys:
                self.keys[key] = depth
                self.apps.setdefault(nm, []).append((key, args))


def _vars_in(e, ids, memo):
    i = e.get_id()
    if i in memo:
        return memo[i]
    r = frozenset([i]) if i in ids else frozenset()
    for c in e.children():
        r = r | _vars_in(c, ids, memo)
    memo[i] = r
    return r


def subst_tree(f, pairs):
    """formula tree with the bound constants replaced (nested quantifiers share their parent's template)"""
    if isinstance(f, bool):
        return z3.BoolVal(f)
    if not isfm(f):
        return z3.substitute(f, *pairs)
    f = nnf(f)
    if isinstance(f, (FAnd, FOr)):
        return type(f)(*[subst_tree(y, pairs) for y in f.xs])
    if isinstance(f, FAll):
        if f._trig is None:
            f._trig = Tmpl(f)
        base = f._trig
        g = FAll(f.n, lambda *v: subst_tree(base.body, list(zip(base.bv, v)) + list(pairs)), f.name, f.hints, f.sort)
        g._trig = Tmpl(g, base, pairs)
        return g
    if isinstance(f, FEx):
        if f._tree is None:
            vs = [z3.Const(fresh_name("ebv"), s) for s in (f.sort or [z3.IntSort()] * f.n)]
            f._tree = (vs, nnf(f.body(*vs)))
        vs, tree = f._tree
        return FEx(f.n, lambda *v: subst_tree(tree, list(zip(vs, v)) + list(pairs)), f.name, f.sort)
    raise TypeError(f)


class Tmpl:
    """template of a universally quantified hypothesis: body over fixed bound constants, patterns, instance cache.
    Built once per FAll object and shared by all queries."""

    def __init__(self, q, base=None, pairs=()):
        self.q = q
        n = q.n
        self.sorts = q.sort or [z3.IntSort()] * n
        if base is not None:  # nested template specialised by an instance of the enclosing one
            self.bv, self.ids = base.bv, base.ids
            self.body = subst_tree(base.body, pairs)
        else:
            self.bv = [z3.Const(fresh_name("bv"), s) for s in self.sorts]
            self.ids = {v.get_id(): k for k, v in enumerate(self.bv)}
            self.body = q.body(*self.bv)
            if isfm(self.body):
                self.body = nnf(self.body)
        self.pure = not isfm(self.body) and not isinstance(self.body, bool)
        self.pats = []
        self.inst = {}
        self.matchmemo = {}
        self._collect(self.body)
        self.lead = self._lead()
    def _lead(self):
        """indices of preferred patterns: direct array reads (not recursive spec functions) binding every variable,
        taking only the arrays read at exactly the bound variable"""
        out = []
        for i, (nm, pat) in enumerate(self.pats):
            if nm in REC:
                continue
            if all(p is not None for p in pat) and all(p[0] == "v" or True for p in pat):
                bound = {p[1] for p in pat}
                if len(bound) == self.q.n:
                    out.append(i)
        if not out:
            out = list(range(len(self.pats)))
        # among them, reads at exactly the bound variable, when these bind every variable
        ex, bound = [], set()
        for i in out:
            nm, pat = self.pats[i]
            vs = [p for p in pat if p is not None]
            if vs and all(p[0] == "v" or (p[2] == 1 and z3.is_int_value(p[3]) and p[3].as_long() == 0) for p in vs):
                ex.append(i)
                bound |= {p[1] for p in vs}
        self.exact = set(ex) if len(bound) == self.q.n else set(out)
        return set(out)

    def instance(self, t):
        key = tuple(x.get_id() for x in t)
        r = self.inst.get(key)
        if r is None:
            if self.pure:
                r = z3.substitute(self.body, *[(v, x) for v, x in zip(self.bv, t)])
            else:
                r = subst_tree(self.body, [(v, x) for v, x in zip(self.bv, t)])
            self.inst[key] = r
            _KEEP.append(t)
        return r

    def _collect(self, f):
        ids = set(self.ids)
        memo = {}
        havekey = set()

        def visit_expr(e):
            for key, nm, args in apps_of(e):
                if nm in ("mul", "fdiv"):
                    continue
                vs = frozenset()
                for a in args:
                    vs = vs | _vars_in(a, ids, memo)
                if vs:
                    pat = []
                    for a in args:
                        if not z3.is_int(a):
                            pat.append(("v", self.ids[a.get_id()]) if a.get_id() in self.ids else None)
                            continue
                        d, c = lin_memo(a)
                        mine = [(i, v) for i, v in d.items() if i in self.ids]
                        if len(mine) == 1 and mine[0][1][0] in (1, -1):
                            i, (co, _) = mine[0]
                            rest = {j: v for j, v in d.items() if j != i}
                            if any(_vars_in(v[1], ids, memo) for v in rest.values()):
                                pat.append(None)
                                continue
                            pat.append(("l", self.ids[i], co, from_lin(rest, c)))
                        else:
                            pat.append(None)
                    if any(p is not None for p in pat) and key not in havekey:
                        havekey.add(key)
                        self.pats.append((nm, pat))

        def visit(f):
            if isfm(f):
                if isinstance(f, (FAnd, FOr)):
                    for y in f.xs:
                        visit(nnf(y) if isfm(y) else y)
                elif isinstance(f, (FAll, FEx)):
                    sorts = f.sort or [z3.IntSort()] * f.n
                    vs = [z3.Const(fresh_name("nbv"), s) for s in sorts]
                    visit(nnf(f.body(*vs)))
            elif isinstance(f, bool):
                pass
            else:
                visit_expr(f)

        visit(f)

    def match(self, pi, key, args):
        mk = (pi, key)
        if mk in self.matchmemo:
            return self.matchmemo[mk]
        b = {}
        for p, g in zip(self.pats[pi][1], args):
            if p is None:
                continue
            if p[0] == "v":
                b.setdefault(p[1], g)
            else:
                _, k, co, rest = p
                if k not in b:
                    b[k] = lin_sub(g, rest) if co == 1 else lin_sub(rest, g)
        self.matchmemo[mk] = b
        return b


def build(hyps, goal, rounds=3, cap=6000, extra_terms=(), firstpat=False):
    """ground formula list whose unsatisfiability proves hyps |- goal"""
    ground = []
    insts = []  # [tmpl, guard, done]
    bank = TermBank()
    count = [0]
    skolems = [] if firstpat == "exact" else [t for t in extra_terms]

    def add(f, guard, depth):
        """assert  guard -> f"""
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if isfm(f):
            f = nnf(f)
        if not isfm(f):
            if z3.is_true(f):
                return
            ground.append(f if guard is None else z3.Implies(guard, f))
            bank.scan(f, depth)
            return
        if isinstance(f, FAnd):
            for y in f.xs:
                add(y, guard, depth)
        elif isinstance(f, FOr):
            lits = []
            for y in f.xs:
                if isfm(y):
                    y = nnf(y)
                if isfm(y):
                    p = z3.Bool(fresh_name("p"))
                    lits.append(p)
                    add(y, p, depth)
                else:
                    lits.append(z3.BoolVal(y) if isinstance(y, bool) else y)
            o = z3.Or(*lits)
            ground.append(o if guard is None else z3.Implies(guard, o))
            bank.scan(o, depth)
        elif isinstance(f, FEx):
            sorts = f.sort or [z3.IntSort()] * f.n
            sk = [z3.Const(fresh_name("sk_" + f.name), s) for s in sorts]
            for s in sk:
                if z3.is_int(s):
                    skolems.append(s)
            add(f.body(*sk), guard, depth)
        elif isinstance(f, FAll):
            if f._trig is None:
                f._trig = Tmpl(f)
            insts.append((f._trig, guard, set()))
        else:
            raise TypeError(f)

    for h in hyps:
        add(h, None, 0)
    if goal is not None:
        add(f_not(goal), None, 0)
    axdone = set()
    muldone = set()
    tstop = time.time() + BUILD_LIMIT
    for r in range(rounds):
        progress = False
        for name in list(bank.apps):
            rd = REC.get(name)
            axs = GLOBAL_AX.get(name, ())
            if rd is None and not axs or time.time() > tstop:
                continue
            for key, args in list(bank.apps[name]):
                if key in axdone:
                    continue
                d = bank.keys[key]
                if rd is not None and d <= rd.maxdepth:
                    add(rd.unfold(key, args), None, d + 1)
                for ax in axs:
                    add(ax(*args), None, d)
                axdone.add(key)
                progress = True
        ma = [a for _, a in bank.apps.get("mul", [])]
        if len(ma) <= 60:
            for i in range(len(ma)):
                for j in range(i):
                    k = (i, j)
                    if k in muldone:
                        continue
                    muldone.add(k)
                    for f in mul_pairs([ma[i], ma[j]]):
                        add(f, None, 0)
        for tm, guard, done in list(insts):
            n = tm.q.n
            pervar = [dict() for _ in range(n)]
            full = []
            for pi, (name, pat) in enumerate(tm.pats):
                if firstpat and pi not in (tm.lead if firstpat is True else tm.exact):
                    continue
                for key, args in bank.apps.get(name, ()):
                    if len(args) != len(pat):
                        continue
                    b = tm.match(pi, key, args)
                    if len(b) == n:
                        full.append(tuple(b[k] for k in range(n)))
                    else:
                        for k, t in b.items():
                            pervar[k][t.get_id()] = t
            for s in list(tm.q.hints or ()) + skolems:
                for k in range(n):
                    if tm.sorts[k] == s.sort():
                        pervar[k][s.get_id()] = s
            if n == 1:
                full += [(t,) for t in pervar[0].values()]
            else:
                for f in full[:40]:
                    for k in range(n):
                        pervar[k][f[k].get_id()] = f[k]
                if all(pervar):
                    tot = 1
                    for p in pervar:
                        tot *= len(p)
                    if tot <= 900:
                        full += list(itertools.product(*[list(p.values()) for p in pervar]))
            for t in full:
                key = tuple(x.get_id() for x in t)
                if key in done:
                    continue
                done.add(key)
                if count[0] >= cap or time.time() > tstop:
                    break
                count[0] += 1
                progress = True
                add(tm.instance(t), guard, 1)
        if not progress:
            break
    return ground


class Result:
    def __init__(self, status, model=None, backend=None, t=0.0, reason="", ground=None):
        self.status, self.model, self.backend, self.t, self.reason = status, model, backend, t, reason
        self.ground = ground


def _cvc5(ground, timeout):
    s = z3.Solver()
    for g in ground:
        s.add(g)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        out = subprocess.run(
            ["cvc5", f"--tlimit={int(timeout*1000)}", f.name], capture_output=True, text=True, timeout=timeout + 5
        ).stdout
    except Exception as e:  # noqa
        out = str(e)
    finally:
        os.unlink(f.name)
    return out.strip().split("\n")[0] if out.strip() else "unknown"


TSCALE = 1.0  # multiplies every solver time limit (a failed contract is retried with larger limits)


def prove(hyps, goal, timeout=10.0, rounds=3, use_cvc5=True, cap=6000, extra_terms=(), maxstage=9):
    t0 = time.time()
    timeout *= TSCALE
    STATS["queries"] += 1
    if isinstance(goal, bool) and goal:
        return Result("proved", backend="trivial")
    last = None
    easy = not isfm(goal) and not isinstance(goal, bool) and not apps_of(goal)
    stages = [(1, True)] + ([(2, "exact")] if rounds >= 2 else []) + ([(XR, "exact")] if XR and rounds >= 2 else []) + ([(2, False)] if rounds >= 2 else []) + ([(rounds, False)] if rounds > 2 and not easy else [])
    stages = stages[:maxstage]
    for si, (rr, fp) in enumerate(stages):
        final = si == len(stages) - 1
        ground = build(hyps, goal, rr, cap, extra_terms, fp)
        if last is not None and last.ground is not None and len(last.ground) == len(ground) and last.status == "sat":
            continue  # nothing new was instantiated
        tb = time.time() - t0
        s = z3.Solver()
        s.set("timeout", int(timeout * (1000 if final else 400)))
        for g in ground:
            s.add(g)
        r = s.check()
        if SLOW and time.time() - t0 > SLOW:
            print(f"   slow query: stage {si} build {tb:.1f}s total {time.time()-t0:.1f}s ground={len(ground)} {r} {str(goal)[:80]!r}", flush=True)
        if r == z3.unsat:
            STATS["z3_unsat"] += 1
            STATS["time"] += time.time() - t0
            return Result("proved", backend="z3", t=time.time() - t0)
        if r == z3.sat:
            last = Result("sat", model=s.model(), backend="z3", ground=ground)
        else:
            last = Result("unknown", backend="z3", reason=s.reason_unknown(), ground=ground)
            if use_cvc5 and final:
                o = _cvc5(ground, timeout)
                if o == "unsat":
                    STATS["cvc5_unsat"] += 1
                    STATS["time"] += time.time() - t0
                    return Result("proved", backend="cvc5", t=time.time() - t0)
                if o == "sat":
                    last = Result("sat", backend="cvc5", ground=ground)
    STATS["sat" if last.status == "sat" else "unknown"] += 1
    last.t = time.time() - t0
    STATS["time"] += last.t
    return last


def satisfiable(hyps, timeout=3.0, rounds=2):
    """False only when the hypotheses are contradictory (used for path pruning and vacuity)"""
    ground = build(hyps, None, rounds, 1500)
    s = z3.Solver()
    s.set("timeout", int(timeout * TSCALE * 1000))
    for g in ground:
        s.add(g)
    return s.check() != z3.unsat


reset()
