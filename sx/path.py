"""Path exploration, axioms for transcendental functions and solver queries."""
from __future__ import annotations

import math
import time
from fractions import Fraction

from . import core
from .core import (CUR, EngineError, PathAbort, Sym, SymBool, const_val, frac,
                   rv, z3, zbool)


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.validated = 0
        self.cut = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


STATS = Stats()


def vars_of(e, cache):
    """Set of names of uninterpreted constants in e."""
    i = e.get_id()
    r = cache.get(i)
    if r is not None:
        return r[1]
    stack = [e]
    seen = set()
    out = set()
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        hit = cache.get(k)
        if hit is not None:
            out |= hit[1]
            continue
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
        else:
            stack.extend(t.children())
    out = frozenset(out)
    cache[i] = (e, out)
    return out


def term_size(e, cap=60):
    n, st = 0, [e]
    while st and n < cap:
        t = st.pop()
        n += 1
        st.extend(t.children())
    return n


def to_frac(v):
    if v is None:
        return None
    if z3.is_rational_value(v) or z3.is_int_value(v):
        return const_val(v)
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


class Ctx:
    """State of one path."""

    def __init__(self, prefix, opts):
        self.prefix = list(prefix)
        self.taken = []              # list of bool
        self.alternatives = []       # prefixes to explore
        self.cons = []               # assumptions + path condition (z3 Bools)
        self.inputs = {}             # name -> (z3 const, kind)
        self.apps = {}               # fname -> list of (args, result const)
        self.appkey = {}
        self.log_arg = {}
        self.sech_sq = {}
        self.sech_var = {}
        self.numeric = []            # extra lemmas from refinement
        self.opts = opts
        self.vc = {}
        self._fresh = 0
        self._sv = z3.Solver()
        self._sv.set("timeout", opts.get("feas_ms", 1500))
        self._axiom_done = {}
        self._keep = []
        self.obs = []
        self.poscache = {}

    # ---- inputs -----------------------------------------------------------
    def fresh(self, base, sort="real"):
        self._fresh += 1
        n = f"{base}!{self._fresh}"
        return z3.Int(n) if sort == "int" else z3.Real(n)

    def real_in(self, name):
        v = z3.Real(name)
        self.inputs[name] = (v, "real")
        return v

    def int_in(self, name):
        v = z3.Int(name)
        self.inputs[name] = (v, "int")
        return v

    def bool_in(self, name):
        v = z3.Bool(name)
        self.inputs[name] = (v, "bool")
        return v

    def assume(self, c):
        if isinstance(c, (bool,)) or type(c).__name__ == "bool_":
            if not c:
                raise PathAbort()
            return
        e = zbool(c)
        self.cons.append(e)
        self._sv.add(e)

    # ---- function applications -------------------------------------------
    def app(self, name, args):
        args = tuple(z3.simplify(a) for a in args)
        canon = tuple(z3.simplify(a, som=True) if term_size(a) < 60 else a for a in args)
        key = (name,) + tuple(a.get_id() for a in canon)
        self._keep.append(canon)
        hit = self.appkey.get(key)
        if hit is not None:
            return hit
        r = self.fresh(f"{name}")
        self._keep.append(args)
        self.appkey[key] = r
        self.apps.setdefault(name, []).append((args, r))
        for ax in unary_axioms(self, name, args, r):
            self._sv.add(ax)
        if name == "log":
            # log(a)=r  <=>  exp(r)=a : share the exp table
            self.apps.setdefault("exp", []).append(((r,), args[0]))
        return r

    # ---- decisions --------------------------------------------------------
    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.taken)
        if i >= self.opts.get("max_decisions", 400):
            raise EngineError("decision bound exceeded on one path")
        if i < len(self.prefix):
            b = self.prefix[i]
        else:
            STATS.decisions += 1
            t = self._feasible(e)
            f = self._feasible(z3.Not(e)) if t else True
            if t and f:
                b = True
                self.alternatives.append(self.taken + [False])
            elif t:
                b = True
            else:
                b = False
        self.taken.append(b)
        c = e if b else z3.Not(e)
        self.cons.append(c)
        self._sv.add(c)
        return b

    def _feasible(self, e):
        t0 = time.time()
        self._sv.push()
        self._sv.add(e)
        for ax in self.pair_axioms(limit=60):
            self._sv.add(ax)
        r = self._sv.check()
        self._sv.pop()
        STATS.queries += 1
        STATS.solver_s += time.time() - t0
        if r == z3.unsat:
            STATS.unsat += 1
            return False
        if r == z3.sat:
            STATS.sat += 1
        else:
            STATS.unknown += 1
        return True

    def enumerate_int(self, s, bound=4096):
        """Fork over the feasible values of a symbolic integer."""
        if not isinstance(s, Sym):
            return int(s)
        if s.nan is not None:
            if self.decide(s.nan):
                raise ValueError("cannot convert float NaN to integer")
        e = s.e if z3.is_int(s.e) else z3.ToInt(s.e)
        ec = const_val(z3.simplify(e))
        if ec is not None:
            return int(ec)
        for _ in range(bound):
            i = len(self.taken)
            if i < len(self.prefix):
                v, b = self.prefix[i]
            else:
                self._sv.push()
                r = self._sv.check()
                if r != z3.sat:
                    self._sv.pop()
                    if r == z3.unsat:
                        raise PathAbort()
                    raise EngineError("cannot enumerate a symbolic integer")
                v = self._sv.model().eval(e, model_completion=True).as_long()
                self._sv.pop()
                STATS.decisions += 1
                b = True
                if self._feasible(e != v):
                    self.alternatives.append(self.taken + [(v, False)])
            self.taken.append((v, b))
            c = (e == v) if b else (e != v)
            self.cons.append(c)
            self._sv.add(c)
            if b:
                return v
        raise EngineError("too many integer values")

    def known(self, e):
        """True only if e follows (cheaply) from what is assumed so far."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = (e.get_id(), len(self.cons))
        if k in self.poscache:
            return self.poscache[k]
        t0 = time.time()
        sub = self.relevant(z3.Not(e), self.cons + self.all_unary())
        s = z3.Solver()
        s.set("timeout", self.opts.get("known_ms", 300))
        s.add(*sub)
        s.add(z3.Not(e))
        r = s.check()
        STATS.queries += 1
        STATS.solver_s += time.time() - t0
        self._keep.append(e)
        self.poscache[k] = (r == z3.unsat)
        return r == z3.unsat

    def known_nonzero(self, e):
        v = const_val(z3.simplify(e))
        return v != 0 if v is not None else self.known(e != 0)

    def known_pos(self, e):
        v = const_val(z3.simplify(e))
        return v > 0 if v is not None else self.known(e > 0)

    def known_nonneg(self, e):
        v = const_val(z3.simplify(e))
        return v >= 0 if v is not None else self.known(e >= 0)

    # ---- axioms -----------------------------------------------------------
    def all_unary(self):
        out = []
        for name, lst in self.apps.items():
            for args, r in lst:
                out.extend(unary_axioms(self, name, args, r))
        return out

    def pair_axioms(self, limit=10 ** 9):
        out = []
        for name, lst in self.apps.items():
            n = 0
            for i in range(len(lst)):
                for j in range(i):
                    out.extend(pair_axioms(name, lst[j], lst[i]))
                    n += 1
                    if n > limit:
                        break
                if n > limit:
                    break
        th = self.apps.get("tanh", [])
        for (a,), r in self.apps.get("sech", []):
            q = self.sech_sq.get(r.get_id())
            if q is not None:
                out.append(r * r == q)
        ex = self.apps.get("exp", [])
        for (a,), r in ex:
            for (b,), t in th:
                # e^{2b}(1-t) = 1+t ; also for exp(-2b)
                d = z3.simplify(a - 2 * b)
                if const_val(d) == 0:
                    out.append(r * (1 - t) == 1 + t)
                d = z3.simplify(a + 2 * b)
                if const_val(d) == 0:
                    out.append(r * (1 + t) == 1 - t)
        return out + self.numeric

    def relevant(self, goal, cons):
        """Cone of influence: constraints connected to the goal by shared variables."""
        vs = set(vars_of(goal, self.vc))
        # applications tie results to arguments
        pend = [(c, vars_of(c, self.vc)) for c in cons]
        out = []
        changed = True
        while changed and pend:
            changed = False
            rest = []
            for c, cv in pend:
                if not cv or (cv & vs):
                    out.append(c)
                    if cv - vs:
                        vs |= cv
                        changed = True
                else:
                    rest.append((c, cv))
            pend = rest
        return out

    # ---- queries ----------------------------------------------------------
    def query(self, neg, budget_s=20.0, use_relevant=True, extra=()):
        """Is `neg` satisfiable with everything assumed?  -> ('unsat'|'sat'|'unknown', model dict)."""
        cons = self.cons + self.all_unary() + self.pair_axioms() + list(extra)
        sub = self.relevant(neg, cons) if use_relevant else cons
        r, m = solve(sub + [neg], budget_s)
        if r == "sat" and len(sub) != len(cons):
            r2, m2 = solve(cons + [neg], budget_s)
            if r2 == "sat":
                return r2, m2
            if r2 == "unsat":
                return r2, None
            # the full system is undecided: keep the partial model, completed by the rest
            sol = z3.Solver()
            sol.set("timeout", 5000)
            rest = [c for c in cons if not any(c.eq(d) for d in sub)]
            sol.add(*rest)
            if sol.check() == z3.sat:
                return "sat", MergedModel(m, sol.model(), vars_in(sub, self.vc))
            return "unknown", None
        return r, m

    def input_values(self, model):
        out = {}
        for n, (v, kind) in self.inputs.items():
            val = model.eval(v, model_completion=True)
            if kind == "bool":
                out[n] = bool(z3.is_true(val))
            elif kind == "int":
                out[n] = val.as_long()
            else:
                f = to_frac(val)
                out[n] = f if f is not None else Fraction(0)
        return out


def vars_in(cs, cache):
    out = set()
    for c in cs:
        out |= vars_of(c, cache)
    return out


class MergedModel:
    def __init__(self, a, b, avars):
        self.a, self.b, self.avars = a, b, avars

    def eval(self, v, model_completion=True):
        if v.decl().name() in self.avars:
            return self.a.eval(v, model_completion=True)
        return self.b.eval(v, model_completion=True)


def _try(solver, cons, ms):
    solver.set("timeout", int(ms))
    solver.add(*cons)
    r = solver.check()
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", solver.model()
    return "unknown", None


def solve(cons, budget_s):
    t0 = time.time()
    STATS.queries += 1
    res = ("unknown", None)
    smt = lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "smt").solver()  # noqa: E731
    plan = [(lambda: z3.Solver(), 0.05), (smt, 0.1), (lambda: z3.SolverFor("QF_NRA"), 0.25),
            (smt, 0.25), (lambda: z3.Solver(), 0.35)]
    for mkf, share in plan:
        try:
            res = _try(mkf(), cons, max(200, 1000 * budget_s * share))
        except z3.Z3Exception:
            res = ("unknown", None)
        if res[0] != "unknown":
            break
    if res[0] == "unknown":
        r = cvc5_unsat(cons, budget_s * 0.5)
        if r == "unsat":
            res = ("unsat", None)
    STATS.solver_s += time.time() - t0
    if res[0] == "unsat":
        STATS.unsat += 1
    elif res[0] == "sat":
        STATS.sat += 1
    else:
        STATS.unknown += 1
    return res


def cvc5_unsat(cons, budget_s):
    """Second opinion: ask cvc5 whether the constraints are unsatisfiable."""
    try:
        import cvc5
    except Exception:
        return "unknown"
    try:
        s = z3.Solver()
        s.add(*cons)
        text = s.to_smt2()
        tm = cvc5.TermManager()
        sl = cvc5.Solver(tm)
        sl.setOption("tlimit-per", str(int(budget_s * 1000)))
        sl.setOption("nl-ext-tplanes", "true")
        sl.setLogic("QF_NIRA" if "Int" in text else "QF_NRA")
        p = cvc5.InputParser(sl)
        body = "\n".join(ln for ln in text.splitlines() if not ln.startswith("(set-info") and "(set-logic" not in ln)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, body, "q")
        sm = p.getSymbolManager()
        out = ""
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out += str(cmd.invoke(sl, sm))
        if "error" in out:
            return "unknown"
        return "unsat" if "unsat" in out else "unknown"
    except Exception:
        return "unknown"


# --------------------------------------------------------------------------
# axioms: every one is a theorem about the real function
# --------------------------------------------------------------------------
def unary_axioms(c, name, args, r):
    key = (name, r.get_id())
    hit = c._axiom_done.get(key)
    if hit is not None:
        return hit
    x = args[0]
    o = []
    if name == "tanh":
        o = [r < 1, r > -1, z3.Implies(x == 0, r == 0),
             z3.Implies(x > 0, z3.And(r > 0, r < x)),
             z3.Implies(x < 0, z3.And(r < 0, r > x)),
             # tanh x >= x/(1+x) for x>=0 ; tanh x <= x/(1-x) for x<=0
             z3.Implies(x >= 0, r * (1 + x) >= x), z3.Implies(x <= 0, r * (1 - x) <= x)]
    elif name == "sech":
        o = [r > 0, r <= 1, z3.Implies(x == 0, r == 1), z3.Implies(x != 0, r < 1), r * (2 + x * x) <= 2]
    elif name == "cosh":
        o = [r >= 1, z3.Implies(x == 0, r == 1), z3.Implies(x != 0, r > 1), 2 * r >= 2 + x * x]
    elif name == "exp":
        o = [r > 0, r >= 1 + x, z3.Implies(x == 0, r == 1), z3.Implies(x < 0, r < 1),
             z3.Implies(x > 0, r > 1), r * (1 - x) <= 1]
    elif name == "log":
        o = [z3.Implies(x > 0, r <= x - 1), z3.Implies(x > 1, r > 0), z3.Implies(x == 1, r == 0),
             z3.Implies(z3.And(x > 0, x < 1), r < 0), z3.Implies(x > 0, r * x >= x - 1)]
    elif name == "sqrt":
        o = [z3.Implies(x >= 0, z3.And(r >= 0, r * r == x))]
    elif name == "pow":
        p = args[1]
        pos = x > 0
        o = [z3.Implies(pos, r > 0),
             z3.Implies(z3.And(x == 0, p > 0), r == 0),
             z3.Implies(z3.And(x >= 0, p == 0), r == 1),
             z3.Implies(x == 1, r == 1),
             z3.Implies(p == 1, r == x),
             z3.Implies(p == 2, r == x * x),
             z3.Implies(z3.And(pos, x < 1, p > 1), r < x),
             z3.Implies(z3.And(pos, x < 1, p > 0, p < 1), z3.And(r > x, r < 1)),
             z3.Implies(z3.And(pos, x < 1, p > 0), r < 1),
             z3.Implies(z3.And(pos, x < 1, p < 0), r > 1),
             z3.Implies(z3.And(x > 1, p > 1), r > x),
             z3.Implies(z3.And(x > 1, p > 0, p < 1), z3.And(r < x, r > 1)),
             z3.Implies(z3.And(x > 1, p > 0), r > 1),
             z3.Implies(z3.And(x > 1, p < 0), r < 1),
             # Bernoulli
             z3.Implies(z3.And(pos, p >= 1), r >= 1 + p * (x - 1)),
             z3.Implies(z3.And(pos, p >= 0, p <= 1), r <= 1 + p * (x - 1))]
    c._axiom_done[key] = o
    return o


def pair_axioms(name, A, B):
    (aargs, ra), (bargs, rb) = A, B
    x, y = aargs[0], bargs[0]
    if name in ("tanh", "exp"):
        o = [z3.Implies(x < y, ra < rb), z3.Implies(x > y, ra > rb), z3.Implies(x == y, ra == rb)]
        if name == "tanh":
            o += [z3.Implies(x + y == 0, ra + rb == 0), z3.Implies(x + y > 0, ra + rb > 0),
                  z3.Implies(x + y < 0, ra + rb < 0),
                  # 1-Lipschitz
                  z3.Implies(x <= y, rb - ra <= y - x), z3.Implies(y <= x, ra - rb <= x - y)]
        else:
            o += [z3.Implies(x + y == 0, ra * rb == 1), z3.Implies(x + y > 0, ra * rb > 1),
                  z3.Implies(x + y < 0, ra * rb < 1)]
        return o
    if name == "log":
        return [z3.Implies(z3.And(x > 0, y > 0, x < y), ra < rb), z3.Implies(z3.And(x > 0, y > 0, x > y), ra > rb),
                z3.Implies(x == y, ra == rb)]
    if name == "sqrt":
        return [z3.Implies(x == y, ra == rb)]
    if name in ("cosh", "sech"):
        return [z3.Implies(x == y, ra == rb), z3.Implies(x + y == 0, ra == rb)]
    if name == "pow":
        p, q = aargs[1], bargs[1]
        o = [z3.Implies(z3.And(x == y, p == q), ra == rb)]
        d = const_val(z3.simplify(p - q))
        same = x.eq(y)
        if d is not None and d == 0:
            o += [z3.Implies(z3.And(x >= 0, x < y, p > 0), ra < rb),
                  z3.Implies(z3.And(y >= 0, y < x, p > 0), rb < ra),
                  z3.Implies(z3.And(x > 0, x < y, p < 0), ra > rb),
                  z3.Implies(z3.And(y > 0, y < x, p < 0), rb > ra)]
        elif d is not None and d.denominator == 1 and abs(d) <= 3:
            # x^p = x^q * x^d
            k = int(abs(d))
            m = x
            for _ in range(k - 1):
                m = m * x
            if d > 0:
                o.append(z3.Implies(z3.And(x == y, x > 0), ra == rb * m))
            else:
                o.append(z3.Implies(z3.And(x == y, x > 0), rb == ra * m))
        if same and d != 0:
            o += [z3.Implies(z3.And(x > 0, x < 1, p < q), ra > rb), z3.Implies(z3.And(x > 0, x < 1, p > q), ra < rb),
                  z3.Implies(z3.And(x > 1, p < q), ra < rb), z3.Implies(z3.And(x > 1, p > q), ra > rb)]
        return o
    return []


FN = {"tanh": math.tanh, "exp": math.exp, "log": math.log, "sqrt": math.sqrt, "cosh": math.cosh, "sech": lambda v: 1.0 / math.cosh(v)}
_EPS = Fraction(1, 10 ** 13)


def numeric_lemmas(c, model):
    """Refinement: true bounds of each function at the model's arguments (monotone extension)."""
    out = []
    for name, lst in c.apps.items():
        for args, r in lst:
            try:
                vals = [to_frac(model.eval(a, model_completion=True)) for a in args]
                if any(v is None for v in vals):
                    continue
                if name == "pow":
                    a, p = float(vals[0]), float(vals[1])
                    if a <= 0:
                        continue
                    f = Fraction(a ** p)
                    w = abs(f) * _EPS * 10 + Fraction(1, 10 ** 300)
                    A, P = rv(Fraction(a)), rv(Fraction(p))
                    x, q = args
                    if a <= 1:
                        out.append(z3.Implies(z3.And(x > 0, x <= A, q >= P, P >= 0), r <= rv(f + w)))
                        out.append(z3.Implies(z3.And(x >= A, x > 0, q <= P, q >= 0), r >= rv(f - w)))
                    out.append(z3.Implies(z3.And(x == A, q == P), z3.And(r <= rv(f + w), r >= rv(f - w))))
                    if p >= 0:
                        out.append(z3.Implies(z3.And(x > 0, x <= A, q == P), r <= rv(f + w)))
                        out.append(z3.Implies(z3.And(x >= A, q == P), r >= rv(f - w)))
                    continue
                a = float(vals[0])
                if name in ("log",) and a <= 0:
                    continue
                if name == "sqrt":
                    continue
                if name == "exp" and abs(a) > 600 or name in ("cosh", "sech") and abs(a) > 600:
                    continue
                f = Fraction(FN[name](a))
                w = abs(f) * _EPS + Fraction(1, 10 ** 300)
                A = rv(Fraction(a))
                x = args[0]
                if name in ("cosh", "sech"):
                    out.append(z3.Implies(x == A, z3.And(r <= rv(f + w), r >= rv(f - w))))
                    continue
                dom = z3.BoolVal(True) if name != "log" else x > 0
                # Fraction(a) == args exactly enough: a is within rounding of the model value
                out.append(z3.Implies(z3.And(dom, x <= A), r <= rv(f + w)))
                out.append(z3.Implies(z3.And(dom, x >= A), r >= rv(f - w)))
                # tangent / concavity lemmas
                if name == "exp":
                    out.append(r >= rv(f - w) * (1 + x - A))
            except (OverflowError, ZeroDivisionError, ValueError):
                continue
    return out
