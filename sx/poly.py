"""Deciding polynomial statements by monomial abstraction.

Every nonlinear monomial becomes a fresh real variable, shared between assumptions and goal and bounded by
interval arithmetic on its factors.  The abstraction has more models than the original, so unsat is sound.
"""
from __future__ import annotations

import time
from fractions import Fraction

from .core import const_val, rv, z3
from .path import STATS

ADD, SUB, MUL, UMINUS = z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS
CMP = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}
MAXM = 60000
NOISE = Fraction(1, 10 ** 12)


class TooBig(Exception):
    pass


class Poly:
    """Polynomials over the atoms (non-polynomial subterms) of one path."""

    def __init__(self):
        self.memo = {}
        self.atoms = {}
        self.keep = []

    def atom(self, e):
        i = e.get_id()
        if i not in self.atoms:
            self.atoms[i] = e
        return i

    def of(self, e):
        i = e.get_id()
        hit = self.memo.get(i)
        if hit is not None:
            return hit
        out = {}
        st = [(e, Fraction(1))]
        while st:
            t, k = st.pop()
            c = const_val(t)
            if c is not None:
                out[()] = out.get((), 0) + k * c
                continue
            kind = t.decl().kind()
            if kind == ADD:
                st.extend((x, k) for x in t.children())
            elif kind == SUB:
                ch = t.children()
                st.append((ch[0], k))
                st.extend((x, -k) for x in ch[1:])
            elif kind == UMINUS:
                st.append((t.arg(0), -k))
            elif kind == z3.Z3_OP_TO_REAL:
                st.append((t.arg(0), k))
            elif kind == MUL:
                rest = []
                for x in t.children():
                    c = const_val(x)
                    if c is not None:
                        k = k * c
                    else:
                        rest.append(x)
                if k == 0:
                    continue
                if len(rest) == 1:
                    st.append((rest[0], k))
                else:
                    p = {(): k}
                    for x in rest:
                        p = self.mul(p, self.of(x))
                    for m, v in p.items():
                        out[m] = out.get(m, 0) + v
            elif kind == z3.Z3_OP_POWER and const_val(t.arg(1)) is not None \
                    and const_val(t.arg(1)).denominator == 1 and 0 <= const_val(t.arg(1)) <= 6:
                p = {(): k}
                for _ in range(int(const_val(t.arg(1)))):
                    p = self.mul(p, self.of(t.arg(0)))
                for m, v in p.items():
                    out[m] = out.get(m, 0) + v
            else:
                m = (self.atom(t),)
                out[m] = out.get(m, 0) + k
            if len(out) > MAXM:
                raise TooBig()
        out = {m: v for m, v in out.items() if v != 0}
        self.memo[i] = out
        self.keep.append(e)
        return out

    def mul(self, p, q):
        out = {}
        for a, x in p.items():
            for b, y in q.items():
                m = tuple(sorted(a + b)) if a and b else a + b
                out[m] = out.get(m, 0) + x * y
        if len(out) > MAXM:
            raise TooBig()
        return out


class Abstraction:
    def __init__(self, ctx):
        if not hasattr(ctx, "_poly"):
            ctx._poly = Poly()
            ctx._absmemo = {}
            ctx._bounds = ({}, 0)
            ctx._trs = {}
        self.ctx = ctx
        self.P = ctx._poly
        self.monos = {}
        self.noise = []

    # ---- variable bounds from simple assumptions ---------------------------
    def bounds(self):
        b, n = self.ctx._bounds
        cons = self.ctx.cons
        for c in cons[n:]:
            st = [c]
            while st:
                t = st.pop()
                if z3.is_and(t):
                    st.extend(t.children())
                    continue
                if not z3.is_app(t) or t.decl().kind() not in CMP or not z3.is_arith(t.arg(0)):
                    continue
                op = CMP[t.decl().kind()]
                try:
                    p = self._diff(t)
                except TooBig:
                    continue
                ms = [m for m in p if m]
                if len(ms) != 1 or len(ms[0]) != 1:
                    continue
                k, c0 = p[ms[0]], p.get((), Fraction(0))
                v = -c0 / k
                lo, hi = b.get(ms[0][0], (None, None))
                up = (op in ("<=", "<")) == (k > 0)
                if op == "==":
                    lo = hi = v
                elif up:
                    hi = v if hi is None else min(hi, v)
                else:
                    lo = v if lo is None else max(lo, v)
                b[ms[0][0]] = (lo, hi)
        self.ctx._bounds = (b, len(cons))
        return b

    def _diff(self, t):
        i = ("d", t.get_id())
        if i in self.ctx._absmemo:
            return self.ctx._absmemo[i]
        p = dict(self.P.of(t.arg(0)))
        for m, v in self.P.of(t.arg(1)).items():
            p[m] = p.get(m, 0) - v
        p = {m: v for m, v in p.items() if v != 0}
        self.ctx._absmemo[i] = p
        self.ctx._keep.append(t)
        return p

    def var(self, m):
        if len(m) == 1:
            e = self.P.atoms[m[0]]
            self.monos.setdefault(m, e if z3.is_real(e) else z3.ToReal(e))
        elif m not in self.monos:
            self.monos[m] = z3.Real("mono!" + "_".join(map(str, m)))
        return self.monos[m]

    def lin(self, p):
        """Linear form over monomials. Coefficients that differ from a short fraction (or zero) by rounding noise are
        replaced by it, the difference being covered by one bounded variable: an over-approximation either way."""
        b = self.bounds()
        xs, slack = [], Fraction(0)
        for m, v in p.items():
            if not m:
                xs.append(rv(v))
                continue
            lo, hi = self.range_of(m, b)
            if lo is not None:
                near = v.limit_denominator(10 ** 5)
                err = abs(v - near) * max(abs(lo), abs(hi))
                if err <= NOISE:
                    slack += err
                    v = near
                    if v == 0:
                        continue
            xs.append(rv(v) * self.var(m))
        if slack:
            # a short upper bound of the slack
            slack = Fraction(int(slack * 10 ** 18) + 1, 10 ** 18)
            self.ctx._noise_n = getattr(self.ctx, "_noise_n", 0) + 1
            n = z3.Real(f"noise!{self.ctx._noise_n}")
            self.noise += [n >= rv(-slack), n <= rv(slack)]
            xs.append(n)
        return z3.Sum(xs) if xs else rv(0)

    def tr(self, t):
        """Translate a Boolean term; None where it cannot be (an assumption is then dropped)."""
        if z3.is_true(t) or z3.is_false(t):
            return t
        k = t.decl().kind()
        if k in CMP and z3.is_arith(t.arg(0)):
            try:
                e = self.lin(self._diff(t))
            except TooBig:
                return None
            op = CMP[k]
            return {"<=": e <= 0, "<": e < 0, ">=": e >= 0, ">": e > 0, "==": e == 0}[op]
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) \
                or k == z3.Z3_OP_EQ and z3.is_bool(t.arg(0)):
            ch = [self.tr(x) for x in t.children()]
            if any(x is None for x in ch):
                return None
            return {z3.Z3_OP_AND: lambda: z3.And(*ch), z3.Z3_OP_OR: lambda: z3.Or(*ch),
                    z3.Z3_OP_NOT: lambda: z3.Not(ch[0]), z3.Z3_OP_IMPLIES: lambda: z3.Implies(*ch),
                    z3.Z3_OP_XOR: lambda: z3.Xor(*ch), z3.Z3_OP_EQ: lambda: ch[0] == ch[1]}[k]()
        if z3.is_const(t):
            return t
        return None

    def range_of(self, m, b):
        lo, hi = Fraction(1), Fraction(1)
        for a in sorted(set(m)):
            n = m.count(a)
            l, h = b.get(a, (None, None))
            if l is None or h is None:
                return None, None
            ps = [l ** n, h ** n]
            pl, ph = min(ps), max(ps)
            if n % 2 == 0 and l < 0 < h:
                pl = Fraction(0)
            c = [lo * pl, lo * ph, hi * pl, hi * ph]
            lo, hi = min(c), max(c)
        return lo, hi

    def mono_bounds(self):
        b = self.bounds()
        out = list(self.noise)
        for m, v in self.monos.items():
            lo, hi = self.range_of(m, b)
            if lo is None:
                if len(m) > 1 and all(m.count(a) % 2 == 0 for a in set(m)):
                    out.append(v >= 0)
                continue
            out.append(v >= rv(lo))
            out.append(v <= rv(hi))
        return out


def decide(ctx, neg, budget_s):
    """'unsat' if the abstraction refutes neg, else ('unknown', model of the abstraction or None)."""
    t0 = time.time()
    try:
        A = Abstraction(ctx)
        g = A.tr(neg)
        if g is None:
            return "unknown", None
        gm = set(A.monos)
        STATS.queries += 1
        # the goal with its own bounds; then with the assumptions mostly over its monomials; with those sharing one;
        # with all of them (fewer assumptions only make 'unsat' harder, so each stage is sound by itself)
        cons = ctx.cons + ctx.all_unary()
        near = []
        for c in cons:
            hit = ctx._trs.get(c.get_id())
            if hit is None:
                B = Abstraction(ctx)
                hit = ctx._trs[c.get_id()] = (B.tr(c), B, c)
            e, B, _ = hit
            if e is not None:
                ms = {m for m in B.monos if m}
                sh = len(ms & gm)
                near.append((max(sh / max(1, len(ms)), sh / max(1, len(gm - {()}))), e, B))
        near.sort(key=lambda x: -x[0])
        wide = [x for x in near if x[0] >= 0.9 and len(x[2].monos) > 1][:6]
        stages = [[]] + [[x] for x in wide] + [[x for x in near if x[0] >= level] for level in (0.9, 0.5, 1e-9, 0.0)]
        tried = set()
        for n, stage in enumerate(stages):
            key = tuple(id(x[2]) for x in stage)
            left = budget_s - (time.time() - t0)
            if key in tried or left < 0.2 and n:
                continue
            tried.add(key)
            left = max(0.5, left)
            last = n == len(stages) - 1
            box = {}
            for B in [A] + [x[2] for x in stage]:
                for e in B.mono_bounds():
                    box[e.get_id()] = e
            for make, most in ((lambda: z3.SolverFor("QF_LRA"), 1.0), (z3.Solver, 0.15 * budget_s),
                               (lambda: z3.SolverFor("QF_LRA"), left if last else budget_s / 6)):
                s = make()
                s.set("timeout", int(1000 * min(left, most)))
                s.add(*box.values())
                s.add(*[x[1] for x in stage])
                s.add(g)
                r = s.check()
                if r != z3.unknown or 0 < n <= len(wide):
                    break
            if r == z3.unsat:
                STATS.unsat += 1
                return "unsat", None
        STATS.sat += r == z3.sat
        STATS.unknown += r == z3.unknown
        return "unknown", (s.model() if r == z3.sat else None)
    finally:
        STATS.solver_s += time.time() - t0
