"""Harness protocol: one body, two modes.

A body(env) obtains inputs from env, runs the real code and states checks.
In symbolic mode the inputs are symbolic and every check is a solver query;
in concrete mode (replay of a counterexample, validation of the translator)
the same body runs the unmodified code on floats and the checks are evaluated.
"""
from __future__ import annotations

import contextlib
import json
import math
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import arr, core, path, shim
from .core import CUR, Dual, EngineError, PathAbort, Sym, SymBool, is_sym, rv, z3, zbool
from .path import STATS, Ctx, numeric_lemmas

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLACK = 1e-9


class CheckFailed(Exception):
    pass


class Cut(BaseException):
    """Path cut on purpose (recorded)."""


class SymEnv:
    symbolic = True

    def __init__(self, c, h):
        self.c = c
        self.h = h
        self.observed = []
        self.reached = False
        self.nan_ok = False

    # ---- inputs -----------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self.c.real_in(name)
        if lo is not None:
            self.c.assume(v > rv(lo) if lo_open else v >= rv(lo))
        if hi is not None:
            self.c.assume(v < rv(hi) if hi_open else v <= rv(hi))
        return Sym(v)

    def int(self, name, lo=None, hi=None):
        v = self.c.int_in(name)
        if lo is not None:
            self.c.assume(v >= lo)
        if hi is not None:
            self.c.assume(v <= hi)
        return Sym(v)

    def boolean(self, name):
        return SymBool(self.c.bool_in(name))

    def choice(self, name, options):
        """A configuration choice: one path per option."""
        i = self.int(name, 0, len(options) - 1)
        return options[self.c.enumerate_int(i)]

    def array(self, name, shape, lo=None, hi=None, **k):
        if isinstance(shape, int):
            shape = (shape,)
        r = np.empty(shape, dtype=object)
        for idx in np.ndindex(shape):
            r[idx] = self.real(name + "_" + "_".join(map(str, idx)), lo, hi, **k)
        return r.view(arr.SymArray)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            for x in c.ravel():
                self.c.assume(x)
        else:
            self.c.assume(c)

    def wrap(self, a):
        """A concrete array given to the code as an object array (so that it can hold symbols)."""
        return np.asarray(a).astype(object).view(arr.SymArray)

    def dual(self, x, key):
        return Dual(x, {key: 1.0})

    def fresh(self, name):
        return Sym(self.c.fresh(name))

    # ---- conditions -------------------------------------------------------
    def leq(self, a, b, tol=SLACK):
        """a <= b + tol; undefined values never satisfy it."""
        return a <= b + tol

    def close(self, a, b, tol=1e-7):
        d = a - b
        if not is_sym(d):
            return abs(d) <= tol
        return arr.f_and(d <= tol, d >= -tol)

    def implies(self, p, q):
        if isinstance(p, (bool, np.bool_)):
            return q if p else True
        return core.mkbool(z3.Implies(zbool(p), zbool(q)))

    def and_(self, *xs):
        return core.mkbool(z3.And(*[zbool(x) for x in xs])) if xs else True

    def or_(self, *xs):
        return core.mkbool(z3.Or(*[zbool(x) for x in xs]))

    def not_(self, x):
        return core.mkbool(z3.Not(zbool(x)))

    def ite(self, c, a, b):
        return core.site(c, a, b)

    def finite(self, x):
        return arr.f_isfinite(x)

    def pow(self, a, b):
        return core.spow(a, b)

    def tanh(self, x):
        return core.fn_tanh(x) if is_sym(x) else math.tanh(x)

    def exp(self, x):
        return core.fn_exp(x) if is_sym(x) else math.exp(x)

    def log(self, x):
        return core.fn_log(x) if is_sym(x) else math.log(x)

    def sqrt(self, x):
        return core.fn_sqrt(x) if is_sym(x) else math.sqrt(x)

    def maxi(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = core.smax(r, x)
        return r

    def mini(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = core.smin(r, x)
        return r

    def observe(self, name, val):
        """A value compared between the symbolic and the concrete run of each path."""
        if isinstance(val, np.ndarray):
            for idx in np.ndindex(val.shape):
                self.observed.append((name + str(list(idx)), val[idx]))
        else:
            self.observed.append((name, val))

    def check(self, cond, label, budget=None):
        if isinstance(cond, np.ndarray):
            for i, x in np.ndenumerate(cond):
                self.check(x, f"{label}[{','.join(map(str, i))}]", budget)
            return
        self.reached = True
        STATS.obligations += 1
        self.h._check(self.c, self, cond, label, budget)

    def check_le(self, a, b, label, tol=SLACK, **k):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            A, B = np.broadcast_arrays(arr.plain(a), arr.plain(b))
            for i in np.ndindex(A.shape):
                self.check(self.leq(A[i], B[i], tol), f"{label}{list(i)}", **k)
        else:
            self.check(self.leq(a, b, tol), label, **k)

    def check_eq(self, a, b, label, tol=1e-7, **k):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            pa, pb = arr.plain(a), arr.plain(b)
            if pa.shape != pb.shape:
                try:
                    pa, pb = np.broadcast_arrays(pa, pb)
                except ValueError:
                    self.check(False, f"{label}: shapes {pa.shape} and {pb.shape}")
                    return
            for i in np.ndindex(pa.shape):
                self.check_eq(pa[i], pb[i], f"{label}{list(i)}", tol, **k)
        else:
            self.check(self.close(a, b, tol), label, **k)

    def check_same(self, a, b, label):
        """Plain Python equality of concrete structure."""
        self.check(bool(a == b), f"{label}: {a!r} != {b!r}" if not is_sym(a) and not is_sym(b) else label)

    def cut(self, why):
        STATS.cut += 1
        self.h.cuts.add(why)
        raise Cut()

    def raises(self, f, excs=(Exception,)):
        try:
            r = f()
        except EngineError:
            raise
        except excs as e:
            return e, None
        return None, r

    @contextlib.contextmanager
    def code(self, *modules, extra=None, **k):
        with shim.patched(modules, extra, **k):
            yield


class ConEnv:
    """Concrete twin of SymEnv over floats."""
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.failed = []
        self.observed = []
        self.reached = False
        self.assumed_false = False

    def _get(self, name, default=0):
        """Inputs the symbolic path never asked for cannot matter up to its end: any value will do after it."""
        return self.inputs.get(name, default)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self._get(name, lo if lo is not None else 0)
        v = v if isinstance(v, float) else float(Fraction(v))
        # rounding may leave the closed interval by an ulp
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, 0 if lo is None else lo))

    def boolean(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        return options[int(self._get(name, 0))]

    def array(self, name, shape, lo=None, hi=None, **k):
        if isinstance(shape, int):
            shape = (shape,)
        r = np.empty(shape, dtype=float)
        for idx in np.ndindex(shape):
            r[idx] = self.real(name + "_" + "_".join(map(str, idx)), lo, hi, **k)
        return r

    def assume(self, c):
        if not bool(np.all(c)):
            self.assumed_false = True
            raise Cut()

    def wrap(self, a):
        return np.array(a, dtype=float)

    def dual(self, x, key):
        return x

    def leq(self, a, b, tol=SLACK):
        return bool(a <= b + 0.5 * tol)

    def close(self, a, b, tol=1e-7):
        return bool(abs(a - b) <= 0.5 * tol)

    def implies(self, p, q):
        return (not bool(p)) or bool(q)

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def ite(self, c, a, b):
        return a if c else b

    def finite(self, x):
        return bool(np.isfinite(x))

    def pow(self, a, b):
        return a ** b

    tanh = staticmethod(np.tanh)
    exp = staticmethod(np.exp)
    log = staticmethod(np.log)
    sqrt = staticmethod(np.sqrt)

    def maxi(self, *xs):
        return max(xs)

    def mini(self, *xs):
        return min(xs)

    def observe(self, name, val):
        if isinstance(val, np.ndarray):
            for idx in np.ndindex(val.shape):
                self.observed.append((name + str(list(idx)), val[idx]))
        else:
            self.observed.append((name, val))

    def check(self, cond, label, budget=None):
        if isinstance(cond, np.ndarray):
            for i, x in np.ndenumerate(cond):
                self.check(x, f"{label}[{','.join(map(str, i))}]")
            return
        self.reached = True
        if not bool(cond):
            self.failed.append(label)

    def check_le(self, a, b, label, tol=SLACK, **k):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            A, B = np.broadcast_arrays(np.asarray(a), np.asarray(b))
            for i in np.ndindex(A.shape):
                self.check(self.leq(A[i], B[i], tol), f"{label}{list(i)}: {A[i]!r} > {B[i]!r}")
        else:
            self.check(self.leq(a, b, tol), f"{label}: {a!r} > {b!r}")

    def check_eq(self, a, b, label, tol=1e-7, **k):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            pa, pb = np.asarray(a), np.asarray(b)
            if pa.shape != pb.shape:
                try:
                    pa, pb = np.broadcast_arrays(pa, pb)
                except ValueError:
                    self.check(False, f"{label}: shapes {pa.shape} and {pb.shape}")
                    return
            for i in np.ndindex(pa.shape):
                self.check_eq(pa[i], pb[i], f"{label}{list(i)}", tol)
        else:
            self.check(self.close(a, b, tol), f"{label}: {a!r} != {b!r}")

    def check_same(self, a, b, label):
        self.check(bool(a == b), f"{label}: {a!r} != {b!r}")

    def cut(self, why):
        raise Cut()

    def raises(self, f, excs=(Exception,)):
        try:
            return None, f()
        except excs as e:
            return e, None

    @contextlib.contextmanager
    def code(self, *modules, extra=None, **k):
        yield


class Violation:
    def __init__(self, harness, label, inputs, detail):
        self.harness, self.label, self.inputs, self.detail = harness, label, inputs, detail


class Harness:
    """One symbolic test: `body(env)`."""
    MAX_CEX = 6

    def __init__(self, name, body, functions, bounds, opts=None, budget=20.0, validate=True, max_paths=4000,
                 tier="quick", known=None):
        self.name = name
        self.body = body
        self.functions = functions
        self.bounds = bounds
        self.opts = opts or {}
        self.budget = budget
        self.validate = validate
        self.max_paths = max_paths
        self.tier = tier
        self.cuts = set()
        self.violations = []
        self.problems = []
        self.samples = []
        self.reached_paths = 0
        self.unsat_paths = 0
        self.paths = 0

    # ---- obligations ------------------------------------------------------
    def _check(self, c, env, cond, label, budget):
        if isinstance(cond, (bool, np.bool_)):
            if cond:
                STATS.discharged += 1
                return
            neg = z3.BoolVal(True)
        else:
            neg = z3.Not(zbool(cond))
        if any(v.label == label for v in self.violations) or len(self.violations) >= 4:
            c.assume(z3.Not(neg))
            return
        budget = budget or self.budget
        extra = []
        n_cex = 0
        last = None
        if self.opts.get("poly") and not z3.is_true(neg):
            from . import poly
            r, m = poly.decide(c, neg, budget)
            if r == "unsat":
                STATS.discharged += 1
                return
            hit = self.probe(c, m, label)
            if hit is not None:
                self.violations.append(Violation(self.name, label, hit[0], hit[1]))
                c.assume(z3.Not(neg))
                return
        for attempt in range(self.MAX_CEX):
            r, m = c.query(neg, budget, extra=extra)
            if r == "unsat":
                STATS.discharged += 1
                if n_cex == 0 or True:
                    if not z3.is_true(neg):
                        c.assume(z3.Not(neg))
                return
            if r == "sat":
                n_cex += 1
                vals = c.input_values(m)
                ok, detail = self.replay(vals, label)
                last = (vals, detail)
                if ok:
                    self.violations.append(Violation(self.name, label, vals, detail))
                    if z3.is_true(neg):
                        raise Cut()
                    c.assume(z3.Not(neg))
                    return
                lem = numeric_lemmas(c, m)
                if lem:
                    extra.extend(lem)
                    continue
                break
            break
        # undecided or not reproduced: decide restricted queries (inputs fixed to seeded values)
        if r == "unknown" or last is not None:
            hit = self.concretise(c, neg, label, budget)
            if hit is not None:
                self.violations.append(Violation(self.name, label, hit[0], hit[1]))
                if z3.is_true(neg):
                    raise Cut()
                c.assume(z3.Not(neg))
                return
        if last is not None:
            self.problems.append(f"{self.name}/{label}: counterexample does not reproduce: "
                                 f"{fmt_inputs(last[0])} ({last[1]})")
        else:
            self.problems.append(f"{self.name}/{label}: solver gave no answer within {budget}s")
        if z3.is_true(neg):
            raise Cut()
        c.assume(z3.Not(neg))

    def concretise(self, c, neg, label, budget):
        """Restrict some inputs to seeded values and let the solver decide the rest."""
        rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
        names = [n for n, (v, k) in c.inputs.items() if k == "real"]
        if not names:
            return None
        t_end = time.time() + min(60.0, 3 * budget)
        for trial in range(24):
            if time.time() > t_end:
                break
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*c.cons)
            sub = rng.sample(names, max(1, (len(names) * (1 + trial % 4)) // 4))
            ok = True
            fixed = []
            if s.check() != z3.sat:
                return None
            for n in sub:
                v = c.inputs[n][0]
                q = z3.Q(rng.randint(-40, 80), rng.choice([1, 2, 4, 8, 16, 40, 64]))
                s.push()
                s.add(v == q)
                if s.check() == z3.sat:
                    fixed.append(v == q)
                else:
                    s.pop()
            r, m = c.query(neg, 4.0, extra=fixed)
            if r == "sat":
                vals = c.input_values(m)
                ok, detail = self.replay(vals, label)
                if ok:
                    return vals, detail
        return None

    def probe(self, c, m, label):
        """Candidate counterexamples for a statement the abstraction does not settle: its model, then seeded inputs.
        Each is run on the real code; only a confirmed one is reported."""
        from . import poly
        rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
        b = poly.Abstraction(c).bounds()
        t_end = time.time() + 40
        for trial in range(13):
            if time.time() > t_end:
                return None
            if trial == 0:
                if m is None:
                    continue
                vals = c.input_values(m)
            else:
                # choices and integers as the path has them, reals anywhere inside their bounds
                s = z3.Solver()
                s.set("timeout", 1000)
                disc = {v.decl().name() for v, kind in c.inputs.values() if kind != "real"}
                s.add(*[x for x in c.cons if path.term_size(x, 400) < 400 and path.vars_of(x, c.vc) <= disc])
                if s.check() != z3.sat:
                    return None
                vals = c.input_values(s.model())
                for n, (v, kind) in c.inputs.items():
                    if kind == "real":
                        lo, hi = b.get(v.get_id(), (None, None))
                        lo = Fraction(-2) if lo is None else lo
                        hi = max(lo, Fraction(2)) if hi is None else hi
                        vals[n] = lo + (hi - lo) * Fraction(rng.randint(0, 64), 64)
            try:
                ce = self.run_concrete(vals)
            except Exception:
                pass
            else:
                if ce.assumed_false or not ce.failed:
                    continue
            ok, detail = self.replay(vals, label)
            if ok:
                return vals, detail
            ok, detail = self.replay(vals, None)
            if ok:
                return vals, detail
        return None

    # ---- replay -----------------------------------------------------------
    def replay(self, vals, label):
        """Run the body concretely on the unmodified real code, in a fresh process with JIT on."""
        return replay_subprocess(self.prop, self.name, vals, label)

    def run_concrete(self, vals):
        env = self.last_env = ConEnv(vals)
        try:
            self.body(env)
        except Cut:
            pass
        except Exception:
            # a body may trip over the consequences of a check that has already failed
            if not env.failed:
                raise
        return env

    # ---- exploration ------------------------------------------------------
    def run(self, deadline):
        stack = [[]]
        t0 = time.time()
        opts = dict(self.opts)
        while stack:
            if self.paths >= self.max_paths:
                self.problems.append(f"{self.name}: more than {self.max_paths} paths")
                return
            if time.time() > deadline:
                self.problems.append(f"{self.name}: time limit reached with {len(stack)} paths open")
                return
            prefix = stack.pop()
            c = Ctx(prefix, opts)
            CUR.ctx = c
            env = SymEnv(c, self)
            done = False
            try:
                self.body(env)
                done = True
            except (PathAbort,):
                self.unsat_paths += 1
            except Cut:
                done = True
            except EngineError as e:
                tb = traceback.extract_tb(sys.exc_info()[2])
                where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-6:]))
                self.engine_trouble(c, env, f"{e} at {where}")
            except Exception as e:
                # an exception escaping the harness body: does the real code raise it too?
                self.escaped(c, env, e)
            finally:
                CUR.ctx = None
            self.paths += 1
            STATS.paths += 1
            stack.extend(c.alternatives)
            if done:
                if env.reached:
                    self.reached_paths += 1
                if self.validate and not self.violations:
                    self.validate_path(c, env)
            if len(self.violations) >= 4:
                return
        if self.reached_paths == 0 and not self.violations:
            self.problems.append(f"{self.name}: vacuous, no path reaches an assertion")

    def engine_trouble(self, c, env, msg):
        """The engine cannot follow the code: see whether the path's own witness fails concretely."""
        r, m = c.query(z3.BoolVal(True), 5.0, use_relevant=False)
        if r == "sat":
            vals = c.input_values(m)
            ok, detail = self.replay(vals, None)
            if ok:
                self.violations.append(Violation(self.name, "concrete failure on a path witness", vals, detail))
                return
        self.problems.append(f"{self.name}: engine: {msg}")

    def escaped(self, c, env, e):
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-5:]))
        CUR.ctx = None
        r, m = c.query(z3.BoolVal(True), 5.0, use_relevant=False)
        if r == "sat":
            vals = c.input_values(m)
            ok, detail = self.replay(vals, None)
            if ok:
                self.violations.append(Violation(self.name, f"raised {type(e).__name__}: {e}", vals, detail))
                return
            self.problems.append(f"{self.name}: {type(e).__name__}: {e} at {where}; not reproduced ({detail})")
        elif r == "unsat":
            return
        else:
            self.problems.append(f"{self.name}: {type(e).__name__}: {e} at {where}")

    def validate_path(self, c, env):
        """Witness of this path, run on the real code: same observations, no failing check."""
        if getattr(self, "_val_n", 0) >= self.opts.get("max_validate", 12):
            return
        if getattr(self, "_val_unknown", 0) >= 3:
            return
        r, m = c.query(z3.BoolVal(True), 5.0, use_relevant=False)
        if r != "sat":
            self._val_unknown = getattr(self, "_val_unknown", 0) + 1
            return
        self._val_n = getattr(self, "_val_n", 0) + 1
        vals = c.input_values(m)
        try:
            ce = self.run_concrete(vals)
        except Exception as e:
            ok, detail = self.replay(vals, None)
            if ok:
                self.violations.append(Violation(self.name, f"raised {type(e).__name__}: {e}", vals, detail))
            else:
                self.problems.append(f"{self.name}: concrete run of a witness raised {type(e).__name__}: {e}")
            return
        if ce.assumed_false:
            return
        if ce.failed:
            ok, detail = self.replay(vals, None)
            if ok:
                self.violations.append(Violation(self.name, ce.failed[0], vals, detail))
            else:
                self.problems.append(f"{self.name}: witness fails {ce.failed[0]} in-process only")
            return
        if not c.apps or True:
            sym = dict(env.observed)
            for name, cv in ce.observed:
                if name not in sym:
                    continue
                sv = sym[name]
                ev = eval_model(c, m, sv)
                if ev is None:
                    continue
                try:
                    cvf = float(cv)
                except (TypeError, ValueError):
                    continue
                if not (abs(ev - cvf) <= 1e-6 * max(1.0, abs(ev), abs(cvf))) and not c.apps:
                    self.problems.append(
                        f"{self.name}: translator mismatch on {name}: symbolic {ev} concrete {cvf} "
                        f"at {fmt_inputs(vals)}")
                    return
        STATS.validated += 1
        if len(self.samples) < 2:
            self.samples.append({"harness": self.name, "path": len(c.taken),
                                 "witness": {k: str(v)[:40] for k, v in list(vals.items())[:12]},
                                 "obligations_so_far": STATS.obligations})


def eval_model(c, m, sv):
    if isinstance(sv, Dual):
        sv = sv.v
    if isinstance(sv, SymBool):
        v = m.eval(sv.e, model_completion=True)
        return 1.0 if z3.is_true(v) else 0.0
    if not isinstance(sv, Sym):
        try:
            return float(sv)
        except (TypeError, ValueError):
            return None
    if isinstance(m, path.MergedModel):
        return None
    v = m.eval(sv.e, model_completion=True)
    q = path.to_frac(v)
    return float(q) if q is not None else None


def fmt_inputs(vals):
    out = []
    for k, v in list(vals.items())[:14]:
        out.append(f"{k}={float(v):.6g}" if isinstance(v, Fraction) else f"{k}={v}")
    return ", ".join(out)


def enc(v):
    if isinstance(v, Fraction):
        return {"q": f"{v.numerator}/{v.denominator}"}
    return v


def dec(v):
    if isinstance(v, dict) and "q" in v:
        return Fraction(v["q"])
    return v


def replay_subprocess(prop, hname, vals, label):
    """-> (violated, detail)"""
    import tempfile
    fd, fn = tempfile.mkstemp(prefix="sxreplay", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump({"property": prop, "harness": hname, "label": label,
                   "inputs": {k: enc(v) for k, v in vals.items()}}, f)
    env = dict(os.environ)
    env.pop("NUMBA_DISABLE_JIT", None)
    env["SX_REPLAY"] = "1"
    try:
        p = subprocess.run([sys.executable, "-B", os.path.join(ROOT, "replay.py"), fn], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=180, text=True)
        out = p.stdout
        rc = p.returncode
    except subprocess.TimeoutExpired:
        return False, "replay timed out"
    finally:
        os.unlink(fn)
    tail = out.strip().splitlines()[-1] if out.strip() else ""
    return rc == 1, tail[:400]
