"""C06: volume multiplier search of the optimality-criteria update."""
import math

import numpy as np

from sx.harness import Harness
from . import lab
from .c05 import Flat, update
from .common import thorough

ASSUMPTIONS = [
    "search depth is bounded by the width of the initial bracket, except where the filter stand-in makes the volume "
    "independent of the multiplier (full default bracket)",
    "tanh is uninterpreted with the axioms of sx/path.py; filter stand-ins: a fixed matrix, a monotone staircase, a constant",
]
FN = ["oc.OC_Optimizer.rho_update", "oc.bisection_with_physical_volume", "projection.heaviside_projection_inplace"]
TOL = 1e-5
VTOL = 1e-4


def H(env, x, beta, eta):
    return (env.tanh(beta * eta) + env.tanh(beta * (x - eta))) / (env.tanh(beta * eta) + env.tanh(beta * (1 - eta)))


STEPS = (0.25, 0.5, 0.8)


class Stairs:
    """Monotone filter stand-in with a handful of constant levels, so that the projection sees constants only."""

    radius = None

    def __init__(self, env):
        self.env = env
        self.calls = []

    def update_radius(self, r):
        pass

    def forward(self, rho):
        self.calls.append(rho.copy())
        out = []
        for x in rho:
            k = sum(1 for s in STEPS if bool(x > s))
            out.append(k / len(STEPS))
        return self.env.wrap(np.array(out))

    gradient = forward


def stair_volume(env, x):
    r = 0.0
    prev = H(env, 0.0, 1.0, 0.5)
    r = prev
    for k, s in enumerate(STEPS):
        h = H(env, (k + 1) / len(STEPS), 1.0, 0.5)
        r = r + env.ite(x > s, float(h - prev), 0.0)
        prev = h
    return r


def setup(env, d, filt, nx, lam, **cfg):
    tsk = lab.elastic_task(nx)
    opt = lab.make("OC", tsk, d, lambda_lower=lam[0], lambda_upper=lam[1], **cfg)
    st = lab.prepare(opt, filt)
    lab.objectify(env, st)
    opt._dV_drho_design = env.wrap(opt._dV_drho_design)
    return tsk, opt, st


def reported(nx, later):
    """The recorded volume error is that of the densities handed back."""
    def body(env):
        with lab.workdir() as d:
            n0 = nx
            W = np.zeros((n0, n0))
            for i in range(n0):
                for j, w in ((i - 1, 0.25), (i, 0.5), (i + 1, 0.25)):
                    W[i, min(max(j, 0), n0 - 1)] += w
            tsk, opt, st = setup(env, d, lab.Filter(env, W), nx, (1.0, 1.0 + 1.9e-5), beta_eta=0.5)
            de = tsk.design_elements
            n = len(de)
            full = env.array("full", n0, 0, 1)
            vol = env.array("vol", n, 0.25, 4)
            vf = env.real("vol_frac", 0.05, 0.95)
            dC = env.wrap(np.array([-1.0, -0.4][:n]))
            for i in range(n):
                env.assume(full[de[i]] >= 0.01)
            for i in range(n0):
                st.rho[i] = full[i]
            if later:
                opt.running_scale = 10.0
            beta = env.choice("beta", [1.0, 4.0])
            with env.code(*lab.modules()):
                r = update(env, opt, tsk, st, 2 if later else 1, full[de], dC, 0.3, 1.0, beta, None, vf, vol=vol)
            got = opt.recorder.latest("vol_error")
            x = [full[i] for i in range(n0)]
            for k, e in enumerate(de):
                x[e] = r[k]
            f = [sum(W[i, j] * x[j] for j in range(n0) if W[i, j]) for i in range(n0)]
            v = 0.0
            for k, e in enumerate(de):
                v = v + vol[k] * H(env, f[e], beta, 0.5)
            env.check_eq(got, v / sum(vol[k] for k in range(n)) - vf,
                         "reported volume error is that of the filtered, projected densities handed back", tol=1e-6)
            env.check(env.leq(len(opt.filter.calls), 3), "the search stops once the bracket is closed")
            others = [i for i in range(n0) if i not in set(int(e) for e in de)]
            for i in others:
                env.check_same(opt.filter.calls[-1][i], full[i], f"elements outside the design keep their density [{i}]")
    return body


def crossing(depth, eta_exp):
    """Where the search stops the volume is within tolerance, or the constraint changes sign there, or the bracket ends."""
    def body(env):
        with lab.workdir() as d:
            lo = 1e-6
            hi = lo + TOL * (2 ** depth) * 0.99
            tsk, opt, st = setup(env, d, Stairs(env), 3, (lo, hi), beta_eta=0.5,
                                 sensitivity_scale_floor=1e5, scaling_rate_min=0.2, scaling_rate_max=5.0)
            n = len(tsk.design_elements)
            assert n == 1
            e0 = int(tsk.design_elements[0])
            rho = env.array("rho", n, 0.01, 1)
            dC = env.array("dC", n, -20, 0)
            vf = env.real("vol_frac", 0.05, 0.95)
            g0 = -dC[0] / 1e5
            r0 = rho[0]
            with env.code(*lab.modules()):
                r = update(env, opt, tsk, st, 1, rho, dC, 0.3, eta_exp, 1.0, None, vf, vol=env.wrap(np.ones(n)))
            lm = opt.recorder.latest("lmid")
            err = opt.recorder.latest("vol_error")

            def err_at(lam):
                g = env.mini(env.maxi(env.pow(env.maxi(g0, 0) / lam, eta_exp), 0.2), 5.0)
                x = env.mini(env.maxi(r0 * g, env.maxi(r0 - 0.3, 0.01)), env.mini(r0 + 0.3, 1.0))
                return stair_volume(env, x) - vf
            env.check(env.and_(env.leq(lo, lm, 1e-12), env.leq(lm, hi, 1e-12)), "the multiplier stays in its bracket")
            at_hi = env.leq(hi - TOL, lm, 1e-9)
            at_lo = env.leq(lm, lo + TOL, 1e-9)
            env.check(env.or_(env.leq(err, VTOL, 1e-7), at_hi, env.leq(err_at(lm + TOL), VTOL, 1e-7)),
                      "too much material: the constraint changes sign just above the multiplier")
            env.check(env.or_(env.leq(-VTOL, err, 1e-7), at_lo, env.leq(-VTOL, err_at(lm - TOL), 1e-7)),
                      "too little material: the constraint changes sign just below the multiplier")
            env.check(env.leq(len(opt.filter.calls), depth + 2), "the search ends after as many halvings as the bracket needs")
    return body


def ends():
    """Default bracket: a volume that never reaches the target drives the multiplier to the matching end."""
    def body(env):
        with lab.workdir() as d:
            tsk = lab.elastic_task(4)
            opt = lab.make("OC", tsk, d)
            st = lab.prepare(opt, Flat(env))
            lab.objectify(env, st)
            opt._dV_drho_design = env.wrap(opt._dV_drho_design)
            n = len(tsk.design_elements)
            rho = env.array("rho", n, 0.01, 1)
            vf = env.real("vol_frac", 0.05, 0.95)
            dC = env.wrap(-np.arange(1.0, n + 1))
            eta = env.choice("eta", [0.5, 1.0])
            with env.code(*lab.modules()):
                r = update(env, opt, tsk, st, 1, rho, dC, 0.2, eta, 1.0, None, vf)
            lm = opt.recorder.latest("lmid")
            err = opt.recorder.latest("vol_error")
            lo, hi = opt.cfg.lambda_lower, opt.cfg.lambda_upper
            env.check_eq(err, 0.5 - vf, "reported volume error", tol=1e-9)
            env.check(env.implies(err > VTOL * 1.0001, env.leq(hi - 2 * TOL, lm)), "always too heavy: multiplier at its upper end")
            env.check(env.implies(err < -VTOL * 1.0001, env.leq(lm, lo + 2 * TOL)), "always too light: multiplier at its lower end")
            for i in range(n):
                env.check(env.implies(err > VTOL * 1.0001, env.close(r[i], env.maxi(0.7 * rho[i], env.maxi(rho[i] - 0.2, 0.01)), 1e-6)),
                          f"always too heavy: density shrinks as far as allowed [{i}]")
    return body


def harnesses():
    hs = []
    for later in (False, True):
        s = "later" if later else "first"
        hs.append(Harness(f"reported_{s}", reported(4, later), FN,
                          "4 elements (2 designed), bracket width 1.9e-5, any volumes in [1/4,4], beta 1 or 4"))
    for dep in ((1, 2, 3) if not thorough() else (1, 2, 3, 4, 5, 6)):
        hs.append(Harness(f"crossing_{dep}", crossing(dep, 1.0), FN, f"1 design element, bracket of {2**dep} tolerances"))
    hs.append(Harness("crossing_sqrt", crossing(2, 0.5), FN, "1 design element, exponent 1/2, bracket of 4 tolerances"))
    hs.append(Harness("ends", ends(), FN, "2 design elements, default bracket (about 41 halvings)"))
    return hs
