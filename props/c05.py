"""C05: optimality-criteria density update."""
import numpy as np

from sx.harness import Harness
from . import lab
from .common import mod, thorough

ASSUMPTIONS = [
    "the multiplier search is bounded by giving a narrow initial bracket (so that it ends after at most 3-4 "
    "halvings); the update formula depends on the multiplier only through its value",
    "pow/sqrt/tanh are uninterpreted with the axioms of sx/path.py",
    "filter stand-in: a fixed row-stochastic matrix",
]
FN = ["oc.OC_Optimizer.rho_update", "oc.bisection_with_physical_volume", "projection.heaviside_projection_inplace"]


class Flat:
    """Filter stand-in giving the same field whatever the density: the box and formula do not depend on it."""

    radius = None

    def __init__(self, env):
        self.env = env

    def update_radius(self, r):
        self.radius = r

    def forward(self, rho):
        return self.env.wrap(np.full(len(rho), 0.5))

    gradient = forward


def setup(env, d, nx=4, lam=(1.0, 1.0 + 1.5e-5), **cfg):
    tsk = lab.elastic_task(nx)
    opt = lab.make("OC", tsk, d, lambda_lower=lam[0], lambda_upper=lam[1], **cfg)
    st = lab.prepare(opt, Flat(env))
    lab.objectify(env, st)
    opt._dV_drho_design = env.wrap(opt._dV_drho_design)
    return tsk, opt, st


def update(env, opt, tsk, st, it, rho, dC, move, eta, beta, percentile, vol_frac, vol=None):
    de = tsk.design_elements
    st.rho[de] = rho
    r = st.rho[de].copy()
    v = st.elements_volume_design if vol is None else vol
    opt.rho_update(
        iter_num=it, rho_design_eles=r, rho_projected=st.rho_projected, dC_drho_design_eles=dC,
        u_dofs=st.u_dofs, strain_energy_mean=st.energy_mean, scaling_rate=st.scaling_rate, move_limit=move,
        eta=eta, beta=beta, rho_clip_lower=st.rho_clip_lower, rho_clip_upper=st.rho_clip_upper,
        percentile=percentile, elements_volume_design=v, elements_volume_design_sum=np.sum(v), vol_frac=vol_frac)
    return r


def box_body(pct, later):
    def body(env):
        with lab.workdir() as d:
            rmin = env.real("rho_min", 1e-3, 0.2)
            rmax = env.real("rho_max", 0.5, 1.0)
            move = env.real("move", 1e-3, 1.0)
            eta = env.choice("eta", [0.5, 1.0]) if pct != "sym" else env.real("etas", 0.1, 1.0)
            tsk, opt, st = setup(env, d, 4 if pct == 'max' else 3)
            opt.cfg.rho_min, opt.cfg.rho_max = rmin, rmax
            if pct != "max":
                opt.cfg.scaling_rate_min = env.real("smin", 0.1, 1.0)
                opt.cfg.scaling_rate_max = env.real("smax", 1.0, 3.0)
            n = len(tsk.design_elements)
            rho = env.array("rho", n, 0, 1)
            dC = env.array("dC", n, -1000, 1000)
            for i in range(n):
                env.assume(env.and_(rho[i] >= rmin, rho[i] <= rmax))
            if later:
                opt.running_scale = env.real("prev_scale", 1e-6, 1000)
            vf = env.real("vol_frac", 0.05, 0.95)
            dC0 = dC.copy()
            with env.code(*lab.modules()):
                r = update(env, opt, tsk, st, 2 if later else 1, rho, dC, move, eta, 1.0,
                           90.0 if pct == "pct" else None, vf)
            for i in range(n):
                env.check(env.finite(r[i]), f"the new density is a number [{i}]")
                env.check_le(rmin, r[i], f"the new density respects the lower bound [{i}]", tol=1e-7)
                env.check_le(r[i], rmax, f"the new density respects the upper bound [{i}]", tol=1e-7)
                env.check_le(r[i] - rho[i], move, f"the new density respects the move limit upwards [{i}]", tol=1e-7)
                env.check_le(rho[i] - r[i], move, f"the new density respects the move limit downwards [{i}]", tol=1e-7)
            if pct == "max":
                env.check(env.implies(env.and_(rho[0] == rho[1], dC0[0] <= dC0[1]), env.leq(r[1], r[0], 1e-7)),
                          "of two equal densities the one gaining more from material gets at least as much")
            k = opt.kkt_residual
            env.check(env.finite(k), "the stationarity residual is a number")
            env.check_le(0, k, "the stationarity residual is not negative")
            lm = opt.recorder.latest("lmid")
            env.check(env.and_(env.leq(1.0, lm, 1e-9), env.leq(lm, 1.0 + 3e-5, 1e-9)), "the multiplier stays in its bracket")
    return body


def formula_body(later, pct=None):
    """Returned density = clip(rho * clip((-dC/scale/lambda)^eta)) with the reported multiplier."""
    def body(env):
        with lab.workdir() as d:
            eta = 1.0
            tsk, opt, st = setup(env, d)
            n = len(tsk.design_elements)
            move = env.real("move", 1e-2, 1.0)
            rho = env.array("rho", n, 0.01, 1)
            dC = env.array("dC", n, -100, 100)
            if later:
                prev = opt.running_scale = env.real("prev_scale", 1e-3, 100)
            vf = env.real("vol_frac", 0.05, 0.95)
            dC0 = dC.copy()
            with env.code(*lab.modules()):
                r = update(env, opt, tsk, st, 3 if later else 1, rho, dC, move, eta, 1.0, pct, vf)
            lm = opt.recorder.latest("lmid")
            big = env.maxi(*[env.maxi(x, -x) for x in dC0], 1e-12)
            if pct is not None:
                a, b = [env.maxi(x, -x) for x in dC0]
                big = env.maxi(0.1 * env.maxi(a, b) + 0.9 * env.mini(a, b) if pct == 10.0 else 0.0, 1e-12)
            sc = 0.6 * prev + 0.4 * big if later else big
            own = sc
            sc = getattr(opt, "running_scale", own)
            env.check_eq(sc, own, "sensitivity scale (smoothed over iterations)", tol=1e-6)
            rec = opt.recorder.latest("-dC")
            for i in range(n):
                env.check_le(r[i], 1.3 * rho[i], f"the growth factor is limited [{i}]", tol=1e-7)
                env.check_le(0.7 * rho[i], r[i], f"the shrink factor is limited [{i}]", tol=1e-7)
                g = env.mini(env.maxi(rec[i] / lm, 0.7), 1.3)
                want = env.mini(env.maxi(rho[i] * g, env.maxi(rho[i] - move, 0.01)), env.mini(rho[i] + move, 1.0))
                env.check_eq(r[i], want, f"density update formula [{i}]", tol=1e-5)
                env.check_eq(rec[i] * sc, -dC0[i], f"recorded sensitivity [{i}]", tol=1e-5)
            # stationarity residual over interior elements, in the unscaled sensitivity
            vs = st.elements_volume_design / np.sum(st.elements_volume_design)
            worst = 0.0
            edge = []
            for i in range(n):
                inside = env.and_(r[i] > 0.01 + 1e-6, r[i] < 1.0 - 1e-6)
                edge.append(env.or_(env.close(r[i], 0.01 + 1e-6, 1e-8), env.close(r[i], 1.0 - 1e-6, 1e-8)))
                t = dC0[i] + lm * sc * float(vs[i])
                worst = env.maxi(worst, env.ite(inside, env.maxi(t, -t), 0.0))
            env.check(env.or_(env.close(opt.kkt_residual, worst, 1e-5), *edge),
                      "the stationarity residual is the largest |dC + lambda dV| inside the bounds")
    return body


def harnesses():
    B = "1-2 design elements of 3-4, sensitivities in [-1000,1000], bracket width 1.5e-5 (<=2 halvings)"
    hs = []
    for later in (False, True):
        s = "later" if later else "first"
        hs.append(Harness(f"box_max_{s}", box_body("max", later), FN, B))
        hs.append(Harness(f"box_pct_{s}", box_body("pct", later), FN, B + ", percentile 90"))
        hs.append(Harness(f"formula_{s}", formula_body(later), FN, B))
        hs.append(Harness(f"formula_pct_{s}", formula_body(later, 10.0), FN, B + ", percentile 10"))
    hs.append(Harness("box_symeta", box_body("sym", False), FN, B + ", any exponent in [0.1,1]"))
    return hs
