"""C07: logarithmic density update."""
import numpy as np

from sx.harness import Harness
from . import lab
from .c05 import Flat
from .common import mod, thorough

ASSUMPTIONS = [
    "exp and log are uninterpreted with the axioms of sx/path.py",
    "the filter stand-in returns a constant field; the volume constraint is switched off through the configuration so "
    "that the driving gradient is the normalised sensitivity",
]
FN = ["logmoc.LogMOC_Optimizer.rho_update", "logmoc.lagrangian_log_update"]


def through_update(nx, later):
    def body(env):
        with lab.workdir() as d:
            tsk = lab.elastic_task(nx)
            opt = lab.make("LogMOC", tsk, d, mu_p=0.0, lagrangian_percentile=100.0)
            st = lab.prepare(opt, Flat(env))
            lab.objectify(env, st)
            n = len(tsk.design_elements)
            if n == 1:
                rmin = opt.cfg.rho_min = env.real("rho_min", 1e-3, 0.2)
                rmax = opt.cfg.rho_max = env.real("rho_max", 0.5, 1.0)
                clip = opt.cfg.lagrangian_clip = env.real("clip", 0.1, 2)
                move = env.real("move", 1e-3, 1.0)
                eta = env.real("eta", 0.05, 2)
            else:
                rmin, rmax, clip, move = opt.cfg.rho_min, opt.cfg.rho_max, opt.cfg.lagrangian_clip, 0.2
                eta = env.choice("eta", [0.25, 1.0])
            rho = env.array("rho", n, 0, 1)
            dC = env.array("dC", n, -100, 100)
            for i in range(n):
                env.assume(env.and_(rho[i] >= rmin, rho[i] <= rmax))
            if later:
                opt.running_scale = env.real("prev", 1e-2, 100)
            with env.code(*lab.modules()):
                r = rho.copy()
                v = st.elements_volume_design
                opt.rho_update(
                    iter_num=2 if later else 1, rho_design_eles=r, rho_projected=env.wrap(np.full(tsk.mesh.nelements, 0.5)),
                    dC_drho_design_eles=dC, u_dofs=st.u_dofs, strain_energy_mean=st.energy_mean,
                    scaling_rate=st.scaling_rate, move_limit=move, eta=eta, beta=1.0,
                    rho_clip_lower=st.rho_clip_lower, rho_clip_upper=st.rho_clip_upper, percentile=None,
                    elements_volume_design=v, elements_volume_design_sum=np.sum(v), vol_frac=0.5)
            dL = opt.recorder.latest("dL")
            for i in range(n):
                x, y = rho[i], r[i]
                env.check(env.finite(y), f"the new density is a number [{i}]")
                env.check_le(rmin, y, f"the new density respects the lower bound [{i}]", tol=1e-7)
                env.check_le(y, rmax, f"the new density respects the upper bound [{i}]", tol=1e-7)
                env.check_le(y - x, move, f"the new density respects the move limit upwards [{i}]", tol=1e-7)
                env.check_le(x - y, move, f"the new density respects the move limit downwards [{i}]", tol=1e-7)
                env.check(env.implies(dL[i] > 0, env.leq(y, x, 1e-7)), f"a positive gradient never adds material [{i}]")
                env.check(env.implies(dL[i] < 0, env.leq(x, y, 1e-7)), f"a negative gradient never removes material [{i}]")
                env.check(env.implies(dL[i] == 0, env.close(x, y, 1e-7)), f"a vanishing gradient changes nothing [{i}]")
                if n > 1 and i > 0:
                    continue
                s = env.mini(env.maxi(dL[i], -clip), clip)
                e = env.exp(-(eta * s))
                want = env.mini(env.maxi(x * e, x * x / (x + move)), x + move)
                want = env.mini(env.maxi(want, rmin), rmax)
                env.check_eq(y, want, f"multiplicative update formula [{i}]", tol=1e-6)
            if n > 1:
                env.check(env.implies(env.and_(rho[0] == rho[1], dL[0] <= dL[1]), env.leq(r[1], r[0], 1e-7)),
                          "of two equal densities the one with the smaller gradient gets at least as much")
    return body


def harnesses():
    B = "sensitivities in [-100,100], step 0.05..2, clip 0.1..2, move limit 1e-3..1, any bounds with rho_min<=0.2, rho_max>=0.5"
    return [Harness("first_1", through_update(3, False), FN, "1 design element; " + B),
            Harness("later_1", through_update(3, True), FN, "1 design element; " + B),
            Harness("first_2", through_update(4, False), FN, "2 design elements; default bounds and clip, move limit 0.2, step 0.25 or 1"),
            Harness("later_2", through_update(4, True), FN, "2 design elements; default bounds and clip, move limit 0.2, step 0.25 or 1")]
