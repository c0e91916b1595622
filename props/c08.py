"""C08: volume multiplier and Lagrangian gradient of the logarithmic optimiser."""
import math

import numpy as np

from sx.harness import Harness
from . import lab
from .common import mod, thorough

ASSUMPTIONS = ["filter stand-in: a fixed non-symmetric matrix with its transpose as the gradient",
               "the slope of the projection is evaluated at concrete filtered densities"]
FN = ["logmoc.LogMOC_Optimizer.rho_update", "projection.heaviside_projection_derivative_inplace"]
W = np.array([[0.75, 0.25, 0, 0], [0.5, 0.25, 0.25, 0], [0, 0.125, 0.5, 0.375], [0, 0, 0.5, 0.5]])
RF = np.array([0.3, 0.45, 0.6, 0.9])


def setup(env, d, **cfg):
    tsk = lab.elastic_task(4)
    opt = lab.make("LogMOC", tsk, d, **cfg)
    st = lab.prepare(opt, lab.Filter(env, W))
    lab.objectify(env, st)
    for i in range(4):
        st.rho_filtered[i] = float(RF[i])
    return tsk, opt, st


def call(env, opt, st, it, rho, proj, dC, vol, vf, percentile=None, beta=2.0):
    with env.code(*lab.modules()):
        opt.rho_update(
            iter_num=it, rho_design_eles=rho, rho_projected=proj, dC_drho_design_eles=dC, u_dofs=st.u_dofs,
            strain_energy_mean=st.energy_mean, scaling_rate=st.scaling_rate, move_limit=0.2, eta=0.5, beta=beta,
            rho_clip_lower=st.rho_clip_lower, rho_clip_upper=st.rho_clip_upper, percentile=percentile,
            elements_volume_design=vol, elements_volume_design_sum=vol[0] + vol[1], vol_frac=vf)


def multiplier(dual, first):
    def body(env):
        with lab.workdir() as d:
            tsk, opt, st = setup(env, d, dual_update=dual)
            de = tsk.design_elements
            mu = opt.cfg.mu_p = env.choice("mu_p", [5.0, 40.0]) if first else env.real("mu_p", 0, 100)
            aug = opt.cfg.augmented_lagrangian_mu = env.real("aug_mu", 0, 100)
            lo = opt.cfg.lambda_lower = env.real("lambda_lower", -50, 0)
            hi = opt.cfg.lambda_upper = env.real("lambda_upper", 0, 50)
            dec = opt.cfg.lambda_decay = env.choice("decay", [0.0, 0.9]) if first else env.real("decay", 0, 1)
            vol = env.wrap(np.array([1.0, 3.0])) if first else env.array("vol", 2, 0.25, 4)
            vf = 0.4 if first else env.real("vol_frac", 0.05, 0.95)
            proj = env.array("proj", 4, 0, 1)
            prev = env.real("lambda_prev", -50, 50)
            dC = env.wrap(np.array([-1.0, -3.0]))
            v0 = (proj[de[0]] * vol[0] + proj[de[1]] * vol[1]) / (vol[0] + vol[1]) - vf
            want = mu * v0
            it = 1
            if first:
                prev = None
            else:
                it = env.choice("iter", [2, 7])
                opt.lambda_v = prev
                opt.running_scale = 1.0
                want = prev + want if dual == "augmented" else dec * prev + (1 - dec) * want
            want = env.mini(env.maxi(want, lo), hi)
            rho = env.wrap(np.array([0.4, 0.5]))
            call(env, opt, st, it, rho, proj, dC, vol, vf)
            got = opt.recorder.latest("vol_error")
            env.check_eq(got, v0, "volume error of the projected design", tol=1e-7)
            lam = opt.recorder.latest("lambda_v")
            env.check(env.and_(env.leq(lo, lam, 1e-9), env.leq(lam, hi, 1e-9)), "the multiplier is kept within its bounds")
            env.check_eq(lam, want, "multiplier update", tol=1e-6)
            env.check_eq(opt.recorder.latest("constraint_coeff"), lam + aug * got, "augmented coefficient", tol=1e-6)
            env.check_same(opt.lambda_v, lam, "the multiplier carried over is the recorded one")
            if not first:
                return
            # a second update starts from the multiplier of the first
            proj2 = env.array("proj2", 4, 0, 1)
            v1 = (proj2[de[0]] * vol[0] + proj2[de[1]] * vol[1]) / (vol[0] + vol[1]) - vf
            call(env, opt, st, 2, rho, proj2, env.wrap(np.array([-1.0, -3.0])), vol, vf)
            w2 = lam + mu * v1 if dual == "augmented" else dec * lam + (1 - dec) * (mu * v1)
            env.check_eq(opt.recorder.latest("lambda_v"), env.mini(env.maxi(w2, lo), hi), "second multiplier update", tol=1e-6)
    return body


def dH(beta, eta, x):
    den = math.tanh(beta * eta) + math.tanh(beta * (1 - eta))
    return beta / math.cosh(beta * (x - eta)) ** 2 / den


def pct2(env, a, b, q):
    a, b = env.maxi(a, -a), env.maxi(b, -b)
    lo, hi = env.mini(a, b), env.maxi(a, b)
    return lo + (q / 100.0) * (hi - lo)


def gradient(first, percentile=None, **opts):
    def body(env):
        with lab.workdir() as d:
            q = 25.0
            tsk, opt, st = setup(env, d, lagrangian_percentile=q, volume_chain_percentile=50.0, mu_p=0.0, **opts)
            cfg = opt.cfg
            de = [int(e) for e in tsk.design_elements]
            c = env.choice("coeff", [-3.0, 2.0]) if cfg.normalize_volume_chain else env.real("coeff", -20, 20)
            cfg.lambda_lower = cfg.lambda_upper = c
            vol = env.wrap(np.array([1.0, 3.0]))
            vf = 0.4
            proj = env.array("proj", 4, 0, 1)
            dC = env.array("dC", 2, -20, 20)
            raw = [dC[0], dC[1]]
            beta = 2.0
            it = 1 if first else 3
            prev = env.real("prev", 0.01, 50)
            if not first:
                opt.running_scale = prev
                opt.lambda_v = 0.0
            rho = env.array("rho", 2, 0.01, 1)
            r0 = [rho[0], rho[1]]
            call(env, opt, st, it, rho, proj, dC, vol, vf, percentile, beta)
            verr = (proj[de[0]] * 1.0 + proj[de[1]] * 3.0) / 4.0 - vf
            if cfg.center_objective:
                m = (raw[0] * 1.0 + raw[1] * 3.0) / 4.0
                raw = [x - m for x in raw]
            g = np.zeros(4)
            for k, e in enumerate(de):
                g[e] = (1.0, 3.0)[k] / 4.0 * dH(beta, cfg.beta_eta, RF[e])
            back = W.T @ g
            ch = [float(back[e]) for e in de]
            scale = 1.0
            if cfg.normalize_volume_chain:
                o = env.maxi(pct2(env, raw[0], raw[1], q), cfg.lagrangian_scale_floor)
                v = max(0.5 * (ch[0] + ch[1]), cfg.volume_chain_scale_floor)
                gain = cfg.volume_chain_gain
                if cfg.volume_chain_gain_under is not None:
                    gain = env.ite(verr < 0.0, cfg.volume_chain_gain_under, cfg.volume_chain_gain)
                scale = gain * o / v
                got = opt.recorder.latest("volume_chain_scale")
                env.check_eq(got, scale, "weight given to the volume gradient", tol=1e-6)
                scale = got
            dv = opt.recorder.latest("dV_chain")
            for k in range(2):
                env.check_eq(dv[k], scale * ch[k], f"volume gradient through filter and projection [{k}]", tol=1e-6)
                env.check_eq(-opt.recorder.latest("-dC")[k], raw[k], f"recorded sensitivity [{k}]", tol=1e-6)
            dL = [raw[k] + c * dv[k] for k in range(2)]
            if cfg.filter_lagrangian:
                dL = [sum(W[e, de[j]] * dL[j] for j in range(2)) for e in de]
            if cfg.center_lagrangian:
                m = (dL[0] * 1.0 + dL[1] * 3.0) / 4.0
                dL = [x - m for x in dL]
            s = env.maxi(pct2(env, dL[0], dL[1], q if percentile is None else percentile), cfg.lagrangian_scale_floor)
            if not first:
                s = 0.2 * prev + 0.8 * s
            own = getattr(opt, "running_scale", s)
            env.check_eq(own, s, "normalisation (smoothed over iterations)", tol=1e-6)
            rec = opt.recorder.latest("dL")
            for k in range(2):
                env.check_eq(rec[k] * own, dL[k], f"gradient of the Lagrangian [{k}]", tol=1e-5)
            worst = 0.0
            edge = []
            for k in range(2):
                inside = env.and_(r0[k] > 0.01 + 1e-6, r0[k] < 1.0 - 1e-6)
                edge.append(env.or_(env.close(r0[k], 0.01 + 1e-6, 1e-8), env.close(r0[k], 1.0 - 1e-6, 1e-8)))
                worst = env.maxi(worst, env.ite(inside, env.maxi(rec[k], -rec[k]), 0.0))
            env.check(env.or_(env.close(opt.kkt_residual, worst, 1e-6), *edge),
                      "the stationarity residual is the largest gradient inside the bounds")
    return body


def harnesses():
    hs = []
    B = "2 design elements of 4; "
    for dual in ("ema", "augmented"):
        for first in (True, False):
            hs.append(Harness(f"multiplier_{dual}_{'first' if first else 'later'}", multiplier(dual, first), FN,
                              B + "any projected densities, volumes in [1/4,4], bounds, gains; 1-2 updates"))
    G = B + "any sensitivities in [-20,20], coefficient in [-20,20] (-3 or 2 when the volume gradient is normalised), previous scale in [0.01,50]"
    V = {
        "plain": {}, "center": {"center_lagrangian": True}, "center_objective": {"center_objective": True},
        "filter": {"filter_lagrangian": True}, "normalise": {"normalize_volume_chain": True, "volume_chain_gain": 1.5},
        "normalise_under": {"normalize_volume_chain": True, "volume_chain_gain": 1.5, "volume_chain_gain_under": 0.25},
        "filter_center": {"filter_lagrangian": True, "center_lagrangian": True},
    }
    for n, o in V.items():
        hs.append(Harness(f"gradient_{n}_first", gradient(True, **o), FN, G))
        if n in ("plain", "normalise", "filter_center") or thorough():
            hs.append(Harness(f"gradient_{n}_later", gradient(False, **o), FN, G))
    hs.append(Harness("gradient_percentile", gradient(True, 75.0), FN, G + ", explicit percentile"))
    return hs
