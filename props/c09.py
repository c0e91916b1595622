"""C09: one iteration of the optimisation loop."""
import math

import numpy as np

from sx.harness import Harness
from . import lab
from .common import mod, thorough

ASSUMPTIONS = ["finite element responses (objective, energy, displacements) are arbitrary inputs; the density update is "
               "replaced by one that hands back arbitrary densities and records its arguments",
               "filter stand-in: a fixed non-symmetric matrix with its transpose as the gradient"]
FN = ["common_density.DensityMethod._optimize_impl", "common_density.DensityMethod.initialize_density",
      "common_density.DensityMethod._ensure_state_initialized", "projection.*_inplace", "derivatives.dC_drho_*"]
W = np.array([[0.75, 0.25, 0, 0, 0], [0.5, 0.25, 0.25, 0, 0], [0, 0.125, 0.5, 0.375, 0], [0, 0, 0.25, 0.5, 0.25],
              [0, 0, 0, 0.5, 0.5]])
NX = 5


def H(x, b, e):
    return (np.tanh(b * e) + np.tanh(b * (x - e))) / (np.tanh(b * e) + np.tanh(b * (1 - e)) + 1e-12)


def dH(x, b, e):
    return b / np.cosh(b * (x - e)) ** 2 / (np.tanh(b * e) + np.tanh(b * (1 - e)) + 1e-12)


def task(kind):
    if kind == "heat":
        return lab.heat_task(NX)
    if kind == "robin":
        return lab.heat_task(NX, robin=True)
    return lab.elastic_task(NX, 2 if kind == "two" else 1)


def build(env, d, kind, method="OC", rec=True, **cfg):
    S = mod("sktopt.tools.scheduler").SchedulerConfig
    t = task(kind)
    cfg.setdefault("export_img", False)
    opt = lab.make(method, t, d, **cfg)
    opt.parameterize()
    if rec:
        opt.recorder = lab.Recorder()
    opt.filter = lab.Filter(env, W)
    opt.init_schedulers(export=False)
    return t, opt


def chain(kind, law, sensf, design_dirichlet):
    """The sensitivity handed to the update is the mean over loads of filter^T (projection' * dC)."""
    def body(env):
        S = mod("sktopt.tools.scheduler").SchedulerConfig
        with lab.workdir() as d:
            t, opt = build(env, d, kind, interpolation=law, sensitivity_filter=sensf, design_dirichlet=design_dirichlet,
                           max_iters=3, p=S.step(init_value=2.0, target_value=3.0, num_steps=2), rho_min=0.01,
                           vol_frac=S.constant(target_value=0.4), beta=S.constant(target_value=3.0), beta_eta=0.4)
            n, nt = NX, t.n_tasks
            de = [int(e) for e in t.design_elements]
            en = [[env.array(f"en{k}_{j}", n, 0, 100) for j in range(nt)] for k in range(2)]
            obj = [env.array(f"obj{k}", nt, 0, 1000) for k in range(2)]
            stack = [env.wrap(np.zeros((n, nt))) if env.symbolic else np.zeros((n, nt)) for _ in range(2)]
            for k in range(2):
                for j in range(nt):
                    for i in range(n):
                        stack[k][i, j] = en[k][j][i]
            u = np.zeros((t.basis.N, nt))
            u[3, :] = -np.arange(1.0, nt + 1)
            opt.fem = lab.Fem(env, obj, stack, u=u)
            with lab.running(env, opt):
                opt._ensure_state_initialized()
                st = opt._state
                rho0 = np.array([float(x) for x in st.rho])
                lab.objectify(env, st)
                new = [np.array([0.3 + 0.1 * i for i in range(len(de))]), np.array([0.2 + 0.15 * i for i in range(len(de))])]
                upd = lab.Updates(opt, lambda it, r: new[it - 1])
                opt.optimize_steps(2)
            env.check(upd.iters() == [1, 2], "one update per iteration")
            nd = [i for i in range(n) if i not in de]
            rho = rho0.copy()
            cd, dv = mod("sktopt.core.optimizers.common_density"), mod("sktopt.core.derivatives")
            for k in range(2):
                a = upd.args[k]
                p = 2.0 if k == 0 else 3.0
                rf = W @ rho
                pr = H(rf, 3.0, 0.4)
                for kk in ("objective", "energy"):
                    got = opt.fem.seen(kk)[k]
                    env.check_eq(got[1], pr, f"the analysis sees the filtered, projected density ({kk}, iteration {k + 1})", tol=1e-9)
                    env.check_eq(got[2], p, f"the analysis uses the penalty of its iteration ({kk}, {k + 1})", tol=1e-12)
                env.check_eq(a["rho_projected"], pr, f"the update sees the projected density [{k}]", tol=1e-9)
                E0, Emin = t.material_coef, t.material_coef * opt.cfg.E_min_coeff
                if law == "SIMP":
                    E = Emin + (E0 - Emin) * pr ** p
                    dE = p * (E0 - Emin) * pr ** (p - 1)
                else:
                    E = Emin + (E0 - Emin) * pr / (1 + p * (1 - pr))
                    dE = (E0 - Emin) * (1 + p) / (1 + p * (1 - pr)) ** 2
                g = dH(rf, 3.0, 0.4)
                full = [0.0] * n
                for i in range(n):
                    for j in range(nt):
                        for m in range(n):
                            w = W[m, i]
                            if w:
                                full[i] = full[i] + (-2.0 * float(w * dE[m] / E[m] * g[m]) / nt) * en[k][j][m]
                if sensf:
                    full = [sum((float(W[i, m]) * full[m] for m in range(n) if W[i, m]), 0.0) for i in range(n)]
                for q, e in enumerate(de):
                    env.check_eq(a["dC_drho_design_eles"][q], full[e],
                                 f"sensitivity of design element {q} (iteration {k + 1})", tol=1e-6)
                    env.check_eq(a["rho_design_eles"][q], float(rho[e]), f"the update starts from the current density [{k},{q}]",
                                 tol=1e-9)
                mean = [sum(en[k][j][i] for j in range(nt)) / nt for i in range(n)]
                rec = opt.recorder.h
                env.check_eq(rec["energy"][k], np.array(mean, dtype=object) if env.symbolic else np.array(mean),
                             f"recorded energy is the mean over the load cases [{k}]", tol=1e-6)
                name = "compliance"
                env.check_eq(rec[name][k], sum(obj[k][j] for j in range(nt)) / nt,
                             f"recorded objective is the mean over the load cases [{k}]", tol=1e-6)
                before = rho.copy()
                for q, e in enumerate(de):
                    rho[e] = new[k][q]
                env.check_eq(rec["rho_change_max"][k], float(np.max(np.abs(rho[de] - before[de]))),
                             f"recorded density change [{k}]", tol=1e-9)
                env.check_eq(rec["u_max"][k], np.arange(1.0, nt + 1) if nt > 1 else 1.0, f"recorded largest displacement [{k}]",
                             tol=1e-9)
                env.check_eq(rec["rho_projected"][k], pr[de], f"recorded projected densities [{k}]", tol=1e-9)
            for i in nd:
                env.check_eq(opt._state.rho[i], float(rho0[i]), f"an element outside the design keeps its density [{i}]", tol=0)
                env.check_eq(float(rho0[i]), 1.0, f"an element outside the design is solid [{i}]", tol=0)
            for q, e in enumerate(de):
                env.check_eq(opt._state.rho[e], float(new[1][q]), f"the design holds what the update handed back [{q}]", tol=0)
    return body


def densities(kind, design_dirichlet):
    """Any densities handed back: they arrive in the design, everything else stays solid."""
    def body(env):
        S = mod("sktopt.tools.scheduler").SchedulerConfig
        with lab.workdir() as d:
            vf = env.real("vol_frac", 0.0, 1.0)
            t, opt = build(env, d, kind, design_dirichlet=design_dirichlet, max_iters=3, rho_min=0.05, rho_max=0.9,
                           beta=S.constant(target_value=1.0))
            opt.cfg.vol_frac.init_value = vf
            n, nt = NX, t.n_tasks
            de = [int(e) for e in t.design_elements]
            nd = [i for i in range(n) if i not in de]
            ones = np.ones((n, nt))
            opt.fem = lab.Fem(env, [np.ones(nt)], [ones])
            new = [env.array(f"new{k}", len(de), 0.05, 0.9) for k in range(2)]
            with lab.running(env, opt):
                opt._ensure_state_initialized()
                lab.objectify(env, opt._state)
                lab.Updates(opt, lambda it, r: new[it - 1])
                rho0 = opt._state.rho.copy()
                states = []
                for k in range(2):
                    opt.optimize_steps(1)
                    states.append(opt._state.rho.copy())
            loaded = set()
            if t.neumann_elements is not None and len(t.neumann_elements):
                loaded |= {int(e) for e in np.asarray(t.neumann_elements).ravel()}
            for q, e in enumerate(de):
                env.check_eq(rho0[e], env.mini(env.maxi(vf, 0.05), 0.9), f"the design starts at the volume fraction within bounds [{q}]",
                             tol=1e-9)
            for k in range(2):
                for q, e in enumerate(de):
                    env.check_eq(states[k][e], new[k][q], f"the design holds what the update handed back [{k},{q}]", tol=0)
                for i in nd:
                    env.check_eq(states[k][i], 1.0, f"elements outside the design stay solid [{k},{i}]", tol=0)
            for e in loaded:
                env.check(e not in de, f"a loaded element is not designed [{e}]")
            ch = opt.recorder.h["rho_change_max"]
            for k in range(2):
                a, b = (rho0, states[0]) if k == 0 else (states[0], states[1])
                w = 0.0
                for e in de:
                    w = env.maxi(w, a[e] - b[e], b[e] - a[e])
                env.check_eq(ch[k], w, f"recorded largest density change [{k}]", tol=1e-9)
    return body


def custom(env):
    """Where the solver supplies its own sensitivity, that one is used, through the same chain."""
    S = mod("sktopt.tools.scheduler").SchedulerConfig
    with lab.workdir() as d:
        t, opt = build(env, d, "two", sensitivity_filter=False, max_iters=2, vol_frac=S.constant(target_value=0.4),
                       beta=S.constant(target_value=2.0), beta_eta=0.6)
        n, nt = NX, t.n_tasks
        de = [int(e) for e in t.design_elements]
        sens = env.array("sens", (n, nt), -100, 100)
        opt.fem = lab.Fem(env, [np.ones(nt)], [np.ones((n, nt))], sens=[sens])
        with lab.running(env, opt):
            opt._ensure_state_initialized()
            rho = np.array([float(x) for x in opt._state.rho])
            lab.objectify(env, opt._state)
            upd = lab.Updates(opt, lambda it, r: r)
            opt.optimize_steps(1)
        g = dH(W @ rho, 2.0, 0.6)
        for q, e in enumerate(de):
            w = 0.0
            for m in range(n):
                if W[m, e]:
                    for j in range(nt):
                        w = w + float(W[m, e] * g[m]) / nt * sens[m, j]
            env.check_eq(upd.args[0]["dC_drho_design_eles"][q], w, f"sensitivity of design element {q}", tol=1e-6)


def arguments(method):
    """Every scheduled value reaches its consumer at every iteration."""
    def body(env):
        S = mod("sktopt.tools.scheduler").SchedulerConfig
        with lab.workdir() as d:
            a, b, c, e1, m1, q1 = (env.real(k, lo, hi) for k, lo, hi in (
                ("vf", 0.1, 0.9), ("eta", 0.1, 1.0), ("pmax", 1.0, 5.0), ("eta1", 0.1, 1.0), ("mv", 0.01, 0.5), ("pct", 1, 99)))
            N = 4
            t, opt = build(env, d, "one", method, max_iters=N, beta=S.step(init_value=1.0, target_value=4.0, num_steps=4),
                           neumann_scale=S.step_to_one(num_steps=2), filter_radius=S.step(init_value=1.5, target_value=1.2, num_steps=2))
            sc = opt.schedulers
            for s in sc.scheduler_list:
                if s.name == "vol_frac":
                    s.init_value, s.target_value, s.num_steps, s.func = a, 0.5, 2, mod("sktopt.tools.scheduler").schedule_step
                if s.name == "eta":
                    s.init_value = s.target_value = b
                if s.name == "p":
                    s.target_value = c
                if s.name == "move_limit":
                    s.target_value = m1
                if s.name == "percentile":
                    s.target_value = q1
            n = NX
            opt.fem = lab.Fem(env, [np.ones(1)], [np.ones((n, 1))])
            radii = []
            opt.filter.radius = None

            def up(r, f=opt.filter):
                f.radius = r
                radii.append(r)
            opt.filter.update_radius = up
            with lab.running(env, opt):
                opt._ensure_state_initialized()
                lab.objectify(env, opt._state)
                upd = lab.Updates(opt, lambda it, r: r)
                want = []
                for it in range(1, N + 1):
                    want.append(sc.values_as_dict(it))
                seen = []
                opt.optimize()
            env.check(upd.iters() == list(range(1, N + 1)), "every iteration happens once, in order")
            for k in range(N):
                g, w = upd.args[k], want[k]
                for x in ("vol_frac", "beta", "move_limit", "eta", "percentile"):
                    env.check_eq(g[x], w[x], f"{x} of iteration {k + 1} reaches the update", tol=1e-12)
                env.check_eq(opt.fem.seen("objective")[k][2], w["p"], f"penalty of iteration {k + 1} reaches the analysis", tol=1e-12)
                env.check_eq(opt.fem.seen("scale")[k][2], w["neumann_scale"], f"load scale of iteration {k + 1} reaches the analysis",
                             tol=1e-12)
                env.check_eq(opt.recorder.h["neumann_scale"][k], w["neumann_scale"], f"recorded load scale [{k}]", tol=1e-12)
                pr = g["rho_projected"]
                rf = W @ np.array([float(x) for x in opt._state.rho])
                env.check_eq(pr, H(rf, float(w["beta"]), opt.cfg.beta_eta), f"projection uses the sharpness of iteration {k + 1}", tol=1e-8)
            env.check([float(r) for r in radii] in ([1.5, 1.2], [1.5, 1.5, 1.2]), f"the filter radius follows its schedule {radii}")
    return body


def harnesses():
    hs = []
    for kind in ("one", "two"):
        for law in ("SIMP", "RAMP"):
            for sf in (False, True):
                if kind == "one" and sf and law == "RAMP" and not thorough():
                    continue
                for dd in ((True, False) if kind == "two" or thorough() else (True,)):
                    hs.append(Harness(f"chain_{kind}_{law}_{'sf' if sf else 'nosf'}_{'dd' if dd else 'nodd'}",
                                      chain(kind, law, sf, dd), FN, "5 elements, 2 iterations, any energies and objectives"))
    for kind in ("one", "two", "heat", "robin"):
        for dd in (True, False):
            hs.append(Harness(f"densities_{kind}_{'dd' if dd else 'nodd'}", densities(kind, dd), FN,
                              "5 elements, 2 iterations, any volume fraction and any densities handed back"))
    hs.append(Harness("custom_sensitivity", custom, FN, "5 elements, 2 load cases, any supplied sensitivity"))
    for m in ("OC", "LogMOC"):
        hs.append(Harness(f"arguments_{m}", arguments(m), FN, "4 iterations, symbolic schedule targets"))
    return hs
