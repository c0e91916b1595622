"""C10: which iterations run, what is saved when, and when the run ends."""
import glob
import os

import numpy as np

from sx.harness import Harness
from . import lab
from .common import mod, thorough

ASSUMPTIONS = ["the analysis is replaced by constant responses and the density update by one that hands back arbitrary densities "
               "and an arbitrary KKT residual; plots and mesh files are replaced by recorders, array files by in-memory files"]
FN = ["common_density.DensityMethod._optimize_impl", "common_density.DensityMethod.optimize", "common_density.DensityMethod.optimize_steps",
      "common_density.DensityMethod._ensure_state_initialized", "common_density.DensityMethod._finalize"]


def setup(env, d, method="OC", nx=4, **cfg):
    S = mod("sktopt.tools.scheduler").SchedulerConfig
    t = lab.elastic_task(nx)
    cfg.setdefault("export_img", False)
    cfg.setdefault("beta", S.constant(target_value=1.0))
    cfg.setdefault("filter_radius", S.constant(target_value=1.2))
    opt = lab.make(method, t, d, **cfg)
    opt.parameterize()
    opt.recorder = lab.Recorder()
    opt.filter = lab.Filter(env, np.eye(nx))
    opt.init_schedulers(export=False)
    opt.fem = lab.Fem(env, [np.ones(t.n_tasks)], [np.ones((nx, t.n_tasks))])
    return t, opt


def saved(d):
    return sorted(int(os.path.basename(f).split("-")[0]) for f in glob.glob(d + "/data/*-rho.npz"))


def content(d, k, npm):
    p = f"{d}/data/{k:06d}-rho.npz"
    with (npm or np).load(p) as z:
        return np.array(z["rho_design_elements"], copy=True) if npm is None else z["rho_design_elements"]


def plan(M, chunks):
    """Last iteration of every call, in order."""
    out, at = [], 0
    for c in chunks:
        if c is None:
            at = M
        elif c > 0:
            at = min(M, at + c)
        out.append(at)
    return out


CHUNKS = {1: [[None], [1, None], [3]], 2: [[None], [1, None], [0, 2, 1], [1, 1, None]],
          3: [[None], [1, 1, 1], [2, None], [-1, 2, 5]], 4: [[None], [2, 2], [3, 0, None], [1, 2, 1, 1]],
          5: [[None], [2, None], [1, 3, 1]], 6: [[None], [4, 2]], 8: [[None], [3, 3, 3]], 12: [[None], [5, 5, 5]]}


def schedule(M, method, symbolic_rt):
    """No convergence test: every iteration once, in order; snapshots as documented; finished exactly once."""
    def body(env):
        with lab.workdir() as d:
            chunks = env.choice("chunks", CHUNKS[M])
            t, opt = setup(env, d, method, max_iters=M, check_convergence=False)
            rt = env.int("record_times", 1, M + 3) if symbolic_rt else env.choice("record_times", [1, 2, M])
            opt.cfg.record_times = rt
            npm = lab.memory_np() if env.symbolic else None
            n = len(t.design_elements)
            new = [env.array(f"rho{k}", n, 0.01, 1) for k in range(1, M + 1)]
            with lab.running(env, opt, npmod=npm) as quiet:
                opt._ensure_state_initialized()
                lab.objectify(env, opt._state)
                upd = lab.Updates(opt, lambda it, r: new[it - 1])
                ends = plan(M, chunks)
                for c, e in zip(chunks, ends):
                    if c is None:
                        opt.optimize()
                    else:
                        opt.optimize_steps(c)
                    env.check(upd.iters() == list(range(1, e + 1)), f"every iteration so far ran once, in order {upd.iters()}")
                done = ends[-1] == M
                env.check(len(opt.recorder.exported) == (1 if done else 0), "histories are written when the run ends, once")
                marks = [c for c in quiet.calls if c[0] == "rho_histo_plot"]
                env.check(len(marks) == (1 if done else 0), "the final plot is made when the run ends, once")
                if done:
                    before = list(upd.iters())
                    opt.optimize()
                    opt.optimize_steps(2)
                    env.check(upd.iters() == before and len(opt.recorder.exported) == 1, "a finished run does nothing more")
            have = saved(d)
            last = ends[-1]
            for k in range(1, last + 1):
                step = env.maxi(1, M // rt)
                forced = k == 1 or k in ends
                is_saved = k in have
                if forced:
                    env.check(is_saved, f"iteration {k} is saved")
                elif is_saved:
                    env.check(k % step == 0, f"iteration {k} is saved because it is due")
                else:
                    env.check(env.not_(k % step == 0), f"iteration {k} is due and saved")
                if is_saved:
                    got = content(d, k, npm)
                    for i in range(n):
                        env.check_eq(got[i], new[k - 1][i], f"the file of iteration {k} holds its densities [{i}]", tol=1e-12)
            env.check(all(1 <= k <= last for k in have), "no other iteration is saved")
            want = len(have)
            vt = [c for c in quiet.calls if c[0] == "export_mesh_with_info"]
            env.check(len(vt) == want, "one mesh file per saved iteration")
            de = [int(e) for e in t.design_elements]
            for i, e in enumerate(de):
                if last:
                    env.check_eq(opt._state.rho[e], new[last - 1][i], f"the state holds the last densities [{i}]", tol=0)
            for name in ("rho_change_max", "compliance", "energy", "u_max", "rho_projected", "neumann_scale", "scaling_rate"):
                env.check(len(opt.recorder.h.get(name, [])) == last, f"one entry of {name} per iteration")
    return body


def convergence(M, method, checked, chunks):
    """The run ends at the first iteration where both criteria hold, and nowhere else."""
    def body(env):
        with lab.workdir() as d:
            t, opt = setup(env, d, method, max_iters=M, check_convergence=checked, record_times=1)
            n = len(t.design_elements)
            tr = opt.cfg.tol_rho_change = env.real("tol_rho_change", 1e-4, 0.5)
            tk = opt.cfg.tol_kkt_residual = env.real("tol_kkt_residual", 1e-4, 0.5)
            kind = env.choice("kkt_kind", ["finite", "nan", "inf"]) if checked else "finite"
            kkt = [env.real(f"kkt{k}", -2, 2) if kind == "finite" else float(kind) for k in range(1, M + 1)]
            new = [env.array(f"rho{k}", n, 0.01, 1) for k in range(1, M + 1)]
            with lab.running(env, opt) as quiet:
                opt._ensure_state_initialized()
                rho0 = float(opt._state.rho[t.design_elements][0])
                lab.objectify(env, opt._state)
                upd = lab.Updates(opt, lambda it, r: new[it - 1], kkt=lambda it: kkt[it - 1])
                for c in chunks:
                    opt.optimize() if c is None else opt.optimize_steps(c)
                opt.optimize_steps(M)
                opt.optimize()
            N = len(upd.args)
            env.check(upd.iters() == list(range(1, N + 1)), "every iteration runs once, in order")
            prev = [rho0] * n
            stops = []
            for k in range(M):
                ch = 0.0
                for i in range(n):
                    ch = env.maxi(ch, new[k][i] - prev[i], prev[i] - new[k][i])
                kk = env.maxi(kkt[k], -kkt[k]) if kind == "finite" else None
                stops.append(env.and_(ch < tr, kk < tk) if kk is not None else (ch < tr))
                prev = new[k]
            for k in range(N - 1):
                if checked:
                    env.check(env.not_(stops[k]), f"the run does not go on after converging at iteration {k + 1}")
            if N < M:
                env.check(bool(checked), "without the convergence test every iteration runs")
                env.check(stops[N - 1], f"the run ends early only when both criteria hold (iteration {N})")
            env.check(len(opt.recorder.exported) == 1, "histories are written when the run ends, once")
            env.check(N in saved(d), "the last iteration is saved")
            for i, e in enumerate(t.design_elements):
                env.check_eq(opt._state.rho[e], new[N - 1][i], f"the state holds the last densities [{i}]", tol=0)
    return body


def split(method, M, cut):
    """Chunked and uninterrupted runs of the real update agree (densities and histories)."""
    def body(env):
        S = mod("sktopt.tools.scheduler").SchedulerConfig
        with lab.workdir() as d1, lab.workdir() as d2:
            a = env.real("energy", 0.5, 2.0)
            res = []
            for d, chunks in ((d1, [None]), (d2, cut)):
                t, opt = setup(env, d, method, nx=4, max_iters=M, check_convergence=False, p=S.step(init_value=1.0, target_value=3.0, num_steps=2),
                               vol_frac=S.constant(target_value=0.5))
                n = 4
                e = env.wrap(np.ones((n, 1))) if env.symbolic else np.ones((n, 1))
                e[1, 0] = a
                opt.fem = lab.Fem(env, [np.ones(1)], [e])
                args = []

                def update(*A, _o=opt, _a=args, **K):
                    import inspect
                    sig = inspect.signature(type(_o).rho_update)
                    b = sig.bind(_o, *A, **K).arguments
                    _a.append({k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in b.items() if k != "self"})
                    r = b["rho_design_eles"]
                    for i in range(len(r)):
                        r[i] = r[i] * 0.5 + 0.125 * (i + 1) + 0.001 * b["dC_drho_design_eles"][i]
                    _o.kkt_residual = 0.0
                opt.rho_update = update
                with lab.running(env, opt):
                    opt._ensure_state_initialized()
                    lab.objectify(env, opt._state)
                    for c in chunks:
                        opt.optimize() if c is None else opt.optimize_steps(c)
                res.append((args, opt))
            (a1, o1), (a2, o2) = res
            env.check([x["iter_num"] for x in a1] == [x["iter_num"] for x in a2] == list(range(1, M + 1)),
                      "the same iterations run")
            for k in range(M):
                for key in ("dC_drho_design_eles", "rho_design_eles", "rho_projected"):
                    env.check_eq(a1[k][key], a2[k][key], f"{key} of iteration {k + 1} agrees", tol=1e-9)
                for key in ("move_limit", "eta", "beta", "vol_frac", "percentile"):
                    env.check(a1[k][key] == a2[k][key], f"{key} of iteration {k + 1} agrees")
            env.check_eq(o1._state.rho, o2._state.rho, "the final densities agree", tol=1e-9)
            for name in o1.recorder.h:
                h1, h2 = o1.recorder.h[name], o2.recorder.h[name]
                env.check(len(h1) == len(h2), f"as many entries of {name}")
                for k, (x, y) in enumerate(zip(h1, h2)):
                    env.check_eq(x, y, f"recorded {name} agrees [{k}]", tol=1e-9)
            env.check(len(o1.recorder.exported) == len(o2.recorder.exported) == 1, "both finish once")
    return body


def harnesses():
    hs = []
    for M in ((1, 2, 3, 4, 5, 8) if not thorough() else (1, 2, 3, 4, 5, 6, 8, 12)):
        for m in ("OC", "LogMOC") if M in (3, 4) else ("OC",):
            hs.append(Harness(f"schedule_{m}_{M}", schedule(M, m, True), FN,
                              f"max_iters {M}, record_times 1..{M + 3}, call patterns {CHUNKS[M]}, any densities"))
    for m in ("OC", "LogMOC"):
        hs.append(Harness(f"converge_{m}_3", convergence(3, m, True, [None]), FN, "3 iterations, any tolerances, residuals and densities"))
        hs.append(Harness(f"converge_{m}_chunks", convergence(3, m, True, [1, 1]), FN, "3 iterations in chunks, any tolerances, residuals and densities"))
        hs.append(Harness(f"unchecked_{m}", convergence(2, m, False, [None]), FN, "2 iterations, any tolerances, residuals and densities"))
        hs.append(Harness(f"split_{m}", split(m, 4, [1, 2, 1]), FN, "4 iterations in 1+2+1 against one run, any element energy"))
        hs.append(Harness(f"split_{m}_over", split(m, 3, [0, 2, 7]), FN, "3 iterations in 0+2+7 against one run, any element energy"))
    return hs
