"""C20: configurations on disk, checkpoints and restarts."""
import contextlib
import copy
import dataclasses
import os
import sys
import types

import numpy as np

from sx.harness import Harness
from . import lab
from .c10 import content, saved, setup
from .common import mod, thorough

ASSUMPTIONS = ["the JSON text layer and the npz container are replaced by in-memory stores in the symbolic run (the replay uses real files); "
               "the JSON stand-in accepts only what JSON can hold",
               "the analysis is replaced by constant responses, the density update by one that hands back arbitrary densities"]
FN = ["common_density.DensityMethodConfig.export", "common_density.DensityMethodConfig.import_from", "common_density.DensityMethod.initialize_density",
      "misc.find_latest_iter_file", "misc.args2OC_Config_dict", "misc.add_common_arguments"]


class Json(types.ModuleType):
    """json whose files keep the values in memory."""

    def __init__(self):
        super().__init__("json")
        self.store = {}

    def _plain(self, v):
        from sx.core import Sym, SymBool
        if v is None or isinstance(v, (bool, int, float, str, Sym, SymBool)):
            return v
        if isinstance(v, dict):
            return {str(k): self._plain(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [self._plain(x) for x in v]
        raise TypeError(f"Object of type {type(v).__name__} is not JSON serializable")

    def dump(self, obj, f, **k):
        self.store[os.path.abspath(f.name)] = self._plain(obj)

    def load(self, f, **k):
        return copy.deepcopy(self.store[os.path.abspath(f.name)])


@contextlib.contextmanager
def json_memory(env):
    if not env.symbolic:
        yield
        return
    cd = mod("sktopt.core.optimizers.common_density")
    j, saved_mod, saved_attr = Json(), sys.modules["json"], getattr(cd, "json", None)
    sys.modules["json"] = j
    if saved_attr is not None:
        cd.json = j
    try:
        yield
    finally:
        sys.modules["json"] = saved_mod
        if saved_attr is not None:
            cd.json = saved_attr


KINDS = ["Constant", "Step", "StepAccelerating", "StepDecelerating", "SawtoothDecay", "None"]
SCHED = {"OC": ["p", "vol_frac", "beta", "filter_radius", "move_limit", "percentile", "eta"],
         "LogMOC": ["p", "vol_frac", "beta", "filter_radius", "move_limit", "percentile"]}


def classes(method):
    m = mod(f"sktopt.core.optimizers.{'oc' if method == 'OC' else 'logmoc'}")
    return (m.OC_Config, m.OC_Optimizer) if method == "OC" else (m.LogMOC_Config, m.LogMOC_Optimizer)


def sched(env, name, kind):
    S = mod("sktopt.tools.scheduler").SchedulerConfig
    v = lambda s, lo, hi: env.real(f"{name}_{s}", lo, hi)  # noqa: E731
    if kind == "None":
        return S.none()
    if kind == "Constant":
        return S.constant(target_value=v("target", -10, 10))
    kw = dict(init_value=v("init", -10, 10), target_value=v("target", -10, 10), num_steps=env.int(f"{name}_steps", 1, 8))
    if kind.startswith("StepA") or kind.startswith("StepD"):
        kw["curvature"] = v("curv", 0.25, 6)
    return S.from_defaults(scheduler_type=kind, name=name, **kw)


def same(env, a, b, what):
    if dataclasses.is_dataclass(a):
        env.check(type(a) is type(b), f"{what} has the same type")
        for f in dataclasses.fields(a):
            same(env, getattr(a, f.name), getattr(b, f.name), f"{what}.{f.name}")
        return
    if isinstance(a, (float, np.floating)) or (hasattr(a, "e") and not isinstance(a, bool)):
        env.check(b is not None and not isinstance(b, (dict, str)), f"{what} is a number")
        env.check(a == b, f"{what} is the same")
    else:
        env.check(type(a) is type(b) and a == b, f"{what} is the same")


def roundtrip(method, focus):
    """Every setting survives export and import, the schedules included."""
    def body(env):
        C, _ = classes(method)
        kw = {}
        for f in dataclasses.fields(C):
            if f.name in SCHED[method] or f.name in ("neumann_scale", "petsc_options", "dst_path", "solver_option", "interpolation"):
                continue
            d = f.default
            if isinstance(d, bool):
                kw[f.name] = env.boolean(f.name)
            elif isinstance(d, int):
                kw[f.name] = env.int(f.name, -1, 5000)
            elif isinstance(d, float):
                kw[f.name] = env.real(f.name, -1e7, 1e7)
        kw["filter_type"] = env.choice("filter_type", ["spacial", "helmholtz"])
        if method == "LogMOC":
            kw["dual_update"] = env.choice("dual_update", ["ema", "augmented"])
            kw["volume_chain_gain_under"] = env.choice("vcgu", [None, 0.5])
        kw["interpolation"] = env.choice("interpolation", ["SIMP", "RAMP"])
        for i, s in enumerate(SCHED[method]):
            kind = env.choice(f"kind_{s}", KINDS if s == "percentile" else KINDS[:5]) if s == focus else KINDS[i % 5]
            kw[s] = sched(env, s, kind)
        S = mod("sktopt.tools.scheduler").SchedulerConfig
        if focus == "neumann_scale":
            k = env.int("ns_steps", 1, 8)
            kw["neumann_scale"] = env.choice("neumann_scale", ["one", "step", "acc", "dec"])
            kw["neumann_scale"] = {"one": lambda: S.constant_one(), "step": lambda: S.step_to_one(num_steps=k),
                                   "acc": lambda: S.step_accelerating_to_one(num_steps=k, curvature=env.real("ns_c", 0.5, 4)),
                                   "dec": lambda: S.step_decelerating_to_one(num_steps=k, curvature=env.real("ns_c", 0.5, 4))
                                   }[kw["neumann_scale"]]()
        if focus == "solver":
            kw["solver_option"] = env.choice("solver", ["spsolve", "cg_pyamg"])
            P = mod("sktopt.fea._petsc_compat").PETScOptions
            kw["petsc_options"] = env.choice("petsc", [P(), P(ksp_type="gmres", pc_type="ilu", options_prefix="x_"),
                                                       P(pc_factor_mat_solver_type="mumps", use_set_from_options=False)])
        with lab.workdir() as d:
            kw["dst_path"] = env.choice("dst", [d, d + "/sub"])
            with env.code(mod("sktopt.core.optimizers.common_density"), mod("sktopt.tools.scheduler"), mod("sktopt.fea.solver_elastic")), \
                    json_memory(env):
                cfg = C(**kw)
                keep = copy.deepcopy(cfg)
                cfg.export(d)
                same(env, keep, cfg, "the exported configuration")
                got = C.import_from(d)
                same(env, cfg, got, "cfg")
                same(env, cfg.solver_config, got.solver_config, "solver_config")
    return body


def optimiser_config(method):
    """The configuration an optimiser leaves in its folder is the one it was given, and gives the same schedules."""
    def body(env):
        C, O = classes(method)
        S = mod("sktopt.tools.scheduler").SchedulerConfig
        with lab.workdir() as d:
            t, opt0 = None, None
            with json_memory(env):
                cfg = C(dst_path=d, filter_type="spacial", filter_radius=S.constant(target_value=env.real("r", 0.5, 3)), max_iters=4,
                        vol_frac=S.step(init_value=env.real("v0", 0.5, 1), target_value=env.real("v1", 0.1, 0.5), num_steps=2),
                        p=S.step_accelerating(init_value=1.0, target_value=3.0, num_steps=2, curvature=2.0), rho_min=env.real("rmin", 0.001, 0.2),
                        beta=S.constant(target_value=env.real("b", 1, 9)),
                        percentile=S.none(), neumann_scale=S.step_to_one(num_steps=2))
                t = lab.elastic_task(4)
                with env.code(*lab.modules()):
                    opt0 = O(cfg, t)
                    got = C.import_from(d)
                    same(env, cfg, got, "cfg")
                    o1 = O(got, lab.elastic_task(4))
                    opt0.init_schedulers(export=False)
                    o1.init_schedulers(export=False)
                    for it in range(1, 5):
                        a, b = opt0.schedulers.values_as_dict(it), o1.schedulers.values_as_dict(it)
                        env.check(list(a) == list(b), f"the same schedules exist [{it}]")
                        for k in a:
                            if a[k] is None or b[k] is None:
                                env.check(a[k] is None and b[k] is None, f"{k} is switched off in both [{it}]")
                            else:
                                env.check_eq(a[k], b[k], f"{k} has the same course [{it}]", tol=1e-12)
    return body


DECOYS = ["7-rho.npz", "000007-rho.npz.bak", "x000008-rho.npz", "000009-energy.npz", "notes.txt", "00009-rho.npz", "000011-rhoXnpz",
          "-00012-rho.npz", "000013-rho-old.npz"]


def checkpoints(method):
    """The restart takes the checkpoint with the highest number (or the one asked for), whatever else lies in the folder."""
    def body(env):
        with lab.workdir() as d:
            nums = env.choice("present", [[1], [2, 10], [9, 10, 100], [999999, 1000000], [3, 12], [1, 20, 200, 1999], [1000000, 999998, 5]])
            decoy = env.choice("decoys", [[], DECOYS[:4], DECOYS[4:]])
            order = env.choice("order", [1, -1])
            ask = env.choice("restart_from", [-1, 0, "first"])
            N = max(nums) + 3
            t, opt = setup(env, d, method, max_iters=N)
            opt.cfg.restart = True
            opt.cfg.restart_from = nums[0] if ask == "first" else ask
            n = len(t.design_elements)
            rho = {k: env.array(f"rho{k}", n, 0.01, 1) for k in nums}
            npm = lab.memory_np() if env.symbolic else None
            os.makedirs(d + "/data", exist_ok=True)
            for f in decoy:
                open(f"{d}/data/{f}", "w").close()
            names = [f"{k:06d}-rho.npz" for k in nums] + decoy
            names = names[::order]
            misc = mod("sktopt.core.misc")

            class Os:
                def __getattr__(self, n):
                    return getattr(os, n)

                def listdir(self, p="."):
                    have = os.listdir(p)
                    return [x for x in names if x in have] + [x for x in have if x not in names]
            real_os, misc.os = misc.os, Os()
            try:
                with lab.running(env, opt, npmod=npm):
                    for k in nums:
                        (npm or np).savez_compressed(f"{d}/data/{k:06d}-rho.npz", rho_design_elements=rho[k])
                    got, begin, end = opt.initialize_density()
                    src = nums[0] if ask == "first" else max(nums)
                    env.check(begin == src + 1, f"the run continues after the checkpoint ({begin} after {src})")
                    env.check(end == N + 1, "the run ends at the configured last iteration")
                    de = [int(e) for e in t.design_elements]
                    for i, e in enumerate(de):
                        env.check_eq(got[e], rho[src][i], f"the checkpoint's densities are taken over [{i}]", tol=1e-12)
                    for e in range(t.mesh.nelements):
                        if e not in de:
                            env.check_eq(got[e], 1.0, f"elements outside the design are solid [{e}]", tol=0)
                    env.check(opt.recorder.imported == 1, "the histories are read back")
            finally:
                misc.os = real_os
    return body


def restart(method, M1, stop, M2, ask):
    """A run is left after `stop` iterations (or finished); another one restarts from its folder."""
    def body(env):
        with lab.workdir() as d:
            npm = lab.memory_np() if env.symbolic else None
            t1, o1 = setup(env, d, method, max_iters=M1, check_convergence=False, record_times=M1)
            o1.recorder = o1.add_recorder(t1)
            n = len(t1.design_elements)
            new1 = {k: env.array(f"a{k}", n, 0.01, 1) for k in range(1, M1 + 1)}
            new2 = {k: env.array(f"b{k}", n, 0.01, 1) for k in range(1, M2 + 1)}
            with lab.running(env, o1, npmod=npm):
                o1._ensure_state_initialized()
                lab.objectify(env, o1._state)
                u1 = lab.Updates(o1, lambda it, r: new1[it])
                o1.optimize_steps(stop) if stop < M1 else o1.optimize()
            env.check(u1.iters() == list(range(1, stop + 1)), "the first run did what it was asked")
            have = saved(d)
            env.check(stop in have, "the state at the interruption is on disk")
            src = stop if ask is None else ask
            t2, o2 = setup(env, d, method, max_iters=M2, check_convergence=False, record_times=M2, restart=True,
                           restart_from=-1 if ask is None else ask)
            o2.recorder = o2.add_recorder(t2)
            env.check(saved(d) == have, "creating the restarted run leaves the checkpoints alone")
            with lab.running(env, o2, npmod=npm):
                o2._ensure_state_initialized()
                rho = o2._state.rho
                for i, e in enumerate(t2.design_elements):
                    env.check_eq(rho[e], new1[src][i], f"the restarted run starts from the saved densities [{i}]", tol=1e-12)
                first = [rho[e] for e in t2.design_elements]
                lab.objectify(env, o2._state)
                u2 = lab.Updates(o2, lambda it, r: new2[it])
                o2.optimize()
            env.check(u2.iters() == list(range(src + 1, M2 + 1)), f"the restarted run does the remaining iterations {u2.iters()}")
            if u2.args:
                for i in range(n):
                    env.check_eq(u2.args[0]["rho_design_eles"][i], first[i], f"the first update starts from the saved densities [{i}]", tol=1e-12)
            end = new2[M2] if M2 > src else new1[src]
            for i, e in enumerate(t2.design_elements):
                env.check_eq(o2._state.rho[e], end[i], f"the run ends with the last densities [{i}]", tol=1e-12)
            have2 = saved(d)
            if M2 > src:
                for i in range(n):
                    env.check_eq(content(d, M2, npm)[i], new2[M2][i], f"the last densities are saved [{i}]", tol=1e-12)
            for k in have:
                if k <= src:
                    env.check(k in have2, "earlier checkpoints stay")
                    for i in range(n):
                        env.check_eq(content(d, k, npm)[i], new1[k][i], f"earlier checkpoints stay as they were [{k},{i}]", tol=1e-12)
            env.check(os.path.exists(d + "/histories.npz"), "the histories are written at the end")
            if ask is None and stop == M1:
                hist = o2.recorder.histories
                for name in ("compliance", "rho_change_max", "kkt_residual", "vol_error", "energy"):
                    env.check(len(hist[name].data) == M2, f"the history of {name} covers both runs ({len(hist[name].data)})")
                prev = None
                for k in range(1, M2 + 1):
                    cur = new1[k] if k <= stop else new2[k]
                    if prev is not None:
                        w = 0.0
                        for i in range(n):
                            w = env.maxi(w, cur[i] - prev[i], prev[i] - cur[i])
                        env.check_eq(hist["rho_change_max"].data[k - 1], w, f"recorded change of iteration {k}", tol=1e-9)
                    prev = cur
    return body


def fresh(method):
    """Without restart, leftovers in the folder do not matter and old meshes are removed."""
    def body(env):
        with lab.workdir() as d:
            os.makedirs(d + "/data")
            os.makedirs(d + "/mesh_rho")
            open(d + "/mesh_rho/info_mesh-00000001.vtu", "w").close()
            np.savez_compressed(d + "/data/000002-rho.npz", rho_design_elements=np.full(2, 0.25))
            vf = env.real("vol_frac", 0, 1)
            tgt = env.real("target", 0, 1)
            use = env.choice("init", ["value", "none"])
            t, opt = setup(env, d, method, max_iters=3)
            env.check(os.path.isdir(d + "/mesh_rho") and not os.listdir(d + "/mesh_rho"), "meshes of an earlier run are removed")
            lo, hi = env.real("rho_min", 0.001, 0.3), env.real("rho_max", 0.5, 1)
            opt.cfg.rho_min, opt.cfg.rho_max = lo, hi
            opt.cfg.vol_frac.init_value = vf if use == "value" else None
            opt.cfg.vol_frac.target_value = tgt
            with lab.running(env, opt, npmod=lab.memory_np() if env.symbolic else None):
                rho, begin, end = opt.initialize_density()
            env.check(begin == 1 and end == 4, "a fresh run starts at iteration 1")
            v = vf if use == "value" else tgt
            de = [int(e) for e in t.design_elements]
            for e in range(t.mesh.nelements):
                if e in de:
                    env.check_eq(rho[e], env.mini(env.maxi(v, lo), hi), f"a fresh run starts at the volume fraction [{e}]", tol=1e-9)
                else:
                    env.check_eq(rho[e], 1.0, f"elements outside the design are solid [{e}]", tol=0)
    return body


def command_line(method):
    """Every command-line value reaches the configuration field of its name, and the schedules follow their arguments."""
    def body(env):
        import argparse
        misc = mod("sktopt.core.misc")
        C, _ = classes(method)
        p = misc.add_common_arguments(argparse.ArgumentParser())
        if method == "OC":
            p.add_argument("--eta_init", type=float, default=0.01)
            p.add_argument("--eta_step", type=float, default=-1.0)
        args = vars(p.parse_args([]))
        stepped = env.choice("stepped", ["none", "all", "p"])
        pct = env.choice("percentile", [None, "value"])
        for s in ("vol_frac", "p", "beta", "percentile", "filter_radius", "move_limit"):
            args[f"{s}_init"] = env.real(f"{s}_init", -10, 10)
            args[s] = env.real(s, -10, 10)
            on = stepped == "all" or stepped == s or s == "move_limit"
            args[f"{s}_step"] = env.int(f"{s}_step", 1, 6) if on else None
        if pct is None:
            args["percentile"] = None
        args["beta_curvature"] = env.real("beta_curvature", 0.3, 5)
        nums = ["rho_min", "E_min_coeff", "eta", "beta_eta", "lambda_lower", "lambda_upper"]
        for k in nums:
            args[k] = env.real(k, -10, 10)
        for k in ("max_iters", "record_times", "restart_from"):
            args[k] = env.int(k, -1, 1000)
        for k in ("restart", "export_img", "design_dirichlet", "sensitivity_filter"):
            args[k] = env.boolean(k)
        args["interpolation"] = env.choice("interp", ["SIMP", "RAMP"])
        args["filter_type"] = "spacial"
        args["dst_path"] = "/tmp/nowhere"
        keep = dict(args)
        with env.code(misc, mod("sktopt.core.optimizers.common_density"), mod("sktopt.tools.scheduler"), mod("sktopt.fea.solver_elastic")):
            cfg = C.from_defaults(**{k: v for k, v in misc.args2OC_Config_dict(args).items() if v is not None or method == "OC"})
        env.check(list(args) == list(keep), "the arguments are left alone")
        for k in nums + ["max_iters", "record_times", "restart_from", "restart", "export_img", "design_dirichlet", "sensitivity_filter",
                         "interpolation", "filter_type", "dst_path", "solver_option"]:
            v = getattr(cfg, k)
            env.check(v is not None and not dataclasses.is_dataclass(v), f"{k} is taken over")
            env.check(v == keep[k], f"{k} is taken over")
        for s in ("vol_frac", "p", "beta", "percentile", "filter_radius", "move_limit"):
            c = getattr(cfg, s)
            if keep[s] is None:
                env.check(c.scheduler_type == "None", f"{s} is switched off")
                continue
            env.check(c.target_value == keep[s], f"{s} ends at its value")
            if keep[f"{s}_step"] is None:
                env.check(c.scheduler_type == "Constant", f"{s} without steps is constant")
            else:
                kind = {"move_limit": "SawtoothDecay", "beta": "StepAccelerating"}.get(s, "Step")
                env.check(c.scheduler_type == kind, f"{s} follows a {kind} course")
                env.check(c.init_value == keep[f"{s}_init"], f"{s} starts at its initial value")
                env.check(c.num_steps == keep[f"{s}_step"], f"{s} has its number of steps")
                if s == "beta":
                    env.check(c.curvature == keep["beta_curvature"], "beta has its curvature")
    return body


def harnesses():
    hs = []
    for m in ("OC", "LogMOC"):
        foc = ["p", "percentile", "neumann_scale", "solver"] + (SCHED[m][1:] if thorough() else ["vol_frac"])
        for f in dict.fromkeys(foc):
            hs.append(Harness(f"roundtrip_{m}_{f}", roundtrip(m, f), FN, "all numeric and boolean settings symbolic, every kind of schedule for " + f))
        hs.append(Harness(f"config_{m}", optimiser_config(m), FN, "symbolic schedule values, 4 iterations"))
        hs.append(Harness(f"checkpoints_{m}", checkpoints(m), FN, "listings of at most 13 files with numbers up to 1000000, any densities"))
        for M1, stop, M2, ask in ([(3, 1, 3, None), (4, 2, 4, None), (2, 2, 4, None), (3, 3, 3, None), (4, 3, 5, 2)] +
                                  ([(6, 5, 6, None), (5, 4, 6, 1)] if thorough() else [])):
            hs.append(Harness(f"restart_{m}_{M1}_{stop}_{M2}_{ask or 'latest'}", restart(m, M1, stop, M2, ask), FN,
                              f"{stop} of {M1} iterations, then a restart up to {M2}, any densities"))
        hs.append(Harness(f"fresh_{m}", fresh(m), FN, "any volume fraction and bounds"))
        hs.append(Harness(f"cli_{m}", command_line(m), FN, "any numeric and boolean argument values, with and without steps"))
    return hs
