"""C02: schedules that ramp to one, and validation of schedule settings."""
from sx.harness import Harness
from .common import mod, thorough
from .c01 import FN as F1, TMAX, NMAX

ASSUMPTIONS = ["pow with a symbolic exponent is uninterpreted with the axioms of sx/path.py",
               "the number of steps is enumerated within the bound; iteration, total and curvature are symbolic"]
FN = F1 + ["scheduler.SchedulerStepToOne", "scheduler.SchedulerStepAcceleratingToOne",
           "scheduler.SchedulerStepDeceleratingToOne", "scheduler.SchedulerConfig.from_defaults"]
KINDS = ("StepToOne", "StepAcceleratingToOne", "StepDeceleratingToOne")


def build(S, kind, how, n, T, curv):
    C = S.SchedulerConfig
    ck = {} if kind == "StepToOne" else {"curvature": curv}
    if how == "factory":
        f = {"StepToOne": C.step_to_one, "StepAcceleratingToOne": C.step_accelerating_to_one,
             "StepDeceleratingToOne": C.step_decelerating_to_one}[kind]
        return S.Scheduler.from_config(f(name="x", num_steps=n, iters_max=T, **ck))
    if how == "defaults":
        return S.Scheduler.from_config(C.from_defaults(name="x", num_steps=n, iters_max=T, target_value=1.0,
                                                       scheduler_type=kind, **ck))
    cl = {"StepToOne": S.SchedulerStepToOne, "StepAcceleratingToOne": S.SchedulerStepAcceleratingToOne,
          "StepDeceleratingToOne": S.SchedulerStepDeceleratingToOne}[kind]
    return cl("x", n, T, **ck)


def ramp_body(kind, n):
    def body(env):
        S = mod("sktopt.tools.scheduler")
        how = env.choice("how", ["factory", "defaults", "class"])
        T = env.int("T", 1, TMAX())
        it = env.int("it", 1, TMAX())
        jt = env.int("jt", 1, TMAX())
        env.assume(it <= jt)
        curv = env.real("curv", 0.25, 6)
        with env.code(S):
            s = build(S, kind, how, n, T, curv)
            a, b, first, last = s.value(it), s.value(jt), s.value(1), s.value(T)
            ref = S.Scheduler.from_config(getattr(S.SchedulerConfig, {
                "StepToOne": "step", "StepAcceleratingToOne": "step_accelerating",
                "StepDeceleratingToOne": "step_decelerating"}[kind])(
                    name="r", init_value=1.0 / n, target_value=1.0, num_steps=n, iters_max=T,
                    **({} if kind == "StepToOne" else {"curvature": curv}))).value(it)
        env.check_le(1.0 / n, a, "the ramp never falls below one over the number of steps", tol=1e-7)
        env.check_le(b, 1.0, "the ramp never exceeds one", tol=1e-7)
        env.check_le(a, b, "the ramp never decreases", tol=1e-7)
        env.check_eq(last, 1.0, "the ramp reaches one", tol=1e-7)
        env.check(env.implies(T > n, env.close(first, 1.0 / n, 1e-7)), "the ramp starts at one over the number of steps")
        env.check_eq(a, ref, "the ramp is the ordinary schedule from 1/steps to one", tol=1e-7)
    return body


def reject_body(env):
    """A ramp to one refuses any other target, and a non-positive number of steps."""
    S = mod("sktopt.tools.scheduler")
    kind = env.choice("kind", list(KINDS))
    t = env.real("t", -100, 100)
    n = env.int("n", -5, 12)
    C = S.SchedulerConfig
    ck = {} if kind == "StepToOne" else {"curvature": 2.0}
    with env.code(S):
        e, cfg = env.raises(lambda: C.from_defaults(name="x", num_steps=n, target_value=t, scheduler_type=kind,
                                                    iters_max=20, **ck), (ValueError,))
        cl = {"StepToOne": S.SchedulerStepToOne, "StepAcceleratingToOne": S.SchedulerStepAcceleratingToOne,
              "StepDeceleratingToOne": S.SchedulerStepDeceleratingToOne}[kind]
        e2, s2 = env.raises(lambda: cl("x", n, 20, **ck), (ValueError,))
    if e is None:
        env.check_eq(t, 1.0, "an accepted target is one", tol=1e-6)
        env.check(n >= 1, "an accepted number of steps is positive")
        env.check_eq(cfg.target_value, 1.0, "the stored target is exactly one", tol=1e-12)
        env.check_eq(cfg.init_value * n, 1.0, "the stored start is one over the number of steps", tol=1e-9)
    else:
        env.check(env.or_(n <= 0, t > 1 + 1e-12, t < 1 - 1e-12), "a valid ramp is not refused")
    env.check(env.implies(n <= 0, e2 is not None), "the class refuses a non-positive number of steps")
    env.check(env.implies(n >= 1, e2 is None), "the class accepts a positive number of steps")


NEEDS = {
    "Constant": ("target_value",), "ConstantOne": (),
    "Step": ("init_value", "target_value", "num_steps"),
    "StepAccelerating": ("init_value", "target_value", "num_steps", "curvature"),
    "StepDecelerating": ("init_value", "target_value", "num_steps", "curvature"),
    "SawtoothDecay": ("init_value", "target_value", "num_steps"),
    "StepToOne": ("num_steps",), "StepAcceleratingToOne": ("num_steps", "curvature"),
    "StepDeceleratingToOne": ("num_steps", "curvature"), "None": (),
}


def missing_body(env):
    """Every subset of omitted settings: refused exactly when a required one is missing."""
    S = mod("sktopt.tools.scheduler")
    kind = env.choice("kind", list(NEEDS))
    vals = {"init_value": env.real("v0", -100, 100), "target_value": env.real("v1", -100, 100),
            "num_steps": env.int("n", 1, 20), "curvature": env.real("c", 0.25, 6)}
    if kind.endswith("ToOne"):
        vals["target_value"] = 1.0
    given = {}
    missing = False
    for k, v in vals.items():
        if env.boolean("has_" + k):
            given[k] = v
        elif k in NEEDS[kind]:
            missing = True
    with env.code(S):
        e, cfg = env.raises(lambda: S.SchedulerConfig.from_defaults(name="x", iters_max=10, scheduler_type=kind, **given),
                            (ValueError,))
        e2, s = env.raises(lambda: S.Scheduler.from_config(cfg), (ValueError,)) if e is None else (None, None)
    env.check((e is not None) == missing, f"{kind}: refused exactly when a required setting is missing ({sorted(given)})")
    if e is None:
        env.check(e2 is None, f"{kind}: an accepted configuration builds a schedule")
        if kind in ("Step", "StepAccelerating", "StepDecelerating", "SawtoothDecay"):
            env.check_eq(cfg.init_value, given["init_value"], "the start value is kept")
            env.check_eq(cfg.target_value, given["target_value"], "the target value is kept")
            env.check_eq(cfg.num_steps, given["num_steps"], "the number of steps is kept")
            with env.code(S):
                env.check_eq(s.value(10), given["target_value"], "the built schedule ends at the target", tol=1e-6)
        if kind in ("Constant", "ConstantOne"):
            with env.code(S):
                env.check_eq(s.value(3), given["target_value"] if kind == "Constant" else 1.0, f"{kind} value", tol=1e-9)


def harnesses():
    B = f"T in [1,{TMAX()}], it<=jt<=T+, curvature in [0.25,6]"
    hs = [Harness(f"ramp_{k}_{n}", ramp_body(k, n), FN, B + f", {n} steps") for k in KINDS for n in range(1, NMAX() + 1)]
    hs.append(Harness("reject", reject_body, FN, "target in [-100,100], steps in [-5,12]"))
    hs.append(Harness("missing", missing_body, FN, "10 schedule kinds, every subset of 4 settings, symbolic values"))
    return hs
