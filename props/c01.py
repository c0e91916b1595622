"""C01: continuation schedules."""
from fractions import Fraction

from sx.harness import Harness
from .common import mod, thorough

ASSUMPTIONS = [
    "pow(x,c) with symbolic c is uninterpreted with the axioms of sx/path.py",
    "iteration and total are integers, start and target values any reals in [-100,100]; the number of steps is "
    "enumerated within the stated bound (every other input is symbolic)",
    "next to an exact step boundary (within 1e-6 iterations) either neighbouring level is accepted, because the "
    "code divides in floating point",
]
FN = ["scheduler.SchedulerConfig.*", "scheduler.Scheduler.from_config", "scheduler.Scheduler.value",
      "scheduler.schedule_step", "scheduler.schedule_step_accelerating", "scheduler.schedule_step_decelerating",
      "scheduler.schedule_sawtooth_decay", "scheduler.schedule_constant", "scheduler.Schedulers.values_as_list"]
STEPPED = ("Step", "StepAccelerating", "StepDecelerating")


def NMAX():
    return 10 if thorough() else 6


def TMAX():
    return 400 if thorough() else 120


def endpoints(env):
    return env.real("v0", -100, 100), env.real("v1", -100, 100)


def make(S, kind, v0, v1, n, T, curv):
    C = S.SchedulerConfig
    if kind == "Step":
        cfg = C.step(name="x", init_value=v0, target_value=v1, num_steps=n, iters_max=T)
    elif kind == "StepAccelerating":
        cfg = C.step_accelerating(name="x", init_value=v0, target_value=v1, num_steps=n, iters_max=T, curvature=curv)
    elif kind == "StepDecelerating":
        cfg = C.step_decelerating(name="x", init_value=v0, target_value=v1, num_steps=n, iters_max=T, curvature=curv)
    elif kind == "SawtoothDecay":
        cfg = C.sawtooth_decay(name="x", init_value=v0, target_value=v1, num_steps=n, iters_max=T)
    return S.Scheduler.from_config(cfg)


def between(env, v, a, b, label, tol=1e-6):
    env.check(env.or_(env.and_(env.leq(a, v, tol), env.leq(v, b, tol)),
                      env.and_(env.leq(b, v, tol), env.leq(v, a, tol))), label)


def curv_of(env, kind):
    return env.real("curv", 0.25, 6) if kind != "Step" else None


def hull_body(kind, n):
    def body(env):
        S = mod("sktopt.tools.scheduler")
        v0, v1 = endpoints(env)
        T = env.int("T", 1, TMAX())
        it = env.int("it", 1, TMAX() + 20)
        curv = curv_of(env, kind)
        with env.code(S):
            s = make(S, kind, v0, v1, n, T, curv)
            v = s.value(it)
            last = s.value(T)
        between(env, v, v0, v1, "the value stays between start and target")
        env.check_eq(last, v1, "the target is reached at the last iteration", tol=1e-6)
        env.check(env.implies(it >= T, env.close(v, v1, 1e-6)), "the target holds from the last iteration on")
        env.observe("v", v)
    return body


def start_body(kind, n):
    def body(env):
        S = mod("sktopt.tools.scheduler")
        v0, v1 = endpoints(env)
        T = env.int("T", n + 1, TMAX())
        curv = curv_of(env, kind)
        with env.code(S):
            v = make(S, kind, v0, v1, n, T, curv).value(1)
        env.check_eq(v, v0, "the first iteration uses the start value", tol=1e-6)
    return body


def mono_body(kind, n):
    def body(env):
        S = mod("sktopt.tools.scheduler")
        v0, v1 = endpoints(env)
        T = env.int("T", 1, TMAX())
        it = env.int("it", 1, TMAX())
        jt = env.int("jt", 1, TMAX() + 5)
        env.assume(it <= jt)
        curv = curv_of(env, kind)
        with env.code(S):
            s = make(S, kind, v0, v1, n, T, curv)
            a, b = s.value(it), s.value(jt)
        env.check(env.implies(v0 <= v1, env.leq(a, b, 1e-6)), "an increasing schedule never decreases")
        env.check(env.implies(v0 >= v1, env.leq(b, a, 1e-6)), "a decreasing schedule never increases")
    return body


def level_body(kind, n):
    """While k*T/n <= it < (k+1)*T/n the value is the k-th of n levels."""
    def body(env):
        S = mod("sktopt.tools.scheduler")
        v0, v1 = endpoints(env)
        k = env.choice("k", list(range(n)))
        T = env.int("T", 1, TMAX())
        it = env.int("it", 1, TMAX())
        env.assume(it < T)
        env.assume(it * n >= T * k + 1e-6)
        env.assume(it * n <= T * (k + 1) - 1e-6)
        curv = curv_of(env, kind)
        with env.code(S):
            v = make(S, kind, v0, v1, n, T, curv).value(it)
        a = Fraction(k, n - 1) if env.symbolic else k / (n - 1)
        if kind == "StepAccelerating":
            a = pw(env, a, curv)
        elif kind == "StepDecelerating":
            a = 1 - pw(env, 1 - a, curv)
        env.check_eq(v, v0 + a * (v1 - v0), "the value is constant on each of the equal stages, level by level", tol=1e-6)
    return body


def pw(env, a, c):
    if a in (0, 1):
        return a
    return env.pow(a, c)


def order_body(n):
    def body(env):
        S = mod("sktopt.tools.scheduler")
        v0, v1 = endpoints(env)
        T = env.int("T", 1, TMAX())
        it = env.int("it", 1, TMAX())
        curv = env.real("curv", 1, 6)
        env.assume(v0 <= v1)
        with env.code(S):
            a = make(S, "StepAccelerating", v0, v1, n, T, curv).value(it)
            b = make(S, "Step", v0, v1, n, T, None).value(it)
            c = make(S, "StepDecelerating", v0, v1, n, T, curv).value(it)
        env.check_le(a, b, "the accelerating schedule never runs ahead of the even one", tol=1e-6)
        env.check_le(b, c, "the decelerating schedule never lags the even one", tol=1e-6)
    return body


def saw_body(n):
    def body(env):
        S = mod("sktopt.tools.scheduler")
        v0, v1 = endpoints(env)
        L = env.int("L", 1, TMAX() // n)          # cycle length
        c = env.choice("cycle", list(range(n)))
        j = env.int("j", 0, TMAX() // n)
        env.assume(j < L)
        T = L * n
        it = L * c + j + 1
        env.assume(it < T)
        with env.code(S):
            v = make(S, "SawtoothDecay", v0, v1, n, T, None).value(it)
        env.check_eq(v * L, v0 * L + j * (v1 - v0), "within a cycle the value decays linearly and restarts at the start value",
                     tol=1e-4)
    return body


def saw_hull_body(n):
    def body(env):
        S = mod("sktopt.tools.scheduler")
        v0, v1 = endpoints(env)
        T = env.int("T", 1, TMAX())
        it = env.int("it", 1, TMAX() + 20)
        with env.code(S):
            s = make(S, "SawtoothDecay", v0, v1, n, T, None)
            v, first, last = s.value(it), s.value(1), s.value(T)
        between(env, v, v0, v1, "the value stays between start and target")
        env.check_eq(last, v1, "the target is reached at the last iteration", tol=1e-6)
        env.check(env.implies(T > 1, env.close(first, v0, 1e-6)), "the first iteration uses the start value")
    return body


def const_body(env):
    S = mod("sktopt.tools.scheduler")
    C = S.SchedulerConfig
    v = env.real("v", -100, 100)
    it = env.int("it", 1, 1000)
    T = env.int("T", 1, 1000)
    which = env.choice("how", ["factory", "defaults", "extras"])
    with env.code(S):
        if which == "factory":
            cfg = C.constant(name="x", target_value=v)
        elif which == "defaults":
            cfg = C.from_defaults(name="x", target_value=v, scheduler_type="Constant")
        else:
            cfg = C.from_defaults(name="x", init_value=v + 1, target_value=v, num_steps=3, iters_max=T, curvature=2.0,
                                  scheduler_type="Constant")
        group = S.Schedulers("/nonexistent")
        group.add_object(S.Scheduler.from_config(cfg))
        group.set_iters_max(T)
        got = group.values_as_dict(it)["x"]
        one = S.Scheduler.from_config(C.constant_one(name="y")).value(it)
        none = S.Scheduler.from_config(C.none()).value(it)
    env.check_eq(got, v, "a constant schedule returns its value at every iteration", tol=1e-9)
    env.check_eq(one, 1.0, "the constant-one schedule returns one at every iteration", tol=1e-9)
    env.check(none is None, "a disabled schedule yields no value")


def group_body(env):
    """Several schedules in one group: each keeps its own value, the requested order is respected."""
    S = mod("sktopt.tools.scheduler")
    a, b, c = (env.real(k, -100, 100) for k in "abc")
    T = env.int("T", 1, TMAX())
    it = env.int("it", 1, TMAX())
    perm = env.choice("perm", [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)])
    C = S.SchedulerConfig
    names = ["p", "vol_frac", "beta"]
    with env.code(S):
        g = S.Schedulers("/nonexistent")
        cfgs = [C.constant(target_value=a), C.step(init_value=a, target_value=b, num_steps=3, iters_max=7),
                C.sawtooth_decay(init_value=b, target_value=c, num_steps=2, iters_max=9)]
        for nm, cf in zip(names, cfgs):
            g.add_object_from_config(cf, nm)
        g.set_iters_max(T)
        got = g.values_as_list(it, [names[i] for i in perm], export_log=False)
        one = g.value_on_a_scheduler("beta", it)
        want = [C.constant(name="q", target_value=a),
                C.step(name="q", init_value=a, target_value=b, num_steps=3, iters_max=T),
                C.sawtooth_decay(name="q", init_value=b, target_value=c, num_steps=2, iters_max=T)]
        want = [S.Scheduler.from_config(w).value(it) for w in want]
    env.check_same(len(got), 3, "one value per requested name")
    for k, i in enumerate(perm):
        env.check_eq(got[k], want[i], f"values come in the requested order [{k}]", tol=1e-7)
    env.check_eq(one, want[2], "a single schedule can be asked by name", tol=1e-7)


def harnesses():
    hs = []
    B = f"T in [1,{TMAX()}], it >= 1, start/target in [-100,100], curvature in [0.25,6]"
    for n in range(1, NMAX() + 1):
        for k in STEPPED:
            hs.append(Harness(f"hull_{k}_{n}", hull_body(k, n), FN, B + f", {n} steps"))
            hs.append(Harness(f"mono_{k}_{n}", mono_body(k, n), FN, B + f", {n} steps"))
            if n > 1:
                hs.append(Harness(f"start_{k}_{n}", start_body(k, n), FN, B + f", {n} steps, T > steps"))
                hs.append(Harness(f"level_{k}_{n}", level_body(k, n), FN, B + f", {n} steps"))
        hs.append(Harness(f"saw_{n}", saw_body(n), FN, B + f", {n} cycles dividing T"))
        hs.append(Harness(f"sawhull_{n}", saw_hull_body(n), FN, B + f", {n} cycles"))
        if n > 1:
            hs.append(Harness(f"order_{n}", order_body(n), FN, B + f", {n} steps, curvature in [1,6]"))
    hs.append(Harness("constant", const_body, FN, "it, T in [1,1000]"))
    hs.append(Harness("group", group_body, FN, "3 schedules, every request order"))
    return hs
