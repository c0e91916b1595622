"""C21: section timing: counts, totals, averages, maxima, nesting and self time."""
from sx.harness import Harness
from .common import mod, thorough

FN = ["tools/timer.py SectionTimer.section / wrap / add / reset / stats / summary / summary_self_time / report / _update_running_average"]
ASSUMPTIONS = ["the clock is the injected one, returning any non-decreasing times"]

# programs: nested sections as (name, [children], raises?)
PROGRAMS = {
    "flat": [("a", [], False), ("b", [], False), ("a", [], False)],
    "nested": [("a", [("b", [], False), ("c", [], False)], False), ("b", [], False)],
    "deep": [("a", [("b", [("c", [], False)], False)], False)],
    "again": [("a", [("b", [], False)], False), ("a", [("b", [], False)], False)],
    "self": [("a", [("a", [], False)], False)],
    "fails": [("a", [("b", [], True)], True), ("b", [], False)],
    "caught": [("a", [("b", [], True), ("c", [], False)], False), ("c", [], False)],
}


class Stop(Exception):
    pass


def code(env):
    return env.code(mod("sktopt.tools.timer"))


class Clock:
    def __init__(self, env):
        self.env, self.t, self.k = env, 0.0, 0

    def __call__(self):
        self.k += 1
        self.t = self.t + self.env.real(f"dt{self.k}", 0.0, 100.0)
        return self.t


def run(env, timer, clock, prog, hier, sep, expect, stack=(), wrap=False):
    """Execute the program; expect: name -> list of durations by our own bookkeeping."""
    for name, kids, boom in prog:
        full = sep.join(stack + (name,)) if hier and stack else name
        box = {}

        def inner():
            box["start"] = clock.t
            run(env, timer, clock, kids, hier, sep, expect, stack + (name,), wrap)
            if boom:
                raise Stop()
            return name + "!"
        try:
            if wrap:
                r = timer.wrap(name)(inner)()
                env.check(r == name + "!", "a wrapped function's result is handed back")
            else:
                with timer.section(name):
                    inner()
            env.check(not boom, "an exception inside a section is not swallowed")
        except Stop:
            env.check(boom, "only the section's own exception comes out")
        expect.setdefault(full, []).append(clock.t - box["start"])


def verify(env, stats, expect, what):
    env.check(sorted(s.name for s in stats) == sorted(expect), f"{what}: one entry per section")
    for s in stats:
        v = expect.get(s.name, [0.0])
        tot = 0.0
        for x in v:
            tot = tot + x
        env.check(s.count == len(v), f"{what}: count of {s.name}")
        env.check_eq(s.total, tot, f"{what}: total of {s.name}")
        env.check_eq(s.avg, tot / len(v), f"{what}: average of {s.name}")
        env.check_eq(s.max, env.maxi(*v), f"{what}: maximum of {s.name}")


def sections(pname):
    prog = PROGRAMS[pname]

    def body(env):
        t = mod("sktopt.tools.timer")
        hier = env.choice("hierarchical", [False, True])
        wrap = env.choice("wrap", [False, True])
        sep = env.choice("sep", [">", "::"])
        clock = Clock(env)
        expect = {}
        with code(env):
            timer = t.SectionTimer(clock=clock, hierarchical=hier, sep=sep)
            run(env, timer, clock, prog, hier, sep, expect, wrap=wrap)
            verify(env, timer.stats(), expect, "after the run")
            # children of a section by our own bookkeeping
            for s in timer.summary_self_time(sort_by="name"):
                tot = 0.0
                for x in expect.get(s.name, [0.0]):
                    tot = tot + x
                kids = 0.0
                for n, v in expect.items():
                    if n.startswith(s.name + sep) and sep not in n[len(s.name) + len(sep):]:
                        for x in v:
                            kids = kids + x
                want = env.maxi(tot - kids, 0.0)
                env.check_eq(s.total, want, f"self time of {s.name} excludes its direct children")
                env.check_eq(s.avg, want / len(expect.get(s.name, [0.0])), f"average self time of {s.name}")
                env.check_le(0.0, s.total, f"self time of {s.name} is not negative")
                env.check(s.count == len(expect.get(s.name, [])), f"count with self time of {s.name}")
            # the timer is usable afterwards: sections at top level are at top level again
            with timer.section("z"):
                st = clock.t
            expect.setdefault("z", []).append(clock.t - st)
            verify(env, timer.stats(), expect, "after another top-level section")
    return body


def bookkeeping(env):
    """Explicit durations, ordering, resetting, reports."""
    t = mod("sktopt.tools.timer")
    d = [env.real(f"d{i}", 0.0, 100.0) for i in range(4)]
    key = env.choice("sort_by", ["total", "avg", "max", "count", "name"])
    desc = env.choice("descending", [True, False])
    selft = env.choice("self", [False, True])
    with code(env):
        timer = t.SectionTimer(clock=lambda: 0.0)
        env.check(timer.report() == "No timing data collected." and timer.summary() == [], "nothing recorded, nothing reported")
        timer.add("a", d[0])
        timer.add("b", d[1])
        timer.add("a", d[2])
        timer.add("c", d[3])
        expect = {"a": [d[0], d[2]], "b": [d[1]], "c": [d[3]]}
        s = (timer.summary_self_time if selft else timer.summary)(sort_by=key, descending=desc)
        if not selft:
            verify(env, s, expect, "summary")
        for x, y in zip(s, s[1:]):
            p, q = getattr(x, key), getattr(y, key)
            if key in ("name", "count"):
                env.check(p >= q if desc else p <= q, f"order by {key}")
            else:
                env.check_le(q if desc else p, p if desc else q, f"order by {key}", tol=0)
        e, _ = env.raises(lambda: (timer.summary_self_time if selft else timer.summary)(sort_by="median"), ValueError)
        env.check(e is not None, "an unknown order is refused")
        timer.reset("a")
        del expect["a"]
        verify(env, timer.stats(), expect, "after resetting one section")
        timer.reset("unknown")
        timer.add("b", d[0])
        expect["b"].append(d[0])
        verify(env, timer.stats(), expect, "after adding once more")
        timer.reset()
        env.check(timer.stats() == [], "nothing left after a reset")


def running(env):
    """Moving averages are the mean of everything fed so far, per name, and start afresh after a reset."""
    t = mod("sktopt.tools.timer")
    x = [[env.real(f"x{i}_{j}", -100.0, 100.0) for j in range(2)] for i in range(4)]
    with code(env):
        timer = t.SectionTimer(clock=lambda: 0.0)
        for i in range(3):
            out = timer._update_running_average(["a", "b"], x[i])
            for j in range(2):
                m = 0.0
                for k in range(i + 1):
                    m = m + x[k][j]
                env.check_eq(out[j], m / (i + 1), f"mean of {i + 1} values")
        timer.reset("a")
        out = timer._update_running_average(["a", "b"], x[3])
        env.check_eq(out[0], x[3][0], "afresh after a reset")
        env.check_eq(out[1], (x[0][1] + x[1][1] + x[2][1] + x[3][1]) / 4, "others continue")


def harnesses():
    hs = [Harness(f"sections_{p}", sections(p), FN, f"program {p}, any clock increments in [0,100], hierarchical or not") for p in PROGRAMS]
    hs += [Harness("bookkeeping", bookkeeping, FN, "four durations in [0,100], every order"),
           Harness("running", running, FN, "four rounds of two values in [-100,100]")]
    return hs
