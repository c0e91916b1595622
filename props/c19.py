"""C19: recorded histories."""
import os

import numpy as np

from sx import shim
from sx.harness import Harness
from . import lab
from .common import mod, thorough

ASSUMPTIONS = ["the npz container is replaced by an in-memory store in the symbolic run (the replay uses real files)",
               "history names do not end in '_header'"]
FN = ["tools.history.HistorySeries", "tools.history.HistoryCollection"]


class Npz(dict):
    @property
    def files(self):
        return list(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class Np(shim.NpShim):
    """numpy with savez/load kept in memory."""

    def __init__(self):
        super().__init__()
        self.__dict__["store"] = {}

    def _key(self, f):
        f = str(f)
        return os.path.abspath(f if f.endswith(".npz") else f + ".npz")

    def savez(self, f, *a, **kw):
        self.store[self._key(f)] = {k: self.asarray(v).copy() for k, v in kw.items()}
        open(self._key(f), "wb").close()

    savez_compressed = savez

    def load(self, f, *a, **k):
        return Npz({n: v.copy() for n, v in self.store[self._key(f)].items()})


def code(env):
    h = mod("sktopt.tools.history")
    return env.code(h, extra={h: {"np": Np()}})


def stats(env, xs, std):
    n = len(xs)
    mean = sum(xs[1:], xs[0]) / n
    out = [env.mini(*xs), mean, env.maxi(*xs)]
    if std:
        out.append(env.sqrt(sum(((x - mean) * (x - mean) for x in xs[1:]), (xs[0] - mean) * (xs[0] - mean)) / n))
    return out


def same(env, got, want, label, tol=1e-7):
    got = list(got) if np.ndim(got) else [got]
    env.check(len(got) == len(want), label + " (length)")
    for i, w in enumerate(want):
        env.check_eq(got[i], w, f"{label} [{i}]", tol=tol)


def scalars(k):
    def body(env):
        h = mod("sktopt.tools.history")
        xs = [env.real(f"x{i}", -1e6, 1e6) for i in range(k)]
        with lab.workdir() as d, code(env):
            c = h.HistoryCollection(d)
            c.add("a", constants=[1.0, 2.0], constant_names=["p", "q"], ylog=True)
            c.add("b")
            for i, x in enumerate(xs):
                c.feed_data("a", x)
                env.check_eq(c.latest("a"), x, f"the latest value is the one just fed [{i}]", tol=0)
            for rnd in range(2):
                same(env, c.histories["a"].data_np_array, xs, f"values in the order they were fed (round {rnd})", 0)
                env.check(c.histories["a"].ylog is True and c.histories["a"].constants == [1.0, 2.0]
                          and c.histories["a"].constant_names == ["p", "q"], f"presentation settings are kept (round {rnd})")
                env.check("b" in c.histories and not c.histories["b"].exists(),
                          f"a registered quantity without data stays registered (round {rnd})")
                if rnd == 0:
                    c.export_histories("h.npz")
            y = env.real("y", -1e6, 1e6)
            c.feed_data("a", y)
            c.feed_data("b", y)
            same(env, c.histories["a"].data_np_array, xs + [y], "feeding continues after an export", 0)
            o = c.as_object_latest()
            env.check_eq(getattr(o, "a"), y, "latest values as attributes", tol=0)
            env.check_eq(getattr(o, "b"), y, "latest values as attributes (b)", tol=0)
            c2 = h.HistoryCollection(d)
            c2.add("a", ylog=True)
            c2.import_histories("h.npz")
            same(env, c2.histories["a"].data_np_array, xs, "a new collection imports what was exported", 0)
            c2.feed_data("a", y)
            same(env, c2.as_object().a, xs + [y], "an imported history continues", 0)
    return body


def arrays(kind, k, m):
    def body(env):
        h = mod("sktopt.tools.history")
        std = kind == "min-max-mean-std"
        rows = [env.array(f"r{i}", m, -100, 100) for i in range(k)]
        with lab.workdir() as d, code(env):
            c = h.HistoryCollection(d)
            c.add("a", plot_type=kind)
            c.add("s")
            want = []
            for i, r in enumerate(rows):
                want.append(stats(env, list(r), std))
                c.feed_data("a", r)
                c.feed_data("s", r[0])
                r[0] = 1e9
                same(env, c.latest("a"), want[-1], f"min, mean, max (and deviation) of the latest array [{i}]", 1e-6)
            for rnd in range(2):
                got = c.histories["a"].data_np_array
                env.check(got.shape == (k, len(want[0])), f"one row of statistics per entry (round {rnd})")
                for i in range(k):
                    same(env, got[i], want[i], f"statistics of entry {i} (round {rnd})", 1e-6)
                env.check(c.histories["a"].plot_type == kind, f"kind of aggregation is kept (round {rnd})")
                env.check(c.histories["s"].data_np_array.shape == (k,), f"scalars stay scalars (round {rnd})")
                if rnd == 0:
                    c.export_histories("h.npz")
            last = env.array("last", m, -100, 100)
            c.feed_data("a", last)
            same(env, c.latest("a"), stats(env, list(last), std), "an imported history continues", 1e-6)
            env.check(c.histories["a"].data_np_array.shape == (k + 1, len(want[0])), "an imported history continues (shape)")
    return body


def scalar_kinds(env):
    h = mod("sktopt.tools.history")
    x = env.real("x", -10, 10)
    with code(env):
        s = h.HistorySeries("q")
        z = np.empty((), dtype=object if env.symbolic else float)
        z[()] = x
        s.add(env.wrap(z) if env.symbolic else z)
        s.add(np.float64(2.5))
        s.add(3)
        same(env, s.data_np_array, [x, 2.5, 3.0], "numbers and zero-dimensional arrays are stored as numbers", 0)
        e, _ = env.raises(lambda: h.HistorySeries("r").latest(), ValueError)
        env.check(e is not None, "an empty history has no latest value")
        c = h.HistoryCollection("nowhere")
        e, _ = env.raises(lambda: c.latest("r"), KeyError)
        env.check(e is not None, "an unknown history is an error")


def compare(env):
    """Two collections compare equal exactly if their data agree (up to round-off)."""
    h = mod("sktopt.tools.history")
    a = [env.real(f"a{i}", -10, 10) for i in range(2)]
    b = [env.real(f"b{i}", -10, 10) for i in range(2)]
    with code(env):
        A = {"q": h.HistorySeries("q", data=list(a))}
        B = {"q": h.HistorySeries("q", data=list(b))}
        r = bool(h.compare_histories_data_and_plot_type(A, B))
        eq = env.and_(a[0] == b[0], a[1] == b[1])
        far = env.or_(*[env.maxi(x - y, y - x) > 1e-3 for x, y in zip(a, b)])
        env.check(env.implies(eq, r), "equal data compare equal")
        env.check(env.implies(far, not r), "different data compare different")
        C = {"q": h.HistorySeries("q", data=list(a), plot_type="min-max-mean-std")}
        env.check(not h.compare_histories_data_and_plot_type(A, C), "a different kind compares different")
        env.check(not h.compare_histories_data_and_plot_type(A, {"p": A["q"]}), "different names compare different")
        env.check(not h.compare_histories_data_and_plot_type(A, {"q": h.HistorySeries("q", data=list(a) + [a[0]])}),
                  "different lengths compare different")


def harnesses():
    K = (1, 2, 3) if not thorough() else (1, 2, 3, 5, 8)
    hs = [Harness(f"scalars_{k}", scalars(k), FN, f"{k} entries, any values in [-1e6,1e6]") for k in K]
    for kind in ("value", "min-max-mean", "min-max-mean-std"):
        for k, m in (((1, 2), (2, 3)) if not thorough() else ((1, 1), (1, 2), (2, 3), (3, 4))):
            hs.append(Harness(f"arrays_{kind.replace('-', '_')}_{k}x{m}", arrays(kind, k, m), FN,
                              f"{k} arrays of {m} values in [-100,100]"))
    hs += [Harness("scalar_kinds", scalar_kinds, FN, "values in [-10,10]"), Harness("compare", compare, FN, "2 values each")]
    return hs
