"""A tiny real optimisation set-up whose expensive parts are replaced by stand-ins.

The task, mesh, configuration and optimiser object are the real ones; only the finite element
solver, the filter matrix and file output are replaced (each by an interface-compatible stand-in).
"""
import contextlib
import copy
import dataclasses
import shutil
import tempfile

import numpy as np

from .common import mod

_TASKS = {}


def elastic_task(nx=4, loads=1):
    """Row of nx unit hexahedra, fixed at x=0, loaded at x=nx."""
    key = ("e", nx, loads)
    if key not in _TASKS:
        import skfem
        import sktopt
        mesh = sktopt.mesh.toy_problem.create_box_hex(float(nx), 1.0, 1.0, 1.0)
        basis = skfem.Basis(mesh, skfem.ElementVector(skfem.ElementHex1()), intorder=2)
        fd = mesh.facets_satisfying(lambda x: np.isclose(x[0], 0.0))
        fn = mesh.facets_satisfying(lambda x: np.isclose(x[0], float(nx)))
        with contextlib.redirect_stdout(None):
            t = sktopt.mesh.LinearElasticity.from_facets(
                basis, fd, "all", fn if loads == 1 else [fn] * loads,
                "u^3" if loads == 1 else [f"u^{1 + i % 3}" for i in range(loads)],
                -1.0 if loads == 1 else [-1.0 - i for i in range(loads)],
                np.arange(mesh.nelements), 1.0, 0.3)
        _TASKS[key] = t
    t = copy.copy(_TASKS[key])
    for f in dataclasses.fields(t):
        v = getattr(t, f.name)
        if isinstance(v, np.ndarray):
            setattr(t, f.name, v.copy())
    t.neumann_linear = [v.copy() for v in _TASKS[key].neumann_linear]
    return t


def heat_task(nx=4, robin=False, **kw):
    """Row of nx unit hexahedra with one prescribed temperature at x=0; a Robin face at x=nx if asked."""
    import skfem
    import sktopt
    mesh = sktopt.mesh.toy_problem.create_box_hex(float(nx), 1.0, 1.0, 1.0)
    basis = skfem.Basis(mesh, skfem.ElementHex1(), intorder=2)
    fd = mesh.facets_satisfying(lambda x: np.isclose(x[0], 0.0))
    fr = mesh.facets_satisfying(lambda x: np.isclose(x[0], float(nx)))
    with contextlib.redirect_stdout(None):
        return sktopt.mesh.LinearHeatConduction.from_facets(
            basis=basis, dirichlet_facets_ids=[fd], dirichlet_values=[1.0],
            robin_facets_ids=fr if robin else None, robin_coefficient=0.5 if robin else None,
            robin_bc_value=2.0 if robin else None, design_robin_boundary=True if robin else None,
            design_elements=np.arange(mesh.nelements), k=1.0, objective=kw.pop("objective", "compliance"), **kw)


class Recorder:
    """Stand-in for the history collection: keeps what it is fed."""

    def __init__(self):
        self.h = {}
        self.exported = []
        self.imported = 0
        self.printed = 0

    def add(self, name, *a, **k):
        self.h.setdefault(name, [])

    def feed_data(self, name, data):
        self.h.setdefault(name, []).append(data.copy() if isinstance(data, np.ndarray) else data)

    def latest(self, name):
        return self.h[name][-1]

    def print(self):
        self.printed += 1

    def export_progress(self, *a, **k):
        pass

    def export_histories(self, fname=None):
        self.exported.append(fname)

    def import_histories(self, fname=None):
        self.imported += 1

    def as_object_latest(self):
        return {k: v[-1] for k, v in self.h.items() if v}


class Filter:
    """Linear filter with a fixed matrix and its transpose as the gradient."""

    def __init__(self, env, W, wrap=True):
        self.W = W
        self.env = env
        self.radius = None
        self.calls = []

    def update_radius(self, r):
        self.radius = r

    def forward(self, rho):
        self.calls.append(rho.copy())
        return lin(self.env, self.W, rho)

    def gradient(self, v):
        return lin(self.env, self.W.T, v)

    @classmethod
    def from_defaults(cls, *a, **k):
        raise AssertionError("filters are supplied by the harness")


def lin(env, W, x):
    out = []
    for i in range(W.shape[0]):
        s = 0.0
        for j in range(W.shape[1]):
            w = W[i, j]
            if isinstance(w, float) and w == 0.0:
                continue
            s = s + w * x[j]
        out.append(s)
    return vec(env, out)


def vec(env, xs):
    if env.symbolic:
        from sx import arr
        r = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            r[i] = x
        return r.view(arr.SymArray)
    return np.array([float(x) for x in xs])


class Quiet:
    """Stand-in for plotting/export modules."""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        def f(*a, **k):
            self.calls.append((name, a, k))
        return f


@contextlib.contextmanager
def workdir():
    d = tempfile.mkdtemp(prefix="sxlab")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def modules():
    return [mod("sktopt.core.optimizers.common_density"), mod("sktopt.core.optimizers.oc"),
            mod("sktopt.core.optimizers.logmoc"), mod("sktopt.core.projection"), mod("sktopt.core.derivatives"),
            mod("sktopt.tools.scheduler"), mod("sktopt.fea.composer")]


def make(kind, tsk, d, **cfg):
    """Real optimiser of the given kind with scratch output."""
    m = mod(f"sktopt.core.optimizers.{'oc' if kind == 'OC' else 'logmoc'}")
    C = m.OC_Config if kind == "OC" else m.LogMOC_Config
    O = m.OC_Optimizer if kind == "OC" else m.LogMOC_Optimizer
    S = mod("sktopt.tools.scheduler").SchedulerConfig
    cfg.setdefault("filter_type", "spacial")
    cfg.setdefault("filter_radius", S.constant(target_value=1.2))
    opt = O(C(dst_path=d, **cfg), tsk)
    opt.recorder = Recorder()
    return opt


def prepare(opt, filt):
    """Initial state as the run loop builds it, with the filter replaced."""
    opt.parameterize()
    opt.filter = filt
    opt.init_schedulers(export=False)
    opt._ensure_state_initialized()
    return opt._state


def objectify(env, st):
    """Let the preallocated float buffers hold symbols."""
    if not env.symbolic:
        return
    for f in dataclasses.fields(st):
        v = getattr(st, f.name)
        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
            setattr(st, f.name, env.wrap(v))


# ---- the run loop -----------------------------------------------------------------------------
class Fem:
    """Stand-in for the finite element solver: hands out given responses and records what it is asked."""

    def __init__(self, env, obj, energy, u=None, sens=None):
        self.env, self.obj, self.energy, self.u = env, obj, energy, u
        self.calls = []
        if sens is not None:
            self.compliance_sensitivity_multi_load = lambda rho, p, u: self._later("sens", sens, rho, p)

    def _later(self, kind, table, rho, p):
        self.calls.append((kind, rho.copy(), p))
        n = sum(1 for c in self.calls if c[0] == kind) - 1
        return table[min(n, len(table) - 1)]

    def objectives_multi_load(self, rho, p, u_dofs, timer=None, force_scale=1.0):
        self.calls.append(("scale", None, force_scale))
        r = self._later("objective", self.obj, rho, p)
        if self.u is not None:
            u_dofs[:, :] = self.u
        return r

    def energy_multi_load(self, rho, p, u_dofs, *a, **k):
        return self._later("energy", self.energy, rho, p)

    def seen(self, kind):
        return [c for c in self.calls if c[0] == kind]


class Npz(dict):
    @property
    def files(self):
        return list(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def memory_np():
    """numpy whose savez/load keep the arrays in memory (and touch the file)."""
    import os
    from sx import shim

    class Np(shim.NpShim):
        def __init__(self):
            super().__init__()
            self.__dict__["store"] = {}

        def _key(self, f):
            f = str(f)
            return os.path.abspath(f if f.endswith(".npz") else f + ".npz")

        def savez(self, f, *a, **kw):
            self.store[self._key(f)] = {k: self.asarray(v).copy() for k, v in kw.items()}
            open(self._key(f), "wb").close()

        savez_compressed = savez

        def load(self, f, *a, **k):
            if not os.path.exists(self._key(f)):
                raise FileNotFoundError(self._key(f))
            return Npz({n: v.copy() for n, v in self.store[self._key(f)].items()})
    return Np()


class Updates:
    """Stand-in for the density update: hands back given densities and records its arguments by name."""

    def __init__(self, opt, new, kkt=None, vol_error=0.0):
        import inspect
        self.sig = inspect.signature(opt.rho_update)
        self.opt, self.new, self.kkt, self.vol_error = opt, new, kkt, vol_error
        self.args = []
        opt.rho_update = self

    def __call__(self, *a, **k):
        b = dict(self.sig.bind(*a, **k).arguments)
        b = {n: (v.copy() if isinstance(v, np.ndarray) else v) for n, v in b.items()}
        self.args.append(b)
        out = self.sig.bind(*a, **k).arguments["rho_design_eles"]
        it = b["iter_num"]
        v = self.new(it, b["rho_design_eles"]) if callable(self.new) else self.new[it]
        for i in range(len(out)):
            out[i] = v[i]
        kk = self.kkt
        self.opt.kkt_residual = kk(it) if callable(kk) else (0.0 if kk is None else kk[it])
        self.opt.recorder.feed_data("vol_error", self.vol_error)
        self.opt.recorder.feed_data("kkt_residual", self.opt.kkt_residual)

    def iters(self):
        return [b["iter_num"] for b in self.args]


@contextlib.contextmanager
def running(env, *opts, npmod=None):
    """The run loop with output replaced: yields the recording stand-ins for plots and submesh export."""
    cd = mod("sktopt.core.optimizers.common_density")
    hi = mod("sktopt.tools.history")
    quiet = Quiet()
    saved = {n: getattr(cd, n) for n in ("visualization", "visualization_mesh") if hasattr(cd, n)}
    for n in saved:
        setattr(cd, n, quiet)
    for o in opts:
        quieten(o)
    try:
        extra = None
        if env.symbolic:
            npm = npmod or memory_np()
            extra = {cd: {"np": npm}, hi: {"np": npm}}
        with env.code(*modules(), hi, extra=extra):
            yield quiet
    finally:
        for n, v in saved.items():
            setattr(cd, n, v)


def quieten(o):
    o.tsk.export_analysis_condition_on_mesh = lambda *a, **k: None
    o._save_timing_plot = lambda *a, **k: None
    o._report_timing = lambda *a, **k: None
    if isinstance(getattr(o, "recorder", None), mod("sktopt.tools.history").HistoryCollection):
        o.recorder.export_progress = lambda *a, **k: None
        o.recorder.print = lambda *a, **k: None
    o.schedulers.export = lambda *a, **k: None
