"""C23: scaling of a task: lengths, volumes, loads; undone by the inverse factors."""
import contextlib
import types

import numpy as np

from sx.harness import Harness
from . import c15, c17, femlab, lab
from .common import mod

ASSUMPTIONS = ["box meshes of any edge lengths; in symbolic runs building the scikit-fem basis of the scaled mesh is recorded, not executed",
               "what the optimiser does with a scaled task is not part of this property"]
FN = ["mesh/task_common.py FEMDomain.scale", "LinearElasticity.force (getter and setter)", "DensityMethodBase.__init__ (scaling)",
      "DensityMethod.scale / unscale", "composer.get_elements_volume"]


class Basis:
    """Stand-in for a scikit-fem basis: keeps what it was made of."""

    def __init__(self, mesh, elem, mapping=None, intorder=None, elements=None, quadrature=None, **k):
        self.mesh, self.elem, self.intorder, self.quadrature = mesh, elem, intorder, quadrature
        self.X, self.W = quadrature if quadrature is not None else (None, None)
        self.elements = elements


def grid(kind):
    import skfem
    if kind == "hex":
        return c17.grid("hex")
    m = skfem.MeshTet.init_tensor(np.array([0, 1.0, 2.0, 3.0]), np.array([0, 1.0]), np.array([0, 1.0]))
    t = m.t.copy()
    for e in range(t.shape[1]):
        P = m.p[:, t[:, e]]
        if np.linalg.det(P[:, 1:] - P[:, :1]) < 0:
            t[[2, 3], e] = t[[3, 2], e]
    return skfem.MeshTet(m.p, t, sort_t=False)


def task(env, kind, loads, values=None):
    """A real elastic task over a box mesh whose three edge lengths are symbolic."""
    te = mod("sktopt.mesh.task_elastic")
    m = grid(kind)
    R = c17.regions(m)
    b = c17.basis(m, True)
    with contextlib.redirect_stdout(None):
        t = te.LinearElasticity.from_facets(b, R["left"], "all", [R["right"]] * loads if loads > 1 else R["right"],
                                            ["u^1", "u^3"][:loads] if loads > 1 else "u^1",
                                            [1.0] * loads if loads > 1 else 1.0, np.arange(m.t.shape[1]), 2.0, 0.25)
    size = [env.real(f"size{i}", 0.1, 5.0) for i in range(3)]
    unit = m.p
    P = [[size[i] * float(unit[i, j]) for i in range(3)] for j in range(unit.shape[1])]
    vol = [size[0] * size[1] * size[2] * float(v) for v in t.elements_volume]
    F = [[env.real(f"F{k}_{i}", -10, 10) for i in range(3)] for k in range(loads)]
    full = []
    for k in range(loads):
        v = t.neumann_linear[k]
        x = [float(a) for a in v]
        for i, j in enumerate((0, len(v) // 2, len(v) - 1)):
            x[j] = F[k][i]
        full.append(x)
    t.neumann_linear = [lab.vec(env, list(x)) for x in full]
    ms = c15.mesh_with(env, "tet" if kind == "tet" else "hex", m.t, P) if env.symbolic else type(m)(
        np.array(P, dtype=float).T, m.t, **({"sort_t": False} if kind == "tet" else {}))
    if env.symbolic:
        nb = Basis(ms, b.elem, quadrature=(b.X, b.W))
    else:
        import skfem
        nb = skfem.Basis(ms, b.elem, quadrature=(b.X, b.W))
    t.basis = nb
    t.elements_volume = lab.vec(env, list(vol))
    return t, m, b, P, vol, full


@contextlib.contextmanager
def code(env, *more):
    tc, te, cp = mod("sktopt.mesh.task_common"), mod("sktopt.mesh.task_elastic"), mod("sktopt.fea.composer")
    import skfem
    import skfem.mesh.mesh as mm
    if not env.symbolic:
        yield
        return

    class Proxy(types.ModuleType):
        def __getattr__(self, k):
            return getattr(skfem, k)
    px = Proxy("skfem")
    px.Basis = px.CellBasis = Basis
    with env.code(tc, te, cp, mm, *more, extra={tc: {"skfem": px}}):
        yield


def compare(env, t, m, b, P, vol, full, what, elements):
    env.check(type(t.mesh) is type(m) and np.array_equal(np.asarray(t.mesh.t), m.t), f"{what}: same elements, same corners")
    env.check(t.mesh is t.basis.mesh, f"{what}: one mesh")
    for j in range(len(P)):
        for i in range(3):
            env.check_eq(t.mesh.p[i, j], P[j][i], f"{what}: coordinate {i} of node {j}")
    for e, v in enumerate(vol):
        env.check_eq(t.elements_volume[e], v, f"{what}: volume of element {e}", tol=1e-6)
    env.check(t.n_tasks == len(full) and isinstance(t.neumann_linear, list), f"{what}: same number of load cases")
    for k, F in enumerate(full):
        env.check(len(t.neumann_linear[k]) == len(F), f"{what}: load vector {k} keeps its length")
        for i in range(len(F)):
            env.check_eq(t.neumann_linear[k][i], F[i], f"{what}: load {k} [{i}]")
    env.check(type(t.basis.elem) is type(b.elem) and type(t.basis.elem.elem) is type(b.elem.elem), f"{what}: same element type")
    env.check(t.basis.X is not None and np.array_equal(t.basis.X, b.X) and np.array_equal(t.basis.W, b.W), f"{what}: same quadrature")
    env.check([list(map(int, x)) for x in (t.design_elements, t.fixed_elements, t.all_elements, t.dirichlet_dofs, t.free_dofs)] == elements,
              f"{what}: design, supports and free unknowns unchanged")


def ids(t):
    return [list(map(int, x)) for x in (t.design_elements, t.fixed_elements, t.all_elements, t.dirichlet_dofs, t.free_dofs)]


def domain(kind, loads):
    def body(env):
        t, m, b, P, vol, full = task(env, kind, loads)
        el = ids(t)
        L = env.real("L", 0.1, 10.0)
        F = env.real("F", 1e-3, 1e3)
        with code(env):
            t.scale(L, F)
            compare(env, t, m, b, [[L * x for x in c] for c in P], [L * L * L * v for v in vol], [[F * x for x in f] for f in full],
                    "scaled", el)
    return body


def back(kind, loads):
    def body(env):
        t, m, b, P, vol, full = task(env, kind, loads)
        el = ids(t)
        L, Li = env.real("L", 0.1, 10.0), env.real("Li", 0.1, 10.0)
        F, Fi = env.real("F", 1e-3, 1e3), env.real("Fi", 1e-3, 1e3)
        env.assume(L * Li == 1 if env.symbolic else abs(L * Li - 1) < 1e-9)
        env.assume(F * Fi == 1 if env.symbolic else abs(F * Fi - 1) < 1e-9)
        with code(env):
            t.scale(L, F)
            t.scale(Li, Fi)
            g = t.elements_volume
            compare(env, t, m, b, P, [g[e] for e in range(len(vol))], full, "scaled and back", el)
            lv = L * L * L
            li = Li * Li * Li
            for e, v in enumerate(vol):
                env.check_eq(g[e], lv * li * v, f"scaled and back: volume of element {e}", tol=1e-6)
    return body


def optimizer(method, loads):
    """An optimiser with scaling: unit largest extent, loads over 1e5, and back."""
    def body(env):
        t, m, b, P, vol, full = task(env, "hex", loads)
        el = ids(t)
        ext = [env.maxi(*[P[j][i] for j in range(len(P))]) for i in range(3)]
        Lmax = env.maxi(*ext)
        cd, oc, lm = mod("sktopt.core.optimizers.common_density"), mod("sktopt.core.optimizers.oc"), mod("sktopt.core.optimizers.logmoc")
        with lab.workdir() as d, code(env, cd, oc, lm), contextlib.redirect_stdout(None):
            opt = lab.make(method, t, d, scaling=True, design_dirichlet=True)
            t = opt.tsk
            env.check_eq(opt.L_scale, Lmax, "length scale: the largest extent")
            inv = env.real("inv", 1e-3, 100.0)      # 1/Lmax
            env.assume(inv * Lmax == 1 if env.symbolic else abs(inv * Lmax - 1) < 1e-9)
            compare(env, t, m, b, [[inv * x for x in c] for c in P], [inv * inv * inv * v for v in vol],
                    [[x / 1e5 for x in f] for f in full], "optimiser", el)
            opt.unscale()
            for j in range(len(P)):
                for i in range(3):
                    env.check_eq(t.mesh.p[i, j], P[j][i], f"unscaled: coordinate {i} of node {j}")
            for k, f in enumerate(full):
                for i in range(len(f)):
                    env.check_eq(t.neumann_linear[k][i], f[i], f"unscaled: load {k} [{i}]")
            env.check(t.n_tasks == loads, "unscaled: same number of load cases")
    return body


def unscaled(env):
    """Without scaling the optimiser leaves the task alone."""
    t, m, b, P, vol, full = task(env, "hex", 1)
    el = ids(t)
    cd, oc, lm = mod("sktopt.core.optimizers.common_density"), mod("sktopt.core.optimizers.oc"), mod("sktopt.core.optimizers.logmoc")
    method = env.choice("method", ["OC", "LogMOC"])
    with lab.workdir() as d, code(env, cd, oc, lm), contextlib.redirect_stdout(None):
        opt = lab.make(method, t, d, scaling=False, design_dirichlet=True)
        compare(env, opt.tsk, m, b, P, vol, full, "without scaling", el)


def heat(env):
    method = env.choice("method", ["OC", "LogMOC"])
    t = lab.heat_task(2)
    with lab.workdir() as d, contextlib.redirect_stdout(None):
        err, _ = env.raises(lambda: lab.make(method, t, d, scaling=True))
    env.check(err is None, "a heat task can be scaled")


def harnesses():
    o = {"poly": True}
    hs = []
    for k in ("hex", "tet"):
        for n in (1, 2):
            hs.append(Harness(f"domain_{k}{n}", domain(k, n), FN, f"{k} box of any edge lengths in [0.1,15], any L in [0.1,10], F, loads; {n} load case(s)", opts=o))
            hs.append(Harness(f"back_{k}{n}", back(k, n), FN, "same, with inverse factors afterwards", opts=o))
    for meth in ("OC", "LogMOC"):
        hs.append(Harness(f"optimizer_{meth}", optimizer(meth, 2), FN, "hex box of any edge lengths, any loads, 2 load cases", opts=o))
    hs.append(Harness("unscaled", unscaled, FN, "hex box, any loads", opts=o))
    hs.append(Harness("heat", heat, FN, "heat task"))
    return hs
