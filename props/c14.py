"""C14: heat conduction response: balance at free nodes, prescribed values, Robin exchange, objectives, energies."""
import contextlib
import dataclasses

import numpy as np

from sx.harness import Harness
from . import femlab, lab
from .common import mod, thorough

ASSUMPTIONS = ["meshes are fixed small ones (one or two tetrahedra or hexahedra); conductivities, Robin coefficients, ambient and "
               "prescribed temperatures are symbolic",
               "the density field entering the density-dependent Robin term (through |grad rho|) is one of a few fixed fields",
               "a linear solve (SuperLU) is an unknown vector that satisfies its equations exactly, of magnitude <= 100",
               "scipy sparse matrices are represented densely; skfem's basis evaluation on the fixed mesh is taken as computed"]
FN = ["solver_heat.FEM_SimpLinearHeatConduction.objectives_multi_load / energy_multi_load", "solver_heat.solve_multi_load",
      "solver_heat.solve_heat_system_multi", "solver_heat.get_robin_virtual", "solver_heat.heat_energy_skfem_multi",
      "task_heat.assemble_surface_robin", "composer.assemble_conduction_matrix",
      "skfem BilinearForm._assemble / LinearForm._assemble / Functional.elemental (loops)"]


def mods():
    return mod("sktopt.fea.composer"), mod("sktopt.fea.solver_heat"), mod("sktopt.mesh.task_heat")


def task(kind, sets, **kw):
    import skfem
    m = femlab.mesh(kind)
    el = skfem.ElementHex1() if kind.startswith("hex") else skfem.ElementTetP1()
    with contextlib.redirect_stdout(None):
        b = skfem.Basis(m, el, intorder=2)
    t = dataclasses.replace(lab.heat_task(), basis=b, dirichlet_nodes=[np.array(s) for s in sets],
                            all_elements=np.arange(m.nelements), **kw)
    return t, m, b


def nodal(m, rho):
    r, c = np.zeros(m.p.shape[1]), np.zeros(m.p.shape[1])
    for e in range(m.t.shape[1]):
        for a in m.t[:, e]:
            r[a] += rho[e]
            c[a] += 1
    return r / c


def points(m, kind, b):
    """Per element: (weight*|J|, N, grad N) at the basis's own quadrature points (own shape functions)."""
    out = []
    for e in range(m.t.shape[1]):
        P = m.p[:, m.t[:, e]].T
        L = []
        for q in range(b.X.shape[1]):
            N, G = femlab.shape_grads(kind, b.X[:, q])
            J = P.T @ G
            L.append((b.W[q] * abs(np.linalg.det(J)), N, G @ np.linalg.inv(J)))
        out.append(L)
    return out


def interface(m, kind, b, rho, p, q):
    """Mass matrix and load of the density-dependent exchange for unit coefficient and unit ambient temperature."""
    rn = nodal(m, rho)
    n = m.p.shape[1]
    M, f = np.zeros((n, n)), np.zeros(n)
    for e, L in enumerate(points(m, kind, b)):
        d = m.t[:, e]
        for w, N, dN in L:
            r = N @ rn[d]
            g = dN.T @ rn[d]
            a = w * r ** p * (1 - r) ** q * np.sqrt(g @ g)
            M[np.ix_(d, d)] += a * np.outer(N, N)
            f[d] += a * N
    return M, f


def interface_integrals(m, kind, b, rho):
    """Integral of |grad rho| against each shape function, and over the domain (complex densities allowed)."""
    n = m.p.shape[1]
    rn, c = np.zeros(n, dtype=complex), np.zeros(n)
    for e in range(m.t.shape[1]):
        for a in m.t[:, e]:
            rn[a] += rho[e]
            c[a] += 1
    rn = rn / c
    f, tot = np.zeros(n, dtype=complex), 0j
    for e, L in enumerate(points(m, kind, b)):
        d = m.t[:, e]
        for w, N, dN in L:
            g = dN.T @ rn[d]
            a = w * np.sqrt(np.sum(g * g))
            f[d] += a * N
            tot += a
    return f, tot


def facet_mass(m, kind, facets):
    """Exact consistent mass matrix and load of a set of flat boundary facets (triangles or parallelograms)."""
    n = m.p.shape[1]
    M, f = np.zeros((n, n)), np.zeros(n)
    for k in facets:
        v = m.facets[:, k]
        P = m.p[:, v].T
        if kind.startswith("tet"):
            A = 0.5 * np.linalg.norm(np.cross(P[1] - P[0], P[2] - P[0]))
            M[np.ix_(v, v)] += A / 12 * (np.ones((3, 3)) + np.eye(3))
            f[v] += A / 3
        else:
            # order the corners around the face
            c = P.mean(axis=0)
            x = P[0] - c
            nrm = np.cross(P[0] - P[1], P[0] - P[2])
            y = np.cross(nrm / np.linalg.norm(nrm), x)
            ang = np.arctan2((P - c) @ y / np.linalg.norm(y), (P - c) @ x / np.linalg.norm(x))
            o = np.argsort(ang)
            Q = P[o]
            A = np.linalg.norm(np.cross(Q[1] - Q[0], Q[3] - Q[0]))
            one = np.array([[4, 2, 1, 2], [2, 4, 2, 1], [1, 2, 4, 2], [2, 1, 2, 4]]) / 36.0
            w = v[o]
            M[np.ix_(w, w)] += A * one
            f[w] += A / 4
    return M, f


def lform(f, x):
    s = 0.0
    for i in range(len(x)):
        if abs(f[i]) > 1e-14:
            s = s + f[i] * x[i]
    return s


class Ref:
    """Reference system: sum of coefficient * concrete matrix, and a right-hand side of the same kind."""

    def __init__(self, n):
        self.n = n
        self.mats, self.loads = [], []

    def conduct(self, m, kind, k):
        for e, K in enumerate(femlab.unit_conductivity(m, kind)):
            A = np.zeros((self.n, self.n))
            A[np.ix_(m.t[:, e], m.t[:, e])] = K
            self.mats.append((k[e], A))

    def exchange(self, h, Tenv, M, f):
        self.mats.append((h, M))
        self.loads.append((h * Tenv, f))

    def row(self, i, T):
        s = 0.0
        for c, A in self.mats:
            a = 0.0
            for j in range(self.n):
                if abs(A[i, j]) > 1e-15:
                    a = a + A[i, j] * T[j]
            s = s + c * a
        return s

    def rhs(self, i):
        s = 0.0
        for c, f in self.loads:
            if abs(f[i]) > 1e-15:
                s = s + c * f[i]
        return s

    def quad(self, T):
        s = 0.0
        for i in range(self.n):
            s = s + T[i] * self.row(i, T)
        return s


def energy(m, kind, e, k, T):
    K = femlab.unit_conductivity(m, kind)[e]
    d = m.t[:, e]
    s = 0.0
    for r in range(len(d)):
        a = 0.0
        for c in range(len(d)):
            if abs(K[r, c]) > 1e-15:
                a = a + K[r, c] * T[d[c]]
        s = s + T[d[r]] * a
    return 0.5 * k * s


FIELDS = {2: [[0.25, 0.75], [1.0, 0.5], [0.5, 0.5]], 1: [[0.5]], 3: [[0.2, 0.9, 0.4]]}


def balance(env, ref, T, sets, vals, n, tag="", tol=1e-6):
    for l, s in enumerate(sets):
        held = set(int(x) for x in s)
        for d in sorted(held):
            env.check_eq(T[d, l], vals[l], f"{tag}prescribed temperature of its own load case [{l},{d}]")
        for i in range(n):
            if i not in held:
                env.check_eq(ref.row(i, T[:, l]), ref.rhs(i), f"{tag}heat balance at every free node [{l},{i}]", tol=tol)


def response(kind, sets, robin=0, virtual=False, objective="compliance", law="any", solver="spsolve", p=3.0,
             weight=0.0):
    """robin: number of exchange surfaces; virtual: density-dependent exchange."""
    def body(env):
        comp, sh, th = mods()
        m = femlab.mesh(kind)
        n, ne = m.p.shape[1], m.nelements
        fld = env.choice("field", list(range(len(FIELDS[ne])))) if virtual else None
        vals = [env.real(f"Td{l}", -2, 2) for l in range(len(sets))]
        k0, c = env.real("k0", 0.5, 2), env.real("kmin_coeff", 0.001, 0.5)
        t, m, b = task(kind, sets, dirichlet_values=list(vals), k=k0, objective=objective,
                       design_robin_boundary=None, avg_temp_weight=weight)
        surf = [m.boundary_facets()[:2], m.boundary_facets()[2:3]][:robin]
        hs = [env.real(f"h{r}", 0, 2) for r in range(robin)]
        Ts = [env.real(f"Tenv{r}", -2, 2) for r in range(robin)]
        hv, Tv = env.real("hv", 0, 2), env.real("Tenv_v", -2, 2)
        rho = env.wrap(np.array(FIELDS[ne][fld])) if virtual else env.array("rho", ne, 0, 1)
        calls = []
        if law == "any":
            given = env.array("k_elem", ne, 0.01, 2)

            def interp(r, a, z, pp):
                calls.append((r.copy(), a, z, pp))
                return given.copy()
            k = given
        else:
            interp = comp.simp_interpolation if law == "simp" else comp.ramp_interpolation
            if law == "simp":
                k = [k0 * c + (k0 - k0 * c) * rho[e] * rho[e] * rho[e] for e in range(ne)]
            else:
                k = [k0 * c + (k0 - k0 * c) * rho[e] for e in range(ne)]      # p = 0
        u = env.wrap(np.full((n, len(sets)), 7.0))
        with femlab.fem(env, comp, sh, th):
            if robin:
                t.robin_bilinear, t.robin_linear = th.assemble_surface_robin(b, [f.copy() for f in surf], list(hs), list(Ts))
            if virtual:
                t.robin_coefficient, t.robin_bc_value = hv, Tv
            before = [np.array(x, dtype=object).copy() for x in (t.robin_linear or [])]
            f = sh.FEM_SimpLinearHeatConduction(t, c, density_interpolation=interp, solver_option=solver, q=2)
            J = f.objectives_multi_load(rho, p, u)
            U = sh.heat_energy_skfem_multi(b, rho, u, k0, k0 * c, p, elem_func=interp)
            if objective == "compliance":
                V = f.energy_multi_load(rho, p, u)
        for a in calls:
            env.check_eq(a[0], rho, "interpolation of the given densities")
            env.check_eq(a[1], k0, "full value is the task's conductivity")
            env.check_eq(a[2], k0 * c, "minimum value is the given fraction of it")
            env.check_eq(a[3], p, "given penalty")
        ref = Ref(n)
        ref.conduct(m, kind, k)
        for r in range(robin):
            ref.exchange(hs[r], Ts[r], *facet_mass(m, kind, surf[r]))
        if virtual:
            ref.exchange(hv, Tv, *interface(m, kind, b, np.array(FIELDS[ne][fld]), p, 2))
        balance(env, ref, u, sets, vals, n)
        env.check(len(J) == len(sets), "one objective per load case")
        for l in range(len(sets)):
            if objective == "compliance":
                env.check_eq(J[l], ref.quad(u[:, l]), f"compliance is T.K.T [{l}]", tol=1e-5)
            elif objective == "averaged_temp":
                s = 0.0
                for i in range(n):
                    s = s + u[i, l]
                env.check_eq(J[l], s, f"averaged temperature is the sum of nodal temperatures [{l}]", tol=1e-6)
            elif objective == "heat_exchange":
                G, tot = interface_integrals(m, kind, b, np.array(FIELDS[ne][fld], dtype=complex))
                G, tot = G.real, tot.real
                w = -Tv * hv * (lform(G, u[:, l]) / tot - Tv) if tot > 1e-12 else 0.0
                if weight and tot > 1e-12:
                    s = 0.0
                    for i in range(n):
                        s = s + u[i, l]
                    w = w + weight * s
                env.check_eq(J[l], w, f"heat exchange is -Tenv h times the mean excess over the interface [{l}]", tol=1e-6)
            for e in range(ne):
                w = energy(m, kind, e, k[e], u[:, l])
                env.check_eq(U[e, l], w, f"element energy is half k |grad T|^2 [{e},{l}]", tol=1e-5)
                if objective == "compliance":
                    env.check_eq(V[e, l], w, f"energy of the compliance objective [{e},{l}]", tol=1e-5)
        for x, y in zip(before, t.robin_linear or []):
            env.check_eq(y, env.wrap(x) if env.symbolic else np.array(x, dtype=float), "the task's exchange load is left alone")
        for l in range(len(sets)):
            env.check_eq(t.dirichlet_values[l], vals[l], "the task's prescribed temperatures are left alone")
    return body


def again(env):
    """A second evaluation with other conductivities in the same object does not depend on the first."""
    comp, sh, th = mods()
    kind, sets = "tet2", [[0, 1], [0, 1]]
    m = femlab.mesh(kind)
    n, ne = m.p.shape[1], m.nelements
    vals = [env.real(f"Td{l}", -2, 2) for l in range(2)]
    E = [env.array("ka", ne, 0.01, 2), env.array("kb", ne, 0.01, 2)]
    h, Te = env.real("h0", 0, 2), env.real("Tenv0", -2, 2)
    t, m, b = task(kind, sets, dirichlet_values=list(vals), k=1.0, objective="compliance", design_robin_boundary=None)
    surf = m.boundary_facets()[:2]
    step = [0]
    rho = env.array("rho", ne, 0, 1)
    with femlab.fem(env, comp, sh, th, products=False):
        t.robin_bilinear, t.robin_linear = th.assemble_surface_robin(b, [surf], [h], [Te])
        f = sh.FEM_SimpLinearHeatConduction(t, 1e-3, density_interpolation=lambda *a: E[step[0]].copy())
        u = env.wrap(np.zeros((n, 2)))
        f.objectives_multi_load(rho, 3.0, u)
        f.energy_multi_load(rho, 3.0, u)
        step[0] = 1
        J = f.objectives_multi_load(rho, 2.0, u)
        V = f.energy_multi_load(rho, 2.0, u)
    ref = Ref(n)
    ref.conduct(m, kind, E[1])
    ref.exchange(h, Te, *facet_mass(m, kind, surf))
    balance(env, ref, u, sets, vals, n, "second evaluation: ")
    for l in range(2):
        env.check_eq(J[l], ref.quad(u[:, l]), f"second evaluation: compliance [{l}]", tol=1e-5)
        for e in range(ne):
            env.check_eq(V[e, l], energy(m, kind, e, E[1][e], u[:, l]), f"second evaluation: energy [{e},{l}]", tol=1e-5)


def plain(env):
    """The module-level multi-load solvers, given a matrix and load directly."""
    comp, sh, th = mods()
    which = env.choice("routine", ["solve_scipy", "solve_scipy_heat_multi_enforce", "solve_heat_system_multi", "none"])
    sets = env.choice("sets", ["same", "differ"])
    sets = [[0, 1], [0, 1]] if sets == "same" or which == "solve_scipy" else [[0, 1], [2, 4, 3]]
    kind = "tet2"
    m = femlab.mesh(kind)
    n, ne = m.p.shape[1], m.nelements
    vals = [env.real(f"Td{l}", -2, 2) for l in range(2)]
    k = env.array("k_elem", ne, 0.01, 2)
    load = env.array("load", n, -1, 1)
    t, m, b = task(kind, sets, k=1.0, design_robin_boundary=None)
    u = env.wrap(np.full((n, 2), 5.0))
    with femlab.fem(env, comp, sh, products=False):
        K = comp.assemble_conduction_matrix(b, env.wrap(np.zeros(ne)), 1.0, 0.1, 3.0, lambda *a: k.copy())
        K = K.tocsr()
        D = [b.get_dofs(nodes=np.array(s)) for s in sets]
        l0 = load.copy()
        if which == "none":
            v = env.wrap(np.zeros((n, 0)))
            sh.solve_scipy(K, l0, [], [], v)
            return
        if which == "solve_heat_system_multi":
            se = mod("sktopt.fea.solver_elastic")
            sh.solve_heat_system_multi(K, l0, D, vals, u, se.normalize_linear_solver_config("spsolve"))
        else:
            getattr(sh, which)(K, l0, D, vals, u)
    ref = Ref(n)
    ref.conduct(m, kind, k)
    for l, s in enumerate(sets):
        for i in range(n):
            if i in s:
                env.check_eq(u[i, l], vals[l], f"prescribed temperature of its own load case [{l},{i}]")
            else:
                env.check_eq(ref.row(i, u[:, l]), load[i], f"heat balance at every free node [{l},{i}]", tol=1e-6)
    env.check_eq(l0, load, "the load is left alone")


def harnesses():
    P = {"poly": True}
    B = ("prescribed and ambient temperatures in [-2,2], exchange coefficients [0,2], conductivities [0.01,2] or densities [0,1] "
         "with k0 [0.5,2] and floor 0.1%-50%")
    hs = []

    def add(name, body, what):
        hs.append(Harness(name, body, FN, what + "; " + B, opts=P, budget=30))
    add("tet", response("tet", [[0, 1]]), "tet, 1 load, any conductivity")
    add("tet2_same", response("tet2", [[0, 1], [0, 1]]), "tet2, 2 loads on one set")
    add("tet2_differ", response("tet2", [[0, 1], [3, 4]]), "tet2, 2 loads on different sets")
    add("tet2_ragged", response("tet2", [[0, 1], [4], [2, 3, 4]]), "tet2, 3 loads on sets of different sizes")
    add("hex", response("hex", [[0, 1, 2, 4]]), "hex, 1 load")
    add("robin1", response("tet2", [[0]], robin=1), "tet2, one exchange surface")
    add("robin2", response("tet2", [[0], [4]], robin=2), "tet2, two exchange surfaces, different sets")
    add("robin_hex", response("hex", [[0]], robin=2), "hex, two exchange surfaces")
    add("virtual", response("tet2", [[0]], virtual=True), "tet2, density-dependent exchange, three fixed fields")
    add("virtual_robin", response("tet2", [[0, 1], [3]], robin=1, virtual=True), "tet2, both kinds of exchange")
    add("virtual_hex", response("hex2", [[0]], virtual=True), "hex2, density-dependent exchange")
    add("simp", response("tet2", [[0]], robin=1, law="simp"), "tet2, SIMP p=3")
    add("ramp", response("tet2", [[0]], robin=1, law="ramp", p=0.0), "tet2, RAMP p=0")
    add("auto", response("tet2", [[0], [1]], robin=1, solver="auto"), "solver auto")
    add("average", response("tet2", [[0], [3, 4]], robin=1, objective="averaged_temp"), "tet2, averaged temperature")
    add("exchange", response("tet2", [[0, 1]], virtual=True, objective="heat_exchange"), "tet2, heat exchange")
    add("exchange2", response("tet2", [[0, 1], [3]], virtual=True, objective="heat_exchange"), "tet2, heat exchange, 2 loads")
    add("exchange_w", response("tet2", [[0, 1]], robin=1, virtual=True, objective="heat_exchange", weight=0.5),
        "tet2, heat exchange weighted with the averaged temperature")
    add("again", again, "two evaluations in a row")
    add("plain", plain, "module-level routines")
    return hs
