"""C13: linear elastic response: equilibrium, supports, compliance, element energies, load cases."""
import contextlib
import dataclasses

import numpy as np

from sx.harness import Harness
from . import femlab, lab
from .common import mod, thorough

ASSUMPTIONS = ["meshes are fixed small ones (one or two tetrahedra or hexahedra); loads, densities and moduli are symbolic",
               "a linear solve (SuperLU, CG, PyAMG) is an unknown vector that satisfies its equations exactly, of magnitude <= 100",
               "scipy sparse matrices are represented densely; skfem's basis evaluation on the fixed mesh is taken as computed"]
FN = ["solver_elastic.compute_compliance_basis", "solver_elastic.compute_compliance_basis_multi_load",
      "solver_elastic.solve_multi_load", "solver_elastic.solve_u", "solver_elastic.strain_energy_skfem_multi",
      "solver_elastic.FEM_SimpLinearElasticity", "composer.assemble_stiffness_matrix", "composer.simp_interpolation",
      "skfem BilinearForm._assemble / Functional.elemental (loops)"]


def mods():
    return mod("sktopt.fea.composer"), mod("sktopt.fea.solver_elastic")


def task(kind, nloads, dirichlet):
    """A real LinearElasticity object over a small mesh (built by replacing fields of a real one)."""
    import skfem
    m = femlab.mesh(kind)
    el = skfem.ElementHex1() if kind.startswith("hex") else skfem.ElementTetP1()
    with contextlib.redirect_stdout(None):
        b = skfem.Basis(m, skfem.ElementVector(el), intorder=2)
    t = lab.elastic_task()
    if kind.startswith("hex"):
        nodes = np.nonzero(np.isclose(m.p[0], 0.0))[0]
    else:
        nodes = np.array([0, 1, 2])
    if dirichlet == "all":
        D = b.get_dofs(nodes=nodes).all()
    else:               # one node held, the others on rollers in x plus one in y and z
        D = np.unique(np.concatenate([b.nodal_dofs[:, nodes[0]], b.nodal_dofs[0, nodes], b.nodal_dofs[1, nodes[1:2]],
                                      b.nodal_dofs[2, nodes[2:3]], b.nodal_dofs[2, nodes[1:2]]]))
    t = dataclasses.replace(t, basis=b, dirichlet_dofs=D, free_dofs=np.setdiff1d(np.arange(b.N), D),
                            dirichlet_nodes=nodes, all_elements=np.arange(m.nelements), nu=0.3)
    return t, m, b, np.asarray(D)


def reference(env, m, b, kind, E, nu):
    """Global stiffness as rows of (dof, coefficient) and element matrices with their dofs."""
    els = []
    for e, K in enumerate(femlab.unit_stiffness(m, kind, nu)):
        els.append((b.nodal_dofs[:, m.t[:, e]].T.ravel(), K))
    return els


def apply_row(els, E, i, u):
    s = 0.0
    for (dofs, K), Ee in zip(els, E):
        w = np.nonzero(dofs == i)[0]
        if len(w) == 0:
            continue
        a = 0.0
        for c, j in enumerate(dofs):
            k = K[w[0], c]
            if abs(k) > 1e-15:
                a = a + k * u[j]
        s = s + Ee * a
    return s


def energy(dofs, K, Ee, u):
    s = 0.0
    for r, i in enumerate(dofs):
        a = 0.0
        for c, j in enumerate(dofs):
            if abs(K[r, c]) > 1e-15:
                a = a + K[r, c] * u[j]
        s = s + u[i] * a
    return 0.5 * Ee * s


def response(kind, nloads, law, dirichlet="all", with_energy=True, solver="spsolve"):
    def body(env):
        comp, se = mods()
        t, m, b, D = task(kind, nloads, dirichlet)
        nu = 0.3
        E0 = env.real("E0", 0.5, 2)
        c = env.real("Emin_coeff", 0.001, 0.5)
        n = m.nelements
        rho = env.array("rho", n, 0, 1)
        F = [env.array(f"F{l}", b.N, -1, 1) for l in range(nloads)]
        s = env.real("scale", 0, 2)
        t.E, t.nu, t.neumann_linear = E0, nu, [f.copy() for f in F]
        calls = []
        if law == "any":
            given = env.array("E_elem", n, 0.01, 2)

            def interp(r, a, z, p):
                calls.append((r.copy(), a, z, p))
                return given.copy()
            p = env.real("p", 1, 5)
            E = given
        else:
            interp = comp.simp_interpolation
            p = float(law)
            E = [E0 * c + (E0 - E0 * c) * (rho[e] if law == 1 else rho[e] * rho[e] * rho[e]) for e in range(n)]
        with femlab.fem(env, comp, se):
            f = se.FEM_SimpLinearElasticity(t, c, density_interpolation=interp, solver_option=solver)
            u = env.wrap(np.full((b.N, nloads), 7.0))
            C = f.objectives_multi_load(rho, p, u, force_scale=s)
            U = f.energy_multi_load(rho, p, u) if with_energy else None
        for a in calls:
            env.check_eq(a[0], rho, "interpolation of the given densities")
            env.check_eq(a[1], E0, "full value is the task's modulus")
            env.check_eq(a[2], E0 * c, "minimum value is the given fraction of it")
            env.check_eq(a[3], p, "given penalty")
        els = reference(env, m, b, kind, E, nu)
        env.check(len(C) == nloads, "one compliance per load case")
        free = [i for i in range(b.N) if i not in set(D.tolist())]
        for l in range(nloads):
            for d in D:
                env.check_eq(u[d, l], 0.0, f"supported freedoms do not move [{l},{d}]")
            for i in free:
                env.check_eq(apply_row(els, E, i, u[:, l]), s * F[l][i], f"equilibrium at every free freedom [{l},{i}]",
                             tol=1e-6)
            w = 0.0
            for i in free:
                w = w + s * F[l][i] * u[i, l]
            env.check_eq(C[l], w, f"compliance is the work of the loads [{l}]", tol=1e-6)
            if with_energy:
                tot = 0.0
                for e, (dofs, K) in enumerate(els):
                    env.check_eq(U[e, l], energy(dofs, K, E[e], u[:, l]), f"element strain energy [{e},{l}]", tol=1e-5)
                    tot = tot + U[e, l]
                env.check_eq(2.0 * tot, C[l], f"total strain energy is half the compliance [{l}]", tol=1e-4)
        for l in range(nloads):
            env.check_eq(t.neumann_linear[l], F[l], "the task's loads are left alone")
    return body


def again(env):
    """A second evaluation with other densities and loads in the same object does not depend on the first."""
    comp, se = mods()
    t, m, b, D = task("tet2", 2, "all")
    n = m.nelements
    E = [env.array("Ea", n, 0.01, 2), env.array("Eb", n, 0.01, 2)]
    F = [env.array(f"F{l}", b.N, -1, 1) for l in range(2)]
    t.E, t.neumann_linear = 1.0, [f.copy() for f in F]
    s = [env.real("s0", 0, 2), env.real("s1", 0, 2)]
    rho = env.array("rho", n, 0, 1)
    step = [0]
    with femlab.fem(env, comp, se, products=False):
        f = se.FEM_SimpLinearElasticity(t, 1e-3, density_interpolation=lambda *a: E[step[0]].copy())
        u = env.wrap(np.zeros((b.N, 2)))
        f.objectives_multi_load(rho, 3.0, u, force_scale=s[0])
        f.energy_multi_load(rho, 3.0, u)
        step[0] = 1
        C = f.objectives_multi_load(rho, 2.0, u, force_scale=s[1])
        U = f.energy_multi_load(rho, 2.0, u)
    els = reference(env, m, b, "tet2", E[1], t.nu)
    free = [i for i in range(b.N) if i not in set(D.tolist())]
    for l in range(2):
        w = 0.0
        for i in free:
            env.check_eq(apply_row(els, E[1], i, u[:, l]), s[1] * F[l][i], f"second evaluation: equilibrium [{l},{i}]", tol=1e-6)
            w = w + s[1] * F[l][i] * u[i, l]
        env.check_eq(C[l], w, f"second evaluation: compliance [{l}]", tol=1e-6)
        for e, (dofs, K) in enumerate(els):
            env.check_eq(U[e, l], energy(dofs, K, E[1][e], u[:, l]), f"second evaluation: energy [{e},{l}]", tol=1e-5)


def plain(env):
    """The module-level routines for one load case and for element energies."""
    comp, se = mods()
    so = mod("sktopt.fea.solver")
    t, m, b, D = task("tet2", 1, "all")
    n = m.nelements
    which = env.choice("routine", ["compute_compliance_basis", "simp", "wrapper", "numba", "multi1", "multi2",
                                   "solve_multi2"])
    solver = env.choice("solver", ["auto", "spsolve", "cg_jacobi", "cg_pyamg"])
    E0, Emin = env.real("E0", 0.5, 2), env.real("Emin", 0.001, 0.5)
    rho = env.array("rho", n, 0, 1)
    F = [env.array(f"F{l}", b.N, -1, 1) for l in range(2)]
    p, nu = 3.0, 0.3
    two = which in ("multi2", "solve_multi2")
    u_all = env.wrap(np.full((b.N, 2 if two else 1), 5.0))
    args = (E0, Emin, p, nu, rho)
    free0 = t.free_dofs
    if two and solver.startswith("cg"):
        r = env.raises(lambda: so.compute_compliance_basis_multi_load(b, free0, D, F, *args, u_all, solver=solver))
        env.check(r[0] is not None, "an unsupported solver for several loads is refused")
        return
    with femlab.fem(env, comp, se, so):
        if which == "compute_compliance_basis":
            C, u = se.compute_compliance_basis(b, free0, D, F[0], *args, solver=solver)
        elif which == "simp":
            C, u = so.compute_compliance_simp_basis(b, free0, D, F[0], *args)
        elif which == "wrapper":
            C, u = so.compute_compliance_basis(b, free0, D, F[0], *args, solver=solver)
        elif which == "numba":
            C, u = so.compute_compliance_basis_numba(b, free0, D, F[0], *args, solver=solver)
        elif which in ("multi1", "multi2"):
            C = so.compute_compliance_basis_multi_load(b, free0, D, F[:2 if two else 1], *args, u_all, solver=solver)
        else:
            so.solve_multi_load(b, free0, D, F, *args, u_all, solver=solver)
            C = None
        if which in ("multi1", "multi2", "solve_multi2"):
            us = [u_all[:, l] for l in range(u_all.shape[1])]
        else:
            us, C = [u], [C]
        U = []
        for uu in us:
            U.append([comp.strain_energy_skfem(b, rho, uu, E0, Emin, p, nu),
                      se.strain_energy_skfem(b, rho, uu, E0, Emin, p, nu),
                      comp.strain_energy_skfem_multi(b, rho, uu.reshape(-1, 1), E0, Emin, p, nu)[:, 0]])
    E = [Emin + (E0 - Emin) * rho[e] * rho[e] * rho[e] for e in range(n)]
    els = reference(env, m, b, "tet2", E, nu)
    free = [i for i in range(b.N) if i not in set(D.tolist())]
    for l, u in enumerate(us):
        w = 0.0
        for d in D:
            env.check_eq(u[d], 0.0, f"supported freedoms do not move [{l},{d}]")
        for i in free:
            env.check_eq(apply_row(els, E, i, u), F[l][i], f"equilibrium at every free freedom [{l},{i}]", tol=1e-6)
            w = w + F[l][i] * u[i]
        if C is not None:
            env.check_eq(C[l], w, f"compliance is the work of the loads [{l}]", tol=1e-6)
        for e, (dofs, K) in enumerate(els):
            for k, UU in enumerate(U[l]):
                env.check_eq(UU[e], energy(dofs, K, E[e], u), f"element strain energy [{e},{l}], routine {k}", tol=1e-5)


def harnesses():
    P = {"poly": True}
    B = "supports on one face; loads in [-1,1], scale [0,2], densities [0,1], modulus [0.5,2], floor 0.1%-50%, nu=0.3"
    hs = []

    def add(name, body, what):
        hs.append(Harness(name, body, FN, what + "; " + B, opts=P, budget=30))
    for kind in ("tet", "tet2", "hex"):
        for nl in (1, 2):
            add(f"{kind}_{nl}", response(kind, nl, "any"), f"{kind}, {nl} load(s), any element moduli")
    add("simp_1", response("tet2", 1, 3, "rollers"), "tet2, rollers, SIMP p=3")
    add("simp_2", response("tet2", 2, 3, "rollers"), "tet2, 2 loads, rollers, SIMP p=3")
    add("linear_3", response("tet2", 3, 1, "rollers"), "tet2, 3 loads, rollers, SIMP p=1")
    add("hex2_1", response("hex2", 1, "any", with_energy=thorough()), "hex2, any element moduli")
    add("auto_1", response("tet2", 1, "any", solver="auto"), "solver auto")
    add("auto_2", response("tet2", 2, "any", solver="auto"), "solver auto, 2 loads")
    add("amg", response("tet2", 1, "any", solver="cg_pyamg"), "solver cg_pyamg")
    add("jacobi", response("tet2", 1, "any", solver="cg_jacobi"), "solver cg_jacobi")
    add("again", again, "two evaluations in a row")
    add("plain", plain, "module-level routines, every solver, SIMP p=3")
    if thorough():
        add("hex2_2", response("hex2", 2, "any"), "hex2, 2 loads")
        add("hex_simp_3", response("hex", 3, 3, "rollers"), "hex, 3 loads, SIMP p=3")
    return hs
