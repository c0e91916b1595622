"""C24: heat sensitivities are the derivative of the reported compliance."""
import numpy as np

from sx.harness import Harness
from . import femlab
from .c14 import Ref, facet_mass, interface_integrals as interface, lform, mods, points, task
from .common import mod, thorough

ASSUMPTIONS = ["meshes are fixed small ones; density fields are a few fixed ones; temperatures, Robin coefficients and ambient "
               "temperatures are symbolic",
               "reference derivatives of the element matrices are complex-step derivatives of an independent implementation",
               "a linear solve (SuperLU) is an unknown vector that satisfies its equations exactly, of magnitude <= 100"]
FN = ["solver_heat.FEM_SimpLinearHeatConduction.compliance_sensitivity_multi_load / objectives_multi_load",
      "solver_heat._robin_compliance_explicit_grad_", "solver_heat._element_to_nodal_average",
      "solver_heat._nodal_gradient_to_element_gradient", "core.derivatives.dC_drho_simp / dC_drho_ramp",
      "skfem LinearForm._assemble / Functional.elemental (loops)"]
FIELDS = {2: [[0.25, 0.75], [0.9, 0.5], [0.4, 0.1]], 1: [[0.5]]}


def law_of(name, r, k0, kmin, p):
    if name == "simp":
        return kmin + (k0 - kmin) * r ** p
    return kmin + (k0 - kmin) * r / (1 + p * (1 - r))


def exchange(m, kind, b, rho, p, q):
    """Mass and load of the density-dependent exchange, unit coefficient and ambient temperature (complex densities allowed)."""
    n = m.p.shape[1]
    rn, c = np.zeros(n, dtype=complex), np.zeros(n)
    for e in range(m.t.shape[1]):
        for a in m.t[:, e]:
            rn[a] += rho[e]
            c[a] += 1
    rn = rn / c
    M, f = np.zeros((n, n), dtype=complex), np.zeros(n, dtype=complex)
    for e, L in enumerate(points(m, kind, b)):
        d = m.t[:, e]
        for w, N, dN in L:
            r = N @ rn[d]
            g = dN.T @ rn[d]
            a = w * r ** p * (1 - r) ** q * np.sqrt(np.sum(g * g))
            M[np.ix_(d, d)] += a * np.outer(N, N)
            f[d] += a * N
    return M, f


def derivatives(m, kind, b, rho, law, k0, kmin, p, q):
    """d(conduction)/d(rho_e), d(exchange mass)/d(rho_e), d(exchange load)/d(rho_e)."""
    n, ne = m.p.shape[1], len(rho)
    K = femlab.unit_conductivity(m, kind)
    out = []
    for e in range(ne):
        z = np.array(rho, dtype=complex)
        z[e] += 1e-30j
        A = np.zeros((n, n))
        A[np.ix_(m.t[:, e], m.t[:, e])] = K[e] * law_of(law, z[e], k0, kmin, p).imag / 1e-30
        M, f = exchange(m, kind, b, z, p, q)
        out.append((A, M.imag / 1e-30, f.imag / 1e-30))
    return out


def qform(A, x, y):
    s = 0.0
    n = len(x)
    for i in range(n):
        a = 0.0
        for j in range(n):
            if abs(A[i, j]) > 1e-14:
                a = a + A[i, j] * y[j]
        s = s + x[i] * a
    return s


def setup(env, kind, law, nrobin, nloads, sets, vals, objective="compliance"):
    comp, sh, th = mods()
    m = femlab.mesh(kind)
    ne = m.nelements
    rho = FIELDS[ne][env.choice("field", list(range(len(FIELDS[ne]))))]
    k0, c, p, q = 1.3, 0.02, 3.0, 3
    t, m, b = task(kind, sets, dirichlet_values=list(vals), k=k0, objective=objective, design_robin_boundary=None)
    hs = [env.real(f"h{r}", 0, 2) for r in range(nrobin)]
    Ts = [env.real(f"Tenv{r}", -2, 2) for r in range(nrobin)]
    if nrobin == 1:
        t.robin_coefficient, t.robin_bc_value = hs[0], Ts[0]
    elif nrobin:
        t.robin_coefficient, t.robin_bc_value = list(hs), list(Ts)
    interp = comp.simp_interpolation if law == "simp" else comp.ramp_interpolation
    f = sh.FEM_SimpLinearHeatConduction(t, c, density_interpolation=interp, q=q)
    D = derivatives(m, kind, b, rho, law, k0, k0 * c, p, q)
    return (comp, sh, th), m, b, t, f, rho, (k0, k0 * c, p, q), hs, Ts, D


def formula(kind, law, nrobin, nloads):
    """For any temperatures: minus T'.dK.T plus the exchange terms, element by element and per load case."""
    def body(env):
        ms, m, b, t, f, rho, (k0, kmin, p, q), hs, Ts, D = setup(env, kind, law, nrobin, nloads, [[0]] * nloads, [0.0] * nloads)
        n = m.p.shape[1]
        T = env.array("T", (n, nloads), -2, 2)
        T0 = T.copy()
        r = env.wrap(np.array(rho))
        with femlab.fem(env, *ms, mod("sktopt.core.derivatives")):
            g = f.compliance_sensitivity_multi_load(r, p, T)
        env.check(g.shape == (len(rho), nloads), "one value per element and load case")
        for l in range(nloads):
            for e, (A, M, F) in enumerate(D):
                w = 0.0 - qform(A, T[:, l], T[:, l])
                for h, Te in zip(hs, Ts):
                    w = w + h * (2.0 * Te * lform(F, T[:, l]) - qform(M, T[:, l], T[:, l]))
                env.check_eq(g[e, l], w, f"sensitivity of element {e} in load case {l}", tol=1e-6)
        env.check_eq(T, T0, "temperatures are left alone")
        env.check_eq(r, env.wrap(np.array(rho)), "densities are left alone")
    return body


def total(kind, law, nrobin, surface=False, prescribed=False, objective="compliance"):
    """Against the total derivative of the reported objective along the state equation."""
    def body(env):
        sets = [[0, 1]] if kind.startswith("tet") else [[0, 1, 2, 4]]
        Td = env.real("Td", -2, 2) if prescribed else 0.0
        ms, m, b, t, f, rho, (k0, kmin, p, q), hs, Ts, D = setup(env, kind, law, nrobin, 1, sets, [Td], objective)
        n = m.p.shape[1]
        r = env.wrap(np.array(rho))
        surf = m.boundary_facets()[:2]
        h0, T0 = env.real("hs", 0, 2), env.real("Tenvs", -2, 2)
        T = env.wrap(np.zeros((n, 1)))
        load = env.array("dJ", 1, 0, 0)          # keeps the input list the same in both modes
        with femlab.fem(env, *ms, mod("sktopt.core.derivatives")) as S:
            if surface:
                t.robin_bilinear, t.robin_linear = ms[2].assemble_surface_robin(b, [surf], [h0], [T0])
            f.objectives_multi_load(r, p, T)
            g = f.compliance_sensitivity_multi_load(r, p, T)
            ref = Ref(n)
            ref.conduct(m, kind, [law_of(law, x, k0, kmin, p) for x in rho])
            if surface:
                ref.exchange(h0, T0, *facet_mass(m, kind, surf))
            M, F = exchange(m, kind, b, np.array(rho, dtype=complex), p, q)
            for h, Te in zip(hs, Ts):
                ref.exchange(h, Te, M.real, F.real)
            A = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    s = 0.0
                    for c, B in ref.mats:
                        if abs(B[i, j]) > 1e-15:
                            s = s + c * B[i, j]
                    A[i, j] = s
            held = sets[0]
            dT = []
            for e, (dK, dM, dF) in enumerate(D):
                rhs = np.empty(n, dtype=object)
                An = A.copy()
                for i in range(n):
                    if i in held:
                        An[i, :] = 0.0
                        An[i, i] = 1.0
                        rhs[i] = 0.0
                        continue
                    s = 0.0
                    for j in range(n):
                        a = dK[i, j]
                        for h in hs:
                            a = a + h * dM[i, j]
                        s = s - a * T[j, 0]
                    for h, Te in zip(hs, Ts):
                        s = s + h * Te * dF[i]
                    rhs[i] = s
                if S is not None:
                    dT.append(S.solve(An, rhs))
                else:
                    dT.append(np.linalg.solve(An.astype(float), rhs.astype(float)))
        for e, (dK, dM, dF) in enumerate(D):
            Tv = T[:, 0]
            if objective == "compliance":
                w = qform(dK, Tv, Tv)
                for h in hs:
                    w = w + h * qform(dM, Tv, Tv)
                for i in range(n):
                    w = w + 2.0 * Tv[i] * ref.row(i, dT[e])
            elif objective == "averaged_temp":
                w = 0.0
                for i in range(n):
                    w = w + dT[e][i]
            else:
                z = np.array(rho, dtype=complex)
                z[e] += 1e-30j
                G, tot = interface(m, kind, b, z)
                dG, dtot = G.imag / 1e-30, tot.imag / 1e-30
                G, tot = G.real, tot.real
                w = -Ts[0] * hs[0] * ((lform(dG, Tv) + lform(G, dT[e])) / tot - lform(G, Tv) * (dtot / tot ** 2))
            env.check_eq(g[e, 0], w, f"derivative of the {objective} objective, element {e}", tol=1e-4)
    return body


def harnesses():
    P = {"poly": True}
    B = "temperatures in [-2,2] or solved, coefficients [0,2], ambient [-2,2], p=3, q=3, k0=1.3, floor 2%"
    hs = []

    def add(name, body, what):
        hs.append(Harness(name, body, FN, what + "; " + B, opts=P, budget=30))
    for law in ("simp", "ramp"):
        for nr in (0, 1, 2):
            for nl in (1, 2):
                add(f"f_{law}_{nr}_{nl}", formula("tet2", law, nr, nl), f"tet2, {law}, {nr} exchange coefficients, {nl} loads")
        add(f"t_{law}_0", total("tet2", law, 0, surface=True), f"tet2, {law}, fixed exchange surface, zero prescribed temperature")
        add(f"t_{law}_1", total("tet2", law, 1), f"tet2, {law}, density-dependent exchange, zero prescribed temperature")
    add("t_both", total("tet2", "simp", 2, surface=True), "tet2, fixed and density-dependent exchange, zero prescribed temperature")
    add("f_hex", formula("hex2", "simp", 1, 1), "hex2, SIMP, exchange")
    add("f_hexr", formula("hex2", "ramp", 1, 2), "hex2, RAMP, exchange, 2 loads")
    add("t_hex", total("hex", "simp", 0, surface=True), "hex, SIMP, fixed exchange surface, zero prescribed temperature")
    add("prescribed", total("tet2", "simp", 0, surface=True, prescribed=True), "nonzero prescribed temperature (known finding)")
    add("average", total("tet2", "simp", 0, surface=True, objective="averaged_temp"), "averaged temperature (known finding)")
    add("exchange", total("tet2", "simp", 1, objective="heat_exchange"), "heat exchange objective (known finding)")
    return hs
