"""C12: the Helmholtz density filter on nodes."""
import contextlib

import numpy as np

from sx.harness import Harness
from . import femlab, lab
from .common import mod, thorough

ASSUMPTIONS = ["meshes are fixed small ones; densities and sensitivities are symbolic, radii and masks are chosen from a list",
               "a linear solve (SuperLU through skfem.solve) is an unknown vector that satisfies its equations exactly, of magnitude <= 1000",
               "scipy sparse matrices are represented densely; skfem's basis evaluation on the fixed mesh is taken as computed"]
FN = ["filters/helmholtz_filter_nodal.py HelmholtzFilterNodal.forward / gradient / update_radius / from_defaults",
      "helmholtz_filter_nodal.solve_helmholtz", "helmholtz_filter_nodal.element_to_node_density_averaging",
      "helmholtz_filter_nodal.node_to_element_density", "skfem BilinearForm._assemble / LinearForm._assemble (loops)"]


def mesh(kind):
    import skfem
    if kind == "tri":
        return skfem.MeshTri(np.array([[0, 1.2, 0.1, 1.1, 2.0], [0, 0.1, 0.9, 1.3, 0.4]]), np.array([[0, 1, 1], [1, 2, 3], [2, 3, 4]]))
    if kind == "quad":
        return skfem.MeshQuad.init_tensor(np.array([0, 1.0, 2.5]), np.array([0, 0.7, 1.0]))
    if kind == "hex3":
        return skfem.MeshHex.init_tensor(np.array([0, 1.0, 1.6, 3.0]), np.array([0, 1.0]), np.array([0, 0.5]))
    return femlab.mesh(kind)


def operators(m):
    """Mass and stiffness matrices of linear simplices or axis-aligned multilinear boxes (closed formulas)."""
    n, d = m.p.shape[1], m.p.shape[0]
    M, K = np.zeros((n, n)), np.zeros((n, n))
    for e in range(m.t.shape[1]):
        t = m.t[:, e]
        P = m.p[:, t].T
        if len(t) == d + 1:
            J = P[1:] - P[0]
            V = abs(np.linalg.det(J)) / (2.0 if d == 2 else 6.0)
            G = np.linalg.inv(J).T
            G = np.vstack([-G.sum(axis=0), G])
            M[np.ix_(t, t)] += V / ((d + 1) * (d + 2)) * (np.ones((d + 1, d + 1)) + np.eye(d + 1))
            K[np.ix_(t, t)] += V * G @ G.T
        else:
            lo, hi = P.min(axis=0), P.max(axis=0)
            h = hi - lo
            bit = np.isclose(P, hi).astype(int)
            for a in range(len(t)):
                for b in range(len(t)):
                    mm = [h[k] / 3 if bit[a, k] == bit[b, k] else h[k] / 6 for k in range(d)]
                    kk = [1 / h[k] if bit[a, k] == bit[b, k] else -1 / h[k] for k in range(d)]
                    M[t[a], t[b]] += np.prod(mm)
                    K[t[a], t[b]] += sum(kk[k] * np.prod([mm[j] for j in range(d) if j != k]) for k in range(d))
    return M, K


def averaging(m, vol):
    """Volume weighted averages of element values at the nodes."""
    A = np.zeros((m.p.shape[1], m.t.shape[1]))
    for e in range(m.t.shape[1]):
        A[m.t[:, e], e] += vol[e]
    return A / A.sum(axis=1, keepdims=True)


def means(m):
    T = np.zeros((m.t.shape[1], m.p.shape[1]))
    for e in range(m.t.shape[1]):
        T[e, m.t[:, e]] += 1.0 / m.t.shape[0]
    return T


def operator(m, vol, r, des):
    """Affine map of the density filter: element densities -> F rho + c."""
    M, K = operators(m)
    H = M + r * r * K
    A, T = averaging(m, vol), means(m)
    n = M.shape[0]
    fixed = np.unique(m.t[:, [e for e in range(len(des)) if not des[e]]].ravel()).astype(int)
    free = np.setdiff1d(np.arange(n), fixed)
    X, x0 = np.zeros((n, n)), np.zeros(n)
    x0[fixed] = 1.0
    Hi = np.linalg.inv(H[np.ix_(free, free)])
    X[free] = Hi @ M[free]
    x0[free] = -Hi @ H[np.ix_(free, fixed)] @ np.ones(len(fixed))
    D = np.diag([1.0 if d else 0.0 for d in des])
    off = np.array([0.0 if d else 1.0 for d in des])
    return T @ X @ A @ D, T @ (X @ A @ off + x0)


def smoothing(m, vol, r, des):
    """The filter of sensitivities: averages with zero off the design, the same equation without fixed nodes, means."""
    M, K = operators(m)
    return means(m) @ np.linalg.inv(M + r * r * K) @ M @ averaging(m, vol) @ np.diag([1.0 if d else 0.0 for d in des])


VOL = [0.4, 1.1, 0.7, 0.9, 1.3, 0.6]


def masks(n):
    L = [None, [True] * n, [e != 0 for e in range(n)]]
    if n > 2:
        L.append([e != n - 1 and e != 1 for e in range(n)])
    return L


def setup(env, kind, radii):
    m = mesh(kind)
    n = m.t.shape[1]
    mask = env.choice("mask", masks(n))
    ownvol = env.choice("volumes", [True, False])
    des = [True] * n if mask is None else mask
    hm = mod("sktopt.filters.helmholtz_filter_nodal")
    vol = np.array(VOL[:n]) if ownvol else np.full(n, 0.5)
    f = hm.HelmholtzFilterNodal.from_defaults(m, vol, radii[0], None if mask is None else np.array(mask))
    return m, n, des, vol, hm, f


@contextlib.contextmanager
def code(env, hm):
    with femlab.fem(env, hm, bound=1000.0, products=False, extra=femlab.sparse_subs(hm)):
        yield


def forward(kind, radii):
    def body(env):
        m, n, des, vol, hm, f = setup(env, kind, radii)
        rho = env.array("rho", n, 0.0, 1.0)
        k = env.real("k", 0.0, 1.0)
        with code(env, hm):
            for j, r in enumerate(radii):
                if j:
                    f.update_radius(r)
                before = [rho[i] for i in range(n)]
                out = f.forward(rho)
                F, c = operator(m, vol, r, des)
                want = lab.lin(env, F, rho)
                for i in range(n):
                    env.check_eq(rho[i], before[i], f"the given densities are not altered [{i}] (radius {r})", tol=0)
                    env.check_eq(out[i], want[i] + c[i], f"element mean of the solution of the Helmholtz equation [{i}] (radius {r})")
                if not all(des):
                    for i in range(n):
                        if not des[i]:
                            env.check_eq(out[i], 1.0, f"element {i} outside the design is solid (radius {r})")
                one = f.forward(lab.vec(env, [k if des[i] else 0.0 for i in range(n)]) if all(des) else
                                lab.vec(env, [1.0 if des[i] else k for i in range(n)]))
                for i in range(n):
                    env.check_eq(one[i], k if all(des) else 1.0, f"a uniform density stays uniform [{i}] (radius {r})")
    return body


def gradient(kind, radii):
    def body(env):
        m, n, des, vol, hm, f = setup(env, kind, radii)
        v = env.array("v", n, -10.0, 10.0)
        with code(env, hm):
            for j, r in enumerate(radii):
                if j:
                    f.update_radius(r)
                before = [v[i] for i in range(n)]
                g = f.gradient(v)
                want = lab.lin(env, smoothing(m, vol, r, des), v)
                for i in range(n):
                    env.check_eq(v[i], before[i], f"the given sensitivities are not altered [{i}] (radius {r})", tol=0)
                    env.check_le(g[i], 0.0, f"filtered sensitivities are never positive [{i}] (radius {r})", tol=0)
                    env.check_eq(g[i], env.mini(want[i], 0.0),
                                 f"sensitivities are smoothed with the same equation, non-design elements counting as zero [{i}] "
                                 f"(radius {r})")
    return body


def adjoint(kind, radii):
    """Chain rule: the gradient of a function of the filtered densities is the transpose of the filter applied to it."""
    def body(env):
        m, n, des, vol, hm, f = setup(env, kind, radii)
        v = env.array("v", n, -10.0, 0.0)
        with code(env, hm):
            r = radii[0]
            g = f.gradient(v)
            F, _ = operator(m, vol, r, des)
            want = lab.lin(env, F.T, v)
            for i in range(n):
                env.check_eq(g[i], want[i], f"gradient is the transposed filter [{i}]")
    return body


def harnesses():
    kinds = ("tet2", "hex2", "quad") if not thorough() else ("tet2", "hex2", "hex3", "tri", "quad")
    R = (0.4, 1.5) if not thorough() else (0.05, 0.4, 1.5, 3.0)
    hs = []
    for k in kinds:
        hs.append(Harness(f"forward_{k}", forward(k, R), FN, f"mesh {k}, radii {R} in turn, design masks, any densities in [0,1]"))
        hs.append(Harness(f"gradient_{k}", gradient(k, R), FN, f"mesh {k}, radii {R} in turn, design masks, any sensitivities in [-10,10]"))
    hs.append(Harness("adjoint", adjoint("hex2", R), FN, "mesh hex2, any sensitivities in [-10,0]"))
    return hs
