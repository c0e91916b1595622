"""C11: the spatial density filter: a neighbourhood average, and its exact transpose for gradients."""
import numpy as np

from sx.harness import Harness
from . import femlab, lab
from .common import mod, thorough

ASSUMPTIONS = ["neighbour search (scipy cKDTree) returns exactly the points within the radius; scipy sparse matrices are represented densely",
               "symbolic element centres lie on a line; distances within 1e-6 of the radius are left out",
               "exp is uninterpreted with the axioms of sx/path.py"]
FN = ["filters/spacial.py SpacialFilter.from_defaults / forward / gradient / update_radius", "spacial.build_filter_matrix",
      "spacial.make_kernel", "spacial.get_element_centers"]


def code(env):
    sp = mod("sktopt.filters.spacial")
    return env.code(sp, extra=femlab.sparse_subs(sp)) if env.symbolic else env.code(sp)


def patterns(n, full=False):
    """Design masks: all elements (no mask), and subsets with at least one design element."""
    P = [None, [True] * n]
    for i in range(n):
        P.append([j != i for j in range(n)])
    if full:
        P += [[j == i for j in range(n)] for i in range(n)]
    return P


def columns(f, env, n):
    """The matrix the filter applies, column by column."""
    cols = []
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1.0
        cols.append(f.forward(env.wrap(e) if env.symbolic else e))
    return [[cols[j][i] for j in range(n)] for i in range(n)]


def geometry(n, radius):
    """Centres anywhere on a line: the weights average over the design elements within the radius."""
    def body(env):
        sp = mod("sktopt.filters.spacial")
        mask = env.choice("mask", patterns(n))
        x = [0.0] + [env.real(f"x{i}", -4.0, 4.0) for i in range(1, n)]
        d = [[0.0 if i == j else env.maxi(x[i] - x[j], x[j] - x[i]) for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(i):
                env.assume(env.or_(d[i][j] <= radius - 1e-6, d[i][j] >= radius + 1e-6))
        c = np.zeros((3, n))
        c = env.wrap(c) if env.symbolic else c
        for i in range(n):
            c[0, i] = x[i]
        with code(env):
            f = sp.SpacialFilter(mesh=None, elements_volume=np.ones(n), radius=radius,
                                 design_mask=None if mask is None else np.array(mask), element_centers=c)
            W = columns(f, env, n)
        des = [True] * n if mask is None else mask
        for i in range(n):
            if not des[i]:
                for j in range(n):
                    env.check_eq(W[i][j], 1.0 if i == j else 0.0, f"element {i} outside the design keeps its value [{j}]")
                continue
            s = 0.0
            for j in range(n):
                s = s + W[i][j]
                env.check_le(0.0, W[i][j], f"weight {i},{j} is not negative")
                if not des[j]:
                    env.check_eq(W[i][j], 0.0, f"element {j} outside the design has no influence on {i}")
                else:
                    env.check(env.implies(d[i][j] > radius, env.close(W[i][j], 0.0)), f"no influence of {j} on {i} beyond the radius")
                    env.check(env.implies(d[i][j] < radius, W[i][j] > 0.0), f"influence of {j} on {i} within the radius")
                    for k in range(n):
                        if k != j and des[k]:
                            env.check(env.implies(d[i][j] <= d[i][k], env.leq(W[i][k], W[i][j])),
                                      f"element {k} farther from {i} than {j} does not weigh more")
            env.check_eq(s, 1.0, f"weights of element {i} sum to one")
    return body


BOXES = {"row": ((0, 1, 2, 3, 4.0), (0, 1.0), (0, 1.0)), "block": ((0, 1, 2.5), (0, 0.5, 1.5), (0, 1.0)),
         "graded": ((0, 0.2, 1, 3.0), (0, 1.0), (0, 2.0)), "cube": ((0, 1, 2.0), (0, 1, 2.0), (0, 1, 2.0))}


def grid(kind):
    import skfem
    if kind == "tet":
        return skfem.MeshTet.init_tensor(np.array([0, 1.0]), np.array([0, 1.0]), np.array([0, 1.0]))
    return skfem.MeshHex.init_tensor(*[np.array(v, dtype=float) for v in BOXES[kind]])


def reference(m, r, des):
    """Gaussian of width radius/3 over the design elements within the radius, rows normalised."""
    c = np.array([m.p[:, m.t[:, e]].mean(axis=1) for e in range(m.t.shape[1])])
    n = len(c)
    W = np.zeros((n, n))
    for i in range(n):
        if not des[i]:
            W[i, i] = 1.0
            continue
        w = np.array([np.exp(-4.5 * (np.linalg.norm(c[i] - c[j]) / r) ** 2)
                      if des[j] and np.linalg.norm(c[i] - c[j]) <= r * (1 + 1e-9) else 0.0 for j in range(n)])
        W[i] = w / w.sum()
    return W


def densities(kind, radii, n_mask):
    """Concrete geometry, any densities and any sensitivities."""
    def body(env):
        sp = mod("sktopt.filters.spacial")
        m = grid(kind)
        n = m.t.shape[1]
        mask = env.choice("mask", [None, [True] * n, [i % 2 == 0 for i in range(n)], [i >= n // 2 for i in range(n)],
                                   [i == n - 1 for i in range(n)]][:n_mask])
        rho = env.array("rho", n, 0.0, 1.0)
        v = env.array("v", n, -10.0, 10.0)
        des = [True] * n if mask is None else mask
        with code(env):
            f = sp.SpacialFilter.from_defaults(m, np.full(n, 0.7), radius=radii[0],
                                               design_mask=None if mask is None else np.array(mask))
            for k, r in enumerate(radii):
                if k:
                    f.update_radius(r)
                before = [rho[i] for i in range(n)]
                out = f.forward(rho)
                W = reference(m, r, des)
                want = lab.lin(env, W, rho)
                for i in range(n):
                    env.check_eq(rho[i], before[i], f"the given densities are not altered [{i}] (radius {r})", tol=0)
                    env.check_eq(out[i], want[i], f"weighted average of the design neighbours [{i}] (radius {r})")
                    nb = [j for j in range(n) if W[i, j] > 0]
                    env.check_le(out[i], env.maxi(*[rho[j] for j in nb]), f"not above the neighbours [{i}] (radius {r})")
                    env.check_le(env.mini(*[rho[j] for j in nb]), out[i], f"not below the neighbours [{i}] (radius {r})")
                vb = [v[i] for i in range(n)]
                g = f.gradient(v)
                wg = lab.lin(env, W.T, [v[i] if des[i] else 0.0 for i in range(n)])
                for i in range(n):
                    env.check_eq(v[i], vb[i], f"the given sensitivities are not altered [{i}] (radius {r})", tol=0)
                    env.check_eq(g[i], wg[i] if des[i] else 0.0,
                                 f"gradient is the transposed filter on design elements and zero elsewhere [{i}] (radius {r})")
                again = f.forward(rho)
                for i in range(n):
                    env.check_eq(again[i], out[i], f"filtering again gives the same [{i}] (radius {r})")
    return body


def harnesses():
    hs = [Harness(f"geometry_{n}_{str(r).replace('.', '_')}", geometry(n, r), FN,
                  f"{n} element centres anywhere on a line in [-4,4], radius {r}, every mask with at most one element off",
                  opts={"poly": False})
          for n, r in (((2, 1.2), (3, 1.2)) if not thorough() else ((2, 1.2), (2, 0.3), (3, 1.2), (3, 0.6), (3, 3.0)))]
    for k in (("row", "block", "graded", "tet") if not thorough() else ("row", "block", "graded", "tet", "cube")):
        hs.append(Harness(f"densities_{k}", densities(k, (1.2, 2.3, 0.4), 5), FN,
                          f"mesh {k}, radii 1.2, 2.3, 0.4 in turn, five design masks, any densities in [0,1] and sensitivities in [-10,10]"))
    return hs
