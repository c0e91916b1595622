"""C18: surface loads and boundary fluxes: total, direction, distribution, order."""
import contextlib

import numpy as np

from sx.harness import Harness
from . import c14, c17, femlab
from .common import mod, thorough

ASSUMPTIONS = ["meshes and faces are fixed; load values are symbolic", "skfem's basis evaluation on facets is taken as computed"]
FN = ["mesh/task_elastic.py assemble_surface_forces", "mesh/task_heat.py assemble_surface_neumann", "LinearElasticity.from_facets",
      "LinearElasticity.force (getter and setter)", "skfem LinearForm._assemble (loop)"]


def grids(kind):
    import skfem
    if kind == "graded":
        return skfem.MeshHex.init_tensor(np.array([0, 1.0, 1.5]), np.array([0, 0.5, 2.0]), np.array([0, 0.7, 1.0]))
    return c17.grid(kind)


def share(m, facets):
    """Load vector of a uniform unit traction, and the area of the face."""
    _, f = c14.facet_mass(m, "tet" if m.t.shape[0] == 4 else "hex", facets)
    return f, f.sum()


def forces(kind):
    def body(env):
        te = mod("sktopt.mesh.task_elastic")
        m = grids(kind)
        R = c17.regions(m)
        b = c17.basis(m, True)
        form = env.choice("form", ["single", "list of one", "two", "three, overlapping"])
        names = {"single": [env.choice("region", ["right", "one"])], "list of one": ["right"], "two": ["right", "back"],
                 "three, overlapping": ["back", "back", "last"]}[form]
        dirs = {"single": [env.choice("dir", ["u^1", "u^2", "u^3"])], "list of one": ["u^2"], "two": ["u^3", "u^1"],
                "three, overlapping": ["u^1", "u^1", "u^2"]}[form]
        v = [env.real(f"v{i}", -100, 100) for i in range(len(names))]
        one = form == "single"
        with femlab.fem(env, te):
            F = te.assemble_surface_forces(b, R[names[0]] if one else [R[x] for x in names], dirs[0] if one else dirs,
                                           v[0] if one else v)
        env.check(isinstance(F, list) == (len(names) > 1), "one vector for one load, a list for several")
        F = F if isinstance(F, list) else [F]
        env.check(len(F) == len(names), "one load vector per region")
        for k, f in enumerate(F):
            s, A = share(m, R[names[k]])
            c = int(dirs[k][-1]) - 1
            tot = 0.0
            for j in range(3):
                for i in range(m.p.shape[1]):
                    x = f[b.nodal_dofs[j, i]]
                    env.check_eq(x, v[k] * (s[i] / A) if j == c else 0.0,
                                 f"load {k}: equal traction over the face, in its direction only [node {i}, component {j + 1}]")
                    if j == c:
                        tot = tot + x
            env.check_eq(tot, v[k], f"load {k}: the components add up to the given force", tol=1e-6)
    return body


def refusals(env):
    te, th = mod("sktopt.mesh.task_elastic"), mod("sktopt.mesh.task_heat")
    m = grids("hex")
    R = c17.regions(m)
    b = c17.basis(m, True)
    v = env.real("v", -10, 10)
    case = env.choice("case", ["v^1", "u^0", "u^", "1", "u^x", "short values", "short directions", "heat"])
    with femlab.fem(env, te, th):
        if case == "heat":
            f = lambda: th.assemble_surface_neumann(c17.basis(m, False), [R["right"], R["left"]], [v])   # noqa: E731
        elif case == "short values":
            f = lambda: te.assemble_surface_forces(b, [R["right"], R["left"]], ["u^1", "u^2"], [v])   # noqa: E731
        elif case == "short directions":
            f = lambda: te.assemble_surface_forces(b, [R["right"], R["left"]], ["u^1"], [v, v])   # noqa: E731
        else:
            f = lambda: te.assemble_surface_forces(b, R["right"], case, v)   # noqa: E731
        err, _ = env.raises(f)
    env.check(isinstance(err, ValueError), "a malformed direction or mismatched list is refused")


def flux(kind):
    def body(env):
        th = mod("sktopt.mesh.task_heat")
        m = grids(kind)
        R = c17.regions(m)
        b = c17.basis(m, False)
        names = env.choice("regions", [["right"], ["one", "right"], ["back", "right", "back"]])
        aslist = env.choice("aslist", [True, False]) if len(names) == 1 else True
        q = [env.real(f"q{i}", -100, 100) for i in range(len(names))]
        with femlab.fem(env, th):
            H = th.assemble_surface_neumann(b, [R[x] for x in names] if aslist else R[names[0]], q if aslist else q[0])
        H = H if isinstance(H, list) else [H]
        env.check(len(H) == len(names), "one vector per face")
        for k, h in enumerate(H):
            s, A = share(m, R[names[k]])
            tot = 0.0
            for i in range(m.p.shape[1]):
                x = h[b.nodal_dofs[0, i]]
                env.check_eq(x, q[k] * s[i], f"flux {k}: density times the share of the face [node {i}]")
                tot = tot + x
            env.check_eq(tot, q[k] * A, f"flux {k}: the total is density times area", tol=1e-6)
    return body


def task(env):
    """The loads of a finished task, one per region, and replacing them."""
    te = mod("sktopt.mesh.task_elastic")
    m = grids("row")
    R = c17.regions(m)
    b = c17.basis(m, True)
    k = env.choice("loads", [1, 2])
    aslist = env.choice("aslist", [True, False]) if k == 1 else True
    names, dirs = ["right", "one"][:k], ["u^3", "u^1"][:k]
    v = [env.real(f"v{i}", -100, 100) for i in range(k)]
    with femlab.fem(env, te), contextlib.redirect_stdout(None):
        t = te.LinearElasticity.from_facets(b, R["left"], "all", [R[x] for x in names] if aslist else R[names[0]],
                                            dirs if aslist else dirs[0], v if aslist else v[0], np.arange(m.t.shape[1]), 1.0, 0.3)
        env.check(isinstance(t.neumann_linear, list) and len(t.neumann_linear) == k and t.n_tasks == k, "one load case per region")
        for i in range(k):
            s, A = share(m, R[names[i]])
            c = int(dirs[i][-1]) - 1
            for n in range(m.p.shape[1]):
                env.check_eq(t.neumann_linear[i][b.nodal_dofs[c, n]], v[i] * (s[n] / A), f"load case {i} [node {n}]")
        f = t.force
        env.check((f is t.neumann_linear[0]) if k == 1 else (f is t.neumann_linear), "the force of one load case, the list of several")
        new = [env.wrap(np.full(b.N, 2.0 + i)) if env.symbolic else np.full(b.N, 2.0 + i) for i in range(k)]
        t.force = new[0] if k == 1 else new
        env.check(t.n_tasks == k and isinstance(t.neumann_linear, list), "replacing the force keeps the number of load cases")
        for i in range(k):
            env.check_eq(t.neumann_linear[i][3], 2.0 + i, f"replaced load case {i}")


def harnesses():
    kinds = ("hex", "tet") if not thorough() else ("hex", "tet", "graded", "row")
    hs = []
    for kd in kinds + (() if thorough() else ("graded",)):
        hs.append(Harness(f"forces_{kd}", forces(kd), FN, f"mesh {kd}, one to three regions, any forces in [-100,100]"))
    for kd in ("hex", "tet"):
        hs.append(Harness(f"flux_{kd}", flux(kd), FN, f"mesh {kd}, one to three faces, any flux densities in [-100,100]"))
    hs += [Harness("refusals", refusals, FN, "malformed directions and mismatched lists"),
           Harness("task", task, FN, "row of hexahedra, one or two load cases, forces in [-100,100]")]
    return hs
