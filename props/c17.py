"""C17: what is fixed, free, designable and excluded, from the named boundary regions."""
import contextlib

import numpy as np

from sx.harness import Harness
from . import femlab
from .common import mod, thorough

ASSUMPTIONS = ["meshes are fixed small ones; which elements are designable and which regions carry conditions is chosen symbolically, one "
               "path per combination", "facet and degree-of-freedom numbering of skfem is taken as given"]
FN = ["mesh/task_common.py FEMDomain.from_facets / from_nodes / exlude_dirichlet_from_design / design_mask / "
      "export_analysis_condition_on_mesh", "mesh/task_elastic.py LinearElasticity.from_facets / from_mesh_tags",
      "mesh/task_heat.py LinearHeatConduction.from_facets / from_mesh_tags", "mesh/utils.get_elements_by_nodes"]


def grid(kind):
    import skfem
    if kind == "hex":
        return skfem.MeshHex.init_tensor(np.array([0, 1.0, 2.0]), np.array([0, 1.0, 2.0]), np.array([0, 1.0]))
    if kind == "row":
        return skfem.MeshHex.init_tensor(np.array([0, 1.0, 2.0, 3, 4, 5]), np.array([0, 1.0]), np.array([0, 1.0]))
    m = skfem.MeshTet.init_tensor(np.array([0, 1.0]), np.array([0, 1.0]), np.array([0, 1.0]))
    t = m.t.copy()
    for e in range(t.shape[1]):        # the library refuses tetrahedra of negative orientation
        P = m.p[:, t[:, e]]
        if np.linalg.det(P[:, 1:] - P[:, :1]) < 0:
            t[[2, 3], e] = t[[3, 2], e]
    return skfem.MeshTet(m.p, t, sort_t=False)


def regions(m):
    B = m.boundary_facets()
    mid = m.p[:, m.facets].mean(axis=1)
    hi = m.p.max(axis=1)
    return {"left": np.array([f for f in B if abs(mid[0, f]) < 1e-9]), "right": np.array([f for f in B if abs(mid[0, f] - hi[0]) < 1e-9]),
            "bottom": np.array([f for f in B if abs(mid[2, f]) < 1e-9]), "one": B[:1], "last": B[-1:],
            "back": np.array([f for f in B if abs(mid[1, f] - hi[1]) < 1e-9])}


def nodes_of(m, facets):
    return sorted(set(m.facets[:, facets].ravel().tolist()))


def touching(m, nodes):
    s = set(nodes)
    return [e for e in range(m.t.shape[1]) if s & set(m.t[:, e].tolist())]


def basis(m, vector):
    import skfem
    e = skfem.ElementHex1() if m.t.shape[0] == 8 else skfem.ElementTetP1()
    with contextlib.redirect_stdout(None):
        return skfem.Basis(m, skfem.ElementVector(e) if vector else e, intorder=2)


def dofs(b, nodes, d):
    D = b.nodal_dofs
    return sorted(int(x) for x in (D[:, nodes] if d == "all" else D[int(d[-1]) - 1, nodes]).ravel())


def same(env, got, want, label, ordered=False):
    g = [int(x) for x in np.asarray(got).ravel()]
    env.check((g if ordered else sorted(set(g))) == list(want), f"{label}")


def partition(env, t, m, design, supports, loads, robin_off):
    """Common checks of a finished task."""
    n = m.t.shape[1]
    off = set(loads) | set(robin_off)
    want = [e for e in design if e not in off]
    same(env, t.design_elements, want, "designable: asked for and not touching a load (or a Robin face kept out)", True)
    same(env, t.fixed_elements, [e for e in range(n) if e not in want], "fixed: every other element", True)
    same(env, t.all_elements, range(n), "all elements", True)
    env.check([bool(x) for x in t.design_mask] == [e in want for e in range(n)], "design mask")
    same(env, t.dirichlet_neumann_elements, sorted(set(supports) | set(loads)), "supported or loaded elements")
    import skfem
    for e in range(n):
        P = m.p[:, m.t[:, e]]
        v = abs(np.linalg.det((P[:, 1:4] - P[:, :1]))) / 6 if len(m.t) == 4 else np.prod(P.max(axis=1) - P.min(axis=1))
        env.check_eq(t.elements_volume[e], v, f"volume of element {e}")
    return want


def elastic(kind, two, bits):
    def body(env):
        te = mod("sktopt.mesh.task_elastic")
        m = grid(kind)
        n = m.t.shape[1]
        R = regions(m)
        b = basis(m, True)
        design = [e for e in range(n) if e >= bits or bool(env.boolean(f"d{e}"))]
        names = ["left", "one"] if two else ["left", "bottom", "one"]
        dirs = ["all", "u^1", "u^2", "u^3"]
        sup = [(env.choice("s0", names), env.choice("d0", dirs if not two else dirs[:2]))]
        if two:
            sup.append((env.choice("s1", ["left", "last"]), "u^3"))
        load = [env.choice("l0", ["right", "last"] if two else ["right", "last", "one"])]
        if two:
            load.append("back" if kind == "hex" else "right")
        aslist = two or bool(env.choice("aslist", [False, True]))

        def build():
            with contextlib.redirect_stdout(None):
                return te.LinearElasticity.from_facets(
                    b, [R[s] for s, _ in sup] if aslist else R[sup[0][0]], [d for _, d in sup] if aslist else sup[0][1],
                    [R[x] for x in load] if aslist else R[load[0]], ["u^1"] * len(load) if aslist else "u^1",
                    [1.0] * len(load) if aslist else 1.0, np.array(design, dtype=int), 2.0, 0.25)
        err, t = env.raises(build)
        loaded = touching(m, nodes_of(m, np.concatenate([R[x] for x in load])))
        if not [e for e in design if e not in loaded]:
            env.check(isinstance(err, ValueError), "an empty design is refused")
            return
        env.check(err is None, "the task is built")
        supports = touching(m, nodes_of(m, np.concatenate([R[s] for s, _ in sup])))
        want = partition(env, t, m, design, supports, loaded, [])
        D = sorted(set(x for s, d in sup for x in dofs(b, nodes_of(m, R[s]), d)))
        same(env, t.dirichlet_dofs, D, "fixed unknowns: the named components at the nodes of every support region")
        same(env, t.free_dofs, [i for i in range(b.N) if i not in set(D)], "free unknowns: all others", True)
        same(env, t.dirichlet_elements, supports, "supported elements")
        same(env, t.neumann_elements, loaded, "loaded elements")
        fr = set(range(b.N)) - set(D)
        same(env, t.free_elements, [e for e in range(n) if fr & set(b.element_dofs[:, e].tolist())],
             "elements with at least one free unknown")
        env.check(t.n_tasks == len(load) and isinstance(t.neumann_linear, list), "one load case per load region")
        env.check(t.E == 2.0 and t.nu == 0.25 and t.material_coef == 2.0, "material")
        t.exlude_dirichlet_from_design()
        rest = [e for e in want if e not in supports]
        same(env, t.design_elements, rest, "excluding supported elements from the design", True)
        same(env, t.fixed_elements, [e for e in range(n) if e not in rest], "fixed after excluding supported elements", True)
        env.check([bool(x) for x in t.design_mask] == [e in rest for e in range(n)], "design mask after excluding supported elements")
    return body


def heat(env):
    th = mod("sktopt.mesh.task_heat")
    m = grid("hex")
    n = m.t.shape[1]
    R = regions(m)
    b = basis(m, False)
    design = [e for e in range(n) if e >= 3 or bool(env.boolean(f"d{e}"))]
    sup = env.choice("supports", [["left"], ["bottom"], ["left", "bottom"], ["one", "left", "last"]])
    form = env.choice("form", ["list", "list of sets, one value"] + (["plain"] if len(sup) == 1 else []))
    rob = env.choice("robin", [None, ["right"], ["right", "back"]])
    keep = env.choice("design_robin", [True, False]) if rob else True
    vals = [env.real(f"T{i}", -10, 10) for i in range(len(sup))]

    def build():
        with contextlib.redirect_stdout(None):
            return th.LinearHeatConduction.from_facets(
                b, R[sup[0]] if form == "plain" else [R[s] for s in sup], vals if form == "list" else 1.5,
                None if rob is None else [R[x] for x in rob], None if rob is None else [0.5] * len(rob),
                None if rob is None else [1.0] * len(rob), None if rob is None else keep, np.array(design, dtype=int), 2.0)
    err, t = env.raises(build)
    off = touching(m, nodes_of(m, np.concatenate([R[x] for x in rob]))) if rob and not keep else []
    if not [e for e in design if e not in off]:
        env.check(isinstance(err, ValueError), "an empty design is refused")
        return
    env.check(err is None, "the task is built")
    supports = touching(m, nodes_of(m, np.concatenate([R[s] for s in sup])))
    want = partition(env, t, m, design, supports, [], off)
    env.check(t.n_tasks == len(sup) and len(t.dirichlet_nodes) == len(sup), "one load case per set of prescribed temperatures")
    for i, s in enumerate(sup):
        same(env, t.dirichlet_nodes[i], nodes_of(m, R[s]), f"nodes of prescribed temperature {i}")
        env.check_eq(t.dirichlet_values[i], vals[i] if form == "list" else 1.5, f"prescribed temperature {i}", tol=0)
    D = set(nodes_of(m, np.concatenate([R[s] for s in sup])))
    same(env, t.free_dofs, [i for i in range(b.N) if int(i) not in D], "free unknowns", True)
    same(env, t.dirichlet_elements, supports, "supported elements")
    if rob:
        same(env, t.robin_elements, touching(m, nodes_of(m, np.concatenate([R[x] for x in rob]))), "elements touching a Robin face")
    env.check(t.k == 2.0 and t.material_coef == 2.0, "material")
    t.exlude_dirichlet_from_design()
    rest = [e for e in want if e not in supports]
    same(env, t.design_elements, rest, "excluding supported elements from the design", True)
    same(env, t.fixed_elements, [e for e in range(n) if e not in rest], "fixed after excluding supported elements", True)


def tags(env):
    """Named regions of the mesh give the task the explicit regions give, in numerical order."""
    te, th = mod("sktopt.mesh.task_elastic"), mod("sktopt.mesh.task_heat")
    ht = env.choice("heat", [False, True])
    numbered = env.choice("numbered", [False, True])
    m0 = grid("hex")
    R = regions(m0)
    n = m0.t.shape[1]
    design = np.array([e for e in range(n) if e >= 2 or bool(env.boolean(f"d{e}"))], dtype=int)
    nums = env.choice("numbers", [(1, 2), (2, 10)]) if numbered else (1, 2)
    names = [("left", "bottom"), ("right", "back")]
    two = "robin" if ht else "neumann"
    if numbered:
        B = {f"dirichlet_{nums[1]}": R["bottom"], f"{two}_{nums[1]}": R["back"], f"dirichlet_{nums[0]}": R["left"],
             f"{two}_{nums[0]}": R["right"]}
    else:
        B = {"dirichlet": R["left"], two: R["right"], "other": R["back"]}
    m = m0.with_boundaries(B).with_subdomains({"design": design})
    b = basis(m, not ht)
    v = [env.real(f"v{i}", -10, 10) for i in range(2)]
    k = 2 if numbered else 1
    dl = [R[x] for x in names[0][:k]]
    ll = [R[x] for x in names[1][:k]]
    with femlab.fem(env, te, th), contextlib.redirect_stdout(None):
        if ht:
            r = ([0.5, 0.7][:k], v[:k]) if numbered else (0.5, v[0])
            err, a = env.raises(lambda: th.LinearHeatConduction.from_mesh_tags(b, [1.0, 2.0][:k], r[0], r[1], True, 3.0, "compliance", 0.25))
            if not len(design):
                env.check(isinstance(err, ValueError), "an empty design is refused")
                return
            env.check(err is None, "a task from tags is built")
            want = th.LinearHeatConduction.from_facets(b, dl, [1.0, 2.0][:k], ll, [0.5, 0.7][:k], v[:k], True, design, 3.0,
                                                       "compliance", 0.25)
            for i in range(k):
                same(env, a.dirichlet_nodes[i], nodes_of(m, dl[i]), f"prescribed set {i} in numerical order")
            rf = a.robin_facets_ids if isinstance(a.robin_facets_ids, list) else [a.robin_facets_ids]
            for i in range(k):
                same(env, rf[i], sorted(int(x) for x in ll[i]), f"Robin face {i} in numerical order")
            env.check(a.k == 3.0 and a.objective == "compliance" and a.avg_temp_weight == 0.25, "settings")
            fields = ("free_dofs", "design_elements", "fixed_elements", "dirichlet_elements", "robin_elements")
        else:
            loaded = touching(m, nodes_of(m, np.concatenate(ll)))
            err, a = env.raises(lambda: te.LinearElasticity.from_mesh_tags(
                b, ["all", "u^2"] if numbered else "all", ["u^1", "u^3"] if numbered else "u^1", v if numbered else v[0], 2.0, 0.25))
            if not [e for e in design if e not in loaded]:
                env.check(isinstance(err, ValueError), "an empty design is refused")
                return
            env.check(err is None, "a task from tags is built")
            want = te.LinearElasticity.from_facets(b, dl, ["all", "u^2"][:k], ll, ["u^1", "u^3"][:k], v[:k], design, 2.0, 0.25)
            env.check(a.n_tasks == k, "one load case per tagged load")
            for i in range(k):
                for j in range(b.N):
                    env.check_eq(a.neumann_linear[i][j], want.neumann_linear[i][j], f"load {i} [{j}]")
            env.check(a.E == 2.0 and a.nu == 0.25, "material")
            D = sorted(set(dofs(b, nodes_of(m, dl[0]), "all") + (dofs(b, nodes_of(m, dl[1]), "u^2") if k == 2 else [])))
            same(env, a.dirichlet_dofs, D, "fixed unknowns of all tagged supports")
            fields = ("free_dofs", "design_elements", "fixed_elements", "dirichlet_elements", "neumann_elements")
    for f in fields:
        same(env, getattr(a, f), sorted(set(int(x) for x in getattr(want, f))), f"{f}: same as from explicit regions")


class FakeMeshio:
    def __init__(self):
        self.out = None

    def install(self):
        import sys
        import types
        me = self

        class Mesh:
            def __init__(self, points, cells, point_data=None, cell_data=None, **k):
                me.out = (points, cells, point_data, cell_data)

            def write(self, p, *a, **k):
                me.path = p
        m = types.ModuleType("meshio")
        m.Mesh = Mesh
        return m


def painted(env):
    """The exported analysis conditions mark exactly the nodes and elements concerned."""
    import sys
    te, th = mod("sktopt.mesh.task_elastic"), mod("sktopt.mesh.task_heat")
    ht = env.choice("heat", [False, True])
    kind = env.choice("mesh", ["row", "tet"]) if ht else "row"
    m = grid(kind)
    R = regions(m)
    n = m.t.shape[1]
    two = env.choice("two", [False, True])
    rob = env.choice("robin", [False, True])
    sup = ["one", "back"] if two else ["one"]
    b = basis(m, not ht)
    design = np.arange(n)
    with contextlib.redirect_stdout(None):
        if ht:
            t = th.LinearHeatConduction.from_facets(b, [R[s] for s in sup], [1.0] * len(sup), R["last"] if rob else None,
                                                    0.5 if rob else None, 1.0 if rob else None, True if rob else None, design, 1.0)
        else:
            t = te.LinearElasticity.from_facets(b, [R[s] for s in sup], ["all"] * len(sup), R["last"], "u^1", 1.0, design, 1.0, 0.3)
    fm = FakeMeshio()
    old = sys.modules.get("meshio")
    sys.modules["meshio"] = fm.install()
    try:
        err, _ = env.raises(lambda: t.export_analysis_condition_on_mesh("out"))
    finally:
        if old is None:
            del sys.modules["meshio"]
        else:
            sys.modules["meshio"] = old
    env.check(err is None and fm.out is not None, "analysis conditions can be exported")
    if err is not None:
        return
    pts, cells, pd, cd = fm.out
    col = list(pd.values())[0]
    S = set(nodes_of(m, np.concatenate([R[s] for s in sup])))
    L = set(nodes_of(m, R["last"]))
    for i in range(m.p.shape[1]):
        w = 0
        if not ht and i in L:
            w = 1
        if i in S:
            w = 2
        if ht and rob and i in L:
            w = 3
        env.check(int(col[i]) == w, f"mark of node {i}")
    ec = np.asarray(list(cd.values())[0]).ravel()
    des = set(int(e) for e in t.design_elements)
    for e in range(n):
        env.check(int(ec[e]) == (3 if e in des else 2), f"mark of element {e}")
    env.check(np.array_equal(pts, m.p.T) and np.array_equal(cells[0][1], m.t.T), "the mesh itself")


def harnesses():
    hs = [Harness("elastic_hex", elastic("hex", False, 2), FN, "2x2x1 hexahedra, design subsets, support and load regions and directions"),
          Harness("elastic_two_regions", elastic("row", True, 3), FN,
                  "row of five hexahedra, any design subset of four, two support and two load regions"),
          Harness("heat", heat, FN, "2x2x1 hexahedra, any design subset, one to three sets of prescribed temperatures, Robin faces"),
          Harness("tags", tags, FN, "2x2x1 hexahedra, any design subset, single and numbered tags"),
          Harness("painted", painted, FN, "hexahedra or tetrahedra, one or two supports, with and without Robin face")]
    if thorough():
        hs.append(Harness("elastic_tet", elastic("tet", False, 3), FN, "tetrahedra of a unit cube, design subsets, regions, directions"))
    return hs
