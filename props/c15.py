"""C15: element volumes and orientation repair."""
import numpy as np

from sx.harness import Harness
from .common import mod, thorough

ASSUMPTIONS = ["hexahedra are affine images of the reference cube or prisms over arbitrary trapezoids (planar faces); "
               "volumes of warped hexahedra are not constrained"]
FN = ["composer.get_elements_volume", "composer._get_elements_volume_tet", "composer._get_elements_volume_hex",
      "mesh.utils.fix_elements_orientation", "mesh.utils.fix_tetrahedron_orientation",
      "mesh.utils.fix_hexahedron_orientation"]
BITS = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0), (1, 1, 1)]


def det3(a, b, c):
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0])
            + a[2] * (b[0] * c[1] - b[1] * c[0]))


def mesh_with(env, kind, t, cols):
    """A real skfem mesh whose coordinates are replaced by the given columns."""
    import copy
    import skfem
    base = skfem.MeshTet() if kind == "tet" else skfem.MeshHex()
    m = copy.copy(base)
    p = np.empty((3, len(cols)), dtype=object)
    for j, c in enumerate(cols):
        for i in range(3):
            p[i, j] = c[i]
    if env.symbolic:
        p = env.wrap(p)
    else:
        p = p.astype(float)
    object.__setattr__(m, "doflocs", p)
    object.__setattr__(m, "t", np.asarray(t, dtype=np.int64))
    return m


def pts(env, n, name="p"):
    return [[env.real(f"{name}{j}_{i}", -4, 4) for i in range(3)] for j in range(n)]


def mods():
    return mod("sktopt.fea.composer"), mod("sktopt.mesh.utils")


def tet_volume(t):
    t = np.array(t).T
    n = int(t.max()) + 1

    def body(env):
        comp, ut = mods()
        P = pts(env, n)
        m = mesh_with(env, "tet", t, P)
        vols = []
        for e in range(t.shape[1]):
            q = [P[i] for i in t[:, e]]
            vols.append(det3(*[[q[k][i] - q[0][i] for i in range(3)] for k in (1, 2, 3)]) / 6)
        for v in vols:
            env.assume(v > 0)
        with env.code(comp, ut):
            got = comp.get_elements_volume(m)
            fast = getattr(comp, "_get_elements_volume_tet_numba", None)
            twin = fast(m.t, m.p) if fast else got
        env.check(len(got) == t.shape[1], "one volume per element")
        for e, v in enumerate(vols):
            env.check_eq(got[e], v, f"tetrahedron volume is a sixth of the spanned parallelepiped [{e}]", tol=1e-7)
            env.check_eq(twin[e], v, f"tetrahedron volume (parallel routine) [{e}]", tol=1e-7)
    return body


def tet_inverted(env):
    comp, ut = mods()
    P = pts(env, 4)
    m = mesh_with(env, "tet", [[0], [1], [2], [3]], P)
    v = det3(*[[P[k][i] - P[0][i] for i in range(3)] for k in (1, 2, 3)]) / 6
    env.assume(v < -1e-6)
    with env.code(comp, ut):
        r = env.raises(lambda: comp.get_elements_volume(m), ValueError)
    env.check(r[0] is not None, "an inverted tetrahedron is refused")


def hex_affine(flip):
    def body(env):
        comp, ut = mods()
        o, a, b, c = pts(env, 4)
        P = [[o[i] + x * a[i] + y * b[i] + z * c[i] for i in range(3)] for x, y, z in BITS]
        v = det3(a, b, c)
        env.assume(v < 0 if flip else v > 0)
        m = mesh_with(env, "hex", np.arange(8).reshape(8, 1), P)
        with env.code(comp, ut):
            got = comp.get_elements_volume(m)
            fast = getattr(comp, "_get_elements_volume_hex_numba", None)
            twin = fast(m.t, m.p) if fast else got
        env.check_eq(got[0], env.maxi(v, -v), "parallelepiped volume", tol=1e-6)
        env.check_eq(twin[0], env.maxi(v, -v), "parallelepiped volume (parallel routine)", tol=1e-6)
    return body


def hex_prism(axis):
    """Prism over a convex quadrilateral: the four edges along `axis` are parallel and of equal length."""
    def body(env):
        comp, ut = mods()
        h = env.real("h", 0.1, 4)
        q = [[env.real(f"q{j}_{i}", -4, 4) for i in range(2)] for j in range(4)]   # 00 10 11 01

        def cr(i, j, k):
            return ((q[j][0] - q[i][0]) * (q[k][1] - q[i][1]) - (q[j][1] - q[i][1]) * (q[k][0] - q[i][0]))
        for i in range(4):
            env.assume(cr(i, (i + 1) % 4, (i + 2) % 4) > 0)
        at = {(0, 0): 0, (1, 0): 1, (1, 1): 2, (0, 1): 3}
        P = []
        for bits in BITS:
            rest = [bits[k] for k in range(3) if k != axis]
            xy = q[at[tuple(rest)]]
            col = [xy[0], xy[1]]
            col.insert(axis, h * bits[axis])
            P.append(col)
        m = mesh_with(env, "hex", np.arange(8).reshape(8, 1), P)
        with env.code(comp, ut):
            got = comp.get_elements_volume(m)
        area = (cr(0, 1, 2) + cr(0, 2, 3)) / 2
        env.check_eq(got[0], area * h, "volume of a prism over a convex quadrilateral", tol=1e-6)
    return body


def two_hex(env):
    """Two boxes of different size sharing a face: each has its own volume."""
    comp, ut = mods()
    x1, x2 = env.real("x1", 0.1, 4), env.real("x2", 0.1, 4)
    y, z = env.real("y", 0.1, 4), env.real("z", 0.1, 4)
    import skfem
    base = skfem.MeshHex.init_tensor(np.array([0.0, 1, 2]), np.array([0.0, 1]), np.array([0.0, 1]))
    P = []
    for j in range(base.p.shape[1]):
        i, b, c = base.p[:, j]
        P.append([0.0 if i == 0 else (x1 if i == 1 else x1 + x2), y * float(b), z * float(c)])
    m = mesh_with(env, "hex", base.t, P)
    with env.code(comp, ut):
        got = comp.get_elements_volume(m)
    env.check(len(got) == 2, "one volume per element")
    left = [e for e in range(2) if base.p[0, base.t[:, e]].min() == 0][0]
    env.check_eq(got[left], x1 * y * z, "first box", tol=1e-7)
    env.check_eq(got[1 - left], x2 * y * z, "second box", tol=1e-7)


def fix_tet(env):
    comp, ut = mods()
    unit = env.choice("unit", [1.0, 2.0 ** -10])
    P = pts(env, 5)
    t = np.array([[0, 1, 2, 3], [1, 2, 3, 4]]).T
    vols = [det3(*[[P[t[k, e]][i] - P[t[0, e]][i] for i in range(3)] for k in (1, 2, 3)]) for e in range(2)]
    for v in vols:
        env.assume(env.or_(v > 1e-3, v < -1e-3))
    m = mesh_with(env, "tet", t, [[x * unit for x in q] for q in P])
    with env.code(comp, ut):
        f = ut.fix_elements_orientation(m)
    for e in range(2):
        new = [int(k) for k in f[:, e]]
        env.check(sorted(new) == sorted(t[:, e]), f"an element keeps its nodes [{e}]")
        w = det3(*[[P[new[k]][i] - P[new[0]][i] for i in range(3)] for k in (1, 2, 3)])
        env.check(w > 0, f"every tetrahedron ends up right-handed [{e}]")
        env.check(env.implies(vols[e] > 0, new == list(t[:, e])), f"a right-handed tetrahedron is left alone [{e}]")
    env.check(np.array_equal(m.t, t), "the given connectivity is not modified")


def fix_hex(env):
    comp, ut = mods()
    unit = env.choice("unit", [1.0, 2.0 ** -10])
    o, a, b, c = pts(env, 4)
    P = [[o[i] + x * a[i] + y * b[i] + z * c[i] for i in range(3)] for x, y, z in BITS]
    v = det3(a, b, c)
    env.assume(env.or_(v > 1e-3, v < -1e-3))
    t = np.arange(8).reshape(8, 1)
    m = mesh_with(env, "hex", t, [[x * unit for x in q] for q in P])
    with env.code(comp, ut):
        f = ut.fix_elements_orientation(m)
    new = [int(k) for k in f[:, 0]]
    env.check(sorted(new) == list(range(8)), "an element keeps its nodes")
    q = [P[k] for k in new]
    e1, e2, e3 = ([q[k][i] - q[0][i] for i in range(3)] for k in (1, 2, 3))      # local z, y, x
    env.check(det3(e3, e2, e1) > 0, "every hexahedron ends up right-handed")
    env.check(env.implies(v > 0, new == list(range(8))), "a right-handed hexahedron is left alone")
    for k, (x, y, z) in enumerate(BITS):
        for i in range(3):
            env.check_eq(q[k][i], q[0][i] + x * e3[i] + y * e2[i] + z * e1[i],
                         f"the hexahedron stays untangled [{k},{i}]", tol=1e-7)
    env.check(np.array_equal(m.t, t), "the given connectivity is not modified")


def harnesses():
    B = "node coordinates anywhere in [-4,4]^3"
    hs = [Harness("tet_volume", tet_volume([[0, 1, 2, 3]]), FN, "one tetrahedron, " + B),
          Harness("tet_volume_2", tet_volume([[0, 1, 2, 3], [3, 1, 2, 4]]), FN, "two tetrahedra, " + B),
          Harness("tet_inverted", tet_inverted, FN, B),
          Harness("hex_affine", hex_affine(False), FN, "one parallelepiped, " + B),
          Harness("hex_affine_flipped", hex_affine(True), FN, "one left-handed parallelepiped, " + B),
          Harness("two_hex", two_hex, FN, "two boxes with edges in [0.1,4]"),
          Harness("fix_tet", fix_tet, FN, "two tetrahedra, " + B), Harness("fix_hex", fix_hex, FN, "one parallelepiped, " + B)]
    for ax in range(3):
        hs.append(Harness(f"hex_prism_{'xyz'[ax]}", hex_prism(ax), FN, "prisms over convex quadrilaterals in [-4,4]^2"))
    return hs
