"""Finite element code run on symbols: real forms, real bases and skfem's own assembly loops over concrete
meshes; sparse matrices become dense symbolic ones and a linear solve an unknown satisfying its equations."""
import contextlib
import numbers

import numpy as np

from sx import core
from .common import mod

numbers.Number.register(core.Sym)      # scalar form parameters may be symbols


class Mat:
    """Dense stand-in for a scipy sparse matrix, able to hold symbols."""
    __array_priority__ = 1e9

    def __init__(self, a, fmt="csr"):
        self.a = a
        self.format = fmt

    # -- construction
    @classmethod
    def of(cls, m):
        if isinstance(m, Mat):
            return m
        if hasattr(m, "toarray"):
            m = m.toarray()
        return cls(np.asarray(m).astype(object))

    @property
    def shape(self):
        return self.a.shape

    ndim = 2
    dtype = np.dtype(float)

    def _f(self, fmt):
        return Mat(self.a, fmt)

    def tocsr(self, *a, **k):
        return self._f("csr")

    def tocsc(self, *a, **k):
        return self._f("csc")

    def tocoo(self, *a, **k):
        return self._f("coo")

    def asformat(self, f):
        return self._f(f)

    def toarray(self):
        return wrap(self.a.copy())

    todense = toarray

    def copy(self):
        return Mat(self.a.copy(), self.format)

    def eliminate_zeros(self):
        pass

    sum_duplicates = sort_indices = eliminate_zeros

    @property
    def T(self):
        return Mat(self.a.T.copy(), self.format)

    def transpose(self):
        return self.T

    def diagonal(self):
        return wrap(np.array([self.a[i, i] for i in range(self.a.shape[0])], dtype=object))

    def sum(self, axis=None):
        if axis is None:
            return wrap(self.a).sum()
        v = wrap(self.a).sum(axis=axis)
        return v.reshape(-1, 1) if axis in (1, -1) else v.reshape(1, -1)

    def setdiag(self, v):
        for i in range(self.a.shape[0]):
            self.a[i, i] = v[i]

    # -- arithmetic
    def _el(self, o, f):
        b = Mat.of(o).a
        r = np.empty(self.a.shape, dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = f(self.a[i], b[i])
        return Mat(r, self.format)

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return self._el(o, lambda x, y: x + y)

    __radd__ = __add__

    def __sub__(self, o):
        return self._el(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._el(o, lambda x, y: y - x)

    def _scale(self, k):
        r = np.empty(self.a.shape, dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = self.a[i] * k
        return Mat(r, self.format)

    def __mul__(self, o):
        return self._scale(o) if np.ndim(o) == 0 and not isinstance(o, Mat) else self @ o

    def __rmul__(self, o):
        return self._scale(o)

    def __neg__(self):
        return self._scale(-1.0)

    def __truediv__(self, o):
        return self._scale(1.0 / o)

    def __matmul__(self, o):
        if isinstance(o, Mat) or hasattr(o, "toarray"):
            return Mat(dot(self.a, Mat.of(o).a), self.format)
        return wrap(dot(self.a, np.asarray(o, dtype=object).view(np.ndarray)))

    dot = __matmul__

    def __rmatmul__(self, o):
        return wrap(dot(np.asarray(o, dtype=object).view(np.ndarray), self.a))

    def __array_ufunc__(self, ufunc, method, *ins, **k):
        if method != "__call__":
            return NotImplemented
        x, y = ins
        if ufunc is np.matmul:
            return self.__rmatmul__(x)
        if ufunc is np.add:
            return self + x
        if ufunc is np.multiply and np.ndim(x) == 0:
            return self._scale(x)
        return NotImplemented

    def __getitem__(self, k):
        r = self.a[k]
        return Mat(r, self.format) if isinstance(r, np.ndarray) and r.ndim == 2 else r


def wrap(a):
    from sx import arr
    return a.view(arr.SymArray)


def dot(a, b):
    """Matrix product skipping the (many) exact zeros."""
    from sx.core import is_sym
    one, two = a.ndim == 1, b.ndim == 1
    A = a.reshape(1, -1) if one else a
    B = b.reshape(-1, 1) if two else b
    assert A.shape[1] == B.shape[0], f"matrix dimensions {a.shape} and {b.shape}"
    nz = [[j for j in range(A.shape[1]) if is_sym(A[i, j]) or A[i, j] != 0] for i in range(A.shape[0])]
    r = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for k in range(B.shape[1]):
            s = 0.0
            for j in nz[i]:
                y = B[j, k]
                if not is_sym(y) and y == 0:
                    continue
                s = s + A[i, j] * y
            r[i, k] = s
    if one and two:
        return r[0, 0]
    return r[0] if one else (r[:, 0] if two else r)


class Solves:
    """Oracle for linear solves: a fresh vector x constrained by A x = b, with the consequence x.Ax = x.b."""

    def __init__(self, env, bound, products=True, start=0):
        self.env, self.bound, self.products = env, bound, products
        self.systems = []

    def solve(self, A, b):
        A = Mat.of(A).a
        b = np.asarray(b, dtype=object).view(np.ndarray)
        if b.ndim == 2:
            cols = [self.solve(A, b[:, j]) for j in range(b.shape[1])]
            r = np.empty(b.shape, dtype=object)
            for j, c in enumerate(cols):
                r[:, j] = c
            return wrap(r)
        env, n = self.env, len(b)
        x = np.empty(n, dtype=object)
        for i in range(n):
            x[i] = env.fresh("x")
            env.assume(env.and_(x[i] <= self.bound, x[i] >= -self.bound))
        Ax = dot(A, x)
        for i in range(n):
            env.assume(Ax[i] == b[i])
        if self.products:
            for y in [x] + [s[2] for s in self.systems if len(s[2]) == n]:
                l, r = 0.0, 0.0
                for i in range(n):
                    l, r = l + y[i] * Ax[i], r + y[i] * b[i]
                env.assume(l == r)
        self.systems.append((A, b, x))
        return wrap(x)


def to_dense_coo(self):
    """COOData -> default type, holding symbols."""
    if len(self.shape) == 0:
        return np.sum(self.data, axis=0)
    r = np.empty(self.shape, dtype=object)
    r.fill(0.0)
    for k in range(self.indices.shape[1]):
        i = tuple(int(x) for x in self.indices[:, k])
        r[i] = r[i] + self.data[k]
    return wrap(r) if len(self.shape) == 1 else Mat(r)


def enforce(A, b=None, x=None, I=None, D=None, diag=1.0, overwrite=False):
    A = Mat.of(A)
    D = flat(D)
    if I is not None:
        D = np.setdiff1d(np.arange(A.shape[0]), flat(I))
    a = A.a if overwrite else A.a.copy()
    for d in D:
        a[d, :] = 0.0
        a[d, d] = diag
    out = Mat(a, A.format)
    if b is None:
        return out
    b = b if overwrite else b.copy()
    if b.dtype != object:
        b = b.astype(object)
    for d in D:
        b[d] = 0.0 if x is None else x[d]
    return out, wrap(b)


def condense(A, b=None, x=None, I=None, D=None, expand=True):
    A = Mat.of(A)
    n = A.shape[0]
    D = flat(D) if D is not None else np.setdiff1d(np.arange(n), flat(I))
    I = np.setdiff1d(np.arange(n), D)
    xs = np.zeros(n).astype(object) if x is None else np.asarray(x, dtype=object).view(np.ndarray)
    Ac = Mat(A.a[np.ix_(I, I)])
    if b is None:
        return (Ac, xs, I) if expand else Ac
    bc = wrap(np.asarray(b, dtype=object).view(np.ndarray)[I] - dot(A.a[np.ix_(I, D)], xs[D]))
    return (Ac, bc, wrap(xs), I) if expand else (Ac, bc)


def flat(D):
    if D is None:
        return None
    if hasattr(D, "flatten") and not isinstance(D, np.ndarray):
        return np.asarray(D.flatten())
    if isinstance(D, dict):
        return np.unique(np.concatenate([flat(v) for v in D.values()]))
    return np.asarray(D)


@contextlib.contextmanager
def fem(env, *mods, bound=100.0, products=True, extra=None):
    """Symbolic execution of finite element code; yields the solve oracle (None in concrete runs)."""
    if not env.symbolic:
        yield None
        return
    import pyamg
    import scipy.sparse
    import scipy.sparse.linalg as sl
    import skfem
    import skfem.utils
    from skfem.assembly.form import bilinear_form, coo_data, functional, linear_form
    import skfem.assembly.basis.abstract_basis as ab
    S = Solves(env, bound, products)

    class LU:
        def __init__(self, A, *a, **k):
            self.A = A

        def solve(self, b, *a, **k):
            return S.solve(self.A, b)

    def cg(A, b, *a, **k):
        return S.solve(A, b), 0

    def skfem_solve(A, b, x=None, I=None, solver=None, **k):
        y = S.solve(A, b)
        if x is None or I is None:
            return y
        r = np.asarray(x, dtype=object).view(np.ndarray).copy()
        r[I] = y
        return wrap(r)

    class Amg:
        def __init__(self, A):
            self.A = A

        def aspreconditioner(self, *a, **k):
            return self

    subs = [(sl, "spsolve", lambda A, b, *a, **k: S.solve(A, b)), (sl, "splu", LU),
            (sl, "factorized", lambda A: LU(A).solve), (sl, "cg", cg),
            (sl, "LinearOperator", lambda shape, matvec=None, **k: (shape, matvec)),
            (pyamg, "smoothed_aggregation_solver", Amg),
            (skfem, "enforce", enforce), (skfem, "condense", condense), (skfem, "solve", skfem_solve),
            (skfem.utils, "enforce", enforce), (skfem.utils, "condense", condense),
            (skfem.utils, "solve", skfem_solve)]
    import scipy.linalg
    by_id = {}
    ex = {m: dict(d) for m, d in (extra or {}).items()}
    for m, n, f in subs:
        by_id[id(getattr(m, n))] = f
        ex.setdefault(m, {}).setdefault(n, f)
    for m in mods:
        for k, v in vars(m).items():
            if id(v) in by_id:
                ex.setdefault(m, {}).setdefault(k, by_id[id(v)])
    C = coo_data.COOData
    saved = {n: C.__dict__[n] for n in ("todefault", "tocsr", "toarray", "_assemble_scipy_csr")}
    real = saved["_assemble_scipy_csr"].__func__
    real_default = saved["todefault"]

    def sym(d):
        return isinstance(d, np.ndarray) and d.dtype == object

    C.todefault = lambda self: to_dense_coo(self) if sym(self.data) else real_default(self)
    C.tocsr = lambda self: to_dense_coo(self) if sym(self.data) else saved["tocsr"](self)
    C.toarray = lambda self: (lambda r: r.toarray() if isinstance(r, Mat) else r)(to_dense_coo(self)) \
        if sym(self.data) else saved["toarray"](self)
    C._assemble_scipy_csr = staticmethod(
        lambda i, d, sh, ls: to_dense_coo(C(i, d, sh, ls)) if sym(d) else real(i, d, sh, ls))
    csr = scipy.sparse.csr_matrix
    try:
        with env.code(*mods, bilinear_form, linear_form, functional, extra=ex):
            yield S
    finally:
        for n, v in saved.items():
            setattr(C, n, v)


# ---- concrete meshes -----------------------------------------------------------------------------
def mesh(kind):
    import skfem
    if kind == "hex":
        return skfem.MeshHex.init_tensor(np.array([0.0, 1.0]), np.array([0.0, 1.0]), np.array([0.0, 1.0]))
    if kind == "hex2":
        return skfem.MeshHex.init_tensor(np.array([0.0, 1.0, 2.5]), np.array([0.0, 1.0]), np.array([0.0, 0.5]))
    if kind == "tet":
        return skfem.MeshTet(np.array([[0.0, 1.2, 0.1, 0.2], [0, 0.1, 0.9, 0.3], [0, 0.2, 0.1, 1.1]]),
                             np.array([[0], [1], [2], [3]]))
    if kind == "tet2":
        return skfem.MeshTet(np.array([[0.0, 1.2, 0.1, 0.2, 1.0], [0, 0.1, 0.9, 0.3, 1.1], [0, 0.2, 0.1, 1.1, 0.9]]),
                             np.array([[0, 1], [1, 2], [2, 3], [3, 4]]))
    raise KeyError(kind)


def gauss(kind):
    if kind.startswith("hex"):
        g = (0.5 - 0.5 / np.sqrt(3), 0.5 + 0.5 / np.sqrt(3))
        return [((x, y, z), 0.125) for x in g for y in g for z in g]
    return [((0.25, 0.25, 0.25), 1.0 / 6)]


CORNERS = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0), (1, 1, 1)]


def shape_grads(kind, X):
    """Shape functions and gradients on the reference element (own formulas)."""
    if kind.startswith("tet"):
        x, y, z = X
        return (np.array([1 - x - y - z, x, y, z]),
                np.array([[-1.0, -1, -1], [1, 0, 0], [0, 1, 0], [0, 0, 1]]))
    N, G = [], []
    for c in CORNERS:
        f = [X[i] if c[i] else 1 - X[i] for i in range(3)]
        d = [1.0 if c[i] else -1.0 for i in range(3)]
        N.append(f[0] * f[1] * f[2])
        G.append([d[0] * f[1] * f[2], f[0] * d[1] * f[2], f[0] * f[1] * d[2]])
    return np.array(N), np.array(G)


def element_integrals(m, kind):
    """Per element: list of (weight*|J|, N, grad N) at the quadrature points."""
    out = []
    for e in range(m.t.shape[1]):
        P = m.p[:, m.t[:, e]].T
        pts = []
        for X, w in gauss(kind):
            N, G = shape_grads(kind, X)
            J = P.T @ G                      # dx_i/dX_j
            dN = G @ np.linalg.inv(J)
            pts.append((w * abs(np.linalg.det(J)), N, dN))
        out.append(pts)
    return out


def unit_stiffness(m, kind, nu):
    """Element stiffness for unit Young's modulus from the textbook strain-displacement matrix."""
    lam, mu = nu / ((1 + nu) * (1 - 2 * nu)), 1 / (2 * (1 + nu))
    D = np.diag([2 * mu] * 3 + [mu] * 3)
    D[:3, :3] += lam
    out = []
    for pts in element_integrals(m, kind):
        K = 0
        for w, N, dN in pts:
            n = len(N)
            B = np.zeros((6, 3 * n))
            for a in range(n):
                gx, gy, gz = dN[a]
                B[:, 3 * a:3 * a + 3] = [[gx, 0, 0], [0, gy, 0], [0, 0, gz], [gy, gx, 0], [0, gz, gy], [gz, 0, gx]]
            K = K + w * B.T @ D @ B
        out.append(K)
    return out


def unit_conductivity(m, kind):
    return [sum(w * dN @ dN.T for w, N, dN in pts) for pts in element_integrals(m, kind)]


def solve_bound(K, fbound):
    return fbound


# ---- sparse construction and neighbour search -------------------------------------------------------
def sparse(cls_format="csr"):
    """Stand-in for scipy's coo_matrix / csr_matrix / csc_matrix constructors."""
    def make(arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list, np.ndarray)) and len(arg[1]) == 2:
            data, (r, c) = arg
            r, c = np.asarray(r, dtype=int), np.asarray(c, dtype=int)
            sh = shape or (int(r.max()) + 1, int(c.max()) + 1)
            a = np.empty(sh, dtype=object)
            a.fill(0.0)
            for k in range(len(r)):
                a[r[k], c[k]] = a[r[k], c[k]] + np.asarray(data, dtype=object)[k]
            return Mat(a, cls_format)
        if isinstance(arg, tuple) and len(arg) == 3:
            data, ind, ptr = arg
            n = len(ptr) - 1
            sh = shape or (n, int(max(ind)) + 1)
            a = np.empty(sh, dtype=object)
            a.fill(0.0)
            for i in range(n):
                for k in range(int(ptr[i]), int(ptr[i + 1])):
                    a[i, int(ind[k])] = a[i, int(ind[k])] + data[k]
            return Mat(a, cls_format)
        if isinstance(arg, tuple):
            a = np.empty(tuple(int(k) for k in arg), dtype=object)
            a.fill(0.0)
            return Mat(a, cls_format)
        m = Mat.of(arg)
        return Mat(m.a.copy() if copy else m.a, cls_format)
    return make


def diags(v, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(v, (list, tuple)) and len(v) == 1 and np.ndim(v[0]) == 1:
        v = v[0]
    v = np.asarray(v, dtype=object)
    a = np.empty((len(v), len(v)), dtype=object)
    a.fill(0.0)
    for i in range(len(v)):
        a[i, i] = v[i]
    return Mat(a, format or "dia")


class KDTree:
    """Neighbour search over points that may be symbolic: membership is a comparison of exact distances."""

    def __init__(self, data, *a, **k):
        self.data = np.asarray(data, dtype=object)
        self.n, self.m = self.data.shape

    def _d(self, a, b):
        return np.linalg.norm(wrap(np.array([x - y for x, y in zip(a, b)], dtype=object)))

    def query_ball_point(self, x, r, p=2.0, eps=0, workers=1, return_sorted=None, return_length=False):
        x = np.asarray(x, dtype=object)
        if x.ndim == 1:
            return [j for j in range(self.n) if bool(self._d(x, self.data[j]) <= r)]
        out = np.empty(x.shape[0], dtype=object)
        for i in range(x.shape[0]):
            out[i] = self.query_ball_point(x[i], r if np.ndim(r) == 0 else r[i])
        return out

    def query_ball_tree(self, other, r, **k):
        return [other.query_ball_point(x, r) for x in self.data]

    def query_pairs(self, r, p=2.0, eps=0, output_type="set"):
        s = {(i, j) for i in range(self.n) for j in range(i + 1, self.n) if bool(self._d(self.data[i], self.data[j]) <= r)}
        return s if output_type == "set" else np.array(sorted(s), dtype=int).reshape(-1, 2)


def sparse_subs(*mods):
    """Replacements (module -> name -> stand-in) for whatever of these a module imported, and for scipy itself."""
    import scipy.sparse as sp
    import scipy.spatial as ss
    subs = {(sp, "coo_matrix"): sparse("coo"), (sp, "csr_matrix"): sparse("csr"), (sp, "csc_matrix"): sparse("csc"),
            (sp, "csr_array"): sparse("csr"), (sp, "coo_array"): sparse("coo"), (sp, "diags"): diags,
            (ss, "cKDTree"): KDTree, (ss, "KDTree"): KDTree}
    ex, by_id = {}, {}
    for (m, n), f in subs.items():
        if hasattr(m, n):
            by_id[id(getattr(m, n))] = f
            ex.setdefault(m, {})[n] = f
    for m in mods:
        for k, v in vars(m).items():
            if id(v) in by_id:
                ex.setdefault(m, {})[k] = by_id[id(v)]
    return ex
