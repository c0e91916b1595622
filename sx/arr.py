"""numpy arrays of symbolic scalars.

SymArray is an object-dtype ndarray subclass; ufuncs and numpy functions that
would need the truth value of an element (maximum, clip, where, abs, sort ...)
are evaluated with if-then-else terms instead of forking.
"""
from __future__ import annotations

import math
import operator

import numpy as np

from . import core
from .core import (Dual, EngineError, Sym, SymBool, is_num, is_sym, mkbool, site, smax,
                   smin, spow, zbool, z3)


def plain(a):
    """Object ndarray view (base class) of anything array-like."""
    if isinstance(a, np.ndarray):
        b = a.view(np.ndarray)
        return b if b.dtype == object else b.astype(object)
    if is_sym(a):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    if isinstance(a, (list, tuple)):
        if any_sym(a):
            return from_nested(a)
        return np.asarray(a).astype(object)
    return np.asarray(a).astype(object)


def any_sym(a):
    if is_sym(a) or isinstance(a, SymArray):
        return True
    if isinstance(a, (list, tuple)):
        return any(any_sym(x) for x in a)
    return False


def from_nested(a):
    def shape(x):
        if isinstance(x, np.ndarray):
            return x.shape
        if isinstance(x, (list, tuple)):
            if not x:
                return (0,)
            return (len(x),) + shape(x[0])
        return ()
    sh = shape(a)
    r = np.empty(sh, dtype=object)

    def fill(x, idx):
        if isinstance(x, np.ndarray):
            r[idx] = x.view(np.ndarray).astype(object) if x.ndim else x.item()
        elif isinstance(x, (list, tuple)):
            for i, y in enumerate(x):
                fill(y, idx + (i,))
        else:
            r[idx] = x.item() if isinstance(x, np.generic) else x
    fill(a, ())
    return r


def wrap(a):
    """ndarray(object) -> SymArray; 0-d -> scalar."""
    if isinstance(a, np.ndarray):
        if a.ndim == 0:
            return a.item() if a.dtype == object else a[()]
        if a.dtype != object:
            a = a.astype(object)
        return a.view(SymArray)
    return a


def wrapk(a):
    """Like wrap but keeps 0-d arrays."""
    return a.astype(object).view(SymArray) if a.dtype != object else a.view(SymArray)


def has_symbool(a):
    if isinstance(a, SymBool):
        return True
    if isinstance(a, np.ndarray) and a.dtype == object:
        return any(isinstance(x, SymBool) for x in a.view(np.ndarray).ravel())
    return False


def all_boollike(a):
    f = a.view(np.ndarray).ravel()
    return len(f) > 0 and all(isinstance(x, (SymBool, bool, np.bool_)) for x in f)


def el(f):
    """Elementwise with broadcasting over plain object arrays."""
    def g(*xs):
        ps = [plain(x) for x in xs]
        bs = np.broadcast_arrays(*ps) if len(ps) > 1 else ps
        out = np.empty(bs[0].shape, dtype=object)
        if out.ndim == 0:
            out[()] = f(*[b.item() for b in bs])
            return out
        its = [b.ravel() for b in bs]
        o = out.ravel()
        for i in range(o.size):
            o[i] = f(*[t[i] for t in its])
        return o.reshape(out.shape)
    return g


def pynum(x):
    return x.item() if isinstance(x, np.generic) else x


def f_div(a, b):
    a, b = pynum(a), pynum(b)
    if not is_sym(a) and not is_sym(b):
        if b == 0:
            if a == 0 or a != a:
                return float("nan")
            return math.copysign(float("inf"), a)
        return a / b
    return a / b


def f_floordiv(a, b):
    a, b = pynum(a), pynum(b)
    if not is_sym(b) and b == 0:
        return f_div(a, b)
    return a // b


def m1(name, mf):
    def f(x):
        x = pynum(x)
        if is_sym(x):
            if isinstance(x, SymBool):
                x = x._num()
            return getattr(core, "fn_" + name)(x)
        try:
            return mf(float(x))
        except ValueError:
            return float("nan")
        except OverflowError:
            return float("inf")
    return f


def f_abs(x):
    return abs(x)


def f_sign(x):
    x = pynum(x)
    if not is_sym(x):
        return (x > 0) - (x < 0)
    return site(x > 0, 1.0, site(x < 0, -1.0, 0.0))


def f_isfinite(x):
    x = pynum(x)
    if isinstance(x, Dual):
        x = x.v
    if isinstance(x, Sym):
        return True if x.nan is None else mkbool(z3.Not(x.nan))
    if is_sym(x):
        return True
    return math.isfinite(float(x))


def f_isnan(x):
    x = pynum(x)
    if isinstance(x, Dual):
        x = x.v
    if isinstance(x, Sym):
        return False if x.nan is None else mkbool(x.nan)
    if is_sym(x):
        return False
    return math.isnan(float(x))


def f_isinf(x):
    x = pynum(x)
    if is_sym(x):
        return False
    return math.isinf(float(x))


def f_not(x):
    return (not x) if isinstance(x, (bool, np.bool_)) else mkbool(z3.Not(zbool(x)))


def f_and(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) and bool(b)
    return mkbool(z3.And(zbool(a), zbool(b)))


def f_or(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) or bool(b)
    return mkbool(z3.Or(zbool(a), zbool(b)))


def cmpf(op):
    def f(a, b):
        a, b = pynum(a), pynum(b)
        if isinstance(b, Dual) and not isinstance(a, Dual):
            b = b.v
        return op(a, b)
    return f


def f_square(x):
    return x * x


def f_pow(a, b):
    return spow(pynum(a), pynum(b))


def f_log1p(x):
    return m1("log", math.log)(1.0 + x)


def f_expm1(x):
    return m1("exp", math.exp)(x) - 1.0


def f_fmax(a, b):
    a, b = pynum(a), pynum(b)
    na, nb = core.nan_of(a), core.nan_of(b)
    r = site(core._raw_lt(a, b), b, a)
    if na is None and nb is None:
        return r
    if na is not None:
        r = site(na, b, r)
    if nb is not None:
        r = site(nb, a, r)
    return r


def f_fmin(a, b):
    return -f_fmax(-a, -b)


def f_bitand(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return f_and(a, b)
    return a & b


def f_bitor(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return f_or(a, b)
    return a | b


def f_invert(a):
    if isinstance(a, (SymBool, bool, np.bool_)):
        return f_not(a)
    return ~a


def f_floor(x):
    x = pynum(x)
    return x.__floor__() * 1.0 if is_sym(x) else float(math.floor(x))


def f_ceil(x):
    x = pynum(x)
    return x.__ceil__() * 1.0 if is_sym(x) else float(math.ceil(x))


def f_rint(x):
    x = pynum(x)
    return x.__round__() * 1.0 if is_sym(x) else float(np.rint(x))


def f_trunc(x):
    x = pynum(x)
    return x.__trunc__() * 1.0 if is_sym(x) else float(math.trunc(x))


def f_recip(x):
    return f_div(1.0, x)


def f_maximum(a, b):
    return smax(pynum(a), pynum(b))


def f_minimum(a, b):
    return smin(pynum(a), pynum(b))


UF = {
    "add": lambda a, b: pynum(a) + pynum(b), "subtract": lambda a, b: pynum(a) - pynum(b),
    "multiply": lambda a, b: pynum(a) * pynum(b), "divide": f_div, "true_divide": f_div,
    "floor_divide": f_floordiv, "remainder": lambda a, b: pynum(a) % pynum(b),
    "mod": lambda a, b: pynum(a) % pynum(b),
    "negative": lambda a: -a, "positive": lambda a: a, "absolute": f_abs, "fabs": f_abs,
    "power": f_pow, "float_power": f_pow, "square": f_square, "reciprocal": f_recip,
    "sqrt": m1("sqrt", math.sqrt), "exp": m1("exp", math.exp), "log": m1("log", math.log),
    "log1p": f_log1p, "expm1": f_expm1,
    "tanh": m1("tanh", math.tanh), "cosh": m1("cosh", math.cosh), "sinh": m1("sinh", math.sinh),
    "maximum": f_maximum, "minimum": f_minimum, "fmax": f_fmax, "fmin": f_fmin,
    "less": cmpf(operator.lt), "less_equal": cmpf(operator.le), "greater": cmpf(operator.gt),
    "greater_equal": cmpf(operator.ge), "equal": cmpf(operator.eq), "not_equal": cmpf(operator.ne),
    "logical_and": f_and, "logical_or": f_or, "logical_not": f_not,
    "bitwise_and": f_bitand, "bitwise_or": f_bitor, "invert": f_invert,
    "sign": f_sign, "isfinite": f_isfinite, "isnan": f_isnan, "isinf": f_isinf,
    "floor": f_floor, "ceil": f_ceil, "rint": f_rint, "trunc": f_trunc,
    "conjugate": lambda a: a,
    "copysign": lambda a, b: site(b >= 0, abs(a), -abs(a)),
    "hypot": lambda a, b: core.fn_sqrt(a * a + b * b),
    "clip": lambda x, lo, hi: f_minimum(f_maximum(x, lo), hi),
}
IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def store(out, r, where=None):
    """Write result r into the out array."""
    o = out
    if isinstance(o, np.ndarray) and o.dtype != object:
        if any(is_sym(x) for x in np.asarray(r, dtype=object).ravel()):
            raise EngineError("symbolic result stored in a concrete float buffer")
        np.copyto(o.view(np.ndarray), np.asarray(r, dtype=object).astype(o.dtype))
        return out
    v = o.view(np.ndarray)
    if where is not None:
        w = np.broadcast_to(plain(where), v.shape)
        rr = np.broadcast_to(r, v.shape)
        for i in np.ndindex(v.shape):
            v[i] = site(w[i], rr[i], v[i])
    else:
        v[...] = r
    return out


def array_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop("out", None)
    if isinstance(out, tuple):
        out = out[0]
    where = kwargs.pop("where", None)
    if where is True:
        where = None
    kwargs.pop("casting", None)
    kwargs.pop("order", None)
    dtype = kwargs.pop("dtype", None)
    kwargs.pop("subok", None)
    if method == "__call__":
        if name in ("matmul", "vecdot"):
            r = matmul(inputs[0], inputs[1])
        else:
            f = UF.get(name)
            if f is None:
                raise EngineError(f"ufunc {name} is not modelled")
            r = el(f)(*inputs)
        if out is not None:
            return store(out, r, where)
        if where is not None:
            raise EngineError("ufunc where= without out=")
        return wrap(r)
    if method == "reduce":
        a = plain(inputs[0])
        axis = kwargs.pop("axis", 0)
        keep = kwargs.pop("keepdims", False)
        initial = kwargs.pop("initial", None)
        if initial is np._NoValue:
            initial = None
        r = reduce(name, a, axis, keep, initial, where)
        if out is not None:
            return store(out, r)
        return wrap(r)
    if method == "at":
        target, idx = inputs[0], inputs[1]
        f = UF[name]
        vals = inputs[2] if len(inputs) > 2 else None
        t = target.view(np.ndarray)
        if t.dtype != object:
            raise EngineError("ufunc.at on a concrete buffer with symbolic values")
        index = idx if isinstance(idx, tuple) else (idx,)
        probe = np.arange(t.size).reshape(t.shape)[index]
        flat = t.reshape(-1)
        if flat.base is not t and flat.base is not t.base:
            raise EngineError("ufunc.at needs a contiguous target")
        vv = np.broadcast_to(plain(vals), probe.shape).ravel() if vals is not None else None
        for k, p in enumerate(probe.ravel()):
            flat[p] = f(flat[p], vv[k]) if vv is not None else f(flat[p])
        return None
    if method == "outer":
        a, b = plain(inputs[0]), plain(inputs[1])
        return wrap(el(UF[name])(a.reshape(a.shape + (1,) * b.ndim), b))
    if method == "accumulate":
        a = plain(inputs[0])
        axis = kwargs.pop("axis", 0)
        a = np.moveaxis(a, axis, 0)
        res = a.copy()
        f = el(UF[name])
        for i in range(1, len(a)):
            res[i] = f(res[i - 1], a[i])
        return wrap(np.moveaxis(res, 0, axis))
    raise EngineError(f"ufunc method {name}.{method}")


def reduce(name, a, axis, keep=False, initial=None, where=None):
    f = UF[name]
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        axes = (axis % a.ndim,) if a.ndim else ()
    rest = [i for i in range(a.ndim) if i not in axes]
    t = a.transpose(list(axes) + rest)
    n = int(np.prod([a.shape[i] for i in axes])) if axes else 1
    t = t.reshape((n,) + tuple(a.shape[i] for i in rest))
    if where is not None:
        w = np.broadcast_to(plain(where), a.shape).transpose(list(axes) + rest).reshape(t.shape)
        t = el(lambda c, x: site(c, x, IDENT[name]))(w, t)
    oshape = t.shape[1:]
    res = np.empty(oshape, dtype=object)
    for idx in np.ndindex(oshape):
        col = [t[(i,) + idx] for i in range(n)]
        if initial is not None:
            acc = initial
        elif col:
            acc, col = col[0], col[1:]
            if name in ("logical_and", "logical_or"):
                acc = acc if isinstance(acc, (bool, SymBool)) else mkbool(zbool(acc))
        else:
            if name not in IDENT:
                raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
            acc = IDENT[name]
        for x in col:
            acc = f(acc, x)
        res[idx] = acc
    if keep:
        res = res.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    return res


def matmul(a, b):
    a, b = plain(a), plain(b)
    if a.ndim == 1 and b.ndim == 1:
        r = np.empty((), dtype=object)
        r[()] = dotv(a, b)
        return r
    if a.ndim == 2 and b.ndim == 1:
        return _vec([dotv(row, b) for row in a])
    if a.ndim == 1 and b.ndim == 2:
        return _vec([dotv(a, b[:, j]) for j in range(b.shape[1])])
    if a.ndim == 2 and b.ndim == 2:
        r = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                r[i, j] = dotv(a[i], b[:, j])
        return r
    return np.matmul(a, b)


def _vec(xs):
    r = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        r[i] = x
    return r


def dotv(a, b):
    if len(a) != len(b):
        raise ValueError("shapes not aligned")
    acc = 0.0
    for x, y in zip(a, b):
        if not is_sym(x) and x == 0 or not is_sym(y) and y == 0:
            continue
        acc = acc + x * y
    return acc


def sort_net(xs):
    xs = list(xs)
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            lo, hi = smin(xs[j], xs[j + 1]), smax(xs[j], xs[j + 1])
            xs[j], xs[j + 1] = lo, hi
    return xs


def percentile(a, q, axis=None, **k):
    a = plain(a)
    if axis is not None:
        raise EngineError("percentile axis")
    xs = list(a.ravel())
    n = len(xs)
    if n == 0:
        raise IndexError("percentile of an empty array")
    if n > 4:
        raise EngineError("percentile of more than 4 symbolic values")
    s = sort_net(xs)
    if isinstance(q, (list, tuple, np.ndarray)):
        return wrap(_vec([percentile(a, qq) for qq in q]))
    pos = q / 100.0 * (n - 1) if not is_sym(q) else q * (n - 1) / 100.0
    r = None
    for i in range(n - 1):
        v = s[i] + (s[i + 1] - s[i]) * (pos - i)
        r = v if r is None else site(core._raw_lt(pos, i), r, v)
    return r if r is not None else s[0]


class SymArray(np.ndarray):
    __array_priority__ = 1500

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    # reductions reached as methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return wrap(reduce("add", plain(self), axis, keepdims))

    def prod(self, axis=None, **k):
        return wrap(reduce("multiply", plain(self), axis))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return wrap(reduce("maximum", plain(self), axis, keepdims))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return wrap(reduce("minimum", plain(self), axis, keepdims))

    def any(self, axis=None, out=None, keepdims=False, **k):
        return wrap(reduce("logical_or", plain(self), axis, keepdims))

    def all(self, axis=None, out=None, keepdims=False, **k):
        return wrap(reduce("logical_and", plain(self), axis, keepdims))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        a = plain(self)
        s = reduce("add", a, axis, keepdims)
        n = a.size if axis is None else int(np.prod([a.shape[i] for i in np.atleast_1d(axis)]))
        return wrap(el(UF["divide"])(s, n))

    def var(self, axis=None, ddof=0, **k):
        a = plain(self)
        n = a.size if axis is None else a.shape[axis]
        m = plain(wrapk(np.asarray(reduce("add", a, axis, True), dtype=object)))
        d = el(lambda x, y: x - y / n)(a, m)
        s = reduce("add", el(f_square)(d), axis)
        return wrap(el(UF["divide"])(s, n - ddof))

    def std(self, axis=None, ddof=0, **k):
        v = self.var(axis, ddof)
        return wrap(el(UF["sqrt"])(v))

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def clip(self, min=None, max=None, out=None, **k):
        return f_clip(self, min, max, out)

    def dot(self, b):
        return wrap(matmul(self, b))

    def round(self, decimals=0, **k):
        if decimals:
            raise EngineError("round decimals")
        return wrap(el(f_rint)(self))

    def conj(self):
        return self

    def argmax(self, axis=None, **k):
        xs = list(plain(self).ravel())
        best = 0
        for i in range(1, len(xs)):
            if xs[i] > xs[best]:
                best = i
        return best

    def argmin(self, axis=None, **k):
        xs = list(plain(self).ravel())
        best = 0
        for i in range(1, len(xs)):
            if xs[i] < xs[best]:
                best = i
        return best

    def astype(self, dtype, *a, copy=True, **k):
        dt = np.dtype(dtype)
        if dt == object or not any(is_sym(x) for x in self.view(np.ndarray).ravel()):
            if dt == object:
                return self.copy()
            return np.ndarray.astype(self.view(np.ndarray), dt)
        if np.issubdtype(dt, np.floating):
            return wrap(el(lambda x: x._num() * 1.0 if isinstance(x, SymBool) else x)(self))
        if dt == np.bool_:
            return wrap(el(lambda x: x if isinstance(x, SymBool) else mkbool(zbool(x)))(self))
        if np.issubdtype(dt, np.integer):
            return wrap(el(lambda x: x._num() if isinstance(x, SymBool) else
                           (x.__trunc__() if is_sym(x) else int(x)))(self))
        raise EngineError(f"astype {dt}")

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def sort(self, axis=-1, **k):
        v = self.view(np.ndarray)
        if v.ndim != 1:
            raise EngineError("sort of a matrix")
        v[:] = _vec(sort_net(list(v)))

    # indexing with symbolic masks
    def _mask(self, key):
        if isinstance(key, SymArray) and all_boollike(key):
            m = key.view(np.ndarray)
            return np.array([bool(x) for x in m.ravel()], dtype=bool).reshape(m.shape)
        return key

    def __getitem__(self, key):
        if isinstance(key, tuple):
            key = tuple(self._mask(k) for k in key)
        else:
            key = self._mask(key)
        r = np.ndarray.__getitem__(self.view(np.ndarray), key)
        if isinstance(r, np.ndarray):
            return r.view(SymArray)
        return r

    def __setitem__(self, key, value):
        if isinstance(key, SymArray) and has_symbool(key) and key.shape == self.shape:
            v = np.asarray(plain(value))
            t = self.view(np.ndarray)
            if v.ndim == 0 or v.shape == ():
                for i in np.ndindex(t.shape):
                    t[i] = site(key.view(np.ndarray)[i], v.item(), t[i])
                return
            key = self._mask(key)
        elif isinstance(key, tuple):
            key = tuple(self._mask(k) for k in key)
        else:
            key = self._mask(key)
        if isinstance(value, SymArray):
            value = value.view(np.ndarray)
        t = self.view(np.ndarray)
        if is_sym(value):
            b = np.empty((), dtype=object)
            b[()] = value
            sub = t[key]
            if isinstance(sub, np.ndarray):
                t[key] = np.broadcast_to(b, sub.shape)
            else:
                t[key] = value
            return
        if isinstance(value, (list, tuple)) and any_sym(value):
            value = from_nested(value)
        if isinstance(value, np.ndarray) and value.dtype != object:
            value = value.astype(object)
        t[key] = value

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(self.view(np.ndarray).ravel()[0])

    def __format__(self, spec):
        return "<symarray>"

    def __repr__(self):
        return f"SymArray(shape={self.shape})"
    __str__ = __repr__

    def __reduce__(self):
        raise EngineError("pickling a symbolic array")


def f_clip(a, lo=None, hi=None, out=None, **k):
    if lo is None:
        lo = k.get("min")
    if hi is None:
        hi = k.get("max")
    r = plain(a)
    if lo is not None:
        r = el(f_maximum)(r, lo)
    if hi is not None:
        r = el(f_minimum)(r, hi)
    if out is not None:
        return store(out, r)
    return wrap(r)


HANDLERS = {}


def handles(*fs):
    def d(g):
        for f in fs:
            HANDLERS[f] = g
        return g
    return d


@handles(np.clip)
def _(a, a_min=None, a_max=None, out=None, **k):
    return f_clip(a, a_min, a_max, out, **k)


@handles(np.where)
def _(c, x=None, y=None):
    if x is None:
        m = plain(c)
        b = np.array([bool(v) for v in m.ravel()], dtype=bool).reshape(m.shape)
        return np.where(b)
    return wrap(el(site)(c, x, y))


@handles(np.sum)
def _(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
    return wrap(reduce("add", plain(a), axis, bool(keepdims) if keepdims is not np._NoValue else False, None, where if where is not np._NoValue else None))


@handles(np.prod)
def _(a, axis=None, **k):
    return wrap(reduce("multiply", plain(a), axis))


@handles(np.max, np.amax)
def _(a, axis=None, out=None, keepdims=False, **k):
    return wrap(reduce("maximum", plain(a), axis, keepdims is True))


@handles(np.min, np.amin)
def _(a, axis=None, out=None, keepdims=False, **k):
    return wrap(reduce("minimum", plain(a), axis, keepdims is True))


@handles(np.any)
def _(a, axis=None, **k):
    return wrap(reduce("logical_or", plain(a), axis))


@handles(np.all)
def _(a, axis=None, **k):
    return wrap(reduce("logical_and", plain(a), axis))


@handles(np.mean)
def _(a, axis=None, **k):
    return wrapk(plain(a)).mean(axis)


@handles(np.average)
def _(a, axis=None, weights=None, **k):
    if weights is None:
        return wrapk(plain(a)).mean(axis)
    w = plain(weights)
    return wrap(el(UF["divide"])(reduce("add", el(UF["multiply"])(a, w), axis), reduce("add", w, axis)))


@handles(np.std)
def _(a, axis=None, ddof=0, **k):
    return wrapk(plain(a)).std(axis, ddof)


@handles(np.var)
def _(a, axis=None, ddof=0, **k):
    return wrapk(plain(a)).var(axis, ddof)


@handles(np.ptp)
def _(a, axis=None, **k):
    return wrapk(plain(a)).ptp(axis)


@handles(np.median)
def _(a, **k):
    return percentile(a, 50.0)


@handles(np.percentile)
def _(a, q, axis=None, **k):
    return percentile(a, q, axis)


@handles(np.quantile)
def _(a, q, axis=None, **k):
    return percentile(a, q * 100.0, axis)


@handles(np.empty_like, np.zeros_like)
def _(a, dtype=None, order="K", subok=True, shape=None, **k):
    sh = plain(a).shape if shape is None else shape
    if dtype is not None and np.issubdtype(np.dtype(dtype), np.integer) or dtype in (bool, np.bool_):
        return np.zeros(sh, dtype=dtype)
    r = np.empty(sh, dtype=object)
    r[...] = 0.0
    return r.view(SymArray)


@handles(np.ones_like)
def _(a, dtype=None, **k):
    r = np.empty(plain(a).shape, dtype=object)
    r[...] = 1.0
    return r.view(SymArray)


@handles(np.full_like)
def _(a, v, dtype=None, **k):
    r = np.empty(plain(a).shape, dtype=object)
    r.view(SymArray)[...] = v
    return r.view(SymArray)


@handles(np.copyto)
def _(dst, src, casting=None, where=True):
    if where is True:
        if isinstance(dst, np.ndarray) and dst.dtype != object:
            return store(dst, plain(src))
        dst.view(np.ndarray)[...] = plain(src)
        return None
    store(dst, np.broadcast_to(plain(src), dst.shape), where)


@handles(np.dot, np.matmul)
def _(a, b, out=None):
    r = matmul(a, b) if plain(a).ndim and plain(b).ndim else el(UF["multiply"])(a, b)
    if out is not None:
        return store(out, r)
    return wrap(r)


@handles(np.vdot, np.inner)
def _(a, b):
    return dotv(plain(a).ravel(), plain(b).ravel())


@handles(np.outer)
def _(a, b, out=None):
    return wrap(el(UF["multiply"])(plain(a).ravel()[:, None], plain(b).ravel()[None, :]))


@handles(np.cross)
def _(a, b, **k):
    a, b = plain(a), plain(b)
    axis = k.get("axis", -1)
    a0, a1, a2 = [np.take(a, i, axis=axis) for i in range(3)]
    b0, b1, b2 = [np.take(b, i, axis=axis) for i in range(3)]
    mul, sub = el(UF["multiply"]), el(UF["subtract"])
    c = [sub(mul(a1, b2), mul(a2, b1)), sub(mul(a2, b0), mul(a0, b2)), sub(mul(a0, b1), mul(a1, b0))]
    return wrap(np.stack([np.asarray(x, dtype=object) for x in c], axis=axis))


@handles(np.einsum)
def _(spec, *ops, **k):
    return wrap(einsum(spec, *[plain(o) for o in ops]))


def einsum(spec, *ops):
    spec = spec.replace(" ", "")
    if "->" in spec:
        lhs, out = spec.split("->")
    else:
        lhs = spec
        out = None
    ins = lhs.split(",")
    # expand the ellipsis with capital letters
    nell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            nell = max(nell, o.ndim - len(s.replace("...", "")))
    ell = "ABCDEFGH"[:nell]
    new = []
    for s, o in zip(ins, ops):
        if "..." in s:
            m = o.ndim - len(s.replace("...", ""))
            s = s.replace("...", ell[nell - m:])
        new.append(s)
    ins = new
    if out is None:
        letters = "".join(ins)
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1 and c not in ell))
        out = ell + out
    else:
        out = out.replace("...", ell)
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            if dims.get(c, 1) == 1:
                dims[c] = n
    summed = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    for oi in np.ndindex(res.shape):
        env = dict(zip(out, oi))
        acc = 0.0
        for si in np.ndindex(tuple(dims[c] for c in summed)):
            env.update(zip(summed, si))
            p = None
            zero = False
            for s, o in zip(ins, ops):
                v = o[tuple(env[c] if o.shape[i] != 1 else 0 for i, c in enumerate(s))]
                if not is_sym(v) and v == 0:
                    zero = True
                    break
                p = v if p is None else p * v
            if not zero:
                acc = acc + p
        res[oi] = acc
    return res


@handles(np.linalg.norm)
def _(x, ord=None, axis=None, keepdims=False):
    a = plain(x)
    if axis is not None and a.ndim > 1:
        if ord not in (None, 2):
            raise EngineError("norm ord with axis")
        return wrap(el(UF["sqrt"])(reduce("add", el(f_square)(a), axis, keepdims)))
    v = a.ravel()
    if ord in (np.inf, float("inf")):
        return reduce("maximum", el(f_abs)(v), 0).item()
    if ord == 1:
        return reduce("add", el(f_abs)(v), 0).item()
    if ord in (None, 2):
        return core.fn_sqrt(reduce("add", el(f_square)(v), 0).item())
    raise EngineError("norm ord")


@handles(np.linalg.det)
def _(a):
    a = plain(a)
    n = a.shape[-1]
    if a.ndim > 2:
        r = np.empty(a.shape[:-2], dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = HANDLERS[np.linalg.det](a[i])
        return wrap(r)
    if n == 1:
        return a[0, 0]
    s = 0.0
    for j in range(n):
        m = np.delete(np.delete(a, 0, 0), j, 1)
        s = s + (1 if j % 2 == 0 else -1) * a[0, j] * HANDLERS[np.linalg.det](m)
    return s


def isclose1(a, b, rtol=1e-5, atol=1e-8):
    if not is_sym(a) and not is_sym(b):
        return bool(np.isclose(float(a), float(b), rtol=rtol, atol=atol))
    return abs(a - b) <= atol + rtol * abs(b)


@handles(np.isclose)
def _(a, b, rtol=1e-5, atol=1e-8, **k):
    return wrap(el(lambda x, y: isclose1(x, y, rtol, atol))(a, b))


@handles(np.allclose)
def _(a, b, rtol=1e-5, atol=1e-8, **k):
    r = el(lambda x, y: isclose1(x, y, rtol, atol))(a, b)
    v = wrap(reduce("logical_and", r, None))
    return bool(v)


@handles(np.array_equal)
def _(a, b, **k):
    a, b = plain(a), plain(b)
    if a.shape != b.shape:
        return False
    r = wrap(reduce("logical_and", el(UF["equal"])(a, b), None))
    return bool(r)


@handles(np.sort)
def _(a, axis=-1, **k):
    return wrap(_vec(sort_net(list(plain(a).ravel()))))


@handles(np.argmax)
def _(a, axis=None, **k):
    return wrapk(plain(a)).argmax()


@handles(np.argmin)
def _(a, axis=None, **k):
    return wrapk(plain(a)).argmin()


@handles(np.argsort)
def _(a, axis=-1, **k):
    xs = list(plain(a).ravel())
    idx = []
    for i, x in enumerate(xs):
        j = 0
        while j < len(idx) and not bool(x < xs[idx[j]]):
            j += 1
        idx.insert(j, i)
    return np.array(idx, dtype=int)


@handles(np.cumsum)
def _(a, axis=None, **k):
    a = plain(a)
    return array_ufunc(np.add, "accumulate", (a if axis is not None else a.ravel(),), {"axis": axis or 0})


@handles(np.diff)
def _(a, n=1, axis=-1, **k):
    a = plain(a)
    for _i in range(n):
        a = el(UF["subtract"])(np.take(a, range(1, a.shape[axis]), axis=axis),
                               np.take(a, range(0, a.shape[axis] - 1), axis=axis))
    return wrap(a)


@handles(np.nonzero, np.flatnonzero)
def _(a):
    m = plain(a)
    b = np.array([bool(v) for v in m.ravel()], dtype=bool).reshape(m.shape)
    return np.nonzero(b)


HANDLERS[np.flatnonzero] = lambda a: HANDLERS[np.nonzero](plain(a).ravel())[0]


@handles(np.count_nonzero)
def _(a, axis=None, **k):
    return wrap(reduce("add", el(lambda x: SymBool(zbool(x))._num() if is_sym(x) else int(bool(x)))(a), axis))


@handles(np.nan_to_num)
def _(x, copy=True, nan=0.0, posinf=None, neginf=None):
    return wrap(el(lambda v: site(v.nan, nan, Sym(v.e)) if isinstance(v, Sym) and v.nan is not None else v)(x))


@handles(np.isscalar)
def _(x):
    return True


@handles(np.interp)
def _(x, xp, fp, **k):
    xp, fp = list(plain(xp)), list(plain(fp))

    def one(v):
        r = fp[0]
        for i in range(len(xp) - 1):
            seg = fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
            r = site(core._raw_lt(v, xp[i]), r, seg)
        return site(core._raw_lt(v, xp[-1]), r, fp[-1])
    return wrap(el(one)(x))


@handles(np.heaviside)
def _(x, h):
    return wrap(el(lambda v, w: site(core._raw_lt(v, 0), 0.0, site(core._raw_lt(0, v), 1.0, w)))(x, h))


@handles(np.array2string, np.array_repr, np.array_str)
def _(*a, **k):
    return "<symarray>"


@handles(np.savez, np.savez_compressed, np.save)
def _(*a, **k):
    raise EngineError("saving symbolic arrays needs the io stub")


def strip(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        if any_sym(x) and not any(isinstance(y, (list, tuple, np.ndarray)) for y in x):
            return type(x)(x)
        return type(x)(strip(y) for y in x)
    if is_sym(x):
        return plain(x)
    return x


def rewrap(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return wrap(x)
    if isinstance(x, list):
        return [rewrap(y) for y in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(rewrap(y) for y in x)
    return x


def array_function(func, args, kwargs):
    h = HANDLERS.get(func)
    if h is not None:
        return h(*args, **kwargs)
    # structural functions (reshape, stack, tile, repeat, ...) work on objects as they are
    name = getattr(func, "__name__", "?")
    if name in STRUCT:
        return rewrap(func(*[strip(a) for a in args], **{k: strip(v) for k, v in kwargs.items()}))
    raise EngineError(f"numpy function {name} is not modelled")


STRUCT = {
    "reshape", "ravel", "transpose", "moveaxis", "swapaxes", "stack", "column_stack", "vstack", "hstack",
    "concatenate", "tile", "repeat", "broadcast_to", "broadcast_arrays", "expand_dims", "squeeze", "take",
    "atleast_1d", "atleast_2d", "atleast_3d", "copy", "append", "delete", "insert", "flip", "roll", "split",
    "array_split", "diag", "diagonal", "trace", "compress", "put", "place", "shape", "ndim", "size", "tril",
    "triu", "block", "dstack", "fliplr", "flipud", "take_along_axis", "asarray", "rollaxis", "diagflat",
    "result_type", "can_cast", "shares_memory", "may_share_memory", "iscomplexobj", "real", "ix_", "tensordot",
    "kron", "fill_diagonal", "put_along_axis",
}
