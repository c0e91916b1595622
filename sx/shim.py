"""Stand-ins patched into the globals of the modules under test while they are executed symbolically."""
from __future__ import annotations

import builtins
import contextlib
import functools
import types

import numpy as np

from . import arr, core
from .arr import SymArray, any_sym, from_nested, plain, wrapk
from .core import Dual, Sym, SymBool, is_sym


def _objfill(shape, v):
    r = np.empty(shape, dtype=object)
    r.view(SymArray)[...] = v
    return r.view(SymArray)


def _isfloat(dtype):
    if dtype is None:
        return True
    if dtype is FloatShim:
        return True
    try:
        dt = np.dtype(dtype)
    except TypeError:
        return False
    return np.issubdtype(dt, np.floating) or dt == object


class NpShim(types.ModuleType):
    """numpy whose float constructors return object arrays able to hold symbolic values."""

    def __init__(self, force_object=True):
        super().__init__("numpy")
        self.__dict__["_fo"] = force_object

    def __getattr__(self, k):
        return getattr(np, k)

    def zeros(self, shape, dtype=None, order="C", **k):
        return _objfill(shape, 0.0) if _isfloat(dtype) else np.zeros(shape, dtype=_dt(dtype), **k)

    def ones(self, shape, dtype=None, order="C", **k):
        return _objfill(shape, 1.0) if _isfloat(dtype) else np.ones(shape, dtype=_dt(dtype), **k)

    def empty(self, shape, dtype=None, order="C", **k):
        return _objfill(shape, 0.0) if _isfloat(dtype) else np.empty(shape, dtype=_dt(dtype), **k)

    def full(self, shape, fill_value, dtype=None, order="C", **k):
        if is_sym(fill_value) or (isinstance(fill_value, (float, np.floating)) and _isfloat(dtype)):
            return _objfill(shape, fill_value)
        return np.full(shape, fill_value, dtype=_dt(dtype), **k)

    def zeros_like(self, a, dtype=None, **k):
        if isinstance(a, SymArray) or _isfloat(dtype) and (dtype is not None or _floaty(a)):
            return _objfill(k.get("shape") or np.shape(a), 0.0)
        return np.zeros_like(a, dtype=_dt(dtype), **k)

    def empty_like(self, a, dtype=None, **k):
        return self.zeros_like(a, dtype, **k)

    def ones_like(self, a, dtype=None, **k):
        r = self.zeros_like(a, dtype, **k)
        r[...] = 1.0 if isinstance(r, SymArray) else 1
        return r

    def full_like(self, a, v, dtype=None, **k):
        if isinstance(a, SymArray) or is_sym(v) or _floaty(a):
            return _objfill(np.shape(a), v)
        return np.full_like(a, v, dtype=_dt(dtype), **k)

    def array(self, a, dtype=None, copy=True, **k):
        return self._arr(a, dtype, True, k, np.array)

    def asarray(self, a, dtype=None, **k):
        return self._arr(a, dtype, False, k, np.asarray)

    def ascontiguousarray(self, a, dtype=None, **k):
        return self._arr(a, dtype, False, k, np.ascontiguousarray)

    asanyarray = asarray

    def _arr(self, a, dtype, copy, k, f):
        if isinstance(a, SymArray):
            r = a if dtype is None or _isfloat(dtype) else a.astype(_dt(dtype))
            return r.copy() if copy and r is a else r
        if is_sym(a) or any_sym(a):
            r = wrapk(from_nested(a) if not is_sym(a) else plain(a))
            return r if dtype is None or _isfloat(dtype) else r.astype(_dt(dtype))
        if dtype is FloatShim:
            dtype = float
        if isinstance(a, (list, tuple)) and _isfloat(dtype) and dtype is not None:
            return f(a, dtype=float, **k).astype(object).view(SymArray)
        return f(a, dtype=_dt(dtype), **k)

    def isscalar(self, x):
        return True if is_sym(x) else np.isscalar(x)

    def linspace(self, a, b, num=50, endpoint=True, **k):
        if is_sym(a) or is_sym(b):
            n = num - 1 if endpoint else num
            return wrapk(from_nested([a + (b - a) * (i / n) if n else a for i in range(num)]))
        return np.linspace(a, b, num, endpoint=endpoint, **k)

    def arange(self, *a, **k):
        if any(is_sym(x) for x in a):
            a = [core.ctx().enumerate_int(x) if isinstance(x, Sym) else x for x in a]
        return np.arange(*a, **k)

    def isclose(self, a, b, **k):
        if any_sym(a) or any_sym(b):
            return arr.HANDLERS[np.isclose](a, b, **k)
        return np.isclose(a, b, **k)


def _floaty(a):
    return np.issubdtype(np.asarray(a).dtype, np.floating) if not any_sym(a) else True


def _dt(d):
    if d is FloatShim:
        return float
    if d is IntShim:
        return int
    return d


NP = NpShim()


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or isinstance(x, (Sym, Dual)) and not (isinstance(x, Sym) and x.is_int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __or__(cls, o):
        return builtins.float | o

    def __ror__(cls, o):
        return o | builtins.float

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class FloatShim(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
            x = x.ravel()[0]
        if isinstance(x, SymBool):
            x = x._num()
        if isinstance(x, Sym):
            return Sym(z(x), x.nan) if x.is_int else x
        if isinstance(x, Dual):
            return x
        return builtins.float(x)


def z(x):
    return core.real(x.e)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or isinstance(x, Sym) and x.is_int

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __or__(cls, o):
        return builtins.int | o

    def __ror__(cls, o):
        return o | builtins.int

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class IntShim(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymBool):
            return x._num()
        if isinstance(x, Sym):
            if x.nan is not None and core.ctx().decide(x.nan):
                raise ValueError("cannot convert float NaN to integer")
            return Sym(x.e).__trunc__()
        return builtins.int(x, *a)


def max_shim(*a, **k):
    if len(a) == 1:
        a = tuple(a[0])
        if not a and "default" in k:
            return k["default"]
    key = k.get("key")
    if key is None and any(isinstance(x, (Sym, Dual)) for x in a) and all(is_sym(x) or core.is_num(x) for x in a):
        r = a[0]
        for x in a[1:]:
            # python's max keeps the first argument unless the next compares greater
            c = x > r
            r = core.site(c, x, r)
        return r
    return builtins.max(a, **k)


def min_shim(*a, **k):
    if len(a) == 1:
        a = tuple(a[0])
        if not a and "default" in k:
            return k["default"]
    key = k.get("key")
    if key is None and any(isinstance(x, (Sym, Dual)) for x in a) and all(is_sym(x) or core.is_num(x) for x in a):
        r = a[0]
        for x in a[1:]:
            c = x < r
            r = core.site(c, x, r)
        return r
    return builtins.min(a, **k)


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, k):
        import math
        return getattr(math, k)


def _mk_math():
    import math
    m = MathShim()

    def two(sym, con):
        def f(x, *a):
            return sym(x, *a) if is_sym(x) or any(is_sym(t) for t in a) else con(x, *a)
        return f
    m.__dict__.update(
        tanh=two(core.fn_tanh, math.tanh), exp=two(core.fn_exp, math.exp), log=two(core.fn_log, math.log),
        sqrt=two(core.fn_sqrt, math.sqrt), cosh=two(core.fn_cosh, math.cosh), sinh=two(core.fn_sinh, math.sinh),
        floor=two(lambda x: x.__floor__(), math.floor), ceil=two(lambda x: x.__ceil__(), math.ceil),
        trunc=two(lambda x: x.__trunc__(), math.trunc),
        fabs=two(abs, math.fabs), pow=two(core.spow, math.pow),
        isfinite=two(arr.f_isfinite, math.isfinite), isnan=two(arr.f_isnan, math.isnan),
        isinf=two(arr.f_isinf, math.isinf),
        isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
            abs(a - b) <= max_shim(rel_tol * max_shim(abs(a), abs(b)), abs_tol)),
    )
    return m


MATH = _mk_math()

NP_FUNCS = {"zeros", "ones", "empty", "full", "zeros_like", "empty_like", "ones_like", "full_like",
            "array", "asarray", "linspace", "arange", "isclose"}


@contextlib.contextmanager
def patched(modules, extra=None, np_shim=True, builtin_shims=True):
    """Patch the module globals; restores them afterwards.  extra: {module: {name: value}}."""
    import math
    saved = []

    def setg(m, k, v):
        d = m.__dict__
        saved.append((d, k, d.get(k, _MISSING)))
        d[k] = v
    try:
        for m in modules:
            d = m.__dict__
            if np_shim:
                for k in list(d):
                    if d[k] is np:
                        setg(m, k, NP)
                    elif d[k] is math:
                        setg(m, k, MATH)
                    elif k in NP_FUNCS and d[k] is getattr(np, k, None):
                        setg(m, k, getattr(NP, k))
                    elif getattr(d[k], "__module__", None) == "math" and k in MATH.__dict__ \
                            and d[k] is getattr(math, k, None):
                        setg(m, k, MATH.__dict__[k])
            if builtin_shims:
                for k, v in (("float", FloatShim), ("int", IntShim), ("max", max_shim), ("min", min_shim)):
                    if k not in d:
                        setg(m, k, v)
        for m, kv in (extra or {}).items():
            for k, v in kv.items():
                setg(m, k, v)
        yield
    finally:
        for d, k, v in reversed(saved):
            if v is _MISSING:
                d.pop(k, None)
            else:
                d[k] = v


_MISSING = object()
