"""Symbolic scalars, path exploration and solver queries.

Nothing in this file knows about scikit-topt.
"""
from __future__ import annotations

import math
import os
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)          # at the end: only z3/cvc5 come from there

import numpy as np                 # noqa: E402
import z3                          # noqa: E402


class PathAbort(BaseException):
    """The current path is infeasible or was cut; not an error."""


class EngineError(Exception):
    """The engine met something it cannot represent."""


# --------------------------------------------------------------------------
# context of the running path
# --------------------------------------------------------------------------
class _Cur:
    ctx = None


CUR = _Cur()


def ctx():
    c = CUR.ctx
    if c is None:
        raise EngineError("no symbolic context is active")
    return c


def is_sym(x):
    return isinstance(x, (Sym, SymBool, Dual))


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    f = float(x)
    if math.isnan(f) or math.isinf(f):
        raise EngineError(f"non-finite constant {f}")
    return Fraction(f)


def rv(x):
    q = frac(x)
    return z3.RealVal(q) if q.denominator == 1 else z3.Q(q.numerator, q.denominator)


def is_num(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, bool, np.bool_))


def nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(float(x))


def real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


def zreal(x):
    """z3 Real term of a number, a Sym or a z3 expr."""
    if isinstance(x, Sym):
        return real(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, z3.ExprRef):
        return real(x)
    return rv(x)


def zint_or_real(x):
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, (bool, int, np.integer)) and not isinstance(x, np.bool_):
        return z3.IntVal(int(x))
    return rv(x)


def nan_or(*ns):
    ns = [n for n in ns if n is not None]
    if not ns:
        return None
    if len(ns) == 1:
        return ns[0]
    uniq = {n.get_id(): n for n in ns}
    vs = list(uniq.values())
    return vs[0] if len(vs) == 1 else z3.Or(*vs)


def nan_of(x):
    return x.nan if isinstance(x, Sym) else None


def zbool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, Sym):
        return x.e != 0
    if is_num(x):
        return z3.BoolVal(bool(x))
    raise EngineError(f"not a truth value: {type(x)}")


def const_val(e):
    """Fraction of a constant z3 arithmetic term, else None."""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __and__(self, o):
        o = _scalar(o)
        if o is None:
            return NotImplemented
        return mkbool(z3.And(self.e, zbool(o)))
    __rand__ = __and__

    def __or__(self, o):
        o = _scalar(o)
        if o is None:
            return NotImplemented
        return mkbool(z3.Or(self.e, zbool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        o = _scalar(o)
        if o is None:
            return NotImplemented
        return mkbool(z3.Xor(self.e, zbool(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return ~self

    def _num(self):
        return Sym(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return mkbool(self.e == zbool(o))
        return self._num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (~r) if isinstance(r, SymBool) else (not r)

    def __hash__(self):
        return hash(("SymBool", self.e.get_id()))

    def __repr__(self):
        return f"SymBool({str(self.e)[:60]})"

    def __array_ufunc__(self, ufunc, method, *a, **k):
        from . import arr
        return arr.array_ufunc(ufunc, method, a, k)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, args, kwargs)

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def item(self):
        return self


def mkbool(e):
    s = z3.simplify(e) if not (z3.is_true(e) or z3.is_false(e)) else e
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SymBool(e)


def _scalar(o):
    """Normalise an operand to a Sym/SymBool/Dual/Python number; None if it is not a scalar."""
    if isinstance(o, (Sym, SymBool, Dual)):
        return o
    if isinstance(o, np.ndarray):
        if o.ndim == 0:
            return _scalar(o.item())
        return None
    if isinstance(o, np.generic):
        return o.item()
    if is_num(o):
        return o
    return None


def mk(e, nan=None):
    """Sym, or a Python number when e is a constant and defined."""
    if nan is None:
        c = const_val(e)
        if c is not None:
            if z3.is_int(e):
                return int(c)
            try:
                f = float(c)
                return f if Fraction(f) == c else c
            except OverflowError:
                return c
    return Sym(e, nan)


class Sym:
    """A symbolic real or integer. `nan` is a z3 Bool under which the value is
    undefined (NaN or infinite in floating point), or None."""
    __slots__ = ("e", "nan")
    __array_priority__ = 1000

    def __init__(self, e, nan=None):
        self.e = e
        self.nan = nan

    # numpy-ish scalar surface
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, **k):
        if np.issubdtype(np.dtype(dt), np.integer):
            return self.__trunc__()
        return self

    def sum(self, *a, **k):
        return self
    mean = max = min = sum

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = smax(r, lo)
        if hi is not None:
            r = smin(r, hi)
        return r

    @property
    def is_int(self):
        return z3.is_int(self.e)

    def __array_ufunc__(self, ufunc, method, *a, **k):
        from . import arr
        return arr.array_ufunc(ufunc, method, a, k)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, args, kwargs)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __float__(self):
        raise EngineError("symbolic value forced to a float")

    def __int__(self):
        return ctx().enumerate_int(self.__trunc__())

    def __index__(self):
        if not self.is_int:
            raise TypeError("symbolic real used as index")
        return ctx().enumerate_int(self)

    def __bool__(self):
        return bool(mkbool(self.e != 0))

    def __hash__(self):
        return hash(("Sym", self.e.get_id()))

    def __repr__(self):
        return f"Sym({str(self.e)[:60]})"

    def __format__(self, spec):
        return "<sym>"

    # arithmetic
    def _bin(self, o, f, refl=False):
        o = _scalar(o)
        if o is None or isinstance(o, Dual):
            return NotImplemented
        if isinstance(o, SymBool):
            o = o._num()
        if nonfinite(o):
            return Sym(z3.RealVal(0), z3.BoolVal(True))
        return f(o, self) if refl else f(self, o)

    def __add__(self, o):
        return self._bin(o, _add)

    def __radd__(self, o):
        return self._bin(o, _add, True)

    def __sub__(self, o):
        return self._bin(o, _sub)

    def __rsub__(self, o):
        return self._bin(o, _sub, True)

    def __mul__(self, o):
        return self._bin(o, _mul)

    def __rmul__(self, o):
        return self._bin(o, _mul, True)

    def __truediv__(self, o):
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        return self._bin(o, _div, True)

    def __floordiv__(self, o):
        return self._bin(o, _floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, _floordiv, True)

    def __mod__(self, o):
        return self._bin(o, _mod)

    def __rmod__(self, o):
        return self._bin(o, _mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o, m=None):
        return self._bin(o, spow)

    def __rpow__(self, o):
        return self._bin(o, spow, True)

    def __neg__(self):
        return mk(-self.e, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.e >= 0, self.e, -self.e), self.nan)

    def conjugate(self):
        return self

    def __trunc__(self):
        if self.is_int:
            return self
        fl = z3.ToInt(self.e)
        neg = z3.ToInt(-self.e)
        return mk(z3.If(self.e >= 0, fl, -neg), self.nan)

    def __floor__(self):
        return self if self.is_int else mk(z3.ToInt(self.e), self.nan)

    def __ceil__(self):
        return self if self.is_int else mk(-z3.ToInt(-self.e), self.nan)

    def __round__(self, nd=None):
        if nd:
            raise EngineError("round to digits")
        if self.is_int:
            return self
        # round half to even
        fl = z3.ToInt(self.e)
        d = self.e - z3.ToReal(fl)
        half = z3.Q(1, 2)
        r = z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
        return mk(r, self.nan)

    # numpy object-dtype method names
    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def rint(self):
        return self.__round__()

    def trunc(self):
        return self.__trunc__()

    def tanh(self):
        return fn_tanh(self)

    def cosh(self):
        return fn_cosh(self)

    def sinh(self):
        return fn_sinh(self)

    def exp(self):
        return fn_exp(self)

    def log(self):
        return fn_log(self)

    def sqrt(self):
        return fn_sqrt(self)

    # comparisons
    def _cmp(self, o, op):
        o = _scalar(o)
        if o is None:
            return NotImplemented
        if isinstance(o, Dual):
            o = o.v
        if isinstance(o, SymBool):
            o = o._num()
        if nonfinite(o):
            f = float(o)
            if math.isnan(f):
                return op == "!="
            big = f > 0
            return {"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}[op]
        if not is_sym(o) and not is_num(o):
            return NotImplemented
        a, b = _coerce(self, o)
        e = {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
             ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()
        n = nan_or(self.nan, nan_of(o))
        if n is not None:
            e = z3.Or(n, e) if op == "!=" else z3.And(z3.Not(n), e)
        return mkbool(e)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, "==")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, "!=")


def _coerce(a, b):
    ea, eb = zint_or_real(a), zint_or_real(b)
    if z3.is_int(ea) != z3.is_int(eb):
        ea, eb = real(ea), real(eb)
    return ea, eb


def _isc(x, v):
    return not is_sym(x) and x == v


def _add(a, b):
    if _isc(a, 0) and isinstance(b, Sym):
        return b if not isinstance(a, (float, Fraction)) or not b.is_int else Sym(real(b.e), b.nan)
    if _isc(b, 0) and isinstance(a, Sym):
        return a if not isinstance(b, (float, Fraction)) or not a.is_int else Sym(real(a.e), a.nan)
    x, y = _coerce(a, b)
    return mk(x + y, nan_or(nan_of(a), nan_of(b)))


def _sub(a, b):
    if _isc(b, 0) and isinstance(a, Sym):
        return a
    x, y = _coerce(a, b)
    if x.eq(y):
        n = nan_or(nan_of(a), nan_of(b))
        return 0 if n is None else Sym(z3.RealVal(0), n)
    return mk(x - y, nan_or(nan_of(a), nan_of(b)))


def _mul(a, b):
    n = nan_or(nan_of(a), nan_of(b))
    if n is None and (_isc(a, 0) or _isc(b, 0)):
        return 0.0 if not (isinstance(a, int) or isinstance(b, int)) else 0
    if _isc(a, 1):
        return b if not isinstance(a, (float, Fraction)) else Sym(real(b.e), b.nan)
    if _isc(b, 1):
        return a if not isinstance(b, (float, Fraction)) else Sym(real(a.e), a.nan)
    x, y = _coerce(a, b)
    return mk(_tmul(x, y), n)


def _isdiv(t):
    return z3.is_app_of(t, z3.Z3_OP_DIV)


def _tmul(x, y):
    """x*y with quotients kept in the numerator/denominator form and sech^2 folded."""
    if x.eq(y):
        c = CUR.ctx
        q = c.sech_sq.get(x.get_id()) if c is not None else None
        if q is not None:
            return q
    if _isdiv(x) or _isdiv(y):
        c = CUR.ctx
        if c is not None and c.sech_sq:
            xn, xd = x.children() if _isdiv(x) else (x, z3.RealVal(1))
            yn, yd = y.children() if _isdiv(y) else (real(y), z3.RealVal(1))
            return _tdiv(_tmul1(xn, yn), _tmul1(xd, yd))
    return x * y


def _tmul1(x, y):
    if const_val(x) == 1:
        return y
    if const_val(y) == 1:
        return x
    return _tmul(x, y)


def _tdiv(x, y):
    c = CUR.ctx
    if c is not None and c.sech_sq and (_isdiv(x) or _isdiv(y)):
        xn, xd = x.children() if _isdiv(x) else (x, z3.RealVal(1))
        yn, yd = y.children() if _isdiv(y) else (y, z3.RealVal(1))
        return _tdiv(_tmul1(xn, yd), _tmul1(xd, yn))
    if const_val(y) == 1:
        return x
    return x / y


def _div(a, b):
    n = nan_or(nan_of(a), nan_of(b))
    if not is_sym(b):
        if b == 0:
            return Sym(z3.RealVal(0), z3.BoolVal(True))
        if b == 1:
            return Sym(real(a.e), a.nan)
        return mk(zreal(a) * rv(1 / frac(b)), n)
    y = zreal(b)
    if not is_sym(a) and a == 0 and n is None:
        c = ctx()
        if c.known_nonzero(y):
            return 0.0
    c = ctx()
    if not c.known_nonzero(y):
        n = nan_or(n, y == 0)
    x = zreal(a)
    if x.eq(y) and n is None:
        return 1.0
    return mk(_tdiv(x, y), n)


def _floordiv(a, b):
    n = nan_or(nan_of(a), nan_of(b))
    x, y = _coerce(a, b)
    if z3.is_int(x):
        yc = const_val(y)
        if yc is not None:
            if yc == 0:
                raise ZeroDivisionError("integer modulo by zero")
            if yc > 0:
                return mk(x / y, n)           # z3 int div floors for positive divisors
            return mk((-x) / (-y), n)
        if ctx().decide(y == 0):
            raise ZeroDivisionError("integer division by zero")
        return mk(z3.If(y > 0, x / y, (-x) / (-y)), n)
    yc = const_val(y)
    if yc is not None and yc == 0:
        raise ZeroDivisionError("float floor division by zero")
    if yc is None and not ctx().known_nonzero(y):
        if ctx().decide(y == 0):
            raise ZeroDivisionError("float floor division by zero")
    # Python's float // is the floor of the float quotient's exact value; result is a float
    return mk(z3.ToReal(z3.ToInt(x / y)), n)


def _mod(a, b):
    q = _floordiv(a, b)
    return a - b * q


# --------------------------------------------------------------------------
# ite / min / max
# --------------------------------------------------------------------------
def site(c, a, b):
    """if c then a else b, without forking."""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(c, z3.BoolRef):
        ce = c
    elif isinstance(c, SymBool):
        ce = c.e
    else:
        ce = zbool(c)
    if z3.is_true(ce):
        return a
    if z3.is_false(ce):
        return b
    if a is b:
        return a
    if isinstance(a, Dual) or isinstance(b, Dual):
        a, b = Dual.of(a), Dual.of(b)
        keys = set(a.d) | set(b.d)
        return Dual(site(ce, a.v, b.v),
                    {k: site(ce, a.d.get(k, 0.0), b.d.get(k, 0.0)) for k in keys})
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return mkbool(z3.If(ce, zbool(a), zbool(b)))
    if isinstance(a, SymBool):
        a = a._num()
    if isinstance(b, SymBool):
        b = b._num()
    if not is_sym(a) and not is_sym(b) and is_num(a) and is_num(b):
        if not nonfinite(a) and not nonfinite(b) and a == b and type(a) is type(b):
            return a
    na, nb = nan_of(a), nan_of(b)
    if nonfinite(a):
        a, na = 0.0, z3.BoolVal(True)
    if nonfinite(b):
        b, nb = 0.0, z3.BoolVal(True)
    x, y = _coerce(a, b)
    n = None
    if na is not None or nb is not None:
        n = z3.Or(z3.And(ce, na if na is not None else z3.BoolVal(False)),
                  z3.And(z3.Not(ce), nb if nb is not None else z3.BoolVal(False)))
    if x.eq(y):
        return mk(x, n)
    return mk(z3.If(ce, x, y), n)


def _val(x):
    return x.v if isinstance(x, Dual) else x


def _raw_lt(a, b):
    """a < b ignoring nan flags, as z3 Bool / bool."""
    a, b = _val(a), _val(b)
    if nonfinite(a) or nonfinite(b):
        fa = float(a) if nonfinite(a) else 0.0
        fb = float(b) if nonfinite(b) else 0.0
        return fa < fb
    if not is_sym(a) and not is_sym(b):
        return a < b
    x, y = _coerce(a, b)
    return z3.simplify(x < y)


def _with_nan(r, *xs):
    n = nan_or(*[nan_of(_val(x)) for x in xs])
    if n is None:
        return r
    if isinstance(r, Dual):
        return Dual(_with_nan(r.v, *xs), r.d)
    if isinstance(r, Sym):
        return Sym(r.e, nan_or(r.nan, n))
    return Sym(rv(r), n)


def smax(a, b):
    """numpy.maximum: NaN propagates."""
    if not is_sym(a) and not is_sym(b):
        return max(a, b) if not (a != a or b != b) else float("nan")
    return _with_nan(site(_raw_lt(a, b), b, a), a, b)


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b) if not (a != a or b != b) else float("nan")
    return _with_nan(site(_raw_lt(b, a), b, a), a, b)


# --------------------------------------------------------------------------
# transcendental functions: fresh variables constrained by axioms
# --------------------------------------------------------------------------
def _c2f(x):
    return float(x)


def _app1(name, x, concrete, wrap_nan=None):
    c = ctx()
    n = nan_or(x.nan, wrap_nan)
    r = c.app(name, (real(x.e),))
    return Sym(r, n)


def fn_tanh(x):
    if not is_sym(x):
        return math.tanh(float(x))
    if isinstance(x, Dual):
        t = fn_tanh(x.v)
        return x.chain(t, lambda: 1.0 - t * t)
    return _app1("tanh", x, math.tanh)


def fn_cosh(x):
    if not is_sym(x):
        return math.cosh(float(x))
    if isinstance(x, Dual):
        return x.chain(fn_cosh(x.v), lambda: fn_sinh(x.v))
    # cosh = 1/sech with sech^2 = 1 - tanh^2 (folded by _mul)
    c = ctx()
    t = fn_tanh(x)
    e = real(x.e)
    s = c.app("sech", (e,))
    if not is_sym(t):
        return math.cosh(float(const_val(z3.simplify(e)) or 0))
    c.sech_sq[s.get_id()] = 1 - t.e * t.e
    c.sech_var[s.get_id()] = s
    return Sym(1 / s, x.nan)


def fn_sinh(x):
    if not is_sym(x):
        return math.sinh(float(x))
    if isinstance(x, Dual):
        return x.chain(fn_sinh(x.v), lambda: fn_cosh(x.v))
    return fn_tanh(x) * fn_cosh(x)


def fn_exp(x):
    if not is_sym(x):
        return math.exp(float(x))
    if isinstance(x, Dual):
        r = fn_exp(x.v)
        return x.chain(r, lambda: r)
    return Sym(_exp_term(real(x.e)), x.nan)


def _exp_term(e, depth=0):
    """exp of a z3 term: pushed through ite, log atoms with integer coefficients folded."""
    c = ctx()
    e = z3.simplify(e, som=False)
    if z3.is_app_of(e, z3.Z3_OP_ITE) and depth < 12:
        cond, a, b = e.children()
        return z3.If(cond, _exp_term(a, depth + 1), _exp_term(b, depth + 1))
    k = const_val(e)
    if k is not None and k == 0:
        return z3.RealVal(1)
    lin = linear_form(e)
    if lin is not None:
        coefs, const, atoms = lin
        ites = [aid for aid in coefs if z3.is_app_of(atoms[aid], z3.Z3_OP_ITE)]
        if ites and depth < 12:
            ite = atoms[ites[0]]
            cond, a, b = ite.children()
            return z3.If(cond,
                         _exp_term(z3.substitute(e, (ite, a)), depth + 1),
                         _exp_term(z3.substitute(e, (ite, b)), depth + 1))
        prod = None
        rest = []
        for aid, co in coefs.items():
            arg = c.log_arg.get(aid)
            if arg is not None and co.denominator == 1 and abs(co) <= 4:
                p = z3.RealVal(1)
                for _ in range(abs(int(co))):
                    p = p * arg
                if co < 0:
                    p = 1 / p
                prod = p if prod is None else prod * p
            else:
                rest.append(rv(co) * atoms[aid])
        if prod is not None:
            if const != 0:
                rest.append(rv(const))
            if not rest:
                return z3.simplify(prod)
            r = rest[0]
            for t in rest[1:]:
                r = r + t
            return prod * c.app("exp", (z3.simplify(r),))
    return c.app("exp", (e,))


def linear_form(e):
    """e as sum coef*atom + const; returns (coefs by atom id, const, atoms by id) or None."""
    coefs, atoms = {}, {}
    const = Fraction(0)

    def add(t, k):
        nonlocal const
        v = const_val(t)
        if v is not None:
            const += k * v
            return True
        d = t.decl().kind()
        if d == z3.Z3_OP_ADD:
            return all(add(s, k) for s in t.children())
        if d == z3.Z3_OP_SUB:
            ch = t.children()
            return add(ch[0], k) and all(add(s, -k) for s in ch[1:])
        if d == z3.Z3_OP_UMINUS:
            return add(t.children()[0], -k)
        if d == z3.Z3_OP_MUL:
            cs = t.children()
            q = Fraction(1)
            rest = []
            for s in cs:
                sv = const_val(s)
                if sv is not None:
                    q *= sv
                else:
                    rest.append(s)
            if not rest:
                const += k * q
                return True
            if len(rest) == 1:
                return add(rest[0], k * q)
            m = rest[0]
            for s in rest[1:]:
                m = m * s
            t2 = m
            coefs[t2.get_id()] = coefs.get(t2.get_id(), Fraction(0)) + k * q
            atoms[t2.get_id()] = t2
            return True
        coefs[t.get_id()] = coefs.get(t.get_id(), Fraction(0)) + k
        atoms[t.get_id()] = t
        return True

    add(e, Fraction(1))
    return {a: k for a, k in coefs.items() if k != 0}, const, atoms


def fn_log(x):
    if not is_sym(x):
        return math.log(float(x)) if x > 0 else float("nan")
    if isinstance(x, Dual):
        return x.chain(fn_log(x.v), lambda: 1.0 / x.v)
    c = ctx()
    e = real(x.e)
    n = x.nan
    if not c.known_pos(e):
        n = nan_or(n, e <= 0)
    r = c.app("log", (e,))
    c.log_arg[r.get_id()] = e
    return Sym(r, n)


def fn_sqrt(x):
    if not is_sym(x):
        return math.sqrt(x) if x >= 0 else float("nan")
    if isinstance(x, Dual):
        r = fn_sqrt(x.v)
        return x.chain(r, lambda: 0.5 / r)
    e = real(x.e)
    n = x.nan
    b = square_base(e)
    if b is not None:
        return abs(Sym(b, n))
    if not ctx().known_nonneg(e):
        n = nan_or(n, e < 0)
    return Sym(ctx().app("sqrt", (e,)), n)


def square_base(e):
    """b when the term is written as b*b (or b**2), possibly plus literal zeros."""
    if z3.is_add(e):
        rest = [a for a in e.children() if not (z3.is_rational_value(a) and a.numerator_as_long() == 0)]
        return square_base(rest[0]) if len(rest) == 1 else None
    if z3.is_mul(e) and e.num_args() == 2 and e.arg(0).eq(e.arg(1)):
        return e.arg(0)
    if e.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() == 2:
        return e.arg(0)
    return None


def spow(a, b):
    if not is_sym(a) and not is_sym(b):
        try:
            r = float(a) ** float(b) if not (isinstance(a, int) and isinstance(b, int)) else a ** b
            return r if not isinstance(r, complex) else float("nan")
        except ZeroDivisionError:
            return float("inf")
    if isinstance(a, Dual) or isinstance(b, Dual):
        A = Dual.of(a)
        if isinstance(b, Dual) and b.d:
            raise EngineError("derivative w.r.t. an exponent")
        b = _val(b)
        return A.chain(spow(A.v, b), lambda: b * spow(A.v, b - 1))
    n = nan_or(nan_of(a), nan_of(b))
    if not is_sym(b):
        q = frac(b)
        if q.denominator == 1 and abs(q) <= 8:
            k = int(q)
            if k == 0:
                return 1.0
            x = a.e if (a.is_int and k > 0) else real(a.e)
            p = x
            for _ in range(abs(k) - 1):
                p = _tmul(p, x)
            if k < 0:
                c = ctx()
                if not c.known_nonzero(x):
                    n = nan_or(n, x == 0)
                p = _tdiv(z3.RealVal(1), p)
            return mk(p, n)
        if q == Fraction(1, 2):
            return fn_sqrt(a if n is None else Sym(a.e, n))
    x, y = zreal(a), zreal(b)
    c = ctx()
    if not c.known_pos(x):
        n = nan_or(n, x < 0, z3.And(x == 0, y < 0))
    return Sym(c.app("pow", (x, y)), n)


# --------------------------------------------------------------------------
# dual numbers: forward-mode derivatives through the real code
# --------------------------------------------------------------------------
class Dual:
    """v + sum d[k] eps_k."""
    __slots__ = ("v", "d")
    __array_priority__ = 2000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, v, d):
        self.v = v
        self.d = d

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def T(self):
        return self

    def item(self):
        return self

    @staticmethod
    def of(x):
        return x if isinstance(x, Dual) else Dual(x, {})

    def chain(self, v, df):
        if not self.d:
            return Dual(v, {})
        g = df()
        return Dual(v, {k: g * t for k, t in self.d.items()})

    def __array_ufunc__(self, ufunc, method, *a, **k):
        from . import arr
        return arr.array_ufunc(ufunc, method, a, k)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, args, kwargs)

    def _lin(self, o, f, sa, sb):
        o = _scalar(o)
        if o is None:
            return NotImplemented
        o = Dual.of(o)
        keys = list(dict.fromkeys(list(self.d) + list(o.d)))
        d = {}
        for k in keys:
            a, b = self.d.get(k), o.d.get(k)
            t = None
            if a is not None:
                t = a if sa == 1 else -a
            if b is not None:
                u = b if sb == 1 else -b
                t = u if t is None else t + u
            d[k] = t
        return Dual(f(self.v, o.v), d)

    def __add__(self, o):
        return self._lin(o, lambda a, b: a + b, 1, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, lambda a, b: a - b, 1, -1)

    def __rsub__(self, o):
        return self._lin(o, lambda a, b: b - a, -1, 1)

    def __mul__(self, o):
        o = _scalar(o)
        if o is None:
            return NotImplemented
        o = Dual.of(o)
        d = {k: t * o.v for k, t in self.d.items()}
        for k, t in o.d.items():
            u = self.v * t
            d[k] = d[k] + u if k in d else u
        return Dual(self.v * o.v, d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _scalar(o)
        if o is None:
            return NotImplemented
        o = Dual.of(o)
        q = self.v / o.v
        d = {k: t / o.v for k, t in self.d.items()}
        for k, t in o.d.items():
            u = -(q * t) / o.v
            d[k] = d[k] + u if k in d else u
        return Dual(q, d)

    def __rtruediv__(self, o):
        o = _scalar(o)
        if o is None:
            return NotImplemented
        return Dual.of(o) / self

    def __pow__(self, o, m=None):
        o = _scalar(o)
        if o is None:
            return NotImplemented
        return spow(self, o)

    def __neg__(self):
        return Dual(-self.v, {k: -t for k, t in self.d.items()})

    def __pos__(self):
        return self

    def __abs__(self):
        return site(self.v >= 0, self, -self)

    def tanh(self):
        return fn_tanh(self)

    def cosh(self):
        return fn_cosh(self)

    def sinh(self):
        return fn_sinh(self)

    def exp(self):
        return fn_exp(self)

    def log(self):
        return fn_log(self)

    def sqrt(self):
        return fn_sqrt(self)

    def __float__(self):
        raise EngineError("dual forced to float")

    def _c(self, o, f):
        o = _scalar(o)
        if o is None:
            return NotImplemented
        return f(self.v, _val(o))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"Dual({self.v})"
