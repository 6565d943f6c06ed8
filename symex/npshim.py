"""Stand-ins for `numpy`, `numpy.linalg`, `math` and a few builtins, seen only by the code under test.

Everything is delegated to the real numpy on object arrays of `Sym`; only the
operations that numpy cannot perform on objects (finiteness, norms, linear
algebra, tolerance comparison, dtype casts) are given exact definitions here.
"""
from __future__ import annotations

import builtins
import math
import operator
import types
from fractions import Fraction
from itertools import combinations, permutations

import numpy as np

from . import sym as S
from .poly import ONE, Poly
from .sym import FALSE, TRUE, Concretize, F, Sym, as_formula, f_and, f_not, f_or, sym

_obj = np.dtype(object)


def has_sym(x, depth=3):
    if isinstance(x, (Sym, F)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != _obj:
            return False
        return any(isinstance(e, (Sym, F)) for e in x.flat)
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(e, depth - 1) for e in x)
    if depth and isinstance(x, dict):
        return any(has_sym(e, depth - 1) for e in x.values())
    if isinstance(x, types.GeneratorType):
        return False
    return False


def is_num_scalar(x):
    return isinstance(x, (Sym, F, int, float, Fraction, np.number, np.bool_))


# ------------------------------------------------------------- array subclass


class _NdMeta(type):
    def __instancecheck__(cls, x):
        if cls is SArr:
            return isinstance(x, np.ndarray)
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        if cls is SArr:
            return issubclass(c, np.ndarray)
        return type.__subclasscheck__(cls, c)


class SArr(np.ndarray, metaclass=_NdMeta):
    """numpy.ndarray as seen by the code under test."""

    def __getitem__(self, i):
        return np.ndarray.__getitem__(self, _index(i))

    def __setitem__(self, i, v):
        np.ndarray.__setitem__(self, _index(i), v)

    def astype(self, dtype=None, *a, **k):
        if self.dtype == _obj and has_sym(self):
            k.pop("casting", None)
            if _is_int_type(dtype):
                return _map(lambda e: _trunc(e), self)
            if narrow_type(dtype):
                return _narrowed(self, dtype)
            return np.ndarray.copy(self)
        return np.ndarray.astype(self, real_dtype(dtype), *a, **k)

    def round(self, decimals=0, out=None):
        return around(self, decimals, out)

    def clip(self, min=None, max=None, out=None, **k):
        if has_sym(self):
            return clip(self, min, max)
        return np.ndarray.clip(self, min, max, out, **k)

    def std(self, *a, **k):
        if has_sym(self):
            return NP.std(self, *a, **k)
        return np.ndarray.std(self, *a, **k)

    def var(self, *a, **k):
        if has_sym(self):
            return NP.var(self, *a, **k)
        return np.ndarray.var(self, *a, **k)

    def any(self, *a, **k):
        if self.dtype == _obj:
            if self.size and _whole(a, k):
                return _lazy(f_or([_truthf(e) for e in self.flat]))
            return np.any(_boolify(self), *a, **k)
        return np.ndarray.any(self, *a, **k)

    def all(self, *a, **k):
        if self.dtype == _obj:
            if self.size and _whole(a, k):
                return _lazy(f_and([_truthf(e) for e in self.flat]))
            return np.all(_boolify(self), *a, **k)
        return np.ndarray.all(self, *a, **k)

    def tolist(self):
        return np.ndarray.tolist(self)

    def sum(self, *a, **k):
        return _with_dtype(np.ndarray.sum, self, a, k)

    def mean(self, *a, **k):
        return _with_dtype(np.ndarray.mean, self, a, k)


class SMask(np.ndarray):
    """Element-wise comparison of symbolic arrays: formulas, decided only when something other than all/any looks."""

    def any(self, *a, **k):
        if self.size and _whole(a, k):
            return _lazy(f_or([_truthf(e) for e in np.asarray(self).flat]))
        return np.any(_boolify(self), *a, **k)

    def all(self, *a, **k):
        if self.size and _whole(a, k):
            return _lazy(f_and([_truthf(e) for e in np.asarray(self).flat]))
        return np.all(_boolify(self), *a, **k)

    def __array_ufunc__(self, ufunc, method, *inputs, **k):
        name = ufunc.__name__
        if method == "__call__" and not k and name in ("invert", "logical_not", "bitwise_and", "logical_and", "bitwise_or", "logical_or"):
            if all(isinstance(x, SMask) or isinstance(x, (bool, np.bool_, F)) or np.asarray(x).dtype == bool for x in inputs):
                xs = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in inputs])
                out = np.empty(xs[0].shape, dtype=object)
                for i in np.ndindex(out.shape):
                    fs = [_truthf(x[i]) for x in xs]
                    out[i] = S.f_not(fs[0]) if len(fs) == 1 else f_and(fs) if name.endswith("and") else f_or(fs)
                return _mask(out)
        return getattr(ufunc, method)(*[_boolify(x) if isinstance(x, SMask) else x for x in inputs], **k)

    def __array_function__(self, func, types, args, kwargs):
        def conv(x):
            if isinstance(x, SMask):
                return _boolify(x)
            if isinstance(x, (list, tuple)):
                return type(x)(conv(e) for e in x)
            return x

        if func in (np.all, np.any) and isinstance(args[0], SMask):
            return getattr(args[0], func.__name__)(*args[1:], **kwargs)
        return func(*conv(args), **{n: conv(v) for n, v in kwargs.items()})

    def __bool__(self):
        return bool(_boolify(self))

    def sum(self, *a, **k):
        return _boolify(self).sum(*a, **k)

    def astype(self, dtype=None, *a, **k):
        return _boolify(self).astype(real_dtype(dtype))

    def tolist(self):
        return _boolify(self).tolist()

    def nonzero(self):
        return _boolify(self).nonzero()


def _mask(out):
    if all(isinstance(e, (bool, np.bool_)) or e is TRUE or e is FALSE for e in out.flat):
        return _boolify(out)
    return out.view(SMask)


def _index(i):
    if isinstance(i, SMask):
        return _boolify(i)
    if isinstance(i, tuple) and any(isinstance(e, SMask) for e in i):
        return tuple(_boolify(e) if isinstance(e, SMask) else e for e in i)
    return i


def compare_arrays(op, a, b):
    x, y = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    try:
        x, y = np.broadcast_arrays(x, y)
    except ValueError:
        return getattr(np.ndarray, op)(np.asarray(a), np.asarray(b))
    out = np.empty(x.shape, dtype=object)
    f = getattr(operator, op.strip("_"))
    for i in np.ndindex(out.shape):
        out[i] = f(x[i], y[i])
    return _mask(out) if out.ndim else out[()]


def _array_comparison(op):
    real = getattr(np.ndarray, op)

    def g(self, o):
        if o is None or isinstance(o, str) or not (has_sym(self) or has_sym(o)):
            return real(self, o)
        return compare_arrays(op, self, o)

    g.__name__ = op
    return g


for _op in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
    setattr(SArr, _op, _array_comparison(_op))


def _with_dtype(method, self, a, k):
    """Reductions given a dtype: computed exactly, then cast."""
    dt = k.get("dtype") if "dtype" in k else a[1] if len(a) > 1 else None
    if dt is None or self.dtype != _obj or not has_sym(self):
        if "dtype" in k:
            k["dtype"] = real_dtype(k["dtype"])
        return method(self, *a, **k)
    k = dict(k, dtype=_obj) if "dtype" in k else k
    a = a[:1] + (_obj,) + a[2:] if len(a) > 1 else a
    r = method(self, *a, **k)
    if narrow_type(dt):
        return narrow_value(r, narrow_type(dt)) if isinstance(r, Sym) else _narrowed(r, dt)
    if _is_int_type(dt):
        return _trunc(r) if isinstance(r, Sym) else _map(_trunc, r)
    return r


def _whole(a, k):
    """Reduction over the whole array, no keyword that changes the result."""
    return all(x is None for x in a) and all(v is None or n == "keepdims" and v is np._NoValue for n, v in k.items())


def _truthf(e):
    if isinstance(e, F):
        return e
    if isinstance(e, Sym):
        return as_formula(e != 0)
    return TRUE if bool(e) else FALSE


def _lazy(f):
    """A formula as a truth value: decided only when the code looks at it."""
    return True if f is TRUE else False if f is FALSE else f


def around(a, decimals=0, out=None):
    if not has_sym(a):
        a = np.asarray(a)
        if a.dtype == _obj:
            a = a.astype(float)
        return np.around(a, decimals, out)
    r = _map(lambda e: sym(e).__round__(decimals), a if isinstance(a, np.ndarray) else np.array(a, dtype=object))
    if out is not None:
        out[...] = r
        return out
    return r.view(type(a)) if isinstance(a, np.ndarray) and isinstance(r, np.ndarray) else r


def _boolify(a):
    return np.array([bool(e) for e in np.asarray(a).flat], dtype=bool).reshape(np.shape(a))


def _trunc(e):
    e = sym(e)
    if e.is_const():
        return Sym(Poly.const(int(Fraction(e.const()))))
    return e.__trunc__()


def _is_int_type(t):
    if t is None or t is object:
        return False
    if t is IntProxy or t is int:
        return True
    if isinstance(t, type) and issubclass(t, (FloatProxy, Float64Proxy)):
        return False
    try:
        return np.issubdtype(np.dtype(real_dtype(t)), np.integer)
    except TypeError:
        return False


def narrow_type(t):
    """The dtype name when it is a floating-point type with fewer digits than the default one."""
    if t is None or t is object:
        return None
    try:
        d = np.dtype(real_dtype(t))
    except TypeError:
        return None
    return d.name if d.kind == "f" and d.itemsize < 8 else None


def _narrowed(a, dtype):
    t = narrow_type(dtype)
    r = _map(lambda e: narrow_value(e, t), a)
    return r.view(type(a)) if isinstance(a, SArr) else r


def narrow_value(e, t):
    e = sym(e)
    if e.is_const():
        return Sym(Poly.const(Fraction(float(np.dtype(t).type(float(e.const()))))))
    return S.symbolic_round(e, 0, t)


def real_dtype(t):
    if isinstance(t, type) and "_narrow" in t.__dict__:
        return t._narrow
    if t is FloatProxy or t is Float64Proxy:
        return float
    if t is IntProxy:
        return int
    if isinstance(t, type) and issubclass(t, FloatProxy):
        return float
    return t


def view(a):
    """Plain ndarray -> SArr so later method calls are intercepted; anything else unchanged."""
    if type(a) is np.ndarray and a.dtype == _obj:
        return a.view(SArr)
    return a


def arr(x):
    """Object ndarray holding x (Sym elements), or x's own array."""
    if isinstance(x, np.ndarray):
        return x
    return np.array(x, dtype=object) if has_sym(x) else np.asarray(x)


def _map(f, x):
    a = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
    if a.ndim == 0:
        return f(a[()])
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = f(a[i])
    return out.view(SArr)


def _bmap(f, x):
    a = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
    if a.ndim == 0:
        return np.bool_(f(a[()]))
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(a.shape):
        out[i] = f(a[i])
    return out


# ---------------------------------------------------------- scalar functions


def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    """math.isclose, exactly, over the reals."""
    if not (isinstance(a, Sym) or isinstance(b, Sym) or isinstance(rel_tol, Sym) or isinstance(abs_tol, Sym)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    return _lazy(isclose_formula(a, b, rel_tol, abs_tol))


def small_skip(a, b):
    return a.is_const() and a.const() == 0 or b.is_const() and b.const() == 0


def isclose_formula(a, b, rel_tol=1e-09, abs_tol=0.0):
    for t in (rel_tol, abs_tol):
        if bool(t < 0):
            raise ValueError("tolerances must be non-negative")
    for x in (a, b):
        if S._nonfinite(x):
            return as_formula(math.isclose(float("nan") if isinstance(a, Sym) and isinstance(b, Sym) else 0.0, 1.0) if not (S._nonfinite(a) and S._nonfinite(b)) else a == b)
    a, b, rel_tol, abs_tol = sym(a), sym(b), sym(rel_tol), sym(abs_tol)
    d = a - b
    if d.n.is_zero():
        return TRUE
    ENG = S.ENGINE()

    def known(f):
        return ENG.simplify(as_formula(f)) is TRUE

    dneg = known(d <= 0)
    dpos = not dneg and known(d >= 0)

    def within(t):  # |d| <= t
        if dneg:
            return as_formula(-d <= t)
        if dpos:
            return as_formula(d <= t)
        return f_and([(d <= t), (-d <= t)])

    alts = []
    if not (abs_tol.is_const() and abs_tol.const() == 0):
        alts.append(within(abs_tol))
    if not (rel_tol.is_const() and rel_tol.const() == 0):
        small = rel_tol.is_const() and rel_tol.const() < 1
        skip = None
        if len(a.n) <= 80 and len(b.n) <= 80:
            g = a * a - b * b  # only the larger magnitude matters
            skip = a if known(g <= 0) else b if known(g >= 0) else None
        for x, other in ((a, b), (b, a)):
            if x is skip or x.is_const() and x.const() == 0:
                continue
            if small and other.is_const() and other.const() == 0:
                continue  # |x| <= rel*|x| only when x == 0
            t = rel_tol * x
            if x.nn or known(x >= 0):
                alts.append(within(t))
            elif known(x <= 0):
                alts.append(within(-t))
            else:
                alts.append(within(t))
                alts.append(within(-t))
    if not alts or small_skip(a, b):
        alts.append(d.signf(S.ZER))
    return f_or(alts)


def _fin(x):
    return not S._nonfinite(x)


def _text(fn):
    """Text of an array of symbols; with options that may lose digits, it shows other numbers."""

    def write(a, *args, **k):
        if S.TEXT is None or not (args or k):
            return fn(a, *args, **k)
        args2 = {x: y for x, y in k.items() if x in ("prefix", "separator", "suffix", "max_line_width")}
        if len(args2) < len(k) or len(args) > 1 or (args and fn is np.array2string):
            b = np.empty(np.shape(a), dtype=object)
            for i in np.ndindex(b.shape):
                b[i] = S.ENGINE().input(f"_text{len(S.TEXT)}{''.join('_%d' % j for j in i)}")
            a = b.view(type(a))
        return fn(a, **args2)

    return write


def isfinite(x, *a, **k):
    if has_sym(x):
        return _bmap(lambda e: _fin(e), x)
    x2 = np.asarray(x)
    if x2.dtype == _obj:
        return np.isfinite(x2.astype(float))
    return np.isfinite(x, *a, **k)


def isnan(x, *a, **k):
    if has_sym(x):
        return _bmap(lambda e: S._nonfinite(e) and math.isnan(e), x)
    return np.isnan(np.asarray(x, dtype=float))


def isinf(x, *a, **k):
    if has_sym(x):
        return _bmap(lambda e: S._nonfinite(e) and math.isinf(e), x)
    return np.isinf(np.asarray(x, dtype=float))


def sign1(e):
    if not isinstance(e, Sym):
        return np.sign(e)
    if bool(e > 0):
        return 1.0
    if bool(e < 0):
        return -1.0
    return 0.0


def clip1(e, lo, hi):
    if lo is not None and bool(e < lo):
        e = lo
    if hi is not None and bool(e > hi):
        e = hi
    return e


def clip(a, a_min=None, a_max=None, out=None, **k):
    if "min" in k:
        a_min = k["min"]
    if "max" in k:
        a_max = k["max"]
    if not (has_sym(a) or has_sym(a_min) or has_sym(a_max)):
        return np.clip(a, a_min, a_max, out=out)
    if is_num_scalar(a) or np.ndim(a) == 0:
        e = a if is_num_scalar(a) else np.asarray(a)[()]
        return clip1(e, a_min, a_max)
    r = _map(lambda e: clip1(e, a_min, a_max), a)
    if out is not None:
        out[...] = r
        return out
    return r


def _unary(name, f):
    real = getattr(np, name)

    def g(x, *a, **k):
        if has_sym(x):
            r = f(x) if is_num_scalar(x) else _map(f, x)
            out = k.get("out", a[0] if a else None)
            if isinstance(out, tuple):
                out = out[0]
            if out is not None:
                out[...] = r
                return out
            if isinstance(x, np.ndarray) and type(x) not in (np.ndarray, SArr) and isinstance(r, np.ndarray):
                try:
                    return type(x)(r)
                except Exception:
                    return r
            return r
        return real(x, *a, **k)

    return g


def _binary(name, f):
    real = getattr(np, name)

    def g(x, y, *a, **k):
        if has_sym(x) or has_sym(y):
            if is_num_scalar(x) and is_num_scalar(y):
                return f(x, y)
            xa, ya = np.broadcast_arrays(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
            out = np.empty(xa.shape, dtype=object)
            for i in np.ndindex(xa.shape):
                out[i] = f(xa[i], ya[i])
            return out.view(SArr) if out.ndim else out[()]
        return real(x, y, *a, **k)

    return g


COMPARISONS = {"equal": "__eq__", "not_equal": "__ne__", "less": "__lt__", "less_equal": "__le__", "greater": "__gt__",
               "greater_equal": "__ge__"}


def _compare_fn(name, op):
    real = getattr(np, name)

    def g(a, b, *r, **k):
        if not r and not k and (has_sym(a) or has_sym(b)):
            return compare_arrays(op, a, b)
        return real(a, b, *r, **k)

    return g


def _max2(a, b):
    return a if bool(a >= b) else b


def _min2(a, b):
    return a if bool(a <= b) else b


def _num(f):
    """Scalar function tolerant of plain numbers inside symbolic arrays."""
    return f


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)

    def one(x, y):
        if S._nonfinite(x) or S._nonfinite(y):
            return bool(np.isclose(float(x), float(y))) if not (isinstance(x, Sym) or isinstance(y, Sym)) else False
        x, y = sym(x), sym(y)
        d = x - y
        t1 = atol + rtol * y
        t2 = atol - rtol * y
        return _lazy(f_or([f_and([d <= t1, -d <= t1]), f_and([d <= t2, -d <= t2])]))

    xa, ya = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    if xa.ndim == 0:
        return one(xa[()], ya[()])
    out = np.empty(xa.shape, dtype=object)
    for i in np.ndindex(xa.shape):
        out[i] = one(xa[i], ya[i])
    return out.view(SArr) if any(isinstance(e, F) for e in out.flat) else out.astype(bool)


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = np_isclose(a, b, rtol, atol, equal_nan)
    return r.all() if isinstance(r, np.ndarray) else _lazy(as_formula(r))


def array_equal(a, b, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return np.array_equal(a, b)
    try:
        a, b = arr(a), arr(b)
    except Exception:
        return False
    if a.shape != b.shape:
        return False
    fs = [as_formula(x == y) for x, y in zip(a.flat, b.flat)]
    return bool(f_and(fs))


# ------------------------------------------------------------ linear algebra


def _vecs(x):
    return np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x


def norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        xx = np.asarray(x)
        if xx.dtype == _obj:
            xx = xx.astype(float)
            return np.linalg.norm(xx, ord=ord, axis=axis, keepdims=keepdims)
        return np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
    a = _vecs(x)
    if isinstance(ord, Sym):
        ord = float(ord)

    def one(v):
        v = list(v)
        if ord in (None, 2, "fro"):
            return S.vec_norm(v)
        if ord == 1:
            t = 0
            for e in v:
                t = t + abs(e)
            return t
        if ord in (np.inf, float("inf")):
            t = abs(v[0])
            for e in v[1:]:
                t = _max2(t, abs(e))
            return t
        if ord == -np.inf:
            t = abs(v[0])
            for e in v[1:]:
                t = _min2(t, abs(e))
            return t
        if ord == 0:
            return sum(1 for e in v if bool(e != 0))
        raise Concretize("norm order")

    if isinstance(axis, (tuple, list)) and len(axis) == 1:
        axis = axis[0]
    if axis is None:
        if ord is None or a.ndim == 1:
            r = one(a.ravel() if type(a) in (np.ndarray, SArr) else np.asarray(a).ravel())
        elif a.ndim == 2 and ord == "fro":
            r = one(np.asarray(a).ravel())
        else:
            raise Concretize("matrix norm")
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return o.view(SArr)
        return r
    if isinstance(axis, (tuple, list)):
        raise Concretize("matrix norm over axes")
    b = np.moveaxis(np.asarray(a), axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = one(b[i])
    if keepdims:
        out = np.expand_dims(out, axis)
    return out.view(SArr) if out.ndim else out[()]


def det(a):
    if not has_sym(a):
        return np.linalg.det(np.asarray(a, dtype=float))
    m = [list(r) for r in np.asarray(a if isinstance(a, np.ndarray) else np.array(a, dtype=object))]
    return _det(m)


def _det(m):
    n = len(m)
    if n == 0:
        return Sym(ONE)
    if n == 1:
        return sym(m[0][0])
    if n == 2:
        return sym(m[0][0]) * m[1][1] - sym(m[0][1]) * m[1][0]
    # expand along the row with most zeros
    zeros = lambda row: sum(1 for e in row if _is_zero_const(e))
    i = max(range(n), key=lambda k: zeros(m[k]))
    t = Sym(Poly({}))
    for j in range(n):
        if _is_zero_const(m[i][j]):
            continue
        sub = [r[:j] + r[j + 1 :] for k, r in enumerate(m) if k != i]
        c = sym(m[i][j]) * _det(sub)
        t = t + c if (i + j) % 2 == 0 else t - c
    return t


def _is_zero_const(e):
    if isinstance(e, Sym):
        return e.n.is_zero()
    return not isinstance(e, F) and not S._nonfinite(e) and e == 0


def solve(a, b, _regular=False):
    if not (has_sym(a) or has_sym(b)):
        return np.linalg.solve(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    A = np.array(a, dtype=object)
    B = np.array(b, dtype=object)
    m = [list(r) for r in A]
    n = len(m)
    if any(len(r) != n for r in m):
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    d = _det(m)
    if not _regular and bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    if B.ndim == 1:
        cols = [list(B)]
    else:
        cols = [list(B[:, k]) for k in range(B.shape[1])]
    out = []
    for col in cols:
        xs = []
        for j in range(n):
            mm = [r[:j] + [col[i]] + r[j + 1 :] for i, r in enumerate(m)]
            xs.append(_det(mm) / d)
        out.append(xs)
    if B.ndim == 1:
        return _objarr(out[0])
    return _objarr([[out[k][j] for k in range(len(out))] for j in range(n)])


def _objarr(x):
    a = np.array(x, dtype=object)
    return a.view(SArr)


def inv(a):
    if not has_sym(a):
        return np.linalg.inv(np.asarray(a, dtype=float))
    n = len(a)
    return solve(a, np.eye(n))


def lstsq(a, b, rcond=None):
    if not (has_sym(a) or has_sym(b)):
        return np.linalg.lstsq(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rcond=rcond)
    A = np.asarray(np.array(a, dtype=object))
    B = np.asarray(np.array(b, dtype=object))
    rows, cols = A.shape
    ds = _distinct_minors([list(map(sym, r)) for r in A], cols) if rows >= cols else []
    if not ds or bool(f_and([d == 0 for d in ds])):
        # rank deficient: numpy answers with the minimum-norm solution, left unknown here (no exception)
        E = S.ENGINE()
        x = [E.input(f"lstsq{i}", None) for i in range(cols)]
        return _objarr(x if B.ndim == 1 else [[e] * B.shape[1] for e in x]), _objarr([]), cols - 1, None
    if rows == cols:
        x = solve(A, B, _regular=True)
    else:
        G = np.dot(A.T, A)
        x = solve(G, np.dot(A.T, B), _regular=True)
    r = np.dot(A, np.asarray(x)) - B
    res = _objarr([sum((e * e for e in r.flat), Sym(Poly({})))])
    return x, res, A.shape[1], None


class LazyRank:
    """Rank of a symbolic matrix, resolved only as far as a comparison needs."""

    def __init__(self, tests, maxrank):
        # tests[k-1]() -> formula "rank >= k"
        self.tests = tests
        self.maxrank = maxrank
        self._cache = {}

    def at_least(self, k):
        if k <= 0:
            return True
        if k > self.maxrank:
            return False
        if k not in self._cache:
            self._cache[k] = bool(self.tests(k))
        return self._cache[k]

    def _val(self, o):
        if isinstance(o, LazyRank):
            return int(o)
        return o

    def __int__(self):
        k = 0
        while k < self.maxrank and self.at_least(k + 1):
            k += 1
        return k

    __index__ = __int__

    def __le__(self, o):
        return not self.at_least(math.floor(self._val(o)) + 1)

    def __lt__(self, o):
        return not self.at_least(math.ceil(self._val(o)))

    def __ge__(self, o):
        return self.at_least(math.ceil(self._val(o)))

    def __gt__(self, o):
        return self.at_least(math.floor(self._val(o)) + 1)

    def __eq__(self, o):
        o = self._val(o)
        if not isinstance(o, (int, float, np.number)):
            return False
        if o != int(o):
            return False
        return self.at_least(int(o)) and not self.at_least(int(o) + 1)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(int(self))

    def __bool__(self):
        return self.at_least(1)

    def __float__(self):
        return float(int(self))

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__

    def item(self):
        return int(self)

    def __repr__(self):
        return f"rank<={self.maxrank}"


def _distinct_minors(m, k):
    """Non-trivial k x k minors up to sign/scale, as Syms; None stands for an identically zero set."""
    rows, cols = len(m), len(m[0])
    seen = set()
    out = []
    for ri in combinations(range(rows), k):
        for ci in combinations(range(cols), k):
            d = _det([[m[i][j] for j in ci] for i in ri])
            if d.n.is_zero():
                continue
            p = d.n.primitive()[1]
            if p in seen:
                continue
            seen.add(p)
            out.append(d)
    return out


def matrix_rank(A, tol=None, hermitian=False, **kw):
    if not (has_sym(A) or has_sym(tol)):
        return np.linalg.matrix_rank(np.asarray(A, dtype=float), tol=tol, hermitian=hermitian)
    a = np.asarray(A if isinstance(A, np.ndarray) else np.array(A, dtype=object))
    if a.ndim < 2:
        return int(not bool(f_and([as_formula(e == 0) for e in a.flat])))
    m = [list(map(sym, r)) for r in a]
    rows, cols = len(m), len(m[0])
    mr = min(rows, cols)
    if tol is None:
        memo = {}

        def test(k):
            if k not in memo:
                ds = _distinct_minors(m, k)
                memo[k] = f_not(f_and([d == 0 for d in ds])) if ds else FALSE
            return memo[k]

        return LazyRank(test, mr)
    # number of singular values > tol: eigenvalues of the smaller Gram matrix above tol^2
    tol = tol if isinstance(tol, Sym) else sym(tol)
    if bool(tol < 0):
        return mr
    if rows < cols:
        g = [[_dot(m[i], m[j]) for j in range(rows)] for i in range(rows)]
    else:
        g = [[_dot([r[i] for r in m], [r[j] for r in m]) for j in range(cols)] for i in range(cols)]
    n = len(g)
    t2 = tol * tol
    h = [[g[i][j] - t2 if i == j else g[i][j] for j in range(n)] for i in range(n)]
    # char poly det(x I - h) = sum (-1)^k e_k x^(n-k); number of positive roots by Descartes (all roots real)
    e = [Sym(ONE)]
    for k in range(1, n + 1):
        t = Sym(Poly({}))
        for idx in combinations(range(n), k):
            t = t + _det([[h[i][j] for j in idx] for i in idx])
        e.append(t)

    signs_memo = {}

    def signs():
        if "s" not in signs_memo:
            ss = []
            for k in range(n + 1):
                s = sign1(e[k]) if not e[k].is_const() else (lambda c: (c > 0) - (c < 0))(e[k].const())
                s = int(s)
                ss.append(s if k % 2 == 0 else -s)
            signs_memo["s"] = ss
        return signs_memo["s"]

    def count():
        ss = [s for s in signs() if s]
        return sum(1 for x, y in zip(ss, ss[1:]) if x != y)

    if n == 1:
        return LazyRank(lambda k: h[0][0] > 0, mr)
    return LazyRank(lambda k: TRUE if count() >= k else FALSE, mr)


def _dot(u, v):
    t = Sym(Poly({}))
    for x, y in zip(u, v):
        t = t + sym(x) * y
    return t


def svd(a, full_matrices=True, compute_uv=True, **kw):
    if not has_sym(a):
        return np.linalg.svd(np.asarray(a, dtype=float), full_matrices=full_matrices, compute_uv=compute_uv, **kw)
    ENG = S.ENGINE()
    A = np.asarray(a if isinstance(a, np.ndarray) else np.array(a, dtype=object))
    reg = getattr(ENG, "svd_registry", [])
    for U, s, Vh in reg:
        for tr in (False, True):
            uu, vv = (U, Vh) if not tr else (Vh.T, U.T)
            if A.shape != (uu.shape[0], vv.shape[1]):
                continue
            k = len(s)
            rec = np.dot(uu[:, :k] * s, vv[:k, :])
            if all((sym(x) - y).n.is_zero() for x, y in zip(rec.flat, A.flat)):
                if not compute_uv:
                    return _objarr(list(s))
                # the decomposition is unique only up to the signs of paired columns
                flips = [1] * max(uu.shape[0], vv.shape[0])
                if ENG.svd_flip is not None:
                    flips = [(-1 if bool(ENG.svd_flip(i)) else 1) for i in range(len(flips))]
                n = min(uu.shape[0], vv.shape[0])
                u2 = uu.copy()
                v2 = vv.copy()
                for i in range(u2.shape[1]):
                    u2[:, i] = u2[:, i] * flips[i]
                for i in range(v2.shape[0]):
                    v2[i, :] = v2[i, :] * flips[i]
                if not full_matrices:
                    u2 = u2[:, :n]
                    v2 = v2[:n, :]
                return u2.view(SArr), _objarr(list(s)), v2.view(SArr)
    raise Concretize("svd of an unregistered matrix")


def eigh(a, *args, **k):
    if not has_sym(a):
        return np.linalg.eigh(np.asarray(a, dtype=float), *args, **k)
    ENG = S.ENGINE()
    A = np.asarray(a if isinstance(a, np.ndarray) else np.array(a, dtype=object))
    for U, s, Vh in getattr(ENG, "svd_registry", []):
        for vv in (np.asarray(Vh).T, np.asarray(U)):
            if A.shape != (vv.shape[0], vv.shape[0]):
                continue
            lam = [s[i] * s[i] if i < len(s) else Sym(Poly({})) for i in range(vv.shape[0])]
            rec = np.dot(vv * np.array(lam, dtype=object), vv.T)
            d0 = None
            ratio_ok = True
            for x, y in zip(rec.flat, A.flat):
                if not (sym(x) - y).n.is_zero():
                    ratio_ok = False
                    break
            if ratio_ok:
                w = _objarr(list(reversed(lam)))
                return w, vv[:, ::-1].copy().view(SArr)
    raise Concretize("eigh of an unregistered matrix")


# -------------------------------------------------------------------- unique


def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if not has_sym(ar):
        a = np.asarray(ar)
        if a.dtype == _obj:
            a = a.astype(float)
        return np.unique(a, return_index, return_inverse, return_counts, axis, **k)
    a = np.asarray(ar)
    ENG = S.ENGINE()
    if axis is None:
        rows = [[e] for e in a.flat]
    else:
        a = np.moveaxis(a, axis, 0)
        rows = [list(np.asarray(r).flat) for r in a]
    keep = []
    index = []
    inverse = []
    for i, r in enumerate(rows):
        for j, q in enumerate(keep):
            if bool(f_and([as_formula(x == y) for x, y in zip(r, q)])):
                inverse.append(j)
                break
        else:
            keep.append(r)
            index.append(i)
            inverse.append(len(keep) - 1)
    # numpy returns the rows in lexicographic order; sorting forks on every comparison, so
    # it is modelled only when the case asks for it (order is irrelevant elsewhere).
    order = list(range(len(keep)))
    if ENG.sort_unique:
        import functools

        def cmp(i, j):
            for x, y in zip(keep[i], keep[j]):
                if bool(x < y):
                    return -1
                if bool(x > y):
                    return 1
            return 0

        order.sort(key=functools.cmp_to_key(cmp))
    pos = {o: n for n, o in enumerate(order)}
    rows_out = [keep[o] for o in order]
    if axis is None:
        out = _objarr([r[0] for r in rows_out])
    else:
        out = np.empty((len(rows_out),) + a.shape[1:], dtype=object)
        for i, r in enumerate(rows_out):
            out[i] = np.array(r, dtype=object).reshape(a.shape[1:])
        out = np.moveaxis(out, 0, axis)
        # like np.unique, keep the subclass of the input
        if isinstance(ar, np.ndarray) and type(ar) is not np.ndarray:
            out = out.view(type(ar))
        else:
            out = out.view(SArr)
    res = [out]
    if return_index:
        res.append(np.array([index[o] for o in order]))
    if return_inverse:
        res.append(np.array([pos[j] for j in inverse]))
    if return_counts:
        res.append(np.array([sum(1 for j in inverse if j == o) for o in order]))
    return tuple(res) if len(res) > 1 else out


# --------------------------------------------------------- array constructors


def array(object, dtype=None, **k):
    if has_sym(object):
        if dtype is not None and _is_int_type(dtype):
            return _map(_trunc, np.array(object, dtype=_obj))
        if narrow_type(dtype):
            return _narrowed(array(object), dtype)
        k.pop("like", None)
        return view(np.array(object, dtype=_obj, **k))
    return np.array(object, dtype=real_dtype(dtype), **k)


def fromiter(it, dtype=None, count=-1, **k):
    xs = list(it) if count < 0 else [x for x, _ in zip(it, range(count))]
    return array(xs, dtype) if has_sym(xs) else np.fromiter(xs, real_dtype(dtype), count, **k)


def asarray(a, dtype=None, **k):
    if has_sym(a):
        if dtype is not None and _is_int_type(dtype):
            return _map(_trunc, np.array(a, dtype=_obj))
        if narrow_type(dtype):
            return _narrowed(array(a), dtype)
        k.pop("like", None)
        return view(np.asarray(a, dtype=_obj))
    return np.asarray(a, dtype=real_dtype(dtype), **k)


def asanyarray(a, dtype=None, **k):
    if has_sym(a):
        if narrow_type(dtype):
            return _narrowed(np.asanyarray(a, dtype=_obj), dtype)
        return np.asanyarray(a, dtype=_obj)
    return np.asanyarray(a, dtype=real_dtype(dtype), **k)


def _filled(real):
    def g(shape, *a, **k):
        dt = k.get("dtype")
        pos = 1 if real is np.full else 0
        if dt is None and len(a) > pos:
            dt = a[pos]
        if isinstance(shape, Sym):
            shape = int(shape)
        rd = real_dtype(dt)
        if rd is not None:
            try:
                nd = np.dtype(rd)
            except TypeError:
                nd = _obj
            if nd.kind in "biu":
                return real(shape, *a[:pos], dtype=nd)
        return view(real(shape, *a[:pos], dtype=_obj))

    return g


def zeros(shape, *a, **k):
    return _as_float_objects(_filled(np.zeros)(shape, *a, **k))


def ones(shape, *a, **k):
    return _as_float_objects(_filled(np.ones)(shape, *a, **k))


def empty(shape, *a, **k):
    return _as_float_objects(_filled(np.zeros)(shape, *a, **k))


full = _filled(np.full)


def _as_float_objects(x):
    if x.dtype == _obj:
        for i in np.ndindex(x.shape):
            x[i] = float(x[i])
    return x


def _like(val):
    def g(a, dtype=None, **k):
        s = np.shape(a)
        return (zeros if val == 0 else ones)(s, *(() if dtype is None else (dtype,)))

    return g


def eye(N, M=None, k=0, dtype=None, **kw):
    return _as_float_objects(view(np.eye(N, M, k, dtype=_obj)))


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if not (has_sym(start) or has_sym(stop)):
        plain = np.linspace(start, stop, num, endpoint, retstep, real_dtype(dtype), axis)
        if S.ENGINE() is None or retstep or dtype is not None or np.ndim(start) or np.ndim(stop) or num > 200:
            return plain
        a, d = S.rational(start), S.rational(stop) - S.rational(start)
        div = max(num - 1 if endpoint else num, 1)
        if all(S.rational(v) == a + d * Fraction(i, div) for i, v in enumerate(plain)):
            return plain  # else: exact thirds, fifths, ... instead of their roundings
    div = num - 1 if endpoint else num
    out = []
    start_, stop_ = sym(start), sym(stop)
    for i in range(num):
        out.append(start_ + (stop_ - start_) * Fraction(i, div) if div else start_)
    r = _objarr(out)
    if retstep:
        return r, (stop_ - start_) / div
    return r


def block(arrays):
    return view(np.block(arrays))


def sort(a, *args, **k):
    if has_sym(a) and not isinstance(a, np.ndarray):
        a = np.array(a, dtype=_obj)
    return np.sort(a, *args, **k)


def std(a, axis=None, ddof=0, **k):
    if not has_sym(a):
        return np.std(a, axis=axis, ddof=ddof, **k)
    return NP.sqrt(var(a, axis=axis, ddof=ddof))


def var(a, axis=None, ddof=0, **k):
    if not has_sym(a):
        return np.var(a, axis=axis, ddof=ddof, **k)
    a = np.asarray(arr(a))
    m = np.mean(a, axis=axis, keepdims=True)
    d = a - m
    n = a.size if axis is None else a.shape[axis]
    r = np.sum(d * d, axis=axis) / (n - ddof)
    return r


def hypot2(x, y):
    return S.vec_norm([x, y])


def np_atan2(y, x):
    return S.atan2(y, x)


def _abs1(e):
    return abs(e)


# --------------------------------------------------------- proxied modules


class Float64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Sym) or isinstance(x, np.float64)

    def __subclasscheck__(cls, c):
        return issubclass(c, (Sym, np.float64)) if isinstance(c, type) else False


class Float64Proxy(metaclass=Float64Meta):
    def __new__(cls, x=0.0):
        if isinstance(x, (Sym,)):
            return x
        if isinstance(x, F):
            return sym(x)
        if isinstance(x, np.ndarray) and has_sym(x):
            if x.ndim == 0:
                return x[()]
            return x
        if isinstance(x, (list, tuple)) and has_sym(x):
            return array(x)
        return np.float64(x)


def narrow_proxy(real):
    """Stand-in for numpy.float32 and numpy.float16."""

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real)

        def __subclasscheck__(cls, c):
            return isinstance(c, type) and issubclass(c, real)

        def __call__(cls, x=0.0):
            if isinstance(x, (Sym, F)):
                return narrow_value(sym(x), np.dtype(real).name)
            if has_sym(x):
                return _narrowed(array(x), real)
            return real(x)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

    return Meta(real.__name__, (), {"_narrow": real})


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Sym, float))

    def __subclasscheck__(cls, c):
        return issubclass(c, (Sym, float)) if isinstance(c, type) else False

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, F):
            return sym(x)
        if isinstance(x, np.ndarray) and has_sym(x):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return next(iter(x.flat))
        if isinstance(x, LazyRank):
            return float(int(x))
        return float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class FloatProxy(metaclass=FloatMeta):
    fromhex = staticmethod(float.fromhex)
    __name__ = "float"


class IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym) and not x.is_const():
            return x.__trunc__()
        if isinstance(x, (Sym, F, LazyRank)):
            return int(x)
        return int(x, *a) if a else int(x)


class IntProxy(metaclass=IntMeta):
    pass


def _generic(real):
    """Delegate to the real function; if it cannot process symbolic objects, ask for a concrete run."""

    def g(*a, **k):
        if "dtype" in k:
            k["dtype"] = real_dtype(k["dtype"])
            if k["dtype"] in (float, np.float64) and (has_sym(a) or has_sym(k)):
                k["dtype"] = _obj
            elif narrow_type(k["dtype"]) and (has_sym(a) or has_sym(k)):
                return _narrowed(g(*a, **dict(k, dtype=_obj)), k["dtype"])
        try:
            r = real(*a, **k)
        except (TypeError, AttributeError, np.exceptions.DTypePromotionError) as e:
            if has_sym(a) or has_sym(k):
                raise Concretize(f"{getattr(real, '__name__', real)}: {e}") from None
            raise
        return r

    g.__name__ = getattr(real, "__name__", "f")
    return g


class ModProxy(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, k):
        over = self.__dict__["_over"]
        if k in over:
            v = over[k]
            if isinstance(v, property):
                return v.fget(self)
            return v
        v = getattr(self.__dict__["_real"], k)
        if isinstance(v, np.ufunc):
            over[k] = UfuncProxy(v)
            return over[k]
        if isinstance(v, types.ModuleType):
            return v
        if callable(v) and not isinstance(v, type):
            over[k] = _generic(v)
            return over[k]
        return v

    def __dir__(self):
        return dir(self.__dict__["_real"])


class UfuncProxy:
    def __init__(self, u):
        self._u = u

    def __call__(self, *a, **k):
        return _generic(self._u)(*a, **k)

    def __getattr__(self, n):
        v = getattr(self._u, n)
        return _generic(v) if callable(v) else v


class WrapUfunc(UfuncProxy):
    """A ufunc whose call is overridden but whose methods (reduce, outer, ...) are numpy's."""

    def __init__(self, u, call):
        self._u = u
        self._call = call

    def __call__(self, *a, **k):
        return self._call(*a, **k)


def _pi_prop(_):
    return S.PI()


class _Vectorize:
    def __init__(self, pyfunc, *a, **k):
        self.f = pyfunc
        self.a, self.k = a, k
        self._plain = np.vectorize(pyfunc, *a, **{x: (real_dtype(v) if x == "otypes" else v) for x, v in k.items() if x != "otypes"})
        self.__name__ = getattr(pyfunc, "__name__", "vectorized")

    def __call__(self, *args, **kw):
        if self._plain.signature is not None:
            return self._plain(*args, **kw)
        arrs = [np.asarray(x, dtype=object) if has_sym(x) or not isinstance(x, np.ndarray) else x for x in args]
        if arrs and np.broadcast_shapes(*[np.shape(x) for x in arrs]) and 0 in np.broadcast_shapes(*[np.shape(x) for x in arrs]):
            return self._plain(*args, **kw)
        bs = np.broadcast_arrays(*arrs)
        out = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = self.f(*[b[i] for b in bs], **kw)
        if out.size and all(isinstance(e, (bool, np.bool_)) for e in out.flat):
            out = out.astype(bool)
        return out if out.dtype == bool else out.view(SArr)


def _cross(a, b, *args, **k):
    if has_sym(a) or has_sym(b):
        a = _map(sym, arr(a))
        b = _map(sym, arr(b))
    a, b = arr(a), arr(b)
    if a.ndim == b.ndim == 1 and _obj in (a.dtype, b.dtype) and not args and not k:
        return view(_generic(np.cross)(a.astype(_obj)[None], b.astype(_obj)[None])[0])  # np.cross drops the dtype of scalars
    return view(_generic(np.cross)(a, b, *args, **k))


def _apply(name):
    return _generic(getattr(np, name))


def _nanfree(name):
    return lambda a, *x, **k: getattr(np, name)(arr(a), *x, **k)


_MATH_ONLY_FINITE = {}


def _m_sin(x):
    return S.trig_of(x)[1] if isinstance(x, Sym) else math.sin(x)


def _m_cos(x):
    return S.trig_of(x)[0] if isinstance(x, Sym) else math.cos(x)


def _m_tan(x):
    return x.tan() if isinstance(x, Sym) else math.tan(x)


def _copysign(x, y):
    x = abs(x)
    return x if bool(y >= 0) else -x


def _norm_list(xs):
    return S.vec_norm(list(xs))


def _either(symf, realf):
    def g(*a, **k):
        if has_sym(a):
            return symf(*a, **k)
        return realf(*a, **k)

    return g


def _dist(p, q):
    if len(p) != len(q):
        raise ValueError("both points must have the same number of dimensions")
    return _norm_list([a - b for a, b in zip(p, q)]) if has_sym(p) or has_sym(q) else math.dist(p, q)


def _sumprod(p, q):
    p, q = list(p), list(q)
    if len(p) != len(q):
        raise ValueError("Inputs are not the same length")
    return _fsum([x * y for x, y in zip(p, q)])


_SPECIAL = {-1, -0.5, 0, 0.5, 1}


def _angle_of(symf, realf):
    """Inverse trigonometric function: exact angles for the numbers that have one (-1, 0, 1, ...), also when plain."""

    def g(*a, **k):
        if has_sym(a):
            return symf(*a, **k)
        if not k and S.ENGINE() is not None and all(isinstance(x, (int, float, np.floating, np.integer)) for x in a):
            if all(float(x) in _SPECIAL for x in a):
                return symf(*[sym(x) for x in a])
        return realf(*a, **k)

    return g


def _fsum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def _prod(xs, start=1):
    t = start
    for x in xs:
        t = t * x
    return t


MATH_OVER = {
    "isclose": isclose,
    "sqrt": _either(S.math_sqrt, math.sqrt),
    "acos": _angle_of(lambda x: S.acos(x), math.acos),
    "asin": _angle_of(lambda x: S.asin(x), math.asin),
    "atan2": _angle_of(S.atan2, math.atan2),
    "atan": _angle_of(lambda x: S.atan2(x, Sym(ONE)), math.atan),
    "sin": _m_sin,
    "cos": _m_cos,
    "tan": _m_tan,
    "hypot": _either(lambda *a: _norm_list(a), math.hypot),
    "dist": lambda p, q: _dist(list(p), list(q)),
    "fabs": _either(abs, math.fabs),
    "isfinite": _either(lambda x: True, math.isfinite),
    "isnan": _either(lambda x: False, math.isnan),
    "isinf": _either(lambda x: False, math.isinf),
    "copysign": _either(_copysign, math.copysign),
    "degrees": _either(lambda x: x * 180 / S.PI(), math.degrees),
    "radians": _either(lambda x: x * S.PI() / 180, math.radians),
    "pow": _either(lambda x, y: x**y, math.pow),
    "fsum": lambda xs: _either(_fsum, math.fsum)(list(xs)),
    "sumprod": _sumprod,
    "prod": lambda xs, start=1: _prod(list(xs), start),
    "floor": _either(lambda x: int(x.__floor__()), math.floor),
    "ceil": _either(lambda x: int(x.__ceil__()), math.ceil),
    "trunc": _either(lambda x: int(x), math.trunc),
    "exp": _either(lambda x: x.exp(), math.exp),
    "log": _either(lambda x, *a: x.exp(), math.log),
    "log10": _either(lambda x: x.exp(), math.log10),
    "fmod": _either(lambda x, y: x % y, math.fmod),
    "pi": property(_pi_prop),
    "tau": property(lambda _: S.PI() * 2),
}


class MathProxy(ModProxy):
    def __getattr__(self, k):
        over = self.__dict__["_over"]
        if k in over:
            v = over[k]
            return v.fget(self) if isinstance(v, property) else v
        return getattr(self.__dict__["_real"], k)


LINALG = None
NP = None
MATH = None


def build():
    global LINALG, NP, MATH
    if NP is not None:
        return
    lin_over = {
        "norm": norm,
        "det": det,
        "solve": solve,
        "inv": inv,
        "pinv": inv,
        "lstsq": lstsq,
        "matrix_rank": matrix_rank,
        "svd": svd,
        "eigh": eigh,
        "LinAlgError": np.linalg.LinAlgError,
    }
    LINALG = ModProxy("numpy.linalg", np.linalg, lin_over)
    u = lambda name, f: WrapUfunc(getattr(np, name), _unary(name, f))
    b = lambda name, f: WrapUfunc(getattr(np, name), _binary(name, f))
    asc = lambda f: (lambda e: f(e) if isinstance(e, Sym) else f(sym(e)))
    over = {
        "linalg": LINALG,
        "ndarray": SArr,
        "array_repr": _text(np.array_repr),
        "array2string": _text(np.array2string),
        "array_str": _text(np.array_str),
        "isfinite": isfinite,
        "isnan": isnan,
        "isinf": isinf,
        "sign": u("sign", sign1),
        "sqrt": u("sqrt", S.np_sqrt),
        "square": u("square", lambda e: e * e),
        "abs": u("absolute", _abs1),
        "absolute": u("absolute", _abs1),
        "fabs": u("absolute", _abs1),
        "sin": u("sin", asc(lambda e: S.trig_of(e)[1])),
        "cos": u("cos", asc(lambda e: S.trig_of(e)[0])),
        "tan": u("tan", asc(lambda e: e.tan())),
        "arccos": WrapUfunc(np.arccos, _angle_of(_unary("arccos", asc(lambda e: S.acos(e, True))), np.arccos)),
        "arcsin": WrapUfunc(np.arcsin, _angle_of(_unary("arcsin", asc(lambda e: S.asin(e, True))), np.arcsin)),
        "arctan": WrapUfunc(np.arctan, _angle_of(_unary("arctan", asc(lambda e: e.arctan())), np.arctan)),
        "degrees": u("degrees", asc(lambda e: e.degrees())),
        "rad2deg": u("rad2deg", asc(lambda e: e.degrees())),
        "radians": u("radians", asc(lambda e: e.radians())),
        "deg2rad": u("deg2rad", asc(lambda e: e.radians())),
        "reciprocal": u("reciprocal", lambda e: 1 / sym(e)),
        "arctan2": WrapUfunc(np.arctan2, _angle_of(_binary("arctan2", np_atan2), np.arctan2)),
        "hypot": b("hypot", hypot2),
        "maximum": b("maximum", _max2),
        "minimum": b("minimum", _min2),
        "fmax": b("fmax", _max2),
        "fmin": b("fmin", _min2),
        "clip": clip,
        "isclose": np_isclose,
        "allclose": np_allclose,
        "array_equal": array_equal,
        **{n: WrapUfunc(getattr(np, n), _compare_fn(n, op)) for n, op in COMPARISONS.items()},
        "array": array,
        "asarray": asarray,
        "fromiter": fromiter,
        "asanyarray": asanyarray,
        "ascontiguousarray": asarray,
        "asfarray": asarray,
        "zeros": zeros,
        "ones": ones,
        "empty": empty,
        "full": full,
        "zeros_like": _like(0),
        "empty_like": _like(0),
        "ones_like": _like(1),
        "eye": eye,
        "identity": lambda n, dtype=None: eye(n),
        "linspace": linspace,
        "block": block,
        "unique": unique,
        "std": std,
        "var": var,
        "sort": sort,
        "cross": _cross,
        "float64": Float64Proxy,
        "double": Float64Proxy,
        "float32": narrow_proxy(np.float32),
        "single": narrow_proxy(np.float32),
        "float16": narrow_proxy(np.float16),
        "half": narrow_proxy(np.float16),
        "vectorize": _Vectorize,
        "pi": property(_pi_prop),
        "round": around,
        "around": around,
        "round_": around,
        "copysign": b("copysign", _copysign),
    }
    NP = ModProxy("numpy", np, over)
    MATH = MathProxy("math", math, MATH_OVER)


# ----------------------------------------------------------------- builtins


def _round(x, nd=None):
    if isinstance(x, Sym):
        return x.__round__(nd)
    if isinstance(x, np.ndarray):
        return around(x, nd or 0)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def make_builtins(importer):
    d = dict(vars(builtins))
    d["float"] = FloatProxy
    d["int"] = IntProxy
    d["round"] = _round
    d["__import__"] = importer
    return d
