"""Case contexts: one case function runs symbolically (SymCtx) and concretely (ConcCtx).

A case draws inputs, calls the public API of skspatial and states checks.  In
symbolic mode inputs are variables and checks are solver obligations; in
concrete mode inputs are given numbers, the real package runs on real numpy,
and a check fails only when it is violated beyond a rounding tolerance.
"""
from __future__ import annotations

import math
import os
import time
from fractions import Fraction

import numpy as np


class Out:
    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def raised(self):
        return self.exc is not None

    @property
    def ok(self):
        return self.exc is None

    def is_exc(self, *types):
        return self.exc is not None and isinstance(self.exc, types)


SHOW_EXC = bool(os.environ.get("SKS_SOUND"))
CASES: dict[str, "Case"] = {}


class Case:
    def __init__(self, prop, name, fn, params, opts):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.params = params
        self.opts = opts

    @property
    def id(self):
        p = ",".join(f"{k}={v}" for k, v in self.params.items())
        return f"{self.prop}/{self.name}" + (f"[{p}]" if p else "")


def case(prop, params=None, tier="quick", **opts):
    """Register a case.  opts: bound (text), sort_unique, slow, ..."""

    def deco(fn):
        for p in params or [{}]:
            c = Case(prop, fn.__name__, fn, p, dict(opts, tier=p.get("_tier", tier)))
            c.params = {k: v for k, v in p.items() if not k.startswith("_")}
            assert c.id not in CASES, c.id
            CASES[c.id] = c
        return fn

    return deco


def exact_sqrt(x):
    x = Fraction(x)
    if x < 0:
        return None
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    return Fraction(n, d) if n * n == x.numerator and d * d == x.denominator else None


# ------------------------------------------------------------ shared helpers


class Base:
    """Spec-side arithmetic, identical in both modes."""

    def vec(self, name, n, **k):
        return [self.real(f"{name}{i}", **k) for i in range(n)]

    def pts(self, name, m, n, **k):
        return [self.vec(f"{name}{j}_", n, **k) for j in range(m)]

    @staticmethod
    def add(u, v):
        return [a + b for a, b in zip(u, v)]

    @staticmethod
    def sub(u, v):
        return [a - b for a, b in zip(u, v)]

    @staticmethod
    def mul(k, v):
        return [k * a for a in v]

    @staticmethod
    def dot(u, v):
        t = 0
        for a, b in zip(u, v):
            t = t + a * b
        return t

    def norm2(self, u):
        return self.dot(u, u)

    @staticmethod
    def cross(u, v):
        u = list(u) + [0] * (3 - len(u))
        v = list(v) + [0] * (3 - len(v))
        return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]

    def norm(self, u):
        return self.sqrt(self.norm2(u))

    def dist(self, p, q):
        return self.norm(self.sub(q, p))

    def lagrange(self, u, v):
        """|u|^2|v|^2 - (u.v)^2 as a sum of squares (zero iff parallel)."""
        t = 0
        n = len(u)
        for i in range(n):
            for j in range(i + 1, n):
                w = u[i] * v[j] - u[j] * v[i]
                t = t + w * w
        return t

    @staticmethod
    def det(m, cols=None):
        """Determinant of (the given columns of) a matrix by cofactor expansion."""
        m = [list(r) if cols is None else [r[c] for c in cols] for r in m]
        if len(m) == 1:
            return m[0][0]
        t = 0
        for j in range(len(m)):
            x = m[0][j] * Base.det([r[:j] + r[j + 1:] for r in m[1:]])
            t = t + x if j % 2 == 0 else t - x
        return t

    def minors2(self, u, v):
        n = len(u)
        return [u[i] * v[j] - u[j] * v[i] for i in range(n) for j in range(i + 1, n)]

    def parallel(self, u, v):
        return self.all_([self.eq(m, 0) for m in self.minors2(u, v)]) if len(u) > 1 else self.true

    def zero(self, u):
        return self.all_([self.eq(a, 0) for a in u])

    def eqv(self, a, b):
        a, b = self.flat(a), self.flat(b)
        if len(a) != len(b):
            return self.false
        return self.all_([self.eq(x, y) for x, y in zip(a, b)])

    def nonzero(self, v):
        self.assume(self.not_(self.zero(v)))

    def implies(self, a, b):
        return self.any_([self.not_(a), b])

    def iff(self, a, b):
        return self.all_([self.implies(a, b), self.implies(b, a)])

    def vals(self, x):
        """Scalars of a 1D array / sequence."""
        return [e for e in self.flat(x)]

    def rows(self, x):
        a = np.asarray(x)
        return [[self.unwrap(e) for e in r] for r in a]

    def flat(self, x):
        if isinstance(x, np.ndarray):
            return [self.unwrap(e) for e in np.asarray(x).flat]
        if isinstance(x, (list, tuple)):
            out = []
            for e in x:
                out += self.flat(e) if isinstance(e, (list, tuple, np.ndarray)) else [self.unwrap(e)]
            return out
        return [self.unwrap(x)]

    def call(self, fn, *a, obs=True, **k):
        try:
            r = Out(fn(*a, **k))
        except Exception as e:
            if e.__class__.__name__ == "Budget":
                raise
            r = Out(exc=e)
            if SHOW_EXC and not isinstance(e, (ValueError, TypeError)):
                import traceback

                traceback.print_exc()
        if obs:
            self.observe(r)
        return r

    def expect(self, label, fn, *a, **k):
        """Call that must not raise; returns the value (or None after recording the failure)."""
        r = self.call(fn, *a, **k)
        if r.raised:
            self.fail(label, f"raised {type(r.exc).__name__}: {r.exc}")
            self.stop()
        return r.value

    def check_value_error(self, label, out):
        """An out-of-domain input must be rejected with ValueError."""
        if not out.raised:
            self.fail(label, "no exception")
        elif not isinstance(out.exc, ValueError):
            self.fail(label, f"{type(out.exc).__name__} instead of ValueError: {out.exc}")
        else:
            self.check(label, self.true)

    def observe(self, r):
        self.observations.append(r)


class StopCase(BaseException):
    """End the current path of a case early."""


# -------------------------------------------------------------- concrete mode


class CF:
    """Three-valued truth: True / False / None (too close to call)."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"CF({self.v})"


class Skip(BaseException):
    """Concrete inputs outside the case's assumptions."""


TOL = 1e-6


class ConcCtx(Base):
    mode = "concrete"

    def __init__(self, inputs, variant="list", params=None):
        self.inputs = inputs
        self.variant = variant
        self.violations = []
        self.checks = 0
        self.observations = []
        self.true = CF(True)
        self.false = CF(False)
        self.pi = math.pi
        self.strict = None
        self.loose = False

    # inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False, box=None):
        if name not in self.inputs:
            self.inputs[name] = Fraction(1)
        x = Fraction(self.inputs[name])
        # the real run sees the nearest double; the spec uses that same exact value
        x = Fraction(float(x))
        if pos and x <= 0 or nonneg and x < 0 or nonzero and x == 0:
            raise Skip(name)
        if lo is not None and x < lo or hi is not None and x > hi:
            raise Skip(name)
        return x

    def arr(self, v):
        def conv(x):
            if isinstance(x, (list, tuple)):
                return [conv(e) for e in x]
            return self.num(x)

        l = conv(v)
        if self.variant == "tuple":
            return tuple(tuple(e) if isinstance(e, list) else e for e in l)
        if self.variant in ("ndarray", "int"):
            return np.array(l)
        return l

    def nd(self, v):
        return np.array(self.arr(v))

    def num(self, x):
        if isinstance(x, Fraction):
            if self.variant == "int" and x.denominator == 1:
                return int(x)
            return float(x)
        return x

    def unwrap(self, e):
        if isinstance(e, np.generic):
            return e.item()
        return e

    # formulas
    @staticmethod
    def _exact(*xs):
        return all(isinstance(x, (int, Fraction)) and not isinstance(x, bool) for x in xs)

    def _tie(self, a, b):
        """Exact numbers too close to hold the code to one side: only where nothing refuted the check (loose)."""
        if not self.loose or type(a) is int and type(b) is int:
            return False
        return abs(a - b) <= Fraction(1, 10**9) * max(abs(a), abs(b))

    @property
    def thin(self):
        """Whether to state checks that hold on thin sets only: always decided symbolically, replayed where refuted."""
        return self.strict is not None

    def set_strict(self, on):
        """Tolerance for inputs at which the exact check is refuted: just above rounding, relative to the inputs."""
        self.strict = None
        if on:
            m = max([abs(float(x)) for x in self.inputs.values()] or [1.0])
            self.strict = 1e-12 * m + 1e-13 * m * m if m >= 1 else 1e-12 * m

    def _tol(self, a, b):
        if self.strict is not None:
            return 1e-10 * min(abs(a), abs(b)) + self.strict
        return TOL * (1 + min(abs(a), abs(b)))

    def multiple(self, x, unit):
        """x is a whole multiple of unit."""
        q = float(self.unwrap(x)) / float(unit)
        return CF(abs(q - round(q)) <= 1e-9 * (1 + abs(q)))

    def eq(self, a, b):
        a, b = self.unwrap(a), self.unwrap(b)
        if isinstance(a, bool) or isinstance(b, bool):
            return CF(bool(a) == bool(b))
        if self._exact(a, b):
            return CF(None if self._tie(a, b) else a == b)
        a, b = float(a), float(b)
        if not (math.isfinite(a) and math.isfinite(b)) or (self.strict is not None and a == b):
            return CF(a == b)
        return CF(None if abs(a - b) <= self._tol(a, b) else False)

    def le(self, a, b):
        a, b = self.unwrap(a), self.unwrap(b)
        if self._exact(a, b):
            return CF(None if self._tie(a, b) else a <= b)
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return CF(False)
        if math.isinf(a) or math.isinf(b):
            return CF(a <= b)
        if self.strict is not None and a == b:
            return CF(True)
        t = self._tol(a, b)
        return CF(True if a <= b - t else (False if a > b + t else None))

    def lt(self, a, b):
        a, b = self.unwrap(a), self.unwrap(b)
        if self._exact(a, b):
            return CF(None if self._tie(a, b) else a < b)
        if self.strict is not None and float(self.unwrap(a)) == float(self.unwrap(b)):
            return CF(False)
        return self.le(a, b)

    def ge(self, a, b):
        return self.le(b, a)

    def gt(self, a, b):
        return self.lt(b, a)

    def ne(self, a, b):
        return self.not_(self.eq(a, b))

    def not_(self, a):
        return CF(None if a.v is None else not a.v)

    def all_(self, fs):
        fs = list(fs)
        if any(f.v is False for f in fs):
            return CF(False)
        return CF(None if any(f.v is None for f in fs) else True)

    def any_(self, fs):
        fs = list(fs)
        if any(f.v is True for f in fs):
            return CF(True)
        return CF(None if any(f.v is None for f in fs) else False)

    def close(self, a, b, rel_tol=1e-9, abs_tol=0):
        """The documented math.isclose condition as a formula."""
        a, b = self.unwrap(a), self.unwrap(b)
        if self._exact(a, b, rel_tol, abs_tol):
            t = max(Fraction(rel_tol) * max(abs(a), abs(b)), Fraction(abs_tol))
            if self._tie(abs(a - b), t) or self.loose and t == 0 and self._tie(a, b):
                return CF(None)
            return CF(abs(a - b) <= max(Fraction(rel_tol) * max(abs(a), abs(b)), Fraction(abs_tol)) or a == b)
        a, b, rel_tol, abs_tol = float(a), float(b), float(rel_tol), float(abs_tol)
        d, t = abs(a - b), max(rel_tol * max(abs(a), abs(b)), abs_tol)
        slack = 1e-12 * max(abs(a), abs(b), 1e-300) + 1e-3 * t
        if d <= t - slack or (a == b and t > 0):
            return CF(True)
        if d > t + slack:
            return CF(False)
        return CF(None)

    def bool(self, x):
        """Formula from a truth value returned by the code."""
        return CF(bool(x))

    # arithmetic
    def sqrt(self, x):
        if isinstance(x, (int, Fraction)):
            if x < 0:
                raise Skip("sqrt of negative")
            r = exact_sqrt(x)
            if r is not None:
                return Fraction(r)
        return math.sqrt(max(float(x), 0.0))

    def cos(self, x):
        return math.cos(float(x))

    def sin(self, x):
        s = math.sin(float(x))
        if self.strict is not None and abs(s) < 1e-6:
            # an angle from an inverse cosine is only good to the square root of the rounding unit here
            self.strict = max(self.strict, 1e-6 * (1 + max([abs(float(v)) for v in self.inputs.values()] or [1.0])) ** 2)
        return s

    def abs(self, x):
        return abs(x)

    def max(self, *xs):
        return max(xs)

    def min(self, *xs):
        return min(xs)

    def truth(self, f):
        """Branch of the specification; only for conditions on exact inputs."""
        if f.v is None:
            raise Skip("boundary")
        return f.v

    # statements
    def assume(self, f):
        if f.v is False:
            raise Skip("assumption")

    def check(self, label, f, detail=None):
        self.checks += 1
        if f.v is False:
            self.violations.append((label, str(detail() if callable(detail) else detail or "")))

    def fail(self, label, detail=""):
        self.checks += 1
        self.violations.append((label, detail))

    def stop(self):
        raise StopCase()

    def typecheck(self, label, cond):
        """A check about Python types, meaningful only on the real objects."""
        self.checks += 1
        if not cond():
            self.violations.append((label, "wrong type"))

    def svd_known(self, *a, **k):
        pass

    def havoc(self):
        pass


# -------------------------------------------------------------- symbolic mode


class SymCtx(Base):
    mode = "symbolic"
    thin = True

    def __init__(self, engine, params=None):
        from . import sym as S

        self.S = S
        self.E = engine
        self.observations = []
        self.true = S.TRUE
        self.false = S.FALSE
        self.path_labels = []

    @property
    def pi(self):
        return self.S.PI()

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False, box=None):
        new = name not in self.E.inputs
        if nonneg or pos:
            lo = 0 if lo is None else lo
        x = self.E.input(name, (lo, hi) if lo is not None or hi is not None else None)
        if name in self.E.fixed:
            v = self.E.fixed[name]
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                raise self.S.Infeasible()
        if pos:
            self.E.assume(x > 0)
        if nonzero:
            self.E.assume(x != 0)
        return x

    def arr(self, v):
        def conv(x):
            if isinstance(x, (list, tuple)):
                return [conv(e) for e in x]
            return self.num(x)

        return conv(v)

    def nd(self, v):
        from .npshim import SArr

        return np.array(self.arr(v), dtype=object).view(SArr)

    def num(self, x):
        return x if not isinstance(x, Fraction) else self.S.sym(x)

    def unwrap(self, e):
        if isinstance(e, np.generic):
            return e.item()
        return e

    def _nf(self, a, b):
        nf = self.S._nonfinite
        return nf(a) or nf(b)

    def _s(self, x):
        return self.S.sym(x)

    def multiple(self, x, unit):
        x = self._s(x)
        if x.den:
            return self.false
        for m, c in x.n.d.items():
            g = Fraction(c) / Fraction(unit)
            for v, e in m:
                _, nd, how = self.E.round_of.get(v, (None, 0, ""))
                if how not in ("round", "floor"):
                    return self.false
                g = g / Fraction(10) ** (nd * e)
            if g.denominator != 1:
                return self.false
        return self.true

    def eq(self, a, b):
        if isinstance(a, (bool, self.S.F)) or isinstance(b, (bool, self.S.F)):
            a, b = self.S.as_formula(a), self.S.as_formula(b)
            return self.S.f_or([self.S.f_and([a, b]), self.S.f_and([self.S.f_not(a), self.S.f_not(b)])])
        if self._nf(a, b):
            return self.true if (not isinstance(a, self.S.Sym) and not isinstance(b, self.S.Sym) and a == b) else self.false
        return self.S.as_formula(self._s(a) == self._s(b))

    def ne(self, a, b):
        return self.S.f_not(self.eq(a, b))

    def le(self, a, b):
        if self._nf(a, b):
            return self.S.as_formula(a <= b)
        return self.S.as_formula(self._s(a) <= self._s(b))

    def lt(self, a, b):
        if self._nf(a, b):
            return self.S.as_formula(a < b)
        return self.S.as_formula(self._s(a) < self._s(b))

    def ge(self, a, b):
        return self.le(b, a)

    def gt(self, a, b):
        return self.lt(b, a)

    def not_(self, f):
        return self.S.f_not(f)

    def all_(self, fs):
        return self.S.f_and(list(fs))

    def any_(self, fs):
        return self.S.f_or(list(fs))

    def close(self, a, b, rel_tol=Fraction(1, 10**9), abs_tol=0):
        from .npshim import isclose_formula

        return isclose_formula(a, b, rel_tol, abs_tol)

    def bool(self, x):
        return self.S.as_formula(x)

    def sqrt(self, x):
        x = self._s(x)
        x.nn = True  # specification-side radicands are sums of squares or assumed non-negative
        return self.S.sym_sqrt(x)

    def norm(self, u):
        return self.S.vec_norm(u)

    def cos(self, x):
        return self.S.trig_of(self._s(x))[0]

    def sin(self, x):
        return self.S.trig_of(self._s(x))[1]

    def abs(self, x):
        return abs(self._s(x))

    def max(self, *xs):
        t = xs[0]
        for x in xs[1:]:
            t = t if bool(t >= x) else x
        return t

    def min(self, *xs):
        t = xs[0]
        for x in xs[1:]:
            t = t if bool(t <= x) else x
        return t

    def truth(self, f):
        return bool(f)

    def assume(self, f):
        self.E.assume(f)

    def check(self, label, f, detail=None):
        self.E.obligation(label, self.S.as_formula(f))

    def fail(self, label, detail=""):
        self.E.obligation(label, self.false, detail)

    def stop(self):
        raise StopCase()

    def typecheck(self, label, cond):
        pass

    def svd_known(self, U, s, Vh, flip=None):
        """Register the exact SVD of a matrix built by the case."""
        o = lambda m: np.array([[self._s(e) for e in r] for r in m], dtype=object)
        self.E.svd_registry.append((o(U), np.array([self._s(e) for e in s], dtype=object), o(Vh)))
        self.E.svd_flip = flip
