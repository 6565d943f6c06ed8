"""Sparse multivariate polynomials over Q with integer-indexed variables.

A polynomial is a dict {monomial: coefficient}; a monomial is a tuple of
(variable, exponent) pairs sorted by variable.  Coefficients are int or
Fraction (ints whenever possible).  Polynomials are treated as immutable.

Some variables are *generators* of algebraic extensions: a square-root
generator s has a defining polynomial P and every s^2 is rewritten to P, so a
polynomial is always kept reduced modulo the generators' equations.
"""
from __future__ import annotations

from fractions import Fraction
from math import gcd, isqrt

ONE_M = ()

_mul_cache: dict = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    key = (a, b)
    r = _mul_cache.get(key)
    if r is not None:
        return r
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    r = tuple(out)
    if len(_mul_cache) > 400000:
        _mul_cache.clear()
    _mul_cache[key] = r
    return r


def mono_div(a, b):
    """a / b or None."""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x == 0:
            del d[v]
        else:
            d[v] = x
    return tuple(sorted(d.items()))


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Budget(Exception):
    """A polynomial grew beyond the size limit."""


MAX_TERMS = 60000


class Ring:
    """Variables and generator definitions; shared by all paths of one case."""

    def __init__(self):
        self.names: list[str] = []
        self.gens: dict[int, Poly] = {}  # generator var -> polynomial equal to its square

    def new_var(self, name):
        self.names.append(name)
        return len(self.names) - 1

    def reset(self):
        _SOSB.clear()
        self.names.clear()
        self.gens.clear()


RING = Ring()


_SOSB: dict = {}


class Poly:
    __slots__ = ("d", "_h", "_key")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._key = None

    # -- constructors
    @staticmethod
    def const(c):
        c = _norm(c)
        return Poly({ONE_M: c}) if c else ZERO

    @staticmethod
    def var(v):
        return Poly({((v, 1),): 1})

    # -- basic queries
    def is_zero(self):
        return not self.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and ONE_M in self.d)

    def const_value(self):
        return self.d.get(ONE_M, 0)

    def __len__(self):
        return len(self.d)

    def key(self):
        if self._key is None:
            self._key = frozenset(self.d.items())
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def vars(self):
        out = set()
        for m in self.d:
            for v, _ in m:
                out.add(v)
        return out

    def degree(self):
        return max((sum(e for _, e in m) for m in self.d), default=0)

    # -- arithmetic
    def __add__(self, o):
        a, b = self.d, o.d
        if not a:
            return o
        if not b:
            return self
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x = x + c
                if x:
                    r[m] = _norm(x)
                else:
                    del r[m]
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if not k:
            return ZERO
        if k == 1:
            return self
        return Poly({m: _norm(c * k) for m, c in self.d.items()})

    def __mul__(self, o):
        a, b = self.d, o.d
        if not a or not b:
            return ZERO
        if len(b) == 1 and ONE_M in b:
            return self.scale(b[ONE_M])
        if len(a) == 1 and ONE_M in a:
            return o.scale(a[ONE_M])
        r: dict = {}
        gens = RING.gens
        red = False
        if len(a) * len(b) > 3000000:
            raise Budget("polynomial product too large")
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                x = r.get(m)
                r[m] = c1 * c2 if x is None else x + c1 * c2
        d = {}
        for m, c in r.items():
            if c:
                d[m] = _norm(c)
                if not red:
                    for v, e in m:
                        if e > 1 and v in gens:
                            red = True
                            break
        if len(d) > MAX_TERMS:
            raise Budget("polynomial too large")
        p = Poly(d)
        return p.reduce() if red else p

    def reduce(self):
        """Rewrite s^2 -> P for every generator s."""
        gens = RING.gens
        while True:
            keep = {}
            todo: dict = {}
            for m, c in self.d.items():
                hit = None
                # highest generator first: its definition may mention lower ones
                for v, e in reversed(m):
                    if e > 1 and v in gens:
                        hit = (v, e)
                        break
                if hit is None:
                    keep[m] = c
                else:
                    todo.setdefault(hit, {})[m] = c
            if not todo:
                return self
            acc = Poly(keep)
            for (v, e), terms in todo.items():
                k, odd = divmod(e, 2)
                stripped = {}
                for m, c in terms.items():
                    l = [(a, b) for a, b in m if a != v]
                    if odd:
                        l.append((v, 1))
                        l.sort()
                    stripped[tuple(l)] = c
                p = Poly(stripped)
                g = gens[v]
                for _ in range(k):
                    p = p * g
                acc = acc + p
            self = acc

    def pow(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    # -- structure
    def content(self):
        """Positive rational c with self = c * (primitive integer polynomial)."""
        num = 0
        den = 1
        for c in self.d.values():
            if type(c) is int:
                num = gcd(num, c)
            else:
                num = gcd(num, c.numerator)
                den = den * c.denominator // gcd(den, c.denominator)
        return _norm(Fraction(num, den)) if den != 1 else (num or 1)

    def lead(self):
        """Leading monomial in lex order (variable 0 biggest)."""
        return max(self.d, key=_lexkey)

    def primitive(self):
        """(c, p): self = c * p, p primitive integer with positive leading coefficient."""
        if not self.d:
            return 0, self
        c = self.content()
        if self.d[self.lead()] < 0:
            c = -c
        if c == 1:
            return 1, self
        inv = Fraction(1) / c
        return c, Poly({m: _norm(x * inv) for m, x in self.d.items()})

    def mono_content(self):
        """gcd of all monomials."""
        it = iter(self.d)
        g = dict(next(it))
        for m in it:
            if not g:
                break
            dm = dict(m)
            for v in list(g):
                e = min(g[v], dm.get(v, 0))
                if e:
                    g[v] = e
                else:
                    del g[v]
        return tuple(sorted(g.items()))

    def div_mono(self, m):
        if not m:
            return self
        return Poly({mono_div(k, m): c for k, c in self.d.items()})

    def exact_div(self, o):
        """self / o as a polynomial, or None when not divisible (free polynomial ring)."""
        if not self.d:
            return self
        if len(o.d) == 1:
            (m, c), = o.d.items()
            out = {}
            inv = Fraction(1) / c
            for k, x in self.d.items():
                q = mono_div(k, m)
                if q is None:
                    return None
                out[q] = _norm(x * inv)
            return Poly(out)
        if len(self.d) < 2:
            return None
        lo = o.lead()
        # quick rejection on variables and on the trailing monomial
        ov = o.vars()
        if not ov <= self.vars():
            return None
        to = min(o.d, key=_lexkey)
        if mono_div(min(self.d, key=_lexkey), to) is None or mono_div(self.lead(), lo) is None:
            return None
        co = Fraction(o.d[lo])
        rem = dict(self.d)
        quo = {}
        oi = [(m, c) for m, c in o.d.items() if m != lo]
        steps = 0
        import heapq
        heap = [(_neg(m), m) for m in rem]
        heapq.heapify(heap)
        while rem:
            steps += 1
            if steps > 20000:
                return None
            while heap:
                _, lm = heap[0]
                if lm in rem:
                    break
                heapq.heappop(heap)
            q = mono_div(lm, lo)
            if q is None:
                return None
            c = _norm(rem.pop(lm) / co)
            heapq.heappop(heap)
            quo[q] = c
            for m, x in oi:
                mm = mono_mul(q, m)
                y = rem.get(mm)
                if y is None:
                    rem[mm] = _norm(-c * x)
                    heapq.heappush(heap, (_neg(mm), mm))
                else:
                    y = y - c * x
                    if y:
                        rem[mm] = _norm(y)
                    else:
                        del rem[mm]
        return Poly(quo)

    def poly_sqrt(self):
        """T with T*T == self (free ring), or None."""
        if not self.d:
            return self
        lm = self.lead()
        if any(e % 2 for _, e in lm):
            return None
        c = Fraction(self.d[lm])
        if c < 0:
            return None
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n != c.numerator or d * d != c.denominator:
            return None
        if len(self.d) > 2000:
            return None
        rt = _norm(Fraction(n, d))
        m0 = tuple((v, e // 2) for v, e in lm)
        t = Poly({m0: rt})
        rem = self - _free_mul(t, t)
        steps = 0
        while rem.d:
            steps += 1
            if steps > 400:
                return None
            lr = rem.lead()
            q = mono_div(lr, m0)
            if q is None:
                return None
            if _lexkey(q) >= _lexkey(min(t.d, key=_lexkey)):
                return None
            cc = _norm(Fraction(rem.d[lr]) / (2 * rt))
            nt = Poly({q: cc})
            rem = rem - _free_mul(t.scale(2), nt) - _free_mul(nt, nt)
            t = t + nt
        return t

    def is_sos_shape(self):
        """Every monomial even and every coefficient positive (so >= 0 everywhere)."""
        gens = NONNEG_VARS
        for m, c in self.d.items():
            if c < 0:
                return False
            for v, e in m:
                if e % 2 and v not in gens:
                    return False
        return True

    def is_sos_binomial(self):
        """Recognises sums of c*(m1 +- m2)^2 and positive squares (greedy allocation): a sound >= 0 certificate."""
        r = _SOSB.get(self)
        if r is None:
            r = _SOSB[self] = self._sos_binomial()
        return r

    def _sos_binomial(self):
        if len(self.d) > 400:
            return False
        left = {}
        cross = []
        for m, c in self.d.items():
            if all(e % 2 == 0 for _, e in m):
                if c < 0:
                    return False
                left[m] = Fraction(c)
            elif all(e % 2 == 0 or v in NONNEG_VARS for v, e in m) and c > 0:
                continue
            else:
                cross.append((m, abs(Fraction(c))))
        halves = {m: tuple((v, e // 2) for v, e in m) for m in left}
        byprod = {}
        hl = sorted(halves.items())
        for i in range(len(hl)):
            for j in range(i + 1, len(hl)):
                d = dict(hl[i][1])
                for v, e in hl[j][1]:
                    d[v] = d.get(v, 0) + e
                byprod.setdefault(tuple(sorted(d.items())), []).append((hl[i][0], hl[j][0]))
        cross = [(len(byprod.get(m, ())), m, c) for m, c in cross]
        if any(n == 0 for n, _, _ in cross):
            return False
        cross.sort(key=lambda t: t[0])
        for n, m, c in cross:
            # c*|a b| <= c/2 a^2 + c/2 b^2 (weights may be unbalanced only when exhausted exactly)
            for a, b in byprod[m]:
                t = min(c, 2 * left[a], 2 * left[b])
                if t > 0:
                    left[a] -= t / 2
                    left[b] -= t / 2
                    c -= t
                if c == 0:
                    break
                if t and c:  # weighted square using up both
                    left[a] += t / 2
                    left[b] += t / 2
                    if (c + t) ** 2 <= 4 * left[a] * left[b]:
                        left[a] = left[b] = Fraction(0)
                        c = 0
                        break
                    left[a] -= t / 2
                    left[b] -= t / 2
            if c:
                return False
        return True

    def evalf(self, env):
        t = 0.0
        for m, c in self.d.items():
            x = float(c)
            for v, e in m:
                x *= env[v] ** e
            t += x
        return t

    def eval_exact(self, env):
        t = 0
        for m, c in self.d.items():
            x = c
            for v, e in m:
                x = x * env[v] ** e
            t = t + x
        return t

    def __repr__(self):
        if not self.d:
            return "0"
        parts = []
        for m, c in sorted(self.d.items(), key=lambda t: _lexkey(t[0]), reverse=True):
            s = "*".join(f"{RING.names[v]}" + (f"^{e}" if e > 1 else "") for v, e in m)
            parts.append(f"{c}" + ("*" + s if s else ""))
            if len(parts) > 12:
                parts.append(f"...({len(self.d)} terms)")
                break
        return " + ".join(parts)


NONNEG_VARS: set = set()


def _lexkey(m):
    # lex with smaller variable index more significant
    return tuple((-v, e) for v, e in m)


class _neg:
    __slots__ = ("k",)

    def __init__(self, m):
        self.k = _lexkey(m)

    def __lt__(self, o):
        return self.k > o.k

    def __eq__(self, o):
        return self.k == o.k


def _free_mul(a, b):
    r: dict = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mono_mul(m1, m2)
            x = r.get(m, 0) + c1 * c2
            if x:
                r[m] = _norm(x)
            else:
                r.pop(m, None)
    return Poly(r)


ZERO = Poly({})
ONE = Poly({ONE_M: 1})
