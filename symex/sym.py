"""Symbolic scalars, path exploration and solver access.

`Sym` is an exact real number given as (polynomial) / (product of polynomial
factors) over the case's input variables and over algebraic generators
(square roots, cosines/sines).  Python-level branches on symbolic conditions
call `Engine.decide`, which asks z3 which sides are feasible and explores every
feasible side by re-executing the case.
"""
from __future__ import annotations

import itertools
import math
import os
import random
import time
from fractions import Fraction

import numpy as np
import z3

from . import poly as P
from .poly import ONE, RING, ZERO, Budget, Poly

NEG, ZER, POS = 1, 2, 4
ANY = 7


class Control(BaseException):
    """Steers exploration; never caught by the code under test."""


class Infeasible(Control):
    pass


class Concretize(Control):
    def __init__(self, why):
        super().__init__(why)
        self.why = why


class EngineFailure(Control):
    """Internal error of the checker."""


class OutOfTime(Control):
    pass


class Violated(Control):
    pass


# ---------------------------------------------------------------- formulas


class F:
    __slots__ = ()

    def __and__(self, o):
        return f_and([self, as_formula(o)])

    __rand__ = __and__

    def __or__(self, o):
        return f_or([self, as_formula(o)])

    __ror__ = __or__

    def __invert__(self):
        return f_not(self)

    def __xor__(self, o):
        o = as_formula(o)
        return f_or([f_and([self, f_not(o)]), f_and([f_not(self), o])])

    __rxor__ = __xor__

    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        return ENGINE().decide(self)

    # numeric behaviour (sum of booleans, bool arithmetic) forces a decision
    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__

    def __eq__(self, o):
        if o is True or o is False or isinstance(o, (bool, np.bool_)):
            return self if o else f_not(self)
        if isinstance(o, F):
            return f_not(self ^ o)
        return int(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return f_not(r) if isinstance(r, F) else not r

    def __hash__(self):
        return id(self)

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return bool(self)


class FConst(F):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "TRUE" if self.v else "FALSE"

    def key(self):
        return self.v


TRUE = FConst(True)
FALSE = FConst(False)


class Atom(F):
    """sign(p) is in mask; p canonical (primitive, positive leading coefficient)."""

    __slots__ = ("p", "mask")

    def __init__(self, p, mask):
        self.p = p
        self.mask = mask

    def __repr__(self):
        rel = {1: "<0", 2: "=0", 4: ">0", 3: "<=0", 6: ">=0", 5: "!=0"}[self.mask]
        return f"[{self.p} {rel}]"

    def key(self):
        return (self.p, self.mask)


class FAnd(F):
    __slots__ = ("fs",)

    def __init__(self, fs):
        self.fs = fs

    def __repr__(self):
        return "(" + " & ".join(map(repr, self.fs)) + ")"

    def key(self):
        return ("&", tuple(f.key() for f in self.fs))


class FOr(F):
    __slots__ = ("fs",)

    def __init__(self, fs):
        self.fs = fs

    def __repr__(self):
        return "(" + " | ".join(map(repr, self.fs)) + ")"

    def key(self):
        return ("|", tuple(f.key() for f in self.fs))


def as_formula(x):
    if isinstance(x, F):
        return x
    return TRUE if bool(x) else FALSE


def f_and(fs):
    out = []
    for f in fs:
        f = as_formula(f)
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        if isinstance(f, FAnd):
            out.extend(f.fs)
        else:
            out.append(f)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return FAnd(out)


def f_or(fs):
    out = []
    for f in fs:
        f = as_formula(f)
        if f is TRUE:
            return TRUE
        if f is FALSE:
            continue
        if isinstance(f, FOr):
            out.extend(f.fs)
        else:
            out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return FOr(out)


def f_not(f):
    f = as_formula(f)
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if isinstance(f, Atom):
        return Atom(f.p, ANY ^ f.mask)
    if isinstance(f, FAnd):
        return f_or([f_not(x) for x in f.fs])
    return f_and([f_not(x) for x in f.fs])


def flip(mask):
    return (mask & ZER) | (POS if mask & NEG else 0) | (NEG if mask & POS else 0)


_PROD = {}
for _a in range(8):
    for _b in range(8):
        _m = 0
        for _x, _sx in ((NEG, -1), (ZER, 0), (POS, 1)):
            for _y, _sy in ((NEG, -1), (ZER, 0), (POS, 1)):
                if _a & _x and _b & _y:
                    _s = _sx * _sy
                    _m |= NEG if _s < 0 else ZER if _s == 0 else POS
        _PROD[_a, _b] = _m


def atom(p, mask):
    """Formula: sign(p) in mask."""
    if p.is_const():
        c = p.const_value()
        s = NEG if c < 0 else ZER if c == 0 else POS
        return TRUE if s & mask else FALSE
    c, q = p.primitive()
    if c < 0:
        mask = flip(mask)
    if mask == ANY:
        return TRUE
    if mask == 0:
        return FALSE
    return Atom(q, mask)


# ------------------------------------------------------------------ engine

_ENGINE = None


SLOW = bool(os.environ.get("SKS_SLOW"))
SOUND = bool(os.environ.get("SKS_SOUND"))


def ENGINE() -> "Engine":
    return _ENGINE


def set_engine(e):
    global _ENGINE
    _ENGINE = e


class Stats:
    FIELDS = (
        "paths", "decisions", "forks", "forced", "z3_queries", "z3_sat", "z3_unsat", "z3_unknown",
        "obligations", "by_normal_form", "by_z3", "undecided", "concretised", "refuted_unconfirmed",
        "assumptions", "witnesses", "budget_paths", "by_elimination",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.max_query_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = self.solver_s
        d["max_query_s"] = self.max_query_s
        return d


class Engine:
    def __init__(self, seed=1, feas_ms=700, check_ms=4000, max_paths=4000, deadline=None):
        self.seed = seed
        self.feas_ms = feas_ms
        self.check_ms = check_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.fixed = {}  # input name -> Fraction (reduced-bound slices)
        self.reset_case()

    # ---- per-case state (shared by all paths: variables are named deterministically)
    def reset_case(self):
        RING.reset()
        P.NONNEG_VARS.clear()
        self.kind: dict[int, str] = {}
        self.inputs: dict[str, int] = {}
        self.boxes: dict[str, tuple] = {}
        self.zv: dict[int, z3.ArithRef] = {}
        self.gen_memo: dict = {}
        self.gen_vectors: dict[int, list] = {}
        self.var_axioms: dict[int, list] = {}
        self.const_box: dict[int, tuple] = {}  # named constants -> rational enclosure
        self.trig: dict[int, tuple] = {}
        self.angle_memo: dict = {}
        self.zp_cache: dict = {}
        self.samples: list[dict] = []
        self.sample_env: list[dict] = []
        self.pi_var = None
        self.extra_lemmas: dict = {}
        self.round_of: dict = {}
        self.rad_memo: dict = {}
        self.div_memo: dict = {}

    def start_path(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.pc: list[F] = []
        self.facts: dict[Poly, int] = {}
        self.factor_base: list[Poly] = []
        self.nonneg_polys: dict = {}
        self.fork_points = []
        self.alive = list(range(len(self.samples)))
        self.lemmas_on = []
        self.concretised = False

    # ---- variables
    def new_var(self, name, kind):
        v = RING.new_var(name)
        self.kind[v] = kind
        self.zv[v] = z3.Real(f"{name}!{v}")
        return v

    def input(self, name, box=None):
        if name in self.fixed:
            self.inputs.setdefault(name, None)
            return Sym(Poly.const(self.fixed[name]))
        if name in self.inputs:
            v = self.inputs[name]
        else:
            v = self.new_var(name, "input")
            self.inputs[name] = v
            if box:
                self.boxes[name] = box
                lo, hi = box
                ax = []
                if lo is not None:
                    ax.append(atom(Poly.var(v) - Poly.const(lo), 6))
                if hi is not None:
                    ax.append(atom(Poly.var(v) - Poly.const(hi), 3))
                self.var_axioms[v] = ax
        return Sym(Poly.var(v))

    def make_samples(self, n=40):
        """Concrete rational points used only to find feasible branches without a solver call."""
        rng = random.Random(self.seed * 7919 + 13)
        self.rng_samples = rng
        self.samples = []
        self.sample_env = []
        for i in range(n):
            self.samples.append({"#": i})
            self.sample_env.append({})
        self._sample_rng = [random.Random(self.seed * 1009 + i) for i in range(n)]

    def sample_value(self, i, v):
        env = self.sample_env[i]
        if v in env:
            return env[v]
        k = self.kind[v]
        if k == "input":
            name = RING.names[v]
            r = random.Random(f"{self.seed}/{i}/{name}")
            box = self.boxes.get(name)
            style = i % 4
            if style == 0:
                x = r.randint(-3, 3)
            elif style == 1:
                x = r.randint(-12, 12)
            elif style == 2:
                x = Fraction(r.randint(-40, 40), r.choice((2, 4, 8, 5)))
            else:
                x = r.choice((0, 0, 1, -1, 2, r.randint(-5, 5), Fraction(r.randint(-9, 9), 4)))
            if box:
                lo, hi = box
                if (lo is not None and x < lo) or (hi is not None and x > hi):
                    l = (-8 if hi is None else hi - 10) if lo is None else lo
                    h = l + 10 if hi is None else hi
                    if style < 2 and math.ceil(l) <= math.floor(h):
                        x = r.randint(math.ceil(l), math.floor(h))
                    else:
                        x = Fraction(r.randint(int(math.floor(l * 4)), int(math.ceil(h * 4))), 4)
                    x = max(x, l)
                    if hi is not None:
                        x = min(x, h)
            x = Fraction(x) if not isinstance(x, int) else x
            env[v] = x
            return x
        if v in RING.gens:
            if k == "sgen":  # a signed sine of an angle variable
                c2 = self.sample_poly(i, RING.gens[v])
                env[v] = None if c2 is None or c2 < 0 else math.sqrt(c2)
                return env[v]
            x = self.sample_poly(i, RING.gens[v])
            if x is None or x < 0:
                env[v] = None
            else:
                r = exact_sqrt(x) if not isinstance(x, float) else None
                env[v] = r if r is not None else math.sqrt(x)
            return env[v]
        if k == "pi":
            env[v] = math.pi
            return env[v]
        if k == "round":
            x, nd, how = self.round_of[v]
            t = self.sample_poly(i, x.n)
            for f, e in x.den:
                d = self.sample_poly(i, f)
                t = None if t is None or not d else t / (Fraction(d) if not isinstance(d, float) else d) ** e
            if t is not None and how == "floor":
                t = math.floor(t)
            elif t is not None and how.startswith("float"):
                import numpy as np

                t = Fraction(float(np.dtype(how).type(float(t))))
            elif t is not None:
                t = round(Fraction(t), nd) if not isinstance(t, float) else Fraction(round(t * 10**nd), 10**nd)
            env[v] = t if t is None else P._norm(Fraction(t))
            return env[v]
        env[v] = None
        return None

    def sample_poly(self, i, p):
        env = {}
        ok = True
        for v in p.vars():
            x = self.sample_value(i, v)
            if x is None:
                return None
            env[v] = x
            if isinstance(x, float):
                ok = False
        if ok:
            return p.eval_exact(env)
        t = 0.0
        mag = 0.0
        try:
            for m, c in p.d.items():
                x = float(c)
                for v, e in m:
                    x *= float(env[v]) ** e
                t += x
                mag += abs(x)
        except OverflowError:
            return None
        if abs(t) < 1e-9 * mag:
            return None  # too close to call
        return t

    def sample_truth(self, i, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if isinstance(f, Atom):
            x = self.sample_poly(i, f.p)
            if x is None:
                return None
            return bool(f.mask & (NEG if x < 0 else ZER if x == 0 else POS))
        if isinstance(f, FAnd):
            r = True
            for g in f.fs:
                t = self.sample_truth(i, g)
                if t is False:
                    return False
                if t is None:
                    r = None
            return r
        r = False
        for g in f.fs:
            t = self.sample_truth(i, g)
            if t is True:
                return True
            if t is None:
                r = None
        return r

    # ---- knowledge about signs on the current path
    def mask_of(self, p, deep=True):
        if p.is_const():
            c = p.const_value()
            return NEG if c < 0 else ZER if c == 0 else POS
        c, q = p.primitive()
        m = self._mask_canon(q, deep)
        return flip(m) if c < 0 else m

    def _var_mask(self, v):
        q = Poly.var(v)
        m = self.facts.get(q, ANY)
        if v in P.NONNEG_VARS:
            m &= 6
            if m == 6 and v in RING.gens:
                if self._mask_canon_nogen(RING.gens[v]) == POS:
                    m = POS
        box = self.var_axioms.get(v)
        if box:
            for a in box:
                if isinstance(a, Atom) and a.p == q:
                    m &= a.mask
                elif isinstance(a, Atom) and len(a.p) == 2:
                    # v - c  (canonical) : lower bound c>0 or upper bound c<0
                    k = a.p.d.get(P.ONE_M, 0)
                    if ((v, 1),) in a.p.d:
                        if a.mask == 6 and k < 0:
                            m &= POS
                        if a.mask == 3 and k > 0:
                            m &= NEG
        return m

    def _const_range(self, q):
        """Enclosure of a polynomial in named constants (pi, sines and cosines of fixed angles), else None."""
        lo = hi = 0
        box = self.const_box
        for mono, c in q.d.items():
            a = b = c
            for v, e in mono:
                w = box.get(v)
                if w is None:
                    return None
                for _ in range(e):
                    t = (a * w[0], a * w[1], b * w[0], b * w[1])
                    a, b = min(t), max(t)
            lo, hi = lo + a, hi + b
        return lo, hi

    def _mask_canon_nogen(self, p):
        return self.mask_of(p, deep=False)

    def _mask_canon(self, q, deep):
        m = self.facts.get(q, ANY)
        if m in (NEG, ZER, POS):
            return m
        if len(q) == 1:
            (mono, c), = q.d.items()
            r = POS
            for v, e in mono:
                vm = self._var_mask(v)
                if e % 2 == 0:
                    vm = _PROD[vm, vm] & 6 if vm != ZER else ZER
                r = _PROD[r, vm]
            return m & r
        if self.const_box:
            b = self._const_range(q)
            if b is not None:
                return m & (POS if b[0] > 0 else NEG if b[1] < 0 else ANY)
        if q.is_sos_shape():
            m &= 6
            k = q.d.get(P.ONE_M, 0)
            if k and k > 0:
                return m & POS
            # sum of even monomials: zero only if every monomial is zero
            for mono in q.d:
                if all(self._var_mask(v) & ZER == 0 for v, _ in mono):
                    return m & POS
        elif len(q) > 2 and m & NEG and q.is_sos_binomial():
            m &= 6
        if q in self.nonneg_polys:
            m &= 6
        # same sign as products of known factors
        mc = q.mono_content()
        if mc and m not in (NEG, ZER, POS):
            r = self._mask_canon(Poly({mc: 1}), deep)
            rest = q.div_mono(mc)
            return m & _PROD[r, self.mask_of(rest, deep)]
        if deep and m not in (NEG, ZER, POS):
            rest = q
            r = POS
            hit = False
            for f in self.factor_base:
                if len(f) > len(rest) and len(f) > 1:
                    continue
                while True:
                    d = rest.exact_div(f)
                    if d is None:
                        break
                    hit = True
                    rest = d
                    fm = self._mask_canon(f, False)
                    r = _PROD[r, fm]
                    if rest.is_const():
                        break
                if rest.is_const():
                    break
            if hit:
                m &= _PROD[r, self.mask_of(rest, False)]
        return m

    def learn(self, f):
        """Record a formula known true on this path."""
        if isinstance(f, Atom):
            p, mask = f.p, f.mask
            old = self.facts.get(p, ANY)
            self.facts[p] = old & mask
            if len(p) == 1 and not (mask & ZER):
                (mono, _), = p.d.items()
                for v, _e in mono:
                    q = Poly.var(v)
                    self.facts[q] = self.facts.get(q, ANY) & 5
        elif isinstance(f, FAnd):
            for g in f.fs:
                self.learn(g)

    def cdiv(self, p, f):
        key = (p, f)
        r = self.div_memo.get(key, 0)
        if r == 0:
            r = self.div_memo[key] = p.exact_div(f) if len(f) <= len(p) or len(p) > 1 else None
        return r

    def strip_factors(self, f):
        """Divide an atom by factors whose sign is known and non-zero on this path."""
        p, mask = f.p, f.mask
        changed = False
        mc = p.mono_content()
        if mc:
            drop = []
            for v, e in mc:
                vm = self._var_mask(v)
                if vm & ZER:
                    continue
                if e % 2 == 0:
                    drop.append((v, e))
                elif vm in (POS, NEG):
                    drop.append((v, e))
                    if vm == NEG:
                        mask = flip(mask)
                elif e > 1:
                    drop.append((v, e - 1))
            if drop:
                p = p.div_mono(tuple(drop))
                changed = True
        if 2 < len(p) <= 1500:
            h = self.strip_radicals(p)
            if h is not None:
                p, neg = h
                changed = True
                if neg:
                    mask = flip(mask)
        if len(p) > 2 and len(p) <= 1500:
            for q in itertools.chain(list(self.gen_memo), [q for q, m in self.facts.items() if m in (POS, NEG)]):
                if q.is_const() or len(q) > len(p) or len(q) < 2:
                    continue
                if q.degree() >= p.degree():
                    continue
                while True:
                    d = self.cdiv(p, q)
                    if d is None:
                        break
                    m = self._mask_canon(q, False)
                    if m not in (POS, NEG):
                        break
                    if m == NEG:
                        mask = flip(mask)
                    p = d
                    changed = True
        return atom(p, mask) if changed else f

    def strip_radicals(self, p):
        """A*s + B with s^2 = R dividing B is s*(A + (B/R)*s): drop non-zero radicals s."""
        neg, done = False, False
        for v in sorted(p.vars()):
            R = RING.gens.get(v)
            if R is None or R.is_const() or len(R) > len(p):
                continue
            vm = self._var_mask(v)
            if vm not in (POS, NEG):
                continue
            A, B = {}, {}
            for m, c in p.d.items():
                r = tuple(t for t in m if t[0] != v)
                if len(r) == len(m):
                    B[m] = c
                else:
                    A[r] = c
            if not B or not A:
                continue
            q = self.cdiv(Poly(B), R)
            if q is None:
                continue
            p = Poly(A) + q * Poly({((v, 1),): 1})
            neg ^= vm == NEG
            done = True
        return (p, neg) if done else None

    def rad_split(self, p):
        """p = A*g1 + B*g2 with g1, g2 products of distinct non-negative radicals: (A, g1, B, g2, A^2 g1^2 - B^2 g2^2)."""
        r = self.rad_memo.get(p, 0)
        if r != 0:
            return r
        r = None
        groups = {}
        gens = RING.gens
        nn = P.NONNEG_VARS
        for m, c in p.d.items():
            g = tuple(t for t in m if t[0] in gens and t[0] in nn)
            rest = tuple(t for t in m if not (t[0] in gens and t[0] in nn))
            groups.setdefault(g, {})[rest] = c
            if len(groups) > 2:
                break
        if len(groups) == 2 and any(groups):
            (g1, a), (g2, b) = sorted(groups.items(), key=lambda t: -len(t[0]))
            A, B = Poly(a), Poly(b)
            if len(A) * len(A) + len(B) * len(B) <= 3000:
                try:
                    X, Y = A * Poly({g1: 1}), B * Poly({g2: 1})
                    r = (A, g1, B, g2, X * X - Y * Y)
                except Budget:
                    r = None
        self.rad_memo[p] = r
        return r

    def _gmask(self, g):
        m = POS
        for v, _ in g:
            m = _PROD[m, self._var_mask(v)]
        return m

    def rad_reduce(self, f):
        """Equivalent formula without the radicals when signs of the two parts are known on this path."""
        sp = self.rad_split(f.p)
        if sp is None:
            return None
        A, g1, B, g2, D = sp
        mx = _PROD[self.mask_of(A), self._gmask(g1)]
        my = _PROD[self.mask_of(B), self._gmask(g2)]
        if not mx & NEG and not my & NEG or not mx & POS and not my & POS:
            s = mx | my
            if (mx | my) & ZER and not (mx & ZER and my & ZER):
                s &= 5
            if s & ~f.mask == 0:
                return TRUE
            if s & f.mask == 0:
                return FALSE
            return None
        if not mx & NEG and not my & POS:
            return atom(D, f.mask)
        if not mx & POS and not my & NEG:
            return atom(D, flip(f.mask))
        return None

    def rad_expand(self, f):
        """Radical-free equivalent of an atom p = X + Y (X of known weak sign), as a formula; None when not of that form."""
        sp = self.rad_split(f.p)
        if sp is None:
            return None
        A, g1, B, g2, D = sp
        mx = _PROD[self.mask_of(A), self._gmask(g1)]
        my = _PROD[self.mask_of(B), self._gmask(g2)]
        if not mx & NEG or not mx & POS:
            sx, Yp, gy, m = (1 if not mx & NEG else -1), B, g2, f.mask
        elif not my & NEG or not my & POS:
            sx, Yp, gy, m = (1 if not my & NEG else -1), A, g1, f.mask
            D = -D
        else:
            return None
        if gy and self._gmask(gy) != POS:
            return None
        if sx < 0:
            m = flip(m)
            Yp = -Yp
        # now p = X + Y with X >= 0, D = X^2 - Y^2
        if m == POS:
            return f_or([atom(Yp, POS), atom(D, POS)])
        if m == 6:
            return f_or([atom(Yp, 6), atom(D, 6)])
        if m == ZER:
            return f_and([atom(Yp, 3), atom(D, ZER)])
        if m == NEG:
            return f_and([atom(Yp, NEG), atom(D, NEG)])
        if m == 3:
            return f_and([atom(Yp, 3), atom(D, 3)])
        return f_or([atom(Yp, POS), atom(D, 5)])

    def radfree(self, f):
        """Replace atoms by radical-free equivalents where possible (used as an alternative encoding for z3)."""
        if f is TRUE or f is FALSE:
            return f
        if isinstance(f, Atom):
            for _ in range(3):
                g = self.rad_reduce(f)
                if g is None or not isinstance(g, Atom):
                    break
                f = g
            if g is not None:
                return g
            g = self.rad_expand(f)
            return f if g is None else g
        if isinstance(f, FAnd):
            return f_and([self.radfree(g) for g in f.fs])
        return f_or([self.radfree(g) for g in f.fs])

    def simplify(self, f):
        if f is TRUE or f is FALSE:
            return f
        if isinstance(f, Atom):
            m = self._mask_canon(f.p, True)
            if m & ~f.mask == 0:
                return TRUE
            if m & f.mask == 0:
                return FALSE
            h = self.strip_factors(f)
            if h is not f:
                return self.simplify(h)
            g = self.rad_reduce(f)
            if g is None:
                g = self.rad_expand(f)
            return f if g is None else self.simplify(g)
        if isinstance(f, FAnd):
            return f_and([self.simplify(g) for g in f.fs])
        return f_or([self.simplify(g) for g in f.fs])

    # ---- z3
    def zpoly(self, p):
        r = self.zp_cache.get(p)
        if r is not None:
            return r
        terms = []
        for m, c in p.d.items():
            t = None
            if type(c) is int:
                cv = z3.RealVal(c)
            else:
                cv = z3.RealVal(str(c))
            for v, e in m:
                zv = self.zv[v]
                for _ in range(e):
                    t = zv if t is None else t * zv
            if t is None:
                t = cv
            elif c != 1:
                t = cv * t
            terms.append(t)
        r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        self.zp_cache[p] = r
        return r

    def zform(self, f):
        if f is TRUE:
            return z3.BoolVal(True)
        if f is FALSE:
            return z3.BoolVal(False)
        if isinstance(f, Atom):
            e = self.zpoly(f.p)
            return {1: e < 0, 2: e == 0, 4: e > 0, 3: e <= 0, 6: e >= 0, 5: e != 0}[f.mask]
        if isinstance(f, FAnd):
            return z3.And([self.zform(g) for g in f.fs])
        return z3.Or([self.zform(g) for g in f.fs])

    def fvars(self, f, acc):
        if isinstance(f, Atom):
            acc |= f.p.vars()
        elif isinstance(f, (FAnd, FOr)):
            for g in f.fs:
                self.fvars(g, acc)
        return acc

    def close_vars(self, vs):
        todo = list(vs)
        seen = set(vs)
        while todo:
            v = todo.pop()
            if v in RING.gens:
                for w in RING.gens[v].vars():
                    if w not in seen:
                        seen.add(w)
                        todo.append(w)
            for a in self.var_axioms.get(v, ()):
                for w in self.fvars(a, set()):
                    if w not in seen:
                        seen.add(w)
                        todo.append(w)
        return seen

    def var_constraints(self, vs):
        out = []
        for v in vs:
            if v in RING.gens:
                z = self.zv[v]
                out.append(z * z == self.zpoly(RING.gens[v]))
                if v in P.NONNEG_VARS:
                    out.append(z >= 0)
            for a in self.var_axioms.get(v, ()):
                out.append(self.zform(a))
            if v == self.pi_var:
                z = self.zv[v]
                out += [z > z3.Q(314159265358979, 10**14), z < z3.Q(314159265358980, 10**14)]
        return out

    def relevant(self, fs, constraints):
        """Cone of influence of fs inside constraints."""
        vs = set()
        for f in fs:
            self.fvars(f, vs)
        vs = self.close_vars(vs)
        rest = [(c, self.close_vars(self.fvars(c, set()))) for c in constraints]
        keep = []
        changed = True
        while changed:
            changed = False
            nxt = []
            for c, cv in rest:
                if cv & vs:
                    keep.append(c)
                    vs |= cv
                    changed = True
                else:
                    nxt.append((c, cv))
            rest = nxt
        return keep, vs

    def lemma_constraints(self, vs):
        """Cauchy-Schwarz facts for pairs of norm generators in vs (valid, redundant)."""
        out = []
        gv = [v for v in sorted(vs) if v in self.gen_vectors]
        for a in range(len(gv)):
            for b in range(a + 1, len(gv)):
                key = (gv[a], gv[b])
                if key not in self.extra_lemmas:
                    self.extra_lemmas[key] = self._cs(gv[a], gv[b])
                l = self.extra_lemmas[key]
                if l is not None:
                    dv = l[0].vars()
                    if dv <= vs:
                        d = self.zpoly(l[0])
                        q = self.zpoly(l[1])
                        out += [d <= q, -d <= q]
        return out

    def _cs(self, a, b):
        """|num(u.v)| <= k * s_a * s_b when both vectors are polynomial."""
        u, ka = self.gen_vectors[a]
        w, kb = self.gen_vectors[b]
        if len(u) != len(w):
            return None
        d = ZERO
        for x, y in zip(u, w):
            d = d + x * y
        if len(d) > 400:
            return None
        # |u| = ka*s_a, |w| = kb*s_b
        q = Poly({tuple(sorted(((a, 1), (b, 1)))): P._norm(ka * kb)})
        return d, q

    def lra_unsat(self, fs, vs):
        """Sound linear relaxation: monomials become independent reals, even monomials and radicands are non-negative."""
        monos = {}
        even = []

        def lin(p):
            terms = []
            for m, c in p.d.items():
                cv = z3.RealVal(str(c))
                if not m:
                    terms.append(cv)
                    continue
                x = monos.get(m)
                if x is None:
                    x = monos[m] = z3.Real(f"m{len(monos)}")
                    if all(e % 2 == 0 or v in P.NONNEG_VARS or self._var_mask(v) & NEG == 0 for v, e in m):
                        even.append(x)
                terms.append(cv * x if c != 1 else x)
            return z3.Sum(terms) if len(terms) > 1 else terms[0]

        size = [0]

        def conv(f):
            if f is TRUE or f is FALSE:
                return z3.BoolVal(f is TRUE)
            if isinstance(f, Atom):
                size[0] += len(f.p)
                e = lin(f.p)
                return {1: e < 0, 2: e == 0, 4: e > 0, 3: e <= 0, 6: e >= 0, 5: e != 0}[f.mask]
            if isinstance(f, FAnd):
                return z3.And([conv(g) for g in f.fs])
            return z3.Or([conv(g) for g in f.fs])

        s = z3.SolverFor("QF_LRA")
        s.set("timeout", 400)
        for f in fs:
            s.add(conv(f))
            if size[0] > 4000:
                return False
            for g in f.fs if isinstance(f, FAnd) else (f,):
                if isinstance(g, Atom) and g.mask == ZER and len(g.p) <= 12 and g.p.degree() <= 4:
                    s.add(lin(g.p * g.p) == 0)
        for v in vs:
            if v in RING.gens:
                s.add(lin(RING.gens[v]) >= 0)
        for p in list(self.nonneg_polys):
            if p.vars() <= vs and len(p) < 200:
                s.add(lin(p) >= 0)
        for x in even:
            s.add(x >= 0)
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        if r == z3.unsat:
            self.stats.z3_queries += 1
            self.stats.z3_unsat += 1
            return True
        return False

    def eq_reduce(self, fs):
        """Use the equations among fs: linear elimination over monomials, then substitution of solved variables.

        Returns an equisatisfiable list (the solved equations stay in it), [FALSE] on contradiction, None when nothing applies.
        """
        flat = []
        for f in fs:
            flat += f.fs if isinstance(f, FAnd) else [f]
        eqs = [f.p for f in flat if isinstance(f, Atom) and f.mask == ZER and len(f.p) <= 60]
        if not eqs or len(eqs) > 40:
            return None
        solved = []
        seen = set()

        def order(m):
            return (sum(e for _, e in m), m)

        def lin(rows):
            """Gauss-Jordan over monomials; highest degree monomials are eliminated first."""
            out = []
            for p in rows:
                for q, lead in out:
                    c = p.d.get(lead)
                    if c:
                        p = p - q.scale(c)
                if p.is_zero():
                    continue
                lead = max(p.d, key=order)
                p = p.scale(P._norm(1 / Fraction(p.d[lead])))
                out = [((q - p.scale(q.d[lead])) if lead in q.d else q, l) for q, l in out]
                out.append((p, lead))
            return [q for q, _ in out if not q.is_zero()]

        try:
            for _ in range(8):
                rows = []
                for p in lin(eqs):
                    if p.is_const():
                        return [FALSE]
                    a = self.strip_factors(atom(p, ZER))
                    if a is FALSE:
                        return [FALSE]
                    if a is not TRUE:
                        mc = a.p.mono_content()
                        if mc and len(mc) == 1 and mc[0][1] > 1 and len(a.p) == 1:
                            a = Atom(Poly({((mc[0][0], 1),): 1}), ZER)
                        rows.append(a.p)
                pick = None
                for p in sorted(rows, key=len):
                    for m, c in p.d.items():
                        if len(m) == 1 and m[0][1] == 1 and m[0][0] not in RING.gens:
                            v = m[0][0]
                            if sum(1 for k in p.d if any(t[0] == v for t in k)) == 1:
                                pick = (v, p, c)
                                break
                    if pick:
                        break
                if pick is None:
                    if {r for r in rows} == {r for r in eqs}:
                        break
                    eqs = rows
                    continue
                v, p, c = pick
                r = (Poly.var(v).scale(c) - p).scale(P._norm(1 / Fraction(c)))
                solved.append((v, r))
                eqs = [poly_subst(q, v, r) for q in rows if q is not p]
                if any(q.is_const() and not q.is_zero() for q in eqs):
                    return [FALSE]
                eqs = [q for q in eqs if not q.is_zero()]
                if any(len(q) > 400 for q in eqs):
                    break
            out = []

            def sub(f):
                if isinstance(f, Atom):
                    p = f.p
                    for v, r in solved:
                        if v in p.vars():
                            p = poly_subst(p, v, r)
                            if len(p) > 3000:
                                return f
                    return f if p is f.p else atom(p, f.mask)
                if isinstance(f, FAnd):
                    return f_and([sub(g) for g in f.fs])
                if isinstance(f, FOr):
                    return f_or([sub(g) for g in f.fs])
                return f

            for f in flat:
                g = sub(f)
                if g is FALSE:
                    return [FALSE]
                if g is not TRUE:
                    out.append(g)
            for q in eqs:
                out.append(atom(q, ZER))
            out = [g for g in out if g is not TRUE]
            if any(g is FALSE for g in out):
                return [FALSE]
            for v, r in solved:
                out.append(atom(Poly.var(v) - r, ZER))
            return out
        except Budget:
            return None

    def null_cert(self, fs):
        """True when (product of at most two known non-zero polynomials) = sum of multiplier * equation: fs is unsatisfiable."""
        flat = []
        for f in fs:
            flat += f.fs if isinstance(f, FAnd) else [f]
        eqs = [f.p for f in flat if isinstance(f, Atom) and f.mask == ZER and len(f.p) <= 12][:8]
        nz = [f.p for f in flat if isinstance(f, Atom) and not f.mask & ZER and len(f.p) <= 40]
        if not eqs or not nz:
            return False
        nz = sorted(nz, key=len)[:8]
        targets = []
        for i, p in enumerate(nz):
            targets.append(p)
            for q in nz[i + 1:]:
                if len(p) * len(q) <= 200:
                    targets.append(p * q)
        roots = []
        for t in targets:  # even powers of a single monomial factor are as good as the factor
            mc = t.mono_content()
            if any(e > 1 for _, e in mc):
                t = t.div_mono(tuple((v, e - 1) for v, e in mc if e > 1))
            roots.append(t)
        vs = set()
        for p in eqs:
            vs |= p.vars()
        for t in sorted(roots, key=lambda t: (t.degree(), len(t))):
            D = t.degree()
            if not t.vars() <= vs or D > 6:
                continue
            # rows are built on demand: only multiples that meet monomials still needed
            need, seen, rows = list(t.d), set(t.d), []
            used = set()
            while need and len(rows) < 220:
                m = need.pop()
                dm = dict(m)
                for k, p in enumerate(eqs):
                    for em in p.d:
                        if all(dm.get(v, 0) >= e for v, e in em):
                            q = tuple(sorted((v, e - dict(em).get(v, 0)) for v, e in m if e - dict(em).get(v, 0)))
                            if (k, q) in used:
                                continue
                            used.add((k, q))
                            r = p * Poly({q: 1})
                            if r.degree() > D:
                                continue
                            rows.append(r)
                            for x in r.d:
                                if x not in seen:
                                    seen.add(x)
                                    need.append(x)
            basis = {}
            ok = False

            def red(p):
                d = dict(p.d)
                out = {}
                while d:
                    m = max(d, key=lambda m: (sum(e for _, e in m), m))
                    c = d.pop(m)
                    if not c:
                        continue
                    b = basis.get(m)
                    if b is None:
                        out[m] = c
                        continue
                    for x, y in b.items():
                        if x == m:
                            continue
                        z = d.get(x, 0) - c * y
                        if z:
                            d[x] = z
                        else:
                            d.pop(x, None)
                return out

            for r in rows:
                o = red(r)
                if o:
                    m = max(o, key=lambda m: (sum(e for _, e in m), m))
                    c = Fraction(o[m])
                    basis[m] = {x: Fraction(y) / c for x, y in o.items()}
            ok = not red(t)
            if ok:
                return True
        return False

    def query(self, fs, timeout_ms, want_model=False, use_pc=True, lemmas=True, extra=()):
        if use_pc and not want_model and not extra:
            eqs = [g for f in fs for g in (f.fs if isinstance(f, FAnd) else (f,)) if isinstance(g, Atom) and g.mask == ZER]
            if len(eqs) > 1 and all(len(g.p) <= 40 for g in eqs):
                keep, _ = self.relevant(fs, self.pc)
                if self.eq_reduce(keep + list(fs)) == [FALSE] or self.null_cert(keep + list(fs)):
                    self.stats.by_elimination += 1
                    return "unsat", None
        r = self._query(fs, timeout_ms, want_model, use_pc, lemmas, extra)
        if r[0] == "unknown" and use_pc and not want_model:
            pc = self.pc
            old = pc + list(fs)
            new = [self.radfree(self.simplify(c) if i >= len(pc) else c) for i, c in enumerate(old)]
            if any(a is not b for a, b in zip(old, new)):
                k = len(pc)
                self.pc = new[:k]
                try:
                    r = self._query(new[k:], timeout_ms, False, True, lemmas, extra)
                finally:
                    self.pc = pc
        if r[0] == "unknown" and use_pc and not want_model:
            keep, _ = self.relevant(fs, self.pc)
            new = self.eq_reduce(keep + list(fs))
            if new is not None:
                if new == [FALSE]:
                    self.stats.z3_unknown -= 1
                    self.stats.by_elimination += 1
                    return "unsat", None
                r = self._query(new, timeout_ms, False, False, lemmas, extra)
            if r[0] == "unknown" and self.null_cert(keep + list(fs)):
                self.stats.by_elimination += 1
                return "unsat", None
        return r

    def _query(self, fs, timeout_ms, want_model=False, use_pc=True, lemmas=True, extra=()):
        """Check satisfiability of pc /\\ fs. Returns ('sat', model|None) / ('unsat', None) / ('unknown', None)."""
        if self.deadline and time.time() > self.deadline:
            raise OutOfTime()
        if use_pc:
            keep, vs = self.relevant(fs, self.pc)
            if want_model:
                keep = self.pc
                vs = set()
                for c in list(keep) + list(fs):
                    self.fvars(c, vs)
                vs = self.close_vars(vs)
        else:
            keep = []
            vs = set()
            for f in fs:
                self.fvars(f, vs)
            vs = self.close_vars(vs)
        ints = [v for v in vs if v in self.round_of and not self.round_of[v][2].startswith("float")]
        if not ints and not extra and self.lra_unsat(keep + list(fs), vs):
            return "unsat", None
        s = z3.Solver() if ints else z3.SolverFor("QF_NRA")
        s.set("timeout", int(timeout_ms))
        for v in ints:
            s.add(self.zv[v] * 10 ** self.round_of[v][1] == z3.ToReal(z3.Int(f"int!{v}")))
        for c in keep:
            s.add(self.zform(c))
        for f in fs:
            s.add(self.zform(f))
        for c in self.var_constraints(vs):
            s.add(c)
        for e in extra:
            s.add(e)
        if lemmas:
            for c in self.lemma_constraints(vs):
                s.add(c)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        dt = time.time() - t
        if SLOW and dt > 0.4:
            print("SLOW", round(dt, 2), r, "|", *[repr(f)[:700] for f in fs], "| pc", len(keep), *[repr(c)[:160] for c in keep], flush=True)
        st = self.stats
        st.z3_queries += 1
        st.solver_s += dt
        st.max_query_s = max(st.max_query_s, dt)
        if r == z3.unsat:
            st.z3_unsat += 1
            return "unsat", None
        if r == z3.sat:
            st.z3_sat += 1
            return "sat", (s.model() if want_model else None)
        st.z3_unknown += 1
        return "unknown", None

    def sound_check(self, f0, f):
        for k in self.alive:
            a, b = self.sample_truth(k, f0), self.sample_truth(k, f)
            if a is not None and b is not None and a != b:
                print("UNSOUND simplify", repr(f0)[:600], "->", repr(f)[:600], self.inputs_from_sample(k), a, b, "pc", repr(self.pc)[:1500])
                print("facts", {repr(p)[:200]: m for p, m in self.facts.items()})

    # ---- branching
    def decide(self, f):
        try:
            return self._decide(f)
        except (Budget, RecursionError):
            raise
        except Exception as e:  # never to be mistaken for an exception of the code under test
            import traceback

            raise EngineFailure(traceback.format_exc()) from e

    def _decide(self, f):
        f0 = f
        f = self.simplify(f)
        if SOUND:
            self.sound_check(f0, f)
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        self.stats.decisions += 1
        i = len(self.trail)
        if i < len(self.prefix):
            choice, forced = self.prefix[i]
            self.trail.append((choice, forced))
            self._take(f, choice, forced, f0)
            return choice
        pos = [k for k in self.alive if self.sample_truth(k, f) is True]
        neg = [k for k in self.alive if self.sample_truth(k, f) is False]
        can_t = True if pos else None
        can_f = True if neg else None
        if can_t is None:
            r, _ = self.query([f], self.feas_ms)
            can_t = r != "unsat"
        if can_f is None and can_t:
            r, _ = self.query([f_not(f)], self.feas_ms)
            can_f = r != "unsat"
        elif can_f is None:
            can_f = True
        if can_t and can_f:
            self.stats.forks += 1
            self.fork_points.append((i, False))
            self.trail.append((True, False))
            self._take(f, True, False, f0)
            return True
        choice = bool(can_t)
        self.stats.forced += 1
        self.trail.append((choice, True))
        self._take(f, choice, True, f0)
        return choice

    def _take(self, f, choice, forced, f0):
        g = f if choice else f_not(f)
        self.learn(g)
        if f0 is not f:
            self.learn(f0 if choice else f_not(f0))
        if not forced:
            self.pc.append(g)
            self.alive = [k for k in self.alive if self.sample_truth(k, g) is True]

    def assume(self, f):
        f0 = as_formula(f)
        f = self.simplify(f0)
        self.stats.assumptions += 1
        if f is FALSE:
            raise Infeasible()
        if f is TRUE:
            return
        self.learn(f)
        self.learn(f0)
        self.pc.append(f)
        self.alive = [k for k in self.alive if self.sample_truth(k, f) is True]
        if not self.alive and len(self.trail) >= len(self.prefix):
            r, _ = self.query([], self.feas_ms) if False else self.query([f], self.feas_ms)
            if r == "unsat":
                raise Infeasible()

    # ---- models
    def model_value(self, m, v):
        x = m.eval(self.zv[v], model_completion=True)
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long()), True
        if z3.is_algebraic_value(x):
            y = x.approx(30)
            return Fraction(y.numerator_as_long(), y.denominator_as_long()), False
        return Fraction(0), False

    def inputs_from_model(self, m):
        out = {}
        for name, v in self.inputs.items():
            if v is None:
                out[name] = Fraction(self.fixed[name])
            else:
                out[name] = self.model_value(m, v)[0]
        return out

    def inputs_from_sample(self, i):
        out = {}
        for name, v in self.inputs.items():
            out[name] = Fraction(self.fixed[name]) if v is None else Fraction(self.sample_value(i, v))
        return out

    def nice_model(self, fs, timeout_ms):
        """Try to find a model of pc /\\ fs whose inputs are small, exactly representable numbers."""
        free = [(n, v) for n, v in self.inputs.items() if v is not None]
        r, m = self.query(fs, timeout_ms, want_model=True)
        if r != "sat":
            return r, None
        cur = {n: self.model_value(m, v) for n, v in free}
        pins = []
        budget = time.time() + min(6.0, 0.6 * len(free) + 1)
        for n, v in free:
            if time.time() > budget:
                break
            val, exact = cur[n]
            cands = []
            for den in (1, 2, 8):
                c = Fraction(round(val * den), den)
                if c not in cands:
                    cands.append(c)
            if abs(val) > 10**6:
                cands = [Fraction(round(val))] + cands
            done = False
            for c in cands:
                if exact and c == val:
                    pins.append(self.zv[v] == z3.RealVal(str(c)))
                    done = True
                    break
                r2, m2 = self.query(fs, 400, want_model=True, extra=pins + [self.zv[v] == z3.RealVal(str(c))])
                if r2 == "sat":
                    pins.append(self.zv[v] == z3.RealVal(str(c)))
                    cur = {n2: self.model_value(m2, v2) for n2, v2 in free}
                    done = True
                    break
        out = {n: x[0] for n, x in cur.items()}
        for n, v in self.inputs.items():
            if v is None:
                out[n] = Fraction(self.fixed[n])
        return "sat", out


def exact_sqrt(x):
    x = Fraction(x)
    if x < 0:
        return None
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if n * n == x.numerator and d * d == x.denominator:
        r = Fraction(n, d)
        return r.numerator if r.denominator == 1 else r
    return None


# ------------------------------------------------------------------ scalars

_rat_memo: dict = {}


def rational(x):
    """Exact rational meant by a Python/numpy number (float literals denote the simplest rational)."""
    if type(x) is int:
        return x
    if isinstance(x, Fraction):
        return P._norm(x)
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    x = float(x)
    r = _rat_memo.get(x)
    if r is None:
        fr = Fraction(x)
        r = fr
        if fr.denominator != 1:
            c = fr.limit_denominator(5000)
            if abs(c - fr) <= abs(fr) / 2**51:  # the simplest rational within two roundings
                r = c
            else:
                r = Fraction(repr(x))
        r = P._norm(r)
        _rat_memo[x] = r
    return r


NUM = (int, float, Fraction, np.integer, np.floating, np.bool_)


def sym(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, F):
        return Sym(Poly.const(int(bool(x))))
    if isinstance(x, NUM):
        return Sym(Poly.const(rational(x)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return sym(x[()])
    raise TypeError(f"not a number: {type(x)}")


def _nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


class Sym:
    __slots__ = ("n", "den", "nn", "vec")

    def __init__(self, n, den=(), nn=False):
        self.n = n
        self.den = den  # tuple of (factor Poly, exponent), sorted by id order of creation
        self.nn = nn

    # -- helpers
    def is_const(self):
        return self.n.is_const() and not self.den

    def const(self):
        return self.n.const_value()

    def key(self):
        return (self.n, self.den)

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym(ZERO)

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        # pickled by identity: pickling is only ever undone within the same process
        _PICKLED[id(self)] = self
        return _unpickle, (id(self),)

    def conjugate(self):
        return self

    conj = conjugate

    def tolist(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def all(self, *_a, **_k):
        return self != 0

    def any(self, *_a, **_k):
        return self != 0

    def squeeze(self, *_a, **_k):
        return self

    def flatten(self, *a, **k):
        return np.array([self], dtype=object)

    ravel = flatten

    def reshape(self, *shape, **_k):
        return np.array(self, dtype=object).reshape(*shape)

    def sum(self, *_a, **_k):
        return self

    max = min = mean = sum

    def dot(self, o):
        return self * o

    def __hash__(self):
        if self.is_const():
            return hash(Fraction(self.const()))
        return hash(self.key())

    # -- arithmetic
    @staticmethod
    def _other(o):
        """Sym, or NotImplemented, or an array/sequence to broadcast over."""
        if isinstance(o, Sym):
            return o
        if isinstance(o, NUM):
            if _nonfinite(o):
                return float(o)
            return Sym(Poly.const(rational(o)))
        if isinstance(o, F):
            return Sym(Poly.const(int(bool(o))))
        if isinstance(o, (list, tuple)):
            return np.array(o, dtype=object)
        if isinstance(o, np.ndarray) and o.ndim == 0 and type(o) is np.ndarray:
            return Sym._other(o[()])
        return NotImplemented

    def __add__(self, o):
        o = Sym._other(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            return o + self if isinstance(o, np.ndarray) else o
        if not self.den and not o.den:
            return Sym(self.n + o.n, (), self.nn and o.nn)
        if o.n.is_zero():
            return self
        if self.n.is_zero():
            return o
        if self.den == o.den:
            return _cancel(self.n + o.n, self.den, self.nn and o.nn)
        d = dict(self.den)
        for f, e in o.den:
            d[f] = max(d.get(f, 0), e)
        a, b = self.n, o.n
        sd, od = dict(self.den), dict(o.den)
        for f, e in d.items():
            k = e - sd.get(f, 0)
            if k:
                a = a * f.pow(k)
            k = e - od.get(f, 0)
            if k:
                b = b * f.pow(k)
        return _cancel(a + b, _mkden(d), self.nn and o.nn)

    __radd__ = __add__

    def __neg__(self):
        return Sym(-self.n, self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = Sym._other(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            return -o + self if isinstance(o, np.ndarray) else -o
        if o is self:
            return Sym(ZERO)
        return self + (-o)

    def __rsub__(self, o):
        o = Sym._other(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            return o - self if isinstance(o, np.ndarray) else o
        return o + (-self)

    def __mul__(self, o):
        o = Sym._other(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            if isinstance(o, np.ndarray):
                return o * self
            return _mul_nonfinite(self, o)
        nn = (self.nn and o.nn) or self is o or (self.n == o.n and self.den == o.den)
        n = self.n * o.n
        if not self.den and not o.den:
            return Sym(n, (), nn)
        d = dict(self.den)
        for f, e in o.den:
            d[f] = d.get(f, 0) + e
        return _cancel(n, _mkden(d), nn)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Sym._other(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            if isinstance(o, np.ndarray):
                return np.true_divide(np.full(o.shape, self, dtype=object), o)
            return 0.0 if not math.isnan(o) else o
        return divide(self, o)

    def __rtruediv__(self, o):
        o = Sym._other(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            if isinstance(o, np.ndarray):
                return np.true_divide(o, np.full(o.shape, self, dtype=object))
            return _mul_nonfinite(self, o)
        return divide(o, self)

    def __pow__(self, k):
        if isinstance(k, Sym):
            if not k.is_const():
                raise Concretize("symbolic exponent")
            k = k.const()
        if isinstance(k, NUM):
            k = rational(k)
            if isinstance(k, int):
                if k >= 0:
                    r = Sym(ONE)
                    for _ in range(k):
                        r = r * self
                    r.nn = r.nn or k % 2 == 0 or self.nn
                    return r
                return Sym(ONE) / (self ** (-k))
            if k == Fraction(1, 2):
                return np_sqrt(self)
            if k == Fraction(-1, 2):
                return Sym(ONE) / np_sqrt(self)
            if k == Fraction(3, 2):
                return self * np_sqrt(self)
            raise Concretize("fractional power")
        return NotImplemented

    def __rpow__(self, o):
        if self.is_const():
            return Sym._other(o) ** self.const()
        raise Concretize("symbolic exponent")

    def __abs__(self):
        if self.nn:
            return self
        if self.is_const():
            return Sym(self.n if self.const() >= 0 else -self.n, (), True)
        return LazyAbs(self)

    fabs = absolute = __abs__

    def __floordiv__(self, o):
        return (self / o).__floor__()

    def __mod__(self, o):
        o = Sym._other(o)
        return self - o * (self / o).__floor__()

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __rfloordiv__(self, o):
        return (sym(o) / self).__floor__()

    def __rmod__(self, o):
        o = sym(o)
        return o - self * (o / self).__floor__()

    # -- comparisons
    def signf(self, mask):
        """Formula: sign(self) in mask."""
        ENG = _ENGINE
        n = self.n
        if n.is_const() and not self.den:
            return atom(n, mask)
        m = mask
        for f, e in self.den:
            if e % 2:
                fm = ENG.mask_of(f)
                if fm == POS:
                    continue
                if fm == NEG:
                    m = flip(m)
                elif mask in (ZER, ANY ^ ZER):
                    continue
                elif not (fm & NEG):
                    continue  # factor known non-zero
                elif not (fm & POS):
                    m = flip(m)
                else:
                    n = n * f
        if self.nn:
            ENG.note_nonneg(self.n, self.den)
        return atom(n, m)

    def _cmp(self, o, mask):
        o = Sym._other(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            if isinstance(o, np.ndarray):
                return NotImplemented
            if math.isnan(o):
                return mask == 5
            s = NEG if o > 0 else POS
            return bool(s & mask)
        return (self - o).signf(mask)

    def __lt__(self, o):
        return self._cmp(o, NEG)

    def __le__(self, o):
        return self._cmp(o, NEG | ZER)

    def __gt__(self, o):
        return self._cmp(o, POS)

    def __ge__(self, o):
        return self._cmp(o, POS | ZER)

    def __eq__(self, o):
        r = self._cmp(o, ZER)
        if r is NotImplemented:
            return False if not isinstance(o, np.ndarray) else r
        return r

    def __ne__(self, o):
        r = self._cmp(o, ANY ^ ZER)
        if r is NotImplemented:
            return True if not isinstance(o, np.ndarray) else r
        return r

    def __bool__(self):
        return bool(self != 0)

    # -- conversions
    def __float__(self):
        if self.is_const():
            return float(Fraction(self.const()))
        x = const_float(self)
        if x is not None:
            return x
        raise Concretize("float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(Fraction(self.const()))
        x = const_float(self)
        if x is not None:
            return int(x)
        raise Concretize("int() of a symbolic value")

    def __index__(self):
        if self.is_const() and Fraction(self.const()).denominator == 1:
            return int(self.const())
        raise Concretize("symbolic index")

    def __floor__(self):
        if self.is_const():
            return Sym(Poly.const(math.floor(Fraction(self.const()))))
        return symbolic_round(self, 0, "floor")

    def floor(self):
        return self.__floor__()

    def __ceil__(self):
        return -((-self).__floor__())

    ceil = __ceil__

    def __trunc__(self):
        return self.__floor__() if self >= 0 else self.__ceil__()

    def __round__(self, nd=None):
        if self.is_const():
            r = round(Fraction(self.const()), nd or 0)
            return Sym(Poly.const(P._norm(Fraction(r))))
        return symbolic_round(self, nd or 0)

    def rint(self):
        return self.__round__(0)

    def round(self, decimals=0, out=None):
        return self.__round__(decimals)

    def is_integer(self):
        if self.is_const():
            return Fraction(self.const()).denominator == 1
        return self == self.__floor__()

    # -- ufunc methods used by numpy's object loops
    def sqrt(self):
        return np_sqrt(self)

    def square(self):
        return self * self

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def sin(self):
        return trig_of(self)[1]

    def cos(self):
        return trig_of(self)[0]

    def tan(self):
        c, s = trig_of(self)
        return s / c

    def arccos(self):
        return acos(self, np_mode=True)

    def arcsin(self):
        return asin(self, np_mode=True)

    def arctan2(self, x):
        return atan2(self, x)

    def arctan(self):
        return atan2(self, Sym(ONE))

    def hypot(self, o):
        o = sym(o)
        return np_sqrt(self * self + o * o)

    def degrees(self):
        return self * 180 / PI()

    rad2deg = degrees

    def radians(self):
        return self * PI() / 180

    deg2rad = radians

    def exp(self):
        raise Concretize("exp")

    log = exp2 = log2 = log10 = sinh = cosh = tanh = cbrt = exp

    def __repr__(self):
        if TEXT is not None:
            TEXT.append(self)
            return f"_T[{len(TEXT) - 1}]"
        if self.is_const():
            return f"{self.const()}"
        s = repr(self.n)
        if self.den:
            s = f"({s})/(" + " * ".join(f"({f})^{e}" for f, e in self.den) + ")"
        return f"Sym<{s}>"

    def __format__(self, spec):
        if TEXT is not None and spec not in ("", "r", "s"):
            # a format specification may lose digits: some other number
            TEXT.append(ENGINE().input(f"_text{len(TEXT)}"))
            return f"_T[{len(TEXT) - 1}]"
        return repr(self)


class LazyAbs(Sym):
    """|x|, whose sign is only decided when an operation needs it (not for squares nor next to infinity)."""

    __slots__ = ("of", "_v")

    def __init__(self, of):
        self.of = of
        self._v = None

    def force(self):
        if self._v is None:
            x = self.of
            self._v = Sym(x.n, x.den, True) if bool(x >= 0) else Sym(-x.n, x.den, True)
        return self._v

    n = property(lambda self: self.force().n)
    den = property(lambda self: self.force().den)
    nn = property(lambda self: True, lambda self, v: None)

    def is_const(self):
        return False

    def __abs__(self):
        return self

    fabs = absolute = __abs__

    def __mul__(self, o):
        if self._v is None and o is self:
            return self.of * self.of
        return self.force() * o

    def __rmul__(self, o):
        return self.force().__rmul__(o)

    def __pow__(self, k):
        if self._v is None and isinstance(k, int) and k > 0 and k % 2 == 0:
            return self.of**k
        return self.force() ** k

    def _cmp(self, o, mask):
        if self._v is None:
            o2 = Sym._other(o)
            if o2 is not NotImplemented and not isinstance(o2, (Sym, np.ndarray)):
                return self.of._cmp(math.inf if not math.isnan(o2) and o2 > 0 else (-math.inf if o2 < 0 else o2), mask)
        return self.force()._cmp(o, mask)


def _mul_nonfinite(a, o):
    if math.isnan(o):
        return o
    if a == 0:
        return math.nan
    return o if a > 0 else -o


_order: dict = {}


def _mkden(d):
    items = [(f, e) for f, e in d.items() if e]
    if len(items) > 1:
        for f, _ in items:
            if f not in _order:
                _order[f] = len(_order)
        items.sort(key=lambda t: _order[t[0]])
    return tuple(items)


def _cancel(n, den, nn):
    if n.is_zero():
        return Sym(ZERO, (), True)
    out = []
    for f, e in den:
        while e:
            if len(f) > 1 and len(n) < 2:
                break
            q = n.exact_div(f)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            out.append((f, e))
    return Sym(n, tuple(out), nn)


def const_float(s):
    """Value of a Sym without input variables (constants, radicals of constants, pi); else None."""
    env = {}

    def val(v):
        if v in env:
            return env[v]
        k = _ENGINE.kind[v]
        if k == "pi":
            env[v] = math.pi
        elif v in RING.gens and k == "gen":
            x = ev(RING.gens[v])
            if x is None:
                return None
            env[v] = math.sqrt(max(x, 0.0))
        else:
            return None
        return env[v]

    def ev(p):
        t = 0.0
        for m, c in p.d.items():
            x = float(c)
            for v, e in m:
                y = val(v)
                if y is None:
                    return None
                x *= y**e
            t += x
        return t

    r = ev(s.n)
    if r is None:
        return None
    for f, e in s.den:
        y = ev(f)
        if y is None:
            return None
        r /= y**e
    return r


def factorise(p):
    """p = c * prod(f^e), numerator radicals: returns (c, [(factor, exp)], [generator vars])"""
    c, q = p.primitive()
    out = []
    gens = []
    mc = q.mono_content()
    if mc:
        q = q.div_mono(mc)
        for v, e in mc:
            if v in RING.gens and _ENGINE.kind[v] == "gen":
                gens.append((v, e))
            else:
                out.append((Poly.var(v), e))
    if not q.is_const():
        for f in _ENGINE.factor_base:
            if len(f) == 1 or len(f) > len(q):
                continue
            e = 0
            while True:
                d = q.exact_div(f)
                if d is None:
                    break
                q = d
                e += 1
                if q.is_const():
                    break
            if e:
                out.append((f, e))
            if q.is_const():
                break
    if q.is_const():
        c = c * q.const_value()
    else:
        c2, q = q.primitive()
        c = c * c2
        t = q.poly_sqrt() if len(q) <= 200 else None
        if t is not None:
            c3, t = t.primitive()
            out.append((t, 2))
        else:
            out.append((q, 1))
    return c, out, gens


def divide(a, b):
    ENG = _ENGINE
    z = b == 0
    if z is not FALSE and bool(z):
        # IEEE semantics of numpy division by zero
        if a == 0:
            return math.nan
        return math.inf if a > 0 else -math.inf
    if b.is_const():
        return Sym(a.n.scale(Fraction(1) / b.const()), a.den, a.nn and b.const() > 0)
    nn = (a.nn and b.nn)
    n = a.n
    d = dict(a.den)
    for f, e in b.den:
        k = d.get(f, 0) - e
        if k > 0:
            d[f] = k
        else:
            d.pop(f, None)
            if k < 0:
                n = n * f.pow(-k)
    c, fs, gens = factorise(b.n)
    n = n.scale(Fraction(1) / c)
    for v, e in gens:
        # 1/s^e = s^e / P^e
        g = RING.gens[v]
        n = n * Poly.var(v).pow(e)
        c2, fs2, gens2 = factorise(g)
        n = n.scale(Fraction(1) / (Fraction(c2) ** e))
        fs = fs + [(f, k * e) for f, k in fs2]
        for v2, e2 in gens2:  # nested radical inside the radicand
            fs.append((Poly.var(v2), e2 * e))
    for f, e in fs:
        ENG.note_factor(f)
        d[f] = d.get(f, 0) + e
    return _cancel(n, _mkden(d), nn)


def _engine_note_factor(self, f):
    m = self.facts.get(f, ANY)
    self.facts[f] = m & 5
    if f not in self._fb_set:
        self._fb_set.add(f)
        self.factor_base.append(f)


def _engine_note_nonneg(self, n, den):
    """n / prod(den) is known to be >= 0."""
    if n.is_const() or len(n) > 3000:
        return
    for f, e in den:
        if e % 2:
            fm = self.mask_of(f, deep=False)
            if fm & NEG:
                return
    c, q = n.primitive()
    if c > 0:
        self.nonneg_polys[q] = True


Engine.note_factor = _engine_note_factor
Engine.note_nonneg = _engine_note_nonneg


# ------------------------------------------------------------------ radicals


def _sqfree_int(n):
    """n = k^2 * m, m without small square factors."""
    k = 1
    d = 2
    while d * d <= n and d < 2000:
        while n % (d * d) == 0:
            n //= d * d
            k *= d
        d += 1
    r = math.isqrt(n)
    if r * r == n:
        return k * r, 1
    return k, n


def root_poly(R, vec=None):
    """Sym equal to sqrt(R); R is known to be >= 0 on this path."""
    ENG = _ENGINE
    if R.is_zero():
        return Sym(ZERO, (), True)
    c, p = R.primitive()
    if c < 0:
        c, p = -c, -p
    c = Fraction(c)
    k, m = _sqfree_int(c.numerator * c.denominator)
    out = Sym(Poly.const(P._norm(Fraction(k, c.denominator))), (), True)
    if p.is_const():
        p = Poly.const(m)
        m = 1
        if p.const_value() == 1:
            return out
    mc = p.mono_content()
    if mc:
        keep = []
        for v, e in mc:
            h, odd = divmod(e, 2)
            if h:
                x = abs(Sym(Poly.var(v), (), v in P.NONNEG_VARS))
                for _ in range(h):
                    out = out * x
            if odd:
                keep.append((v, 1))
        strip = tuple((v, e - (e % 2)) for v, e in mc if e - (e % 2))
        p = p.div_mono(strip)
    if m == 1 and not p.is_const():
        t = p.poly_sqrt()
        if t is not None:
            return out * abs(Sym(t))
    if p.is_const() and p.const_value() == 1 and m == 1:
        return out
    # factor out radicands of existing generators
    if not p.is_const():
        for q, v in list(ENG.gen_memo.items()):
            if q.is_const() or q == p:
                continue
            d = p.exact_div(q)
            if d is not None and ENG.mask_of(q) == POS:
                return out * Sym(Poly.var(v), (), True) * root_poly(d.scale(m))
        sq = _square_part(p)
        if sq is not None:
            t, rest = sq
            return out * abs(Sym(t)) * root_poly(rest.scale(m))
    p = p.scale(m)
    v = ENG.gen_memo.get(p)
    if v is None:
        v = ENG.new_var(f"sqrt{len(ENG.gen_memo)}", "gen")
        RING.gens[v] = p
        P.NONNEG_VARS.add(v)
        ENG.gen_memo[p] = v
    return out * Sym(Poly.var(v), (), True)


_sq_memo: dict = {}


def _square_part(p):
    """p = t^2 * rest with t non-constant, found through sympy's square-free factorisation; else None."""
    if len(p) > 120 or p.degree() < 4:
        return None
    key = p
    if key in _sq_memo:
        return _sq_memo[key]
    res = None
    try:
        from sympy import QQ, ring

        vs = sorted(p.vars())
        if len(vs) <= 9:
            Rg = ring([f"x{v}" for v in vs], QQ)[0]
            idx = {v: i for i, v in enumerate(vs)}
            el = Rg.zero
            d = {}
            for m, c in p.d.items():
                ex = [0] * len(vs)
                for v, e in m:
                    ex[idx[v]] = e
                c = Fraction(c)
                d[tuple(ex)] = QQ(c.numerator, c.denominator)
            el = Rg.from_dict(d)
            c0, fl = el.sqf_list()
            t = ONE
            rest = Poly.const(Fraction(int(c0.numerator), int(c0.denominator)))
            any_sq = False
            for f, e in fl:
                fp = Poly({
                    tuple((vs[i], int(x)) for i, x in enumerate(mm) if x): P._norm(Fraction(int(cc.numerator), int(cc.denominator)))
                    for mm, cc in f.terms()
                })
                if e // 2:
                    any_sq = True
                    t = P._free_mul(t, _fpow(fp, e // 2))
                if e % 2:
                    rest = P._free_mul(rest, fp)
            if any_sq:
                res = (t, rest)
    except Exception:
        res = None
    _sq_memo[key] = res
    return res


def poly_subst(p, v, r):
    """p with variable v replaced by the polynomial r."""
    by = {}
    for m, c in p.d.items():
        e = 0
        rest = m
        for t in m:
            if t[0] == v:
                e = t[1]
                rest = tuple(x for x in m if x[0] != v)
                break
        by.setdefault(e, {})[rest] = c
    out = ZERO
    pw = {0: ONE}
    k = 0
    for e in sorted(by):
        while k < e:
            pw[k + 1] = pw[k] * r
            k += 1
        out = out + Poly(by[e]) * pw[e]
    return out


def _fpow(p, k):
    r = ONE
    for _ in range(k):
        r = P._free_mul(r, p)
    return r


def sym_sqrt(x, vec=None):
    """sqrt of a Sym known >= 0 on the path."""
    ENG = _ENGINE
    if x.is_const():
        return root_poly(x.n)
    n = x.n
    out_den = {}
    sign = 1
    if x.nn:
        ENG.note_nonneg(x.n, x.den)
    for f, e in x.den:
        h = (e + 1) // 2
        if e % 2:
            n = n * f
        fm = ENG.mask_of(f)
        if h % 2:
            if fm & POS and fm & NEG:
                fm = POS if (Sym(f) > 0) else NEG
            if not (fm & POS):
                sign = -sign
        out_den[f] = h
    r = root_poly(n, vec)
    if sign < 0:
        r = -r
    d = dict(r.den)
    for f, e in out_den.items():
        d[f] = d.get(f, 0) + e
    return _cancel(r.n, _mkden(d), True)


def np_sqrt(x):
    if not isinstance(x, Sym):
        if _nonfinite(x):
            return math.inf if x > 0 else math.nan
        x = sym(x)
    if not x.nn and bool(x < 0):
        return math.nan
    return sym_sqrt(x)


def math_sqrt(x):
    if not isinstance(x, Sym):
        if _nonfinite(x):
            return math.sqrt(x)
        x = sym(x)
    if not x.nn and bool(x < 0):
        raise ValueError("math domain error")
    return sym_sqrt(x)


def vec_norm(xs):
    """Euclidean norm of a list of scalars; registers the vector for Cauchy-Schwarz lemmas."""
    t = Sym(ZERO, (), True)
    for x in xs:
        if not isinstance(x, Sym):
            if _nonfinite(x):
                return math.inf if not math.isnan(x) else math.nan
            x = sym(x)
        t = t + x * x
    t.nn = True
    r = sym_sqrt(t)
    ENG = _ENGINE
    if len(r.n) == 1 and not r.den:
        (mono, c), = r.n.d.items()
        if len(mono) == 1 and mono[0][1] == 1 and ENG.kind[mono[0][0]] == "gen":
            v = mono[0][0]
            if v not in ENG.gen_vectors and all(isinstance(x, Sym) and not x.den or not isinstance(x, Sym) for x in xs):
                ENG.gen_vectors[v] = ([sym(x).n for x in xs], c)
    return r


# ------------------------------------------------------------- trigonometry


def PI():
    ENG = _ENGINE
    if ENG.pi_var is None:
        v = ENG.new_var("pi", "pi")
        ENG.pi_var = v
        P.NONNEG_VARS.add(v)
    s = Sym(Poly.var(ENG.pi_var), (), True)
    return s


_KNOWN = {0: (1, 0), Fraction(1, 2): (0, 1), 1: (-1, 0), Fraction(3, 2): (0, -1)}


def angle_var(name, cos, sin, lo_pi, hi_pi, extra=()):
    """New angle variable A with known cosine/sine and lo*pi <= A <= hi*pi."""
    ENG = _ENGINE
    v = ENG.new_var(name, "angle")
    ENG.trig[v] = (cos, sin)
    a = Poly.var(v)
    pi = PI().n
    ENG.var_axioms[v] = [atom(a - pi.scale(lo_pi), 6), atom(a - pi.scale(hi_pi), 3)]
    return v


def acos(x, np_mode=False):
    ENG = _ENGINE
    if not isinstance(x, Sym):
        if _nonfinite(x):
            return math.nan
        x = sym(x)
    if bool(x > 1) or bool(x < -1):
        if np_mode:
            return math.nan
        raise ValueError("math domain error")
    if x.is_const():
        c = x.const()
        if c == 1:
            return Sym(ZERO)
        if c == -1:
            return PI()
        if c == 0:
            return PI() / 2
        if abs(c) == Fraction(1, 2):
            return PI() / 3 if c > 0 else PI() * 2 / 3
    if bool(x == 1):
        return Sym(ZERO)
    if bool(x == -1):
        return PI()
    key = ("acos", x.key())
    v = ENG.angle_memo.get(key)
    if v is None:
        t = 1 - x * x
        t.nn = True
        s = sym_sqrt(t)
        v = angle_var(f"acos{len(ENG.angle_memo)}", x, s, 0, 1)
        ENG.angle_memo[key] = v
    return Sym(Poly.var(v), (), True)


def asin(x, np_mode=False):
    return PI() / 2 - acos(x, np_mode)


def atan2(y, x):
    ENG = _ENGINE
    y, x = sym(y), sym(x)
    if bool(y == 0):
        if bool(x >= 0):
            return Sym(ZERO)
        return PI()
    if bool(x == 0):
        return PI() / 2 if bool(y > 0) else -PI() / 2
    pos = bool(y > 0)
    ENG.learn(as_formula(x * x + y * y > 0))
    r = vec_norm([x, y])
    ENG.learn(as_formula(r > 0))
    c, s = x / r, y / r
    if not isinstance(c, Sym) or not isinstance(s, Sym):
        raise Infeasible()  # r is positive here
    key = ("atan2", c.key(), s.key())
    v = ENG.angle_memo.get(key)
    if v is None:
        v = angle_var(f"atan2_{len(ENG.angle_memo)}", c, s, 0 if pos else -1, 1 if pos else 0)
        ENG.angle_memo[key] = v
    # strictly inside the half-plane
    a = Poly.var(v)
    ENG.learn(atom(a, POS if pos else NEG))
    return Sym(a, (), pos)


def trig_of(x):
    """(cos x, sin x)"""
    ENG = _ENGINE
    if not isinstance(x, Sym):
        x = sym(x)
    if x.n.is_zero():
        return Sym(ONE), Sym(ZERO)
    if x.den:
        raise Concretize("trigonometric function of a rational expression")
    c, s = Sym(ONE), Sym(ZERO)
    for m, k in x.n.d.items():
        if len(m) != 1 or m[0][1] != 1:
            if not m:
                cc, ss = _const_angle(("rad", Fraction(k)))
            else:
                raise Concretize("trigonometric function of a non-linear expression")
        else:
            v = m[0][0]
            kind = ENG.kind[v]
            k = Fraction(k)
            if kind == "pi":
                cc, ss = _pi_angle(k)
            else:
                if k.denominator != 1:
                    raise Concretize("fractional multiple of an angle")
                if v not in ENG.trig:
                    if kind != "input":
                        raise Concretize("trigonometric function of a derived value")
                    _input_angle(v)
                c1, s1 = ENG.trig[v]
                n = int(abs(k))
                cc, ss = Sym(ONE), Sym(ZERO)
                for _ in range(n):
                    cc, ss = cc * c1 - ss * s1, ss * c1 + cc * s1
                if k < 0:
                    ss = -ss
        c, s = c * cc - s * ss, s * cc + c * ss
    return c, s


def _input_angle(v):
    ENG = _ENGINE
    cv = ENG.new_var(f"cos_{RING.names[v]}", "cgen")
    sv = ENG.new_var(f"sin_{RING.names[v]}", "sgen")
    RING.gens[sv] = ONE - Poly.var(cv) * Poly.var(cv)
    ENG.trig[v] = (Sym(Poly.var(cv)), Sym(Poly.var(sv)))


def _pi_angle(k):
    k = k % 2
    if k in _KNOWN:
        a, b = _KNOWN[k]
        return Sym(Poly.const(a)), Sym(Poly.const(b))
    # reduce to the first quadrant so related angles share their values
    q, r = divmod(k, Fraction(1, 2))
    c, s = _const_angle(("pi", r))
    for _ in range(int(q)):
        c, s = -s, c
    return c, s


def _const_angle(key):
    ENG = _ENGINE
    kind, r = key
    if kind == "pi":
        if r == Fraction(1, 4):
            h = root_poly(Poly.const(2)) / 2
            return h, h
        if r > Fraction(1, 4):
            c, s = _const_angle(("pi", Fraction(1, 2) - r))
            return s, c
        if r == Fraction(1, 6):
            return root_poly(Poly.const(3)) / 2, Sym(Poly.const(Fraction(1, 2)))
    if key not in ENG.angle_memo:
        cv = ENG.new_var(f"cos({r}{kind})", "const")
        sv = ENG.new_var(f"sin({r}{kind})", "const")
        RING.gens[sv] = ONE - Poly.var(cv) * Poly.var(cv)
        f = float(r) * (math.pi if kind == "pi" else 1.0)
        for v, val in ((cv, math.cos(f)), (sv, math.sin(f))):
            lo, hi = Fraction(val) - Fraction(1, 10**12), Fraction(val) + Fraction(1, 10**12)
            ENG.const_box[v] = lo, hi
            ENG.var_axioms[v] = [atom(Poly.var(v) - Poly.const(lo), 6), atom(Poly.var(v) - Poly.const(hi), 3)]
        if kind == "pi":
            P.NONNEG_VARS.update((cv, sv))
        ENG.angle_memo[key] = (cv, sv)
    cv, sv = ENG.angle_memo[key]
    return Sym(Poly.var(cv)), Sym(Poly.var(sv))


# ------------------------------------------------------------------ rounding


def symbolic_round(x, nd, how="round"):
    """round(x, nd): a fresh value within half a unit of x (a multiple of 10**-nd; ties either way); or floor(x)."""
    ENG = _ENGINE
    key = (how, x.key(), nd)
    half = Fraction(1, 2) / Fraction(10) ** nd
    v = ENG.angle_memo.get(key)
    if v is None:
        v = ENG.new_var(f"round{len(ENG.angle_memo)}", "round")
        ENG.angle_memo[key] = v
        ENG.round_of[v] = (x, nd, how)
    q = Sym(Poly.var(v))
    if how == "floor":
        ENG.assume((q - x <= 0) & (x - q < 1))
    elif how.startswith("float"):  # the nearest number of a narrower type: relative error, or absolute next to 0
        u = Fraction(1, 2 ** {"float32": 24, "float16": 11}[how])
        w = Fraction(1, 2 ** {"float32": 148, "float16": 24}[how])
        ENG.assume((q - x) * (q - x) <= 2 * u * u * (x * x) + 2 * w * w)
    else:
        ENG.assume((q - x <= half) & (x - q <= half))
    return q


_PICKLED = {}
TEXT = None  # when a list: numbers are written as references into it, so that text can be evaluated back exactly


def _unpickle(key):
    return _PICKLED[key]
