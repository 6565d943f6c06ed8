"""C27: cylinders of best fit, relative to a numerical optimiser that finds a minimum of the function it is given."""
import sys
from fractions import Fraction

import numpy as np

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


# polar angles with rational sines and cosines, and the frame they span
AXES = {
    0: ((Fraction(3, 5), Fraction(4, 5)), (Fraction(5, 13), Fraction(12, 13))),
    1: ((Fraction(-4, 5), Fraction(3, 5)), (Fraction(-3, 5), Fraction(4, 5))),
    2: ((Fraction(5, 13), Fraction(12, 13)), (Fraction(3, 5), Fraction(-4, 5))),
    3: ((Fraction(1), Fraction(0)), (Fraction(1), Fraction(0))),
    4: ((Fraction(0), Fraction(1)), (Fraction(1), Fraction(0))),
    5: ((Fraction(0), Fraction(1)), (Fraction(0), Fraction(1))),
}


def frame(k):
    (ct, st), (cp, sp) = AXES[k]
    return [st * cp, st * sp, ct], [ct * cp, ct * sp, -st], [-sp, cp, Fraction(0)]


class Optimum(dict):
    __getattr__ = dict.__getitem__


def perfect_minimiser(C, k, np_, used):
    """Stands for the optimiser: answers with the angles of the axis (either order) that make the function vanish."""
    (ct, st), (cp, sp) = AXES[k]

    def angle(c, s):
        if s == 0:
            return C.S.sym(0) if c > 0 else C.S.PI()
        a = np_.arccos(C.S.sym(c))
        return a if s > 0 else -a

    def minimize(fun=None, x0=None, args=(), **kw):
        th, ph = angle(ct, st), angle(cp, sp)
        for x in ([th, ph], [ph, th], [C.S.PI() - th, ph + C.S.PI()]):
            X = np.array(x, dtype=object)
            f = fun(X, *args)
            if C.truth(C.eq(C.flat(f)[0], 0)):
                return Optimum(x=X, fun=f, success=True)
        X = np.array([th, ph], dtype=object)
        return Optimum(x=X, fun=fun(X, *args), success=True)

    return minimize


def snapping_minimiser(real, k, used):
    """Replay: the real optimiser, moved to the exact axis where the function is no larger than at its answer."""
    (ct, st), (cp, sp) = [(float(c), float(s)) for c, s in AXES[k]]

    def minimize(fun=None, x0=None, args=(), **kw):
        r = real(fun, x0, args, **kw)
        th, ph = np.arctan2(st, ct), np.arctan2(sp, cp)
        cand = [np.array(x) for x in ([th, ph], [ph, th], [np.pi - th, ph + np.pi])]
        x = min(cand, key=lambda x: float(fun(x, *args)))
        if float(fun(x, *args)) <= float(r.fun) + 1e-20:
            r.x, r.fun = x, fun(x, *args)
            used.append(1)
        return r

    return minimize


def fit(C, k, P, used):
    """best_fit on the real code; while exploring, the optimiser is the stand-in."""
    mod = sys.modules[O("Cylinder").__module__]
    import scipy.optimize as so

    real = so.minimize
    stub = perfect_minimiser(C, k, mod.np, used) if C.mode == "symbolic" else snapping_minimiser(real, k, used)
    names = [n for n, x in vars(mod).items() if x is real]
    try:
        for n in names:
            setattr(mod, n, stub)
        so.minimize = stub
        return C.call(O("Cylinder").best_fit, C.arr(P), obs=False)
    finally:
        so.minimize = real
        for n in names:
            setattr(mod, n, real)


RINGS = {4: [(1, 0), (0, 1), (-1, 0), (0, -1)],
         "tilted": [(Fraction(3, 5), Fraction(4, 5)), (Fraction(-4, 5), Fraction(3, 5)), (Fraction(-3, 5), Fraction(-4, 5)), (Fraction(4, 5), Fraction(-3, 5))]}


@case("C27", [dict(k=k, ring=r, m=m) for k in AXES for r, m in ((4, 2), ("tilted", 2), (4, 3))],
      bound="rings of 4 samples at 2 or 3 heights on every cylinder along a fixed axis, longer than it is wide")
def recovered(C, k, ring, m):
    """Samples of a cylinder, symmetric about its middle, give that cylinder back."""
    v, e, f = frame(k)
    c = C.vec("c", 3, lo=-10, hi=10)
    r, q = C.real("r", lo=Fraction(1, 4), hi=10), C.real("q", lo=2, hi=10)
    h = q * r
    P = []
    for t in {2: (-1, 1), 3: (1, 0, -1)}[m]:
        for x, y in RINGS[ring]:
            P.append(C.add(C.add(c, C.mul(t * h, v)), C.add(C.mul(x * r, e), C.mul(y * r, f))))
    if C.mode == "symbolic":
        n = len(P)
        s = [C.sqrt(8) * h, C.sqrt(2 * m) * r, C.sqrt(2 * m) * r]
        V = [v, e, f]
        z = Fraction(0)
        U = [[C.dot(C.sub(p, c), w) / x for w, x in zip(V, s)] + [0] * (n - 3) for p in P]
        flip = C.real("flip", lo=-1, hi=1)
        C.svd_known(U, s, V, flip=lambda i: C.lt(flip, 0) if i == 0 else C.false)
    used = []
    o = fit(C, k, P, used)
    if o.raised:
        C.fail("best_fit", repr(o.exc))
        return
    Y = o.value
    a, w = C.vals(Y.point), C.vals(Y.vector)
    b = C.add(a, w)
    lo, hi = C.sub(c, C.mul(h, v)), C.add(c, C.mul(h, v))
    if C.mode == "symbolic":
        same = lambda x, y: C.eqv(x, y)
        C.check("radius", C.eq(C.unwrap(Y.radius), r))
    else:  # the real optimiser is only approximate
        tol = 1e-6 * (1 + max(map(abs, map(float, c + [h])))) / float(r) if used else 1e-2
        near = lambda x, y: C.all_([C.le(x - y, tol * r), C.le(y - x, tol * r)])
        same = lambda x, y: C.all_([near(s, t) for s, t in zip(x, y)])
        C.check("radius", near(C.unwrap(Y.radius), r))
    C.check("ends of the axis", C.any_([C.all_([same(a, lo), same(b, hi)]), C.all_([same(a, hi), same(b, lo)])]))
    C.typecheck("Cylinder", lambda: type(Y) is O("Cylinder"))


@case("C27", [dict(n=n) for n in (1, 2, 5)])
def too_few(C, n):
    C.check_value_error("fewer than 6 points", C.call(O("Cylinder").best_fit, C.arr(C.pts("p", n, 3)), obs=False))


@case("C27", [dict(n=6, d=2), dict(n=6, d=4), dict(n=7, d=1), dict(n=2, d=2)])
def dimension(C, n, d):
    C.check_value_error("not 3D", C.call(O("Cylinder").best_fit, C.arr(C.pts("p", n, d)), obs=False))


@case("C27", bound="six points of planes through two fixed oblique directions")
def coplanar(C):
    o, T = C.vec("o", 3), C.pts("t", 3, 2)
    T = T + [[0, 0], [1, 0], [0, 1]]
    P = [C.add(o, C.add(C.mul(a, [1, 2, 2]), C.mul(b, [2, 1, -2]))) for a, b in T]
    if C.thin:
        C.check_value_error("coplanar points", C.call(O("Cylinder").best_fit, C.arr(P), obs=False))
