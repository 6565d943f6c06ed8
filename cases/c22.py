"""C22: best-fit lines and planes (total least squares)."""
from fractions import Fraction

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


FR = {2: ([[3, 4], [-4, 3]], 5), 3: ([[1, 2, 2], [2, 1, -2], [2, -2, 1]], 3),
      4: ([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]], 2)}
# orthogonal, mean-free patterns of 4 and 8 samples
PAT = {4: [[1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]],
       8: [[1, 1, 1, 1, -1, -1, -1, -1], [1, 1, -1, -1, 1, 1, -1, -1], [1, -1, 1, -1, 1, -1, 1, -1]],
       2: [[1, -1]]}
ROOT = {4: 2, 8: None, 2: None}


def spread(C, n, d, order=None):
    """n points with the principal axes of an oblique frame and the spreads a[0] > a[1] >= ... along them."""
    F, k = FR[d]
    o = C.vec("o", d)
    r = min(d, n - 1, 3)
    a = [C.real(f"a{i}", lo=0) for i in range(r)]
    C.assume(C.gt(a[0], 0))
    for x, y in zip(a, a[1:]):
        C.assume(C.le(y, x))
    order = list(order or range(n))
    N = len(order)
    P = []
    for j in order:
        p = o
        for i in range(r):
            p = C.add(p, C.mul(a[i] * PAT[n][i][j], F[i]))
        P.append(p)
    if C.thin:
        q = C.sqrt(N)
        U = [[(Fraction(1) * PAT[n][i][j]) / q if i < r else 0 for i in range(N)] for j in order]
        s = [x * q * k for x in a] + [0] * (min(N, d) - r)
        Vh = [[Fraction(e, k) for e in v] for v in F]
        flips = [C.real(f"flip{i}", lo=-1, hi=1) for i in range(r)]
        C.svd_known(U, s, Vh, flip=lambda i: C.lt(flips[i], 0) if i < len(flips) else C.false)
    return P, o, F, a, k


def sq_dist_line(C, P, q, v):
    """sum of squared distances times |v|^2"""
    t = 0
    for p in P:
        t = t + C.lagrange(C.sub(p, q), v)
    return t


LINES = [dict(n=4, d=2), dict(n=4, d=3), dict(n=2, d=2), dict(n=2, d=3), dict(n=8, d=2), dict(n=8, d=3),
         dict(n=4, d=4), dict(n=8, d=4)] + [dict(n=4, d=d, rep=2) for d in (2, 3)]


@case("C22", LINES, bound="samples spread along the axes of a fixed oblique frame, all spreads and positions")
def line(C, n, d, rep=1):
    """rep: how often every sample is repeated."""
    P, o, F, a, k = spread(C, n, d, list(range(n)) * rep)
    if C.mode != "symbolic" and len(a) > 1:
        C.assume(C.gt(a[0], 2 * a[1]))
    l, err = C.expect("best_fit", O("Line").best_fit, C.arr(P), return_error=True, obs=False)
    C.check("through the centroid", C.eqv(l.point, o))
    C.check("along the widest spread", C.any_([C.parallel(C.vals(l.direction), F[0])] + [C.eq(a[0], x) for x in a[1:2]]))
    e = 0
    for x in a[1:]:
        e = e + rep * n * k * k * x * x
    C.check("error is the sum of squared distances", C.eq(err, e))
    C.check("and measured on the points", C.eq(sq_dist_line(C, P, C.vals(l.point), C.vals(l.direction)), err * C.norm2(C.vals(l.direction))))
    l2 = C.expect("best_fit without the error", O("Line").best_fit, C.arr(P), obs=False)
    C.typecheck("Line", lambda: type(l) is O("Line") and type(l2) is O("Line"))
    C.check("same line", C.all_([C.eqv(l2.point, l.point), C.parallel(C.vals(l2.direction), C.vals(l.direction))]))


@case("C22", [dict(n=4, d=2), dict(n=4, d=3)], bound="samples spread along the axes of a fixed oblique frame")
def line_optimal(C, n, d):
    """No other line has a smaller sum of squared distances."""
    P, o, F, a, k = spread(C, n, d)
    w, q = C.vec("w", d), C.vec("q", d)
    if C.thin:
        l = C.expect("best_fit", O("Line").best_fit, C.arr(P), obs=False)
        v = [0] * d
        for x, f in zip(w, F):
            v = C.add(v, C.mul(x, f))
        dirn, pt = C.vals(l.direction), C.vals(l.point)
        C.check("not beaten by another direction", C.ge(
            sq_dist_line(C, P, o, v), sq_dist_line(C, P, pt, dirn) * C.norm2(v)))


@case("C22", [dict(n=n, d=d) for d in (2, 3) for n in (2, 3, 4)] + [dict(n=n, d=d, rep=r) for n, d, r in ((2, 2, "001"), (2, 3, "0111"), (3, 3, "00121"))]
      + [dict(n=6, d=3), dict(n=3, d=4)], bound="all points of lines with a fixed oblique direction")
def line_exact(C, n, d, rep=""):
    """Points of a line are fitted by that line."""
    F, k = FR[d]
    o, t = C.vec("o", d), C.vec("t", n)
    t = [t[int(i)] for i in rep] or t  # repeated samples
    n = len(t)
    P = [C.add(o, C.mul(x, F[0])) for x in t]
    if not C.thin:
        return
    m = sum(t[1:], t[0]) * Fraction(1, n)
    u = [x - m for x in t]
    C.assume(C.gt(C.norm2(u), 0))
    q = C.norm(u)
    U = [[x / q] + [0] * (n - 1) for x in u]
    C.svd_known(U, [q * k] + [0] * (min(n, d) - 1), [[Fraction(e, k) for e in v] for v in F])
    l, err = C.expect("best_fit", O("Line").best_fit, C.arr(P), return_error=True, obs=False)
    C.check("same direction", C.parallel(C.vals(l.direction), F[0]))
    C.check("through the points", C.parallel(C.sub(C.vals(l.point), P[0]), F[0]))
    C.check("through the centroid of the samples", C.eqv(l.point, C.add(o, C.mul(m, F[0]))))
    C.check("error is 0", C.eq(err, 0))


@case("C22", [dict(n=n, d=d) for d in (2, 3) for n in (1, 2, 3)])
def line_domain(C, n, d):
    p = C.vec("p", d)
    C.check_value_error("equal points", C.call(O("Line").best_fit, C.arr([p] * n)))


@case("C22", [dict(d=2), dict(d=3)])
def line_tol(C, d):
    """tol decides which spreads count as a single point."""
    P, o, F, a, k = spread(C, 4, d)
    if d == 3:
        C.assume(C.eq(a[2], 0))
    C.assume(C.gt(a[1], 0))
    t = C.real("t", lo=0)
    if C.thin:
        r = C.call(O("Line").best_fit, C.arr(P), tol=C.num(t), obs=False)
        s = 2 * k * a[0]
        C.check("raises iff the spread is within tol", C.iff(C.true if r.raised else C.false, C.le(s, t)))
        if r.raised:
            C.check_value_error("concurrent", r)


@case("C22", [dict(n=4), dict(n=8), dict(n=4, rep=2)], bound="samples spread along the axes of a fixed oblique frame, all spreads and positions")
def plane(C, n, rep=1):
    P, o, F, a, k = spread(C, n, 3, list(range(n)) * rep)
    C.assume(C.gt(a[1], 0))
    p, err = C.expect("best_fit", O("Plane").best_fit, C.arr(P), return_error=True, obs=False)
    C.check("through the centroid", C.eqv(p.point, o))
    N = C.vals(p.normal)
    C.check("normal along the smallest spread", C.any_([C.parallel(N, F[2]), C.eq(a[1], a[2])]))
    C.check("error is the sum of squared distances", C.eq(err, rep * n * k * k * a[2] * a[2]))
    t = 0
    for x in P:
        h = C.dot(C.sub(x, C.vals(p.point)), N)
        t = t + h * h
    C.check("and measured on the points", C.eq(t, err * C.norm2(N)))
    p2 = C.expect("best_fit without the error", O("Plane").best_fit, C.arr(P), obs=False)
    C.check("same plane", C.all_([C.eqv(p2.point, o), C.parallel(C.vals(p2.normal), N)]))
    C.typecheck("Plane", lambda: type(p) is O("Plane") and type(p2) is O("Plane"))


@case("C22", bound="samples spread along the axes of a fixed oblique frame")
def plane_optimal(C):
    P, o, F, a, k = spread(C, 4, 3)
    C.assume(C.gt(a[1], 0))
    w = C.vec("w", 3)
    if C.thin:
        p = C.expect("best_fit", O("Plane").best_fit, C.arr(P), obs=False)
        v = [0] * 3
        for x, f in zip(w, F):
            v = C.add(v, C.mul(x, f))
        N, q = C.vals(p.normal), C.vals(p.point)
        e = lambda q, N: sum(((lambda h: h * h)(C.dot(C.sub(x, q), N)) for x in P[1:]), (lambda h: h * h)(C.dot(C.sub(P[0], q), N)))
        C.check("not beaten by another direction", C.ge(e(o, v) * C.norm2(N), e(q, N) * C.norm2(v)))


@case("C22", [dict(n=n) for n in (1, 2, 3, 4)])
def plane_domain(C, n):
    o, v, t = C.vec("o", 3), C.vec("v", 3), C.vec("t", n)
    if C.thin or n < 3:
        P = [C.add(o, C.mul(x, v)) for x in t]
        C.check_value_error("collinear points", C.call(O("Plane").best_fit, C.arr(P), obs=n < 3))


@case("C22", [dict(n=3, d=2), dict(n=3, d=1), dict(n=4, d=4)])
def plane_dimension(C, n, d):
    C.check_value_error("not 3D", C.call(O("Plane").best_fit, C.arr(C.pts("p", n, d))))


@case("C22")
def plane_tol(C):
    P, o, F, a, k = spread(C, 4, 3)
    C.assume(C.eq(a[2], 0))
    C.assume(C.gt(a[1], 0))
    t = C.real("t", lo=0)
    if C.thin:
        r = C.call(O("Plane").best_fit, C.arr(P), tol=C.num(t), obs=False)
        C.check("raises iff the second spread is within tol", C.iff(C.true if r.raised else C.false, C.le(6 * a[1], t)))
        if r.raised:
            C.check_value_error("collinear", r)
