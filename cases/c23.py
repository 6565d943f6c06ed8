"""C23: best-fit circles and spheres."""
from fractions import Fraction

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


NAME = {2: "Circle", 3: "Sphere"}


def on_circle(c, r, t):
    w = 1 + t * t
    return [c[0] + r * (1 - t * t) / w, c[1] + r * (2 * t) / w]


def on_sphere(c, r, s, t):
    w = 1 + s * s + t * t
    return [c[0] + r * (2 * s) / w, c[1] + r * (2 * t) / w, c[2] + r * (s * s + t * t - 1) / w]


@case("C23", bound="three arbitrary points")
def circle_three(C):
    """Any three points: raises iff collinear, else the circle through them."""
    a, u, v = C.vec("a", 2), C.vec("u", 2), C.vec("v", 2)
    P = [a, C.add(a, u), C.add(a, v)]
    if not C.thin:
        return
    r = C.call(O("Circle").best_fit, C.arr(P), obs=False)
    D = u[0] * v[1] - u[1] * v[0]
    C.check("raises iff the points are collinear", C.iff(C.true if r.raised else C.false, C.eq(D, 0)))
    if r.raised:
        C.check_value_error("collinear", r)
        return
    k = r.value
    c, q = C.vals(k.point), C.unwrap(k.radius)
    C.check("positive radius", C.gt(q, 0))
    for p in P:
        C.check("passes through the points", C.eq(C.norm2(C.sub(p, c)), q * q))


@case("C23", [dict(n=n) for n in (3, 4, 5, 7)], bound="points at rational parameters of every circle")
def circle_exact(C, n):
    c, r = C.vec("c", 2), C.real("r", pos=True)
    T = [Fraction(-1), Fraction(0), Fraction(1, 2), Fraction(3), Fraction(2), Fraction(-1, 3)][:n - 1] + [C.real("t")]
    for x in T[:-1]:
        C.assume(C.ne(T[-1], x))
    P = [on_circle(c, r, x) for x in T]
    k = C.expect("best_fit", O("Circle").best_fit, C.arr(P), obs=False)
    C.check("centre", C.eqv(k.point, c))
    C.check("radius", C.eq(k.radius, r))
    C.typecheck("Circle", lambda: type(k) is O("Circle"))


def algebraic(C, P, c, q2):
    """gradient of sum (|p - c|^2 - q2)^2 with respect to the centre and the constant term"""
    d = len(c)
    e = [C.norm2(C.sub(p, c)) - q2 for p in P]
    out = []
    for i in range(d):
        out.append(sum((x * p[i] for x, p in zip(e[1:], P[1:])), e[0] * P[0][i]))
    out.append(sum(e[1:], e[0]))
    return out


@case("C23", [dict(n=4, k=k) for k in range(3)] + [dict(n=6, k=3)], bound="three arbitrary-scale corners and one free point")
def circle_least_squares(C, n, k):
    """Points off any circle: the algebraic residual is stationary."""
    s, q = C.real("s", pos=True) if k == 0 else Fraction(3, 2), C.vec("q", 2)
    B = [[[0, 0], [s, 0], [0, s]], [[1, 0], [-1, s], [2, 2]], [[-s, 1], [s, 1], [0, -2]], [[0, 0], [0, 0], [4, 0], [0, 4], [1, 1]]][k]
    P = B + [q]
    if not C.thin:
        return
    r = C.call(O("Circle").best_fit, C.arr(P), obs=False)
    if r.raised and k:
        C.stop()  # (positive radius is decided with k = 0)
    if r.raised:
        C.fail("best_fit", repr(r.exc))
        return
    c, x = C.vals(r.value.point), C.unwrap(r.value.radius)
    for g in algebraic(C, P, c, x * x):
        C.check("least squares", C.eq(g, 0))


@case("C23", [dict(n=n, d=d) for n, d in ((1, 2), (2, 2), (3, 1), (3, 3), (4, 3), (2, 3))])
def circle_domain(C, n, d):
    C.check_value_error("best_fit", C.call(O("Circle").best_fit, C.arr(C.pts("p", n, d))))


@case("C23", [dict(n=3), dict(n=4)])
def circle_collinear(C, n):
    o, v, t = C.vec("o", 2), C.vec("v", 2), C.vec("t", n)
    if C.thin:
        C.check_value_error("collinear points", C.call(O("Circle").best_fit, C.arr([C.add(o, C.mul(x, v)) for x in t]), obs=False))


@case("C23", bound="four points, three of them on the axes of a box with symbolic edges and one free")
def sphere_four(C):
    o, q = C.vec("o", 3), C.vec("q", 3)
    x, y = C.real("x", nonzero=True), C.real("y", nonzero=True)
    P = [o, C.add(o, [x, 0, 0]), C.add(o, [0, y, 0]), C.add(o, q)]
    if not C.thin:
        return
    r = C.call(O("Sphere").best_fit, C.arr(P), obs=False)
    C.check("raises iff the points are coplanar", C.iff(C.true if r.raised else C.false, C.eq(q[2], 0)))
    if r.raised:
        C.check_value_error("coplanar", r)
        return
    c, s = C.vals(r.value.point), C.unwrap(r.value.radius)
    C.check("positive radius", C.gt(s, 0))
    for p in P:
        C.check("passes through the points", C.eq(C.norm2(C.sub(p, c)), s * s))


@case("C23", [dict(n=n) for n in (4, 5, 6, 7, 8)], bound="points at rational parameters of every sphere")
def sphere_exact(C, n):
    c, r = C.vec("c", 3), C.real("r", pos=True)
    T = [(Fraction(0), Fraction(0)), (Fraction(1), Fraction(0)), (Fraction(0), Fraction(1, 2)), (Fraction(-1), Fraction(-1)), (Fraction(2), Fraction(1)),
         (Fraction(1, 2), Fraction(-1, 2)), (Fraction(-1, 3), Fraction(2)), (Fraction(1), Fraction(1))][:n]
    P = [on_sphere(c, r, *x) for x in T]
    k = C.expect("best_fit", O("Sphere").best_fit, C.arr(P), obs=False)
    C.check("centre", C.eqv(k.point, c))
    C.check("radius", C.eq(k.radius, r))
    C.typecheck("Sphere", lambda: type(k) is O("Sphere"))


@case("C23", [dict(k=k) for k in range(3)], bound="four or more fixed points and one free point on a line")
def sphere_least_squares(C, k):
    """Points off any sphere: the algebraic residual is stationary."""
    B = [[[0, 0, 0], [2, 0, 0], [0, 4, 0], [0, 0, 6]], [[1, 0, 0], [-1, 2, 0], [2, 2, 1], [0, -3, 1], [0, 0, 0]],
         [[1, 1, 0], [-2, 1, 0], [0, -2, 1], [0, 0, 4], [1, 1, 0], [3, 2, 1]]][k]
    t = C.real("t")
    P = B + [C.add([1, 1, 1], C.mul(t, [[1, 0, 0], [1, 2, 0], [0, -1, 3]][k]))]
    if not C.thin:
        return
    r = C.call(O("Sphere").best_fit, C.arr(P), obs=False)
    if r.raised:
        C.fail("best_fit", repr(r.exc))
        return
    c, x = C.vals(r.value.point), C.unwrap(r.value.radius)
    for g in algebraic(C, P, c, x * x):
        C.check("least squares", C.eq(g, 0))


@case("C23", [dict(n=n, d=d) for n, d in ((1, 3), (2, 3), (3, 3), (4, 2), (5, 2), (4, 4))])
def sphere_domain(C, n, d):
    C.check_value_error("best_fit", C.call(O("Sphere").best_fit, C.arr(C.pts("p", n, d))))


@case("C23", [dict(n=4), dict(n=5)], bound="points of planes through two fixed oblique directions")
def sphere_coplanar(C, n):
    o, T = C.vec("o", 3), C.pts("t", n, 2)
    if C.thin:
        P = [C.add(o, C.add(C.mul(a, [1, 2, 2]), C.mul(b, [2, 1, -2]))) for a, b in T]
        C.check_value_error("coplanar points", C.call(O("Sphere").best_fit, C.arr(P), obs=False))
