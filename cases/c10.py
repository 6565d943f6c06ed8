"""C10: plane-line and plane-plane intersection."""
from fractions import Fraction

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


@case("C10", [dict(d=d) for d in (1, 2, 3, 4)])
def plane_line(C, d):
    p, n, a, v = C.vec("p", d), C.vec("n", d), C.vec("a", d), C.vec("v", d)
    C.nonzero(n)
    C.nonzero(v)
    pl, l = O("Plane")(C.arr(p), C.arr(n)), O("Line")(C.arr(a), C.arr(v))
    r = C.call(pl.intersect_line, l)
    C.check("raises iff the line is parallel to the plane", C.iff(C.true if r.raised else C.false, C.eq(C.dot(n, v), 0)))
    if r.raised:
        C.check_value_error("parallel", r)
        return
    X = C.vals(r.value)
    C.check("dimension", C.true if len(X) == d else C.false)
    C.check("on the plane", C.eq(C.dot(C.sub(X, p), n), 0))
    C.check("on the line", C.parallel(C.sub(X, a), v))
    C.typecheck("Point", lambda: type(r.value) is O("Point"))
    C.check("inputs unchanged", C.all_([C.eqv(pl.point, p), C.eqv(pl.normal, n), C.eqv(l.point, a), C.eqv(l.direction, v)]))


@case("C10", [dict(d=d) for d in (2, 3)])
def plane_line_recovers(C, d):
    """The crossing point is found whichever points and vectors represent plane and line."""
    x, n, v = C.vec("x", d), C.vec("n", d), C.vec("v", d)
    s, k, j, h = C.real("s"), C.real("k", nonzero=True), C.real("j", nonzero=True), C.vec("h", d)
    C.assume(C.ne(C.dot(n, v), 0))
    if d == 3:
        on = C.add(x, C.cross(n, h))
    else:
        on = C.add(x, C.mul(h[0], [-n[1], n[0]]))
    r = C.expect("intersect_line", O("Plane")(C.arr(on), C.arr(C.mul(k, n))).intersect_line,
                 O("Line")(C.arr(C.add(x, C.mul(s, v))), C.arr(C.mul(j, v))))
    C.check("the common point", C.eqv(r, x))


@case("C10", [dict(d=d) for d in (2, 3)])
def plane_line_tolerance(C, d):
    p, n, a, v = C.vec("p", d), C.vec("n", d), C.vec("a", d), C.vec("v", d)
    t = C.real("t", lo=0)
    C.nonzero(n)
    C.nonzero(v)
    r = C.call(O("Plane")(C.arr(p), C.arr(n)).intersect_line, O("Line")(C.arr(a), C.arr(v)), abs_tol=C.num(t))
    nv = C.dot(n, v)
    C.check("raises iff |n.v| <= abs_tol", C.iff(C.true if r.raised else C.false, C.le(nv * nv, t * t)))
    if r.raised:
        C.check_value_error("parallel", r)
    else:
        X = C.vals(r.value)
        C.check("on the plane", C.eq(C.dot(C.sub(X, p), n), 0))
        C.check("on the line", C.parallel(C.sub(X, a), v))


@case("C10", [dict(a=2, b=3), dict(a=3, b=2), dict(a=1, b=3), dict(a=3, b=1), dict(a=2, b=1)])
def plane_line_mixed(C, a, b):
    p, n, q, v = C.vec("p", a), C.vec("n", a), C.vec("q", b), C.vec("v", b)
    C.nonzero(n)
    C.nonzero(v)
    pl, l = O("Plane")(C.arr(p), C.arr(n)), O("Line")(C.arr(q), C.arr(v))
    C.check_value_error("plane and line of different dimensions", C.call(pl.intersect_line, l))


@case("C10")
def plane_plane(C):
    p, n, q, m = (C.vec(x, 3) for x in "pnqm")
    C.nonzero(n)
    C.nonzero(m)
    a, b = O("Plane")(C.arr(p), C.arr(n)), O("Plane")(C.arr(q), C.arr(m))
    r = C.call(a.intersect_plane, b)
    lag, prod = C.lagrange(n, m), C.norm2(n) * C.norm2(m)
    if r.raised:
        C.check_value_error("parallel planes", r)
        C.check("raises only for nearly parallel planes", C.le(lag * 10**8, prod))
        return
    C.check("parallel planes are rejected", C.gt(lag, 0))
    X, D = C.vals(r.value.point), C.vals(r.value.direction)
    C.check("3D line", C.true if len(X) == 3 and len(D) == 3 else C.false)
    C.check("direction in both planes", C.all_([C.eq(C.dot(D, n), 0), C.eq(C.dot(D, m), 0)]))
    C.check("direction not zero", C.not_(C.zero(D)))
    C.check("point on both planes", C.all_([C.eq(C.dot(C.sub(X, p), n), 0), C.eq(C.dot(C.sub(X, q), m), 0)]))
    C.typecheck("Line", lambda: type(r.value) is O("Line"))
    C.check("planes unchanged", C.all_([C.eqv(a.point, p), C.eqv(a.normal, n), C.eqv(b.point, q), C.eqv(b.normal, m)]))


@case("C10")
def plane_plane_swapped(C):
    """Swapping the planes gives the same line."""
    x, n, m = C.vec("x", 3), C.vec("n", 3), C.vec("m", 3)
    lag = C.lagrange(n, m)
    C.assume(C.all_([C.gt(lag, 0), C.gt(lag * 10**8, C.norm2(n) * C.norm2(m))]))
    a, b = O("Plane")(C.arr(x), C.arr(n)), O("Plane")(C.arr(x), C.arr(m))
    r, s = C.expect("intersect_plane", a.intersect_plane, b), C.expect("intersect_plane", b.intersect_plane, a)
    w = C.cross(n, m)
    for l in (r, s):
        C.check("through the common point", C.parallel(C.sub(C.vals(l.point), x), w))
        C.check("along n x m", C.parallel(C.vals(l.direction), w))


@case("C10")
def plane_plane_parallel(C):
    p, n, q, k = C.vec("p", 3), C.vec("n", 3), C.vec("q", 3), C.real("k", nonzero=True)
    C.nonzero(n)
    a, b = O("Plane")(C.arr(p), C.arr(n)), O("Plane")(C.arr(q), C.arr(C.mul(k, n)))
    C.check_value_error("parallel", C.call(a.intersect_plane, b))
    C.check_value_error("itself", C.call(a.intersect_plane, a))


@case("C10", [dict(t="1/100"), dict(t="1/2")])
def plane_plane_tolerance(C, t):
    t = Fraction(t)
    x, n, m = C.vec("x", 3), C.vec("n", 3), C.vec("m", 3)
    C.assume(C.all_([C.gt(C.norm2(n), 1), C.gt(C.norm2(m), 1)]))
    r = C.call(O("Plane")(C.arr(x), C.arr(n)).intersect_plane, O("Plane")(C.arr(x), C.arr(m)), abs_tol=float(t))
    k = 1 - (1 - t) ** 2
    C.check("raises iff parallel within abs_tol",
            C.iff(C.true if r.raised else C.false, C.le(C.lagrange(n, m), k * C.norm2(n) * C.norm2(m))))
    if r.raised:
        C.check_value_error("parallel", r)
    else:
        C.check("through the common point", C.parallel(C.sub(C.vals(r.value.point), x), C.cross(n, m)))


@case("C10", [dict(a=2, b=3), dict(a=3, b=2), dict(a=3, b=4), dict(a=2, b=2), dict(a=4, b=4)])
def plane_plane_dimension(C, a, b):
    p, n, q, m = C.vec("p", a), C.vec("n", a), C.vec("q", b), C.vec("m", b)
    C.nonzero(n)
    C.nonzero(m)
    x, y = O("Plane")(C.arr(p), C.arr(n)), O("Plane")(C.arr(q), C.arr(m))
    C.check_value_error("only 3D planes intersect in a line", C.call(x.intersect_plane, y))
