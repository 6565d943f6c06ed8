"""C09: relations between two lines - distance, coplanarity, intersection."""
from fractions import Fraction

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


def line(C, d, p="p", v="v"):
    P, V = C.vec(p, d), C.vec(v, d)
    C.nonzero(V)
    return P, V, O("Line")(C.arr(P), C.arr(V))


def triple(C, w, u, v):
    return C.dot(w, C.cross(u, v))


def slanted(C, u, v):
    """Clearly not parallel (outside every default tolerance)."""
    lag = C.lagrange(u, v)
    return C.all_([C.gt(lag, 0), C.gt(lag * 10**8, C.norm2(u) * C.norm2(v))])


@case("C09", [dict(d=d) for d in (2, 3)])
def distance_not_parallel(C, d):
    p, u, a = line(C, d, "p", "u")
    q, v, b = line(C, d, "q", "v")
    C.assume(slanted(C, u, v))
    r = C.expect("distance_line", a.distance_line, b)
    C.check("not negative", C.ge(r, 0))
    if d == 2:
        C.check("planar lines meet", C.eq(r, 0))
    else:
        t = triple(C, C.sub(q, p), u, v)
        C.check("distance^2 |u x v|^2 = (w . u x v)^2", C.eq(r * r * C.lagrange(u, v), t * t))
    C.check("lines unchanged", C.all_([C.eqv(a.point, p), C.eqv(a.direction, u), C.eqv(b.point, q), C.eqv(b.direction, v)]))


@case("C09", [dict(d=d) for d in (1, 2, 3, 4)])
def distance_parallel(C, d):
    p, u, a = line(C, d, "p", "u")
    q, k = C.vec("q", d), C.real("k", nonzero=True)
    b = O("Line")(C.arr(q), C.arr(C.mul(k, u)))
    r = C.expect("distance_line", a.distance_line, b)
    C.check("not negative", C.ge(r, 0))
    C.check("distance^2 |u|^2 = |w x u|^2", C.eq(r * r * C.norm2(u), C.lagrange(C.sub(q, p), u)))


@case("C09", [dict(d=d) for d in (2, 3, 4)])
def distance_intersecting(C, d):
    """Two lines through one point are at distance zero."""
    x, u, v = C.vec("x", d), C.vec("u", d), C.vec("v", d)
    s, t = C.real("s"), C.real("t")
    C.assume(slanted(C, u, v))
    a = O("Line")(C.arr(C.add(x, C.mul(s, u))), C.arr(u))
    b = O("Line")(C.arr(C.add(x, C.mul(t, v))), C.arr(v))
    C.check("zero", C.eq(C.expect("distance_line", a.distance_line, b), 0))


@case("C09", [dict(d=3)])
def distance_symmetric(C, d):
    """Common perpendicular built explicitly: direction u x v, offset h."""
    x, u, v = C.vec("x", d), C.vec("u", d), C.vec("v", d)
    s, t, h = C.real("s"), C.real("t"), C.real("h", nonzero=True)
    C.assume(slanted(C, u, v))
    n = C.cross(u, v)
    a = O("Line")(C.arr(C.add(x, C.mul(s, u))), C.arr(u))
    b = O("Line")(C.arr(C.add(C.add(x, C.mul(h, n)), C.mul(t, v))), C.arr(v))
    r1 = C.expect("distance_line", a.distance_line, b)
    r2 = C.expect("distance_line", b.distance_line, a)
    C.check("length of the common perpendicular", C.all_([C.ge(r1, 0), C.eq(r1 * r1, h * h * C.norm2(n))]))
    C.check("symmetric", C.eq(r1, r2))


@case("C09", [dict(d=d) for d in (1, 2, 3)])
def coplanar(C, d):
    p, u, a = line(C, d, "p", "u")
    q, v, b = line(C, d, "q", "v")
    r = C.bool(C.expect("is_coplanar", a.is_coplanar, b))
    if d < 3:
        C.check("always coplanar below 3D", r)
    else:
        C.check("coplanar iff the triple product vanishes", C.iff(r, C.eq(triple(C, C.sub(q, p), u, v), 0)))
    C.check("lines unchanged", C.all_([C.eqv(a.point, p), C.eqv(a.direction, u), C.eqv(b.point, q), C.eqv(b.direction, v)]))


@case("C09", [dict(d=d) for d in (3, 4)])
def coplanar_constructions(C, d):
    """Parallel lines, and lines through a common point, are coplanar."""
    x, u, v = C.vec("x", d), C.vec("u", d), C.vec("v", d)
    s, t, k = C.real("s"), C.real("t"), C.real("k", nonzero=True)
    C.nonzero(u)
    C.nonzero(v)
    a = O("Line")(C.arr(C.add(x, C.mul(s, u))), C.arr(u))
    b = O("Line")(C.arr(C.add(x, C.mul(t, v))), C.arr(v))
    C.check("common point", C.bool(C.expect("is_coplanar", a.is_coplanar, b, obs=False)))
    q = C.vec("q", d)
    b = O("Line")(C.arr(q), C.arr(C.mul(k, u)))
    C.check("parallel", C.bool(C.expect("is_coplanar", a.is_coplanar, b, obs=False)))


@case("C09")
def coplanar_4d(C):
    """Skew lines of a 3-flat in 4D are not coplanar."""
    x, h = C.vec("x", 4), C.real("h", nonzero=True)
    u, v = [1, 0, C.real("m"), 0], [0, 1, 0, C.real("n")]
    a = O("Line")(C.arr(x), C.arr(u))
    b = O("Line")(C.arr(C.add(x, [0, 0, h, h])), C.arr(v))
    minor = [C.det([u, v, [0, 0, h, h]], keep) for keep in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3))]
    r = C.bool(C.expect("is_coplanar", a.is_coplanar, b))
    C.check("iff every 3x3 minor vanishes", C.iff(r, C.all_([C.eq(m, 0) for m in minor])))


@case("C09", [dict(d=d) for d in (2, 3)])
def coplanar_tolerance_and_type(C, d):
    p, u, a = line(C, d, "p", "u")
    r = C.call(a.is_coplanar, C.arr(p))
    C.check("TypeError for anything but a line", C.true if r.is_exc(TypeError) else C.false)
    r = C.call(a.is_coplanar, O("Plane")(C.arr(p), C.arr(u)))
    C.check("TypeError for a plane", C.true if r.is_exc(TypeError) else C.false)


@case("C09")
def coplanar_tol_keyword(C):
    """Slightly skew lines are coplanar under a matching tolerance."""
    h = C.real("h", lo=Fraction(1, 1000), hi=Fraction(1, 100))
    a = O("Line")(C.arr([0, 0, 0]), C.arr([1, 0, 0]))
    b = O("Line")(C.arr([0, 0, h]), C.arr([0, 1, 0]))
    C.check("default: skew", C.not_(C.bool(C.expect("is_coplanar", a.is_coplanar, b))))
    C.check("tol=10: coplanar", C.bool(C.expect("is_coplanar", a.is_coplanar, b, tol=10)))


@case("C09", [dict(d=d) for d in (2, 3)])
def intersect(C, d):
    p, u, a = line(C, d, "p", "u")
    q, v, b = line(C, d, "q", "v")
    r = C.call(a.intersect_line, b)
    w = C.sub(q, p)
    lag, prod = C.lagrange(u, v), C.norm2(u) * C.norm2(v)
    skew = C.ne(triple(C, w, u, v), 0) if d == 3 else C.false
    if r.raised:
        C.check_value_error("parallel or skew", r)
        C.check("raises only for nearly parallel or skew lines", C.any_([C.le(lag * 10**8, prod), skew]))
        return
    C.check("parallel and skew lines are rejected", C.all_([C.gt(lag, 0), C.not_(skew)]))
    X = C.vals(r.value)
    C.check("on the first line", C.parallel(C.sub(X, p), u))
    # X = p + (w x v . n / n.n) u lies on the second line because w is in span(u, v)
    n = C.cross(u, v)
    res = C.cross(C.sub(X, q), v)
    C.check("on the second line", C.eq(C.dot(res, n), 0))
    C.typecheck("Point", lambda: type(r.value) is O("Point"))
    C.check("lines unchanged", C.all_([C.eqv(a.point, p), C.eqv(a.direction, u), C.eqv(b.point, q), C.eqv(b.direction, v)]))


@case("C09", [dict(d=d) for d in (2, 3)])
def intersect_recovers(C, d):
    """Lines through x meet in x, whichever points represent them, in either order, with or without the coplanarity check."""
    x, u, v = C.vec("x", d), C.vec("u", d), C.vec("v", d)
    s, t = C.real("s"), C.real("t")
    C.assume(slanted(C, u, v))
    a = O("Line")(C.arr(C.add(x, C.mul(s, u))), C.arr(u))
    b = O("Line")(C.arr(C.add(x, C.mul(t, v))), C.arr(v))
    if C.thin:
        C.check("x", C.eqv(C.expect("intersect_line", a.intersect_line, b, obs=False), x))
        C.check("x (other order)", C.eqv(C.expect("intersect_line", b.intersect_line, a, obs=False), x))
    C.check("x (unchecked)", C.eqv(C.expect("unchecked", a.intersect_line, b, check_coplanar=False), x))
    C.check("x (unchecked, other order)", C.eqv(C.expect("unchecked", b.intersect_line, a, check_coplanar=False), x))


@case("C09", [dict(d=d) for d in (2, 3)])
def intersect_parallel(C, d):
    p, u, a = line(C, d, "p", "u")
    q, k = C.vec("q", d), C.real("k", nonzero=True)
    b = O("Line")(C.arr(q), C.arr(C.mul(k, u)))
    C.check_value_error("parallel lines", C.call(a.intersect_line, b))
    C.check_value_error("parallel lines (unchecked)", C.call(a.intersect_line, b, check_coplanar=False))
    C.check_value_error("the line itself", C.call(a.intersect_line, a))


@case("C09", [dict(d=3)])
def intersect_unchecked(C, d):
    """Without the coplanarity check the result is the point of the first line nearest to the second."""
    x, u, v = C.vec("x", d), C.vec("u", d), C.vec("v", d)
    s, t, h = C.real("s"), C.real("t"), C.real("h")
    C.assume(slanted(C, u, v))
    a = O("Line")(C.arr(C.add(x, C.mul(s, u))), C.arr(u))
    b = O("Line")(C.arr(C.add(C.add(x, C.mul(h, C.cross(u, v))), C.mul(t, v))), C.arr(v))
    X = C.expect("intersect_line", a.intersect_line, b, check_coplanar=False)
    C.check("foot of the common perpendicular", C.eqv(X, x))


@case("C09", [dict(d=d, t=t) for d in (2, 3) for t in ("1/100", "1/2")])
def intersect_tolerance(C, d, t):
    """Keyword tolerances decide what counts as parallel."""
    t = Fraction(t)
    x, u, v = C.vec("x", d), C.vec("u", d), C.vec("v", d)
    C.assume(C.all_([C.gt(C.norm2(u), 1), C.gt(C.norm2(v), 1)]))
    r = C.call(O("Line")(C.arr(x), C.arr(u)).intersect_line, O("Line")(C.arr(x), C.arr(v)), abs_tol=float(t))
    k = 1 - (1 - t) ** 2
    par = C.le(C.lagrange(u, v), k * C.norm2(u) * C.norm2(v))
    C.check("raises iff parallel within abs_tol", C.iff(C.true if r.raised else C.false, par))
    if r.raised:
        C.check_value_error("parallel", r)
    else:
        C.check("the common point", C.eqv(r.value, x))


@case("C09", [dict(d=1), dict(d=4), dict(d=5)])
def intersect_dimension(C, d):
    p, u, a = line(C, d, "p", "u")
    q, v, b = line(C, d, "q", "v")
    C.check_value_error("only 2D and 3D lines", C.call(a.intersect_line, b))
    C.check_value_error("only 2D and 3D lines (unchecked)", C.call(a.intersect_line, b, check_coplanar=False))


@case("C09", [dict(a=2, b=3), dict(a=3, b=2), dict(a=1, b=2), dict(a=3, b=4), dict(a=2, b=1), dict(a=3, b=1), dict(a=1, b=3)])
def mixed_dimension(C, a, b):
    p, u, l = line(C, a, "p", "u")
    q, v, m = line(C, b, "q", "v")
    C.check_value_error("intersect_line", C.call(l.intersect_line, m))
    C.check_value_error("is_coplanar", C.call(l.is_coplanar, m))
    C.check_value_error("distance_line", C.call(l.distance_line, m))
