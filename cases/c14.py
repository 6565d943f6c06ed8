"""C14: distance, membership, projection and measures of circles and spheres."""
from fractions import Fraction

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


NAME = {2: "Circle", 3: "Sphere"}


def ball(C, d):
    c, r = C.vec("c", d), C.real("r", pos=True)
    return c, r, O(NAME[d])(C.arr(c), C.num(r))


@case("C14", [dict(d=d) for d in (2, 3)])
def distance(C, d):
    c, r, S = ball(C, d)
    q = C.vec("q", d)
    x = C.expect("distance_point", S.distance_point, C.arr(q))
    D = C.dist(c, q)
    C.check("not negative", C.ge(x, 0))
    C.check("| |q - c| - r |", C.any_([C.eq(x, D - r), C.eq(x, r - D)]))


@case("C14", [dict(d=d) for d in (2, 3)])
def distance_surface(C, d):
    """Points c + k w with |w| = r are at distance |k - 1| r."""
    c, w, k = C.vec("c", d), C.vec("w", d), C.real("k", lo=0)
    C.nonzero(w)
    if C.thin:
        r = C.norm(w)
        S = O(NAME[d])(C.arr(c), C.num(r))
        x = C.expect("distance_point", S.distance_point, C.arr(C.add(c, C.mul(k, w))), obs=False)
        C.check("distance", C.all_([C.ge(x, 0), C.eq(x * x, (k - 1) * (k - 1) * r * r)]))
        b = C.bool(C.expect("contains_point", S.contains_point, C.arr(C.add(c, C.mul(k, w))), obs=False))
        C.check("contains exactly the surface", C.iff(b, C.eq(k, 1)))


@case("C14", [dict(d=d) for d in (2, 3)])
def contains_tolerance(C, d):
    c, r, S = ball(C, d)
    q, t = C.vec("q", d), C.real("t", lo=0)
    b = C.bool(C.expect("contains_point", S.contains_point, C.arr(q), abs_tol=C.num(t)))
    D = C.dist(c, q)
    C.check("contained iff | |q-c| - r | <= abs_tol", C.iff(b, C.all_([C.le(D - r, t), C.le(r - D, t)])))


@case("C14", [dict(d=d) for d in (2, 3)])
def contains_default(C, d):
    c, r, S = ball(C, d)
    q = C.vec("q", d)
    if C.thin:
        b = C.bool(C.expect("contains_point", S.contains_point, C.arr(q), obs=False))
        C.check("contained iff on the surface", C.iff(b, C.eq(C.norm2(C.sub(q, c)), r * r)))


@case("C14", [dict(d=d) for d in (2, 3)])
def project(C, d):
    c, r, S = ball(C, d)
    q = C.vec("q", d)
    o = C.call(S.project_point, C.arr(q))
    w = C.sub(q, c)
    C.check("raises iff the point is the centre", C.iff(C.true if o.raised else C.false, C.zero(w)))
    if o.raised:
        C.check_value_error("centre", o)
        return
    X = C.vals(o.value)
    x = C.sub(X, c)
    C.check("on the surface", C.eq(C.norm2(x), r * r))
    C.check("on the ray from the centre", C.all_([C.parallel(x, w), C.gt(C.dot(x, w), 0)]))
    C.typecheck("Point", lambda: type(o.value) is O("Point"))
    C.check("idempotent", C.eqv(C.expect("project again", S.project_point, o.value), X))
    C.check("unchanged", C.all_([C.eqv(S.point, c), C.eq(S.radius, r)]))


@case("C14", [dict(d=d) for d in (2, 3)])
def measures(C, d):
    c, r, S = ball(C, d)
    if d == 2:
        C.check("circumference", C.eq(C.expect("circumference", S.circumference), 2 * C.pi * r))
        C.check("area", C.eq(C.expect("area", S.area), C.pi * r * r))
        C.typecheck("float", lambda: isinstance(S.area(), float) and isinstance(S.circumference(), float))
    else:
        C.check("surface area", C.eq(C.expect("surface_area", S.surface_area), 4 * C.pi * r * r))
        C.check("volume", C.eq(C.expect("volume", S.volume), Fraction(4, 3) * C.pi * r * r * r))
        C.typecheck("float", lambda: isinstance(S.volume(), float) and isinstance(S.surface_area(), float))


@case("C14", [dict(d=d, e=e) for d in (2, 3) for e in (1, 2, 3, 4) if d != e])
def mixed_dimension(C, d, e):
    c, r, S = ball(C, d)
    q = C.arr(C.vec("q", e))
    C.check_value_error("distance_point", C.call(S.distance_point, q))
    C.check_value_error("contains_point", C.call(S.contains_point, q))
    C.check_value_error("project_point", C.call(S.project_point, q))
