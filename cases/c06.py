"""C06: side predicates (left/right of a vector or line, above/below a plane)."""
from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


def is_sign(C, label, r, x):
    """r is exactly the sign of x."""
    C.check(label + ": one of -1, 0, 1", C.any_([C.eq(r, k) for k in (-1, 0, 1)]))
    C.check(label + ": +1 iff positive", C.iff(C.eq(r, 1), C.gt(x, 0)))
    C.check(label + ": -1 iff negative", C.iff(C.eq(r, -1), C.lt(x, 0)))
    C.typecheck(label + ": int", lambda: type(r) is int)


@case("C06")
def side_vector(C):
    Vector = O("Vector")
    u, v = C.vec("u", 2), C.vec("v", 2)
    r = C.expect("side_vector", Vector(C.arr(u)).side_vector, C.arr(v))
    is_sign(C, "side", r, v[0] * u[1] - v[1] * u[0])
    q = C.expect("side_vector", Vector(C.arr(v)).side_vector, Vector(C.arr(u)))
    C.check("antisymmetric", C.eq(r, -q))


@case("C06", [dict(a=a, b=b) for a, b in ((1, 2), (2, 1), (2, 3), (3, 2), (3, 3), (4, 4), (1, 1))])
def side_vector_domain(C, a, b):
    C.check_value_error("only 2D", C.call(O("Vector")(C.arr(C.vec("u", a))).side_vector, C.arr(C.vec("v", b))))


@case("C06")
def line_side_point(C):
    p, d, q = C.vec("p", 2), C.vec("d", 2), C.vec("q", 2)
    C.nonzero(d)
    l = O("Line")(C.arr(p), C.arr(d))
    r = C.expect("side_point", l.side_point, C.arr(q))
    w = C.sub(q, p)
    is_sign(C, "right is +1", r, w[0] * d[1] - w[1] * d[0])


@case("C06")
def line_side_of_points_on_it(C):
    p, d, t, s = C.vec("p", 2), C.vec("d", 2), C.real("t"), C.real("s")
    C.nonzero(d)
    l = O("Line")(C.arr(p), C.arr(d))
    C.check("on the line", C.eq(C.expect("side_point", l.side_point, C.arr(C.add(p, C.mul(t, d)))), 0))
    # moving to the left of the direction is -1, to the right +1
    q = C.add(C.add(p, C.mul(t, d)), C.mul(s, [d[1], -d[0]]))
    is_sign(C, "offset", C.expect("side_point", l.side_point, C.arr(q)), s)


@case("C06", [dict(d=d) for d in (1, 3, 4)])
def line_side_domain(C, d):
    p, v, q = C.vec("p", d), C.vec("v", d), C.vec("q", d)
    C.nonzero(v)
    C.check_value_error("only 2D", C.call(O("Line")(C.arr(p), C.arr(v)).side_point, C.arr(q)))


@case("C06", [dict(d=d) for d in (1, 2, 3, 4)])
def plane_side_point(C, d):
    p, n, q = C.vec("p", d), C.vec("n", d), C.vec("q", d)
    C.nonzero(n)
    r = C.expect("side_point", O("Plane")(C.arr(p), C.arr(n)).side_point, C.arr(q))
    is_sign(C, "in front is +1", r, C.dot(C.sub(q, p), n))


@case("C06", [dict(d=d) for d in (2, 3)])
def plane_side_of_offsets(C, d):
    p, n, q, s = C.vec("p", d), C.vec("n", d), C.vec("q", d), C.real("s")
    C.nonzero(n)
    pl = O("Plane")(C.arr(p), C.arr(n))
    foot = C.expect("project_point", pl.project_point, C.arr(q))
    is_sign(C, "offset along the normal", C.expect("side_point", pl.side_point, C.arr(C.add(C.vals(foot), C.mul(s, n)))), s)
