"""C15: the circle through three points."""
from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


def det2(u, v):
    return u[0] * v[1] - u[1] * v[0]


@case("C15")
def through_points(C):
    a, u, v = C.vec("a", 2), C.vec("u", 2), C.vec("v", 2)
    b, c = C.add(a, u), C.add(a, v)
    o = C.call(O("Circle").from_points, C.arr(a), C.arr(b), C.arr(c))
    C.check("raises iff the points are collinear", C.iff(C.true if o.raised else C.false, C.eq(det2(u, v), 0)))
    if o.raised:
        C.check_value_error("collinear", o)
        return
    k = o.value
    P, r = C.vals(k.point), C.unwrap(k.radius)
    C.check("positive radius", C.gt(r, 0))
    for q in (a, b, c):
        C.check("passes through the points", C.eq(C.norm2(C.sub(q, P)), r * r))
    C.typecheck("Circle", lambda: type(k) is O("Circle"))


@case("C15", [dict(o=o) for o in ("bac", "cba", "bca")])
def order(C, o):
    """The circle does not depend on the order of the points."""
    a, u, v = C.vec("a", 2), C.vec("u", 2), C.vec("v", 2)
    C.assume(C.ne(det2(u, v), 0))
    P = dict(a=a, b=C.add(a, u), c=C.add(a, v))
    k = C.expect("from_points", O("Circle").from_points, *[C.arr(P[x]) for x in "abc"])
    m = C.expect("from_points", O("Circle").from_points, *[C.arr(P[x]) for x in o])
    C.check("same centre", C.eqv(k.point, m.point))
    C.check("same radius", C.eq(C.unwrap(k.radius) * C.unwrap(k.radius), C.unwrap(m.radius) * C.unwrap(m.radius)))


@case("C15")
def known_circle(C):
    """Three rational points of a known circle give that circle back."""
    c, r = C.vec("c", 2), C.real("r", pos=True)
    s, t = C.real("s"), C.real("t")
    C.assume(C.ne(s, t))

    def at(t):
        return [c[0] + r * (1 - t * t) / (1 + t * t), c[1] + r * 2 * t / (1 + t * t)]

    k = C.expect("from_points", O("Circle").from_points, C.arr(at(s)), C.arr(at(t)), C.arr([c[0] - r, c[1]]))
    C.check("centre", C.eqv(k.point, c))
    C.check("radius", C.eq(k.radius, r))


@case("C15", [dict(a=3, b=3, c=3), dict(a=2, b=2, c=3), dict(a=3, b=2, c=2), dict(a=2, b=1, c=2), dict(a=1, b=1, c=1)])
def dimension(C, a, b, c):
    C.check_value_error("only 2D points", C.call(O("Circle").from_points, C.arr(C.vec("a", a)), C.arr(C.vec("b", b)), C.arr(C.vec("c", c))))


@case("C15")
def tolerance(C):
    """The tol keyword reaches the collinearity test."""
    a = C.vec("a", 2, lo=-10, hi=10)
    C.check_value_error("rank below two under a huge tolerance",
                        C.call(O("Circle").from_points, C.arr(a), C.arr([1, 0]), C.arr([0, 2]), tol=10**3))


@case("C15")
def repeated_points(C):
    a, b = C.vec("a", 2), C.vec("b", 2)
    C.check_value_error("two equal points", C.call(O("Circle").from_points, C.arr(a), C.arr(b), C.arr(a)))
    C.check_value_error("three equal points", C.call(O("Circle").from_points, C.arr(a), C.arr(a), C.arr(a)))
