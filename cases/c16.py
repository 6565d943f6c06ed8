"""C16: cylinders - membership and measures."""
from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


def cyl(C):
    p, v = C.vec("p", 3), C.vec("v", 3)
    r = C.real("r", pos=True)
    C.nonzero(v)
    return p, v, r, O("Cylinder")(C.arr(p), C.arr(v), C.num(r))


@case("C16")
def within(C):
    p, v, r, c = cyl(C)
    q = C.vec("q", 3)
    w = C.sub(q, p)
    b = C.bool(C.expect("is_point_within", c.is_point_within, C.arr(q)))
    h = C.dot(w, v)
    inside = C.all_([C.ge(h, 0), C.le(h, C.norm2(v)), C.le(C.lagrange(w, v), r * r * C.norm2(v))])
    C.check("within iff between the caps and within the radius", C.iff(b, inside))
    C.check("unchanged", C.all_([C.eqv(c.point, p), C.eqv(c.vector, v), C.eq(c.radius, r)]))


@case("C16")
def within_parametrised(C):
    """p + s v + k n (n perpendicular to v) is within exactly when 0 <= s <= 1 and |k n| <= r, boundary included."""
    p, v, r, c = cyl(C)
    s, h = C.real("s"), C.vec("h", 3)
    n = C.cross(v, h)
    if C.thin:
        b = C.bool(C.expect("is_point_within", c.is_point_within, C.arr(C.add(C.add(p, C.mul(s, v)), n)), obs=False))
        C.check("within", C.iff(b, C.all_([C.ge(s, 0), C.le(s, 1), C.le(C.norm2(n), r * r)])))


@case("C16")
def reversed_axis(C):
    """The same solid described from its other end contains the same points."""
    p, v, r, c = cyl(C)
    q = C.vec("q", 3)
    e = O("Cylinder")(C.arr(C.add(p, v)), C.arr(C.mul(-1, v)), C.num(r))
    C.check("same answer", C.iff(C.bool(C.expect("is_point_within", c.is_point_within, C.arr(q))),
                                 C.bool(C.expect("is_point_within", e.is_point_within, C.arr(q)))))


@case("C16")
def measures(C):
    p, v, r, c = cyl(C)
    L = C.expect("length", c.length)
    C.check("length", C.all_([C.ge(L, 0), C.eq(L * L, C.norm2(v))]))
    C.check("lateral surface area", C.eq(C.expect("lateral_surface_area", c.lateral_surface_area), 2 * C.pi * r * L))
    C.check("surface area", C.eq(C.expect("surface_area", c.surface_area), 2 * C.pi * r * L + 2 * C.pi * r * r))
    C.check("volume", C.eq(C.expect("volume", c.volume), C.pi * r * r * L))


@case("C16")
def from_points(C):
    p, v, r, c = cyl(C)
    b = C.add(p, v)
    e = C.expect("from_points", O("Cylinder").from_points, C.arr(p), C.arr(b), C.num(r))
    C.check("base point", C.eqv(e.point, p))
    C.check("axis to the second point", C.eqv(e.vector, v))
    C.check("radius", C.eq(e.radius, r))
    C.typecheck("Cylinder", lambda: type(e) is O("Cylinder"))
    C.check_value_error("equal points", C.call(O("Cylinder").from_points, C.arr(p), C.arr(p), C.num(r)))


@case("C16", [dict(e=1), dict(e=2), dict(e=4)])
def mixed_dimension(C, e):
    p, v, r, c = cyl(C)
    C.check_value_error("point of another dimension", C.call(c.is_point_within, C.arr(C.vec("q", e))))


@case("C16", [dict(a=a) for a in range(3)])
def surface_points(C, a):
    """Along a coordinate axis: points on the mantle and on the caps are within, points beyond are not."""
    p, r = C.vec("p", 3), C.real("r", pos=True)
    k, s, x, y = C.real("k", nonzero=True), C.real("s"), C.real("x"), C.real("y")
    v = [k if i == a else 0 for i in range(3)]
    c = O("Cylinder")(C.arr(p), C.arr(v), C.num(r))
    q = C.add(p, [s * k if i == a else x if (i - a) % 3 == 1 else y for i in range(3)])
    if C.thin:
        b = C.bool(C.expect("is_point_within", c.is_point_within, C.arr(q), obs=False))
        C.check("mantle", C.implies(C.all_([C.eq(x * x + y * y, r * r), C.ge(s, 0), C.le(s, 1)]), b))
        C.check("caps", C.implies(C.all_([C.any_([C.eq(s, 0), C.eq(s, 1)]), C.le(x * x + y * y, r * r)]), b))
        C.check("rim", C.implies(C.all_([C.eq(s, 1), C.eq(y, 0), C.eq(x, r)]), b))
        C.check("within", C.iff(b, C.all_([C.ge(s, 0), C.le(s, 1), C.le(x * x + y * y, r * r)])))
