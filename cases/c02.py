"""C02: constructors accept exactly their documented domain and store what they are given."""
import math

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


def raises_iff(C, label, r, f):
    """The call must raise ValueError exactly when formula f holds."""
    if r.raised:
        C.check_value_error(label, r)
        C.check(label + ": rejected only outside the domain", f)
    else:
        C.check(label + ": accepted only inside the domain", C.not_(f))


@case("C02", [dict(kind=k, d=d) for k in ("Line", "Plane") for d in (1, 2, 3, 4, 5, 6, 7)])
def line_plane(C, kind, d):
    K = O(kind)
    p, v = C.vec("p", d), C.vec("v", d)
    r = C.call(K, C.arr(p), C.arr(v))
    raises_iff(C, kind, r, C.zero(v))
    if r.ok:
        o = r.value
        C.check("point stored", C.eqv(o.point, p))
        C.check("vector stored", C.eqv(o.vector, v))
        C.check("named vector stored", C.eqv(o.direction if kind == "Line" else o.normal, v))
        C.check("dimension", C.eq(o.dimension, d))
        C.typecheck("types", lambda: type(o.point) is O("Point") and type(o.vector) is O("Vector"))


@case("C02", [dict(kind=k, a=a, b=b) for k in ("Line", "Plane") for a, b in ((2, 3), (3, 2), (1, 2), (4, 3), (2, 1), (1, 3), (3, 1))] + [dict(kind="LineSegment", a=a, b=b) for a, b in ((1, 2), (2, 1), (1, 3), (3, 1), (2, 3), (3, 2), (1, 5))])
def line_plane_mixed(C, kind, a, b):
    C.check_value_error("different dimensions", C.call(O(kind), C.arr(C.vec("p", a)), C.arr(C.vec("v", b))))


@case("C02", [dict(d=d) for d in (1, 2, 3, 4, 5, 6)])
def segment(C, d):
    p, q = C.vec("p", d), C.vec("q", d)
    r = C.call(O("LineSegment"), C.arr(p), C.arr(q))
    raises_iff(C, "LineSegment", r, C.all_([C.close(a, b) for a, b in zip(p, q)]))
    if r.ok:
        C.check("endpoints stored", C.all_([C.eqv(r.value.point_a, p), C.eqv(r.value.point_b, q)]))
        C.check("dimension", C.eq(r.value.dimension, d))


@case("C02", [dict(d=d) for d in (2, 3, 4, 5)])
def triangle(C, d):
    a, b, c = C.vec("a", d), C.vec("b", d), C.vec("c", d)
    r = C.call(O("Triangle"), C.arr(a), C.arr(b), C.arr(c))
    raises_iff(C, "Triangle", r, C.parallel(C.sub(b, a), C.sub(c, a)))
    if r.ok:
        t = r.value
        C.check("vertices stored", C.all_([C.eqv(t.point_a, a), C.eqv(t.point_b, b), C.eqv(t.point_c, c)]))
        C.check("dimension", C.eq(t.dimension, d))
        for n, w in zip("ABC", (a, b, c)):
            C.check("vertex by name", C.eqv(C.expect("point", t.point, n), w))


@case("C02", [dict(x=2, y=2, z=3), dict(x=3, y=2, z=2), dict(x=2, y=3, z=2), dict(x=3, y=3, z=2), dict(x=1, y=1, z=1), dict(x=1, y=2, z=2), dict(x=3, y=1, z=3), dict(x=3, y=3, z=1)])
def triangle_bad(C, x, y, z):
    r = C.call(O("Triangle"), C.arr(C.vec("a", x)), C.arr(C.vec("b", y)), C.arr(C.vec("c", z)))
    C.check_value_error("different dimensions, or points on one axis", r)


@case("C02", [dict(kind=k, d=d) for k in ("Circle", "Sphere") for d in (1, 2, 3, 4, 5)])
def round_objects(C, kind, d):
    K = O(kind)
    p, rad = C.vec("p", d), C.real("r")
    r = C.call(K, C.arr(p), C.num(rad))
    ok = d == (2 if kind == "Circle" else 3)
    raises_iff(C, kind, r, C.le(rad, 0) if ok else C.true)
    if r.ok:
        C.check("center stored", C.eqv(r.value.point, p))
        C.check("radius stored", C.eq(r.value.radius, rad))
        C.check("dimension", C.eq(r.value.dimension, d))
    C.check_value_error("NaN radius", C.call(K, C.arr(p), math.nan))
    C.check_value_error("zero radius", C.call(K, C.arr(p), 0))


@case("C02", [dict(a=a, b=b) for a, b in ((3, 3), (2, 3), (3, 2), (2, 2), (4, 4))])
def cylinder(C, a, b):
    K = O("Cylinder")
    p, v, rad = C.vec("p", a), C.vec("v", b), C.real("r")
    r = C.call(K, C.arr(p), C.arr(v), C.num(rad))
    raises_iff(C, "Cylinder", r, C.any_([C.le(rad, 0), C.zero(v)]) if (a, b) == (3, 3) else C.true)
    if r.ok:
        o = r.value
        C.check("stored", C.all_([C.eqv(o.point, p), C.eqv(o.vector, v), C.eq(o.radius, rad), C.eq(o.dimension, 3)]))
    C.check_value_error("NaN radius", C.call(K, C.arr(p), C.arr(v), math.nan))


@case("C02")
def cylinder_from_points(C):
    p, q, rad = C.vec("p", 3), C.vec("q", 3), C.real("r")
    r = C.call(O("Cylinder").from_points, C.arr(p), C.arr(q), C.num(rad))
    raises_iff(C, "Cylinder.from_points", r, C.any_([C.le(rad, 0), C.eqv(p, q)]))
    if r.ok:
        C.check("stored", C.all_([C.eqv(r.value.point, p), C.eqv(r.value.vector, C.sub(q, p)), C.eq(r.value.radius, rad)]))


@case("C02", [dict(d=d) for d in (1, 2, 3, 4, 5, 6)])
def line_from_points(C, d):
    p, q = C.vec("p", d), C.vec("q", d)
    r = C.call(O("Line").from_points, C.arr(p), C.arr(q))
    raises_iff(C, "Line.from_points", r, C.eqv(p, q))
    if r.ok:
        C.check("point is a", C.eqv(r.value.point, p))
        C.check("direction is b-a", C.eqv(r.value.direction, C.sub(q, p)))


@case("C02")
def line_from_slope(C):
    m, b, x = C.real("m"), C.real("b"), C.real("x")
    l = C.expect("from_slope", O("Line").from_slope, C.num(m), C.num(b))
    C.check("passes through the intercept", C.eqv(l.point, [0, b]))
    d = C.vals(l.direction)
    C.check("slope", C.eq(d[1], m * d[0]))
    C.check("not vertical", C.ne(d[0], 0))
    C.check("point at x=0 and x=1", C.eqv(l.to_point(C.num(x)), [x, m * x + b]))


@case("C02", [dict(kind=k, i=i) for k in ("Line", "Plane", "LineSegment", "Triangle", "Circle", "Sphere", "Cylinder") for i in (0, 1)])
def nonfinite(C, kind, i):
    """No object can be built from NaN or infinite coordinates."""
    d = 2 if kind == "Circle" else 3
    n = {"Line": 2, "Plane": 2, "LineSegment": 2, "Triangle": 3, "Circle": 1, "Sphere": 1, "Cylinder": 2}[kind]
    for bad in (math.nan, math.inf, -math.inf):
        for j in range(n):
            args = [list(C.arr(C.vec("abc"[k], d))) for k in range(n)]
            args[j][i] = bad
            if kind in ("Circle", "Sphere", "Cylinder"):
                args.append(C.num(C.real("r", lo=1, hi=9)))
            C.check_value_error(f"{kind} argument {j}", C.call(O(kind), *args))
