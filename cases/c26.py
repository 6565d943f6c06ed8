"""C26: operations neither change their operands nor depend on earlier calls."""
from fractions import Fraction

import numpy as np

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


SPATIAL = ("Line", "Plane", "LineSegment", "Triangle", "Circle", "Sphere", "Cylinder")


def leaves(x):
    """All scalars reachable from a result or an operand, in order."""
    if x is None or isinstance(x, (str, bytes)):
        return [("c", x)]
    if type(x).__name__ in SPATIAL:
        out = [("c", type(x).__name__)]
        for k in sorted(vars(x)):
            if not k.startswith("_"):
                out.append(("c", k))
                out += leaves(vars(x)[k])
        return out
    if isinstance(x, np.ndarray):
        a = np.asarray(x)
        return [("c", a.shape)] + [("v", e) for e in a.flat]
    if isinstance(x, (list, tuple)):
        return [("c", len(x))] + [e for y in x for e in leaves(y)]
    return [("v", x)]


def same(C, xs, ys):
    if len(xs) != len(ys):
        return C.false
    fs = []
    for (k, a), (m, b) in zip(xs, ys):
        if k != m:
            return C.false
        if k == "c":
            fs.append(C.true if a == b else C.false)
        else:
            a, b = C.unwrap(a), C.unwrap(b)
            if a is b:
                continue
            if isinstance(a, (bool, np.bool_)) or type(a).__name__ in ("F", "Atom", "FAnd", "FOr", "LBool"):
                a, b = C.bool(a), C.bool(b)
                fs.append(C.iff(a, b))
            else:
                fs.append(C.eq(a, b))
    return C.all_(fs)


def V(C, n, name):
    return C.expect("Vector", O("Vector"), C.nd(C.vec(name, n)), obs=False)


def PT(C, n, name):
    return C.expect("Point", O("Point"), C.nd(C.vec(name, n)), obs=False)


def PS(C, m, n, name):
    return C.expect("Points", O("Points"), C.nd(C.pts(name, m, n)), obs=False)


def nz(C, n, name):
    v = C.vec(name, n)
    C.assume(C.gt(C.norm2(v), 0))
    return v


def LINE(C, n, name):
    return C.expect("Line", O("Line"), C.nd(C.vec(name + "p", n)), C.nd(nz(C, n, name + "v")), obs=False)


def PLANE(C, name):
    return C.expect("Plane", O("Plane"), C.nd(C.vec(name + "p", 3)), C.nd(nz(C, 3, name + "n")), obs=False)


def BALL(C, n, name):
    return C.expect("ball", O({2: "Circle", 3: "Sphere"}[n]), C.nd(C.vec(name + "c", n)), C.num(C.real(name + "r", pos=True)), obs=False)


def CYL(C, name, axis=(0, 0, 1)):
    h = C.real(name + "h", pos=True)
    return C.expect("Cylinder", O("Cylinder"), C.nd(C.vec(name + "p", 3)), C.nd([h * e for e in axis]),
                    C.num(C.real(name + "r", pos=True)), obs=False)


def TRI(C, n):
    a, b, c = C.vec("a", n), C.vec("b", n), C.vec("c", n)
    C.assume(C.gt(C.lagrange(C.sub(b, a), C.sub(c, a)), 0))
    for x, y in ((a, b), (b, c), (c, a)):
        C.assume(C.gt(C.norm2(C.sub(y, x)), 0))
    return C.expect("Triangle", O("Triangle"), C.nd(a), C.nd(b), C.nd(c), obs=False)


def SEG(C, n, name):
    a, v = C.vec(name + "a", n), C.vec(name + "v", n)
    C.assume(C.gt(C.norm2(v), 1))
    a0 = [C.real(f"{name}box{i}", lo=-2, hi=2) for i in range(n)]
    return C.expect("LineSegment", O("LineSegment"), C.nd(a0), C.nd(C.add(a0, v)), obs=False)


def METH(*names):
    return names


# name -> (operands, call)
OPS = {
    "vector_norm_unit": lambda C: ([V(C, 3, "u")], lambda u: (u.norm(), u.unit() if u.norm() > 0 else None)),
    "vector_products": lambda C: ([V(C, 3, "u"), V(C, 3, "v")], lambda u, v: (u.dot(v), u.cross(v), u + v, u - v, -u, 2 * u)),
    "vector_projection": lambda C: ([C.expect("Vector", O("Vector"), C.nd(nz(C, 3, "u")), obs=False), V(C, 3, "v")],
                                    lambda u, v: (u.project_vector(v), u.scalar_projection(v))),
    "vector_angle": lambda C: ([C.expect("Vector", O("Vector"), C.nd(nz(C, 2, "u")), obs=False),
                                C.expect("Vector", O("Vector"), C.nd(nz(C, 2, "v")), obs=False)],
                               lambda u, v: (u.cosine_similarity(v), u.angle_between(v), u.angle_signed(v), u.side_vector(v))),
    "vector_predicates": lambda C: ([V(C, 2, "u"), V(C, 2, "v")],
                                    lambda u, v: (u.is_zero(abs_tol=0.0), u.is_equal(v), u.is_close(v, rel_tol=0.0))),
    "vector_set_dimension": lambda C: ([V(C, 2, "u")], lambda u: (u.set_dimension(3), u.set_dimension(2), u.to_array())),
    "vector_round": lambda C: ([C.expect("Vector", O("Vector"), C.nd([C.real("u0", lo=-2, hi=2), C.real("u1", lo=-1, hi=1)]), obs=False)],
                               lambda u: (u.round(),)),
    "point_distance": lambda C: ([PT(C, 3, "p"), PT(C, 3, "q")], lambda p, q: (p.distance_point(q), p - q, p + q)),
    "points_centroid": lambda C: ([PS(C, 3, 2, "p")], lambda p: (p.centroid(), p.mean_center(), p.mean_center(return_centroid=True))),
    "points_unique_rank": lambda C: ([PS(C, 3, 2, "p")], lambda p: (p.unique(), p.are_collinear(), p.are_concurrent())),
    "points_many": lambda C: ([PS(C, 6, 2, "p")], lambda p: (p.centroid(), p.mean_center(), p.set_dimension(3))),
    "points_more": lambda C: ([PS(C, 9, 3, "p")], lambda p: (p.mean_center(return_centroid=True), p.to_array())),
    "line_many": lambda C: ([LINE(C, 2, "l"), PS(C, 7, 2, "q")],
                            lambda l, q: (l.project_points(q), l.distance_points(q), l.transform_points(q), l.sum_squares(q))),
    "plane_many": lambda C: ([PLANE(C, "p"), PS(C, 7, 3, "q")],
                             lambda p, q: (p.project_points(q), p.distance_points(q), p.distance_points_signed(q), p.sum_squares(q))),
    "signed_area_many": lambda C: ([PS(C, 8, 2, "p")], lambda p: measure_signed(p)),
    "transform_many": lambda C: ([PS(C, 7, 3, "p"), PT(C, 3, "o"), V(C, 3, "u"), V(C, 3, "v"), V(C, 3, "w")],
                                 lambda p, o, u, v, w: transform3(p, o, u, v, w)),
    "vector_long": lambda C: ([V(C, 6, "u"), V(C, 6, "v")], lambda u, v: (u.norm(), u.dot(v), u + v, u.is_equal(v), u.set_dimension(8))),
    "points_set_dimension": lambda C: ([PS(C, 2, 2, "p")], lambda p: (p.set_dimension(3), p.to_array())),
    "points_normalize": lambda C: ((lambda P: (C.assume(C.gt(C.norm2(P[0]), 0)), [C.expect("Points", O("Points"), C.nd(P), obs=False)])[1])(C.pts("p", 2, 2)),
                                   lambda p: (p.normalize_distance(),)),
    "line_point": lambda C: ([LINE(C, 3, "l"), PT(C, 3, "q")],
                             lambda l, q: (l.project_point(q), l.distance_point(q), l.to_point(2), l.contains_point(q, abs_tol=1))),
    "line_points": lambda C: ([LINE(C, 2, "l"), PS(C, 2, 2, "q")],
                              lambda l, q: (l.project_points(q), l.distance_points(q), l.transform_points(q), l.sum_squares(q))),
    "line_vector": lambda C: ([LINE(C, 2, "l"), V(C, 2, "q")], lambda l, q: (l.project_vector(q),)),
    "line_side": lambda C: ([LINE(C, 2, "l"), PT(C, 2, "q")], lambda l, q: (l.side_point(q),)),
    "line_plane": lambda C: crossing(C),
    "line_line": lambda C: lines(C),
    "plane_point": lambda C: ([PLANE(C, "p"), PT(C, 3, "q")],
                              lambda p, q: (p.project_point(q), p.distance_point(q), p.distance_point_signed(q), p.side_point(q), p.cartesian(),
                                            p.project_vector(q))),
    "plane_points": lambda C: ([PLANE(C, "p"), PS(C, 2, 3, "q")],
                               lambda p, q: (p.project_points(q), p.distance_points(q), p.distance_points_signed(q), p.sum_squares(q))),
    "plane_mesh": lambda C: ([PLANE(C, "p"), C.nd(C.vec("lx", 2)), C.nd(C.vec("ly", 2))],
                             lambda p, x, y: (p.to_mesh(x, y), p.to_points(lims_x=x, lims_y=y))),
    "circle": lambda C: ([BALL(C, 2, "c"), PT(C, 2, "q")], lambda c, q: (c.distance_point(q), c.area(), c.circumference(), c.contains_point(q, abs_tol=1))),
    "circle_project": lambda C: ball_project(C, 2),
    "sphere": lambda C: ([BALL(C, 3, "c"), PT(C, 3, "q")], lambda c, q: (c.distance_point(q), c.volume(), c.surface_area(), c.to_mesh(n_angles=2), c.to_points(n_angles=3))),
    "sphere_project": lambda C: ball_project(C, 3),
    "circle_line": lambda C: ball_line(C, 2),
    "sphere_line": lambda C: ball_line(C, 3),
    "circle_circle": lambda C: circles(C),
    "cylinder": lambda C: ([CYL(C, "c"), PT(C, 3, "q")], lambda c, q: (c.length(), c.volume(), c.surface_area(), c.lateral_surface_area(), c.is_point_within(q))),
    "cylinder_mesh": lambda C: ([CYL(C, "c")], lambda c: (c.to_mesh(n_along_axis=2, n_angles=2), c.to_points(n_along_axis=2, n_angles=3))),
    "cylinder_down": lambda C: ([CYL(C, "c", (0, 0, -1)), PT(C, 3, "q")],
                                lambda c, q: (c.length(), c.surface_area(), c.is_point_within(q), c.to_mesh(n_along_axis=2, n_angles=2), c.to_points(n_along_axis=2, n_angles=3))),
    "cylinder_oblique": lambda C: ([CYL(C, "c", (-2, 2, -1)), PT(C, 3, "q")],
                                   lambda c, q: (c.length(), c.volume(), c.is_point_within(q), c.to_mesh(n_along_axis=2, n_angles=2))),
    "cylinder_line": lambda C: cylinder_line(C),
    "arrays_line": lambda C: ([LINE(C, 2, "l"), C.nd(C.pts("q", 3, 2)), C.nd(C.vec("p", 2))],
                              lambda l, q, p: (l.project_points(q), l.distance_points(q), l.transform_points(q), l.sum_squares(q), l.project_point(p),
                                               l.distance_point(p), l.side_point(p), l.project_vector(p))),
    "arrays_plane": lambda C: ([PLANE(C, "p"), C.nd(C.pts("q", 3, 3)), C.nd(C.vec("p", 3))],
                               lambda l, q, p: (l.project_points(q), l.distance_points(q), l.distance_points_signed(q), l.sum_squares(q), l.project_point(p),
                                                l.distance_point(p), l.side_point(p), l.project_vector(p))),
    "arrays_vector": lambda C: ([C.nd(C.vec("u", 3)), C.nd(C.vec("v", 3))],
                                lambda u, v: (O("Vector")(u).cross(v), O("Vector")(u).is_equal(v), O("Vector")(u).norm(), O("Vector").from_points(u, v),
                                              O("Vector")(u).set_dimension(4), O("Point")(u).distance_point(v), O("Vector")(u).is_close(v, rel_tol=0.0))),
    "arrays_angle": lambda C: ([C.nd(nz(C, 2, "u")), C.nd(nz(C, 2, "v"))],
                               lambda u, v: (O("Vector")(u).angle_between(v), O("Vector")(u).angle_signed(v), O("Vector")(u).side_vector(v),
                                             O("Vector")(u).project_vector(v), O("Vector")(u).scalar_projection(v), O("Vector")(u).unit())),
    "arrays_points": lambda C: ([C.nd(C.pts("p", 3, 2))], lambda p: (O("Points")(p).centroid(), O("Points")(p).mean_center(), O("Points")(p).set_dimension(3),
                                                                      O("Points")(p).are_collinear(), measure_signed(p))),
    "arrays_measure": lambda C: ([C.nd(C.vec(k, 3)) for k in "abcd"], lambda a, b, c, d: (measure(a, b, c), tetra(a, b, c, d))),
    "arrays_transform": lambda C: ([C.nd(C.pts("p", 3, 2)), C.nd(C.vec("o", 2)), C.nd(C.pts("b", 2, 2))], lambda p, o, b: transform(p, o, b[0], b[1])),
    "arrays_ball": lambda C: ([BALL(C, 3, "c"), C.nd(C.vec("q", 3))], lambda c, q: (c.distance_point(q), c.contains_point(q, abs_tol=1))),
    "arrays_constructors": lambda C: arrays_constructors(C),
    "segments": lambda C: segments(C),
    "triangle_3d": lambda C: ([TRI(C, 3)], lambda t: (t.area(), t.perimeter(), t.centroid(), t.normal(), t.altitude("B"), t.line("a"))),
    "line_fit": lambda C: fits(C, 3, "Line", None),
    "line_fit_2d": lambda C: fits(C, 2, "Line", "Points"),
    "plane_fit": lambda C: fits(C, 3, "Plane", None),
    "plane_fit_points": lambda C: fits(C, 3, "Plane", "Points"),
    "sphere_fit": lambda C: sphere_fit(C),
    "triangle": lambda C: ([TRI(C, 2)], lambda t: (t.area(), t.perimeter(), t.centroid(), t.normal(), t.multiple("length", "abc"))),
    "triangle_parts": lambda C: ([TRI(C, 2)], lambda t: (t.altitude("A"), t.line("b"), t.point("C"))),
    "triangle_kind": lambda C: ([TRI(C, 2)], lambda t: (t.classify(rel_tol=0.0), t.is_right(rel_tol=0.0))),
    "triangle_angle": lambda C: ([TRI(C, 2)], lambda t: (t.angle("A"),)),
    "segment": lambda C: ([SEG(C, 2, "s")], lambda s: (s.contains_point(s.point_a), s.contains_point(2 * s.point_b - s.point_a))),
    "areas": lambda C: ([PT(C, 2, "a"), PT(C, 2, "b"), PT(C, 2, "c")], lambda a, b, c: measure(a, b, c)),
    "signed_area": lambda C: ([PS(C, 4, 2, "p")], lambda p: measure_signed(p)),
    "tetrahedron": lambda C: ([PT(C, 3, "a"), PT(C, 3, "b"), PT(C, 3, "c"), PT(C, 3, "d")], lambda *a: tetra(*a)),
    "transform": lambda C: ([PS(C, 2, 2, "p"), PT(C, 2, "o"), V(C, 2, "u"), V(C, 2, "v")], lambda p, o, u, v: transform(p, o, u, v)),
    "circle_fit": lambda C: circle_fit(C),
    "plane_from": lambda C: plane_from(C),
}


def measure(a, b, c):
    from skspatial.measurement import area_triangle

    return (area_triangle(a, b, c),)


def measure_signed(p):
    from skspatial.measurement import area_signed

    return (area_signed(p),)


def tetra(*a):
    from skspatial.measurement import volume_tetrahedron

    return (volume_tetrahedron(*a),)


def transform(p, o, u, v):
    from skspatial.transformation import transform_coordinates

    return (transform_coordinates(p, o, [u, v]),)


def transform3(p, o, u, v, w):
    from skspatial.transformation import transform_coordinates

    return (transform_coordinates(p, o, [u, v, w]),)


def crossing(C):
    """A line and a plane at a clear angle."""
    n, k = C.real("n", nonzero=True), C.real("k", nonzero=True)
    p = C.expect("Plane", O("Plane"), C.nd(C.vec("p", 3)), C.nd(C.mul(n, [1, 2, 2])), obs=False)
    l = C.expect("Line", O("Line"), C.nd(C.vec("l", 3)), C.nd(C.mul(k, [1, 1, 0])), obs=False)
    q = C.expect("Plane", O("Plane"), C.nd(C.vec("q", 3)), C.nd([0, 0, k]), obs=False)
    return [p, l, q], lambda p, l, q: (p.intersect_line(l), p.project_line(l), p.intersect_plane(q))


def lines(C):
    k, m = C.real("k", nonzero=True), C.real("m", nonzero=True)
    a = C.expect("Line", O("Line"), C.nd(C.vec("a", 2)), C.nd(C.mul(k, [1, 2])), obs=False)
    b = C.expect("Line", O("Line"), C.nd(C.vec("b", 2)), C.nd(C.mul(m, [3, -1])), obs=False)
    return [a, b], lambda a, b: (a.intersect_line(b), a.distance_line(b))


def ball_project(C, n):
    c = C.vec("c", n)
    w = nz(C, n, "w")
    S = C.expect("ball", O({2: "Circle", 3: "Sphere"}[n]), C.nd(c), C.num(C.real("r", pos=True)), obs=False)
    q = C.expect("Point", O("Point"), C.nd(C.add(c, w)), obs=False)
    return [S, q], lambda s, q: (s.project_point(q),)


def ball_line(C, n):
    c, r, k = C.vec("c", n), C.real("r", pos=True), C.real("k", lo=0, hi=1)
    C.assume(C.lt(k, 1))
    e, f = {2: ([3, 4], [-4, 3]), 3: ([1, 2, 2], [2, 1, -2])}[n]
    h = {2: 5, 3: 3}[n]
    S = C.expect("ball", O({2: "Circle", 3: "Sphere"}[n]), C.nd(c), C.num(r), obs=False)
    l = C.expect("Line", O("Line"), C.nd(C.add(c, C.mul(k * r / h, f))), C.nd(e), obs=False)
    return [S, l], lambda s, l: (s.intersect_line(l),)


def circles(C):
    c, k = C.vec("c", 2), C.real("k", pos=True)
    a = C.expect("Circle", O("Circle"), C.nd(c), C.num(5 * k), obs=False)
    b = C.expect("Circle", O("Circle"), C.nd(C.add(c, [6 * k, 0])), C.num(5 * k), obs=False)
    return [a, b], lambda a, b: (a.intersect_circle(b),)


def circle_fit(C):
    s, q = C.real("s", pos=True), C.vec("q", 2)
    P = C.nd([q, C.add(q, [s, 0]), C.add(q, [0, s]), C.add(q, [s, s])])
    a, b, c = [C.expect("Point", O("Point"), P[i].copy(), obs=False) for i in range(3)]
    return [P, a, b, c], lambda p, a, b, c: (O("Circle").best_fit(p), O("Circle").from_points(a, b, c))


def plane_from(C):
    p, x, y = PT(C, 3, "p"), C.real("x", nonzero=True), C.real("y", nonzero=True)
    u = C.expect("Vector", O("Vector"), C.nd([x, 0, 0]), obs=False)
    v = C.expect("Vector", O("Vector"), C.nd([0, y, y]), obs=False)
    return [p, u, v], lambda p, u, v: (O("Plane").from_vectors(p, u, v), O("Line").from_points(p, p + u))


def cylinder_line(C):
    h, r, k = C.real("h", pos=True), C.real("r", pos=True), C.real("k", lo=0, hi=1)
    C.assume(C.lt(k, 1))
    p = C.vec("p", 3)
    c = C.expect("Cylinder", O("Cylinder"), C.nd(p), C.nd([0, 0, h]), C.num(r), obs=False)
    l = C.expect("Line", O("Line"), C.nd(C.add(p, [k * r, 0, h / 2])), C.nd([0, C.real("m", nonzero=True), 0]), obs=False)
    return [c, l], lambda c, l: (c.intersect_line(l), c.intersect_line(l, infinite=False))


def arrays_constructors(C):
    h = C.real("h", pos=True)
    p, q = C.nd(C.vec("p", 3)), C.nd([0, 0, h])
    b = C.nd(C.add(C.vec("b", 3, lo=-1, hi=1), [0, 5, 5]))

    def f(p, q, b):
        l = O("Line")(p, q)
        m = O("Plane")(p, q)
        c = O("Cylinder")(p, q, 2)
        s = O("LineSegment")(q * 0, b)
        return (l.to_point(2), l.project_point(b), m.project_point(b), m.cartesian(), c.length(), c.volume(), s.contains_point(b),
                O("Line").from_points(b * 0, b).to_point(3), O("Sphere")(p, 2).distance_point(b))

    return [p, q, b], f


def segments(C):
    k, m = C.real("k", lo=1, hi=5), C.real("m", lo=1, hi=5)
    p = C.vec("p", 2)
    a = C.expect("LineSegment", O("LineSegment"), C.nd(C.vec("sp", 2, lo=0, hi=1)), C.nd([9, 9 + k]), obs=False)
    b = C.expect("LineSegment", O("LineSegment"), C.nd([0, 9]), C.nd([8 + m, -1]), obs=False)
    q = C.expect("Point", O("Point"), C.nd(p), obs=False)
    return [a, b, q], lambda a, b, q: (a.intersect_line_segment(b), a.contains_point(a.point_b))


def fits(C, d, kind, cls):
    """Samples along a fixed frame, so that the decomposition is known."""
    from cases.c22 import FR, PAT

    F, k = FR[d]
    o, u = C.vec("o", d), C.real("u", pos=True)
    a = [3 * u, 2 * u, u][:d]
    P = []
    for j in range(4):
        p = o
        for i in range(d):
            p = C.add(p, C.mul(a[i] * PAT[4][i][j], F[i]))
        P.append(p)
    U = [[Fraction(PAT[4][i][j], 2) if i < d else 0 for i in range(4)] for j in range(4)]
    C.svd_known(U, [2 * x * k for x in a], [[Fraction(e, k) for e in v] for v in F])
    X = C.nd(P) if cls is None else C.expect("Points", O("Points"), C.nd(P), obs=False)
    return [X], lambda p: (O(kind).best_fit(p, return_error=True),)


def sphere_fit(C):
    s, q = C.real("s", pos=True), C.vec("q", 3)
    P = C.nd([q, C.add(q, [s, 0, 0]), C.add(q, [0, s, 0]), C.add(q, [0, 0, s]), C.add(q, [s, s, s])])
    return [P], lambda p: (O("Sphere").best_fit(p), O("Points")(p).normalize_distance())


@case("C26", [dict(op=k) for k in OPS])
def pure(C, op):
    args, fn = OPS[op](C)
    before = [leaves(a) for a in args]
    r1 = C.expect(op, fn, *args, obs=op != "points_unique_rank" and "_fit" not in op)  # (order of unique points is free)
    first = leaves(r1)
    for i, (a, b) in enumerate(zip(args, before)):
        C.check(f"operand {i} unchanged", same(C, leaves(a), b))
    r2 = C.expect(f"{op} again", fn, *args, obs=False)
    C.check("same result when repeated", same(C, leaves(r2), first))
    C.check("earlier result unchanged", same(C, leaves(r1), first))


def frozen(C):
    """Inputs drawn as fixed constants, never whole numbers."""
    state = [0]

    def real(name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False, box=None):
        state[0] += 1
        k = state[0]
        x = Fraction((37 * k) % 23 * 2 - 21, 4)
        if pos or nonneg or lo is not None or hi is not None:
            a = Fraction(lo if lo is not None else 0)
            b = Fraction(hi) if hi is not None else a + 4
            x = a + (b - a) * Fraction(2 * (k % 5) + 1, 16)
        return x

    return real


def overwrite(a, b):
    """Give the object a the contents of b, in place."""
    if isinstance(a, np.ndarray):
        a[...] = b
    else:
        for k, x in vars(b).items():
            y = vars(a).get(k)
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
                y[...] = x
            else:
                setattr(a, k, x)


@case("C26", [dict(op=k) for k in OPS])
def follows_the_operands(C, op):
    """An operand that was used, then modified in place, gives what a fresh operand of the same contents gives."""
    C.real = frozen(C)
    try:
        old, fn = OPS[op](C)
    finally:
        del C.real
    C.expect(f"{op} on the old contents", fn, *old, obs=False)
    new, fn = OPS[op](C)
    for a, b in zip(old, new):
        overwrite(a, b)
    r1 = C.expect(op, fn, *old, obs=False)
    r2 = C.expect(f"{op} on fresh operands", fn, *new, obs=False)
    C.check("same result as with fresh operands", same(C, leaves(r1), leaves(r2)))
