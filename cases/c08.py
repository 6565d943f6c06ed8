"""C08: planes - projection, signed distance, construction, cartesian form."""
from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


D = [dict(d=d) for d in (1, 2, 3, 4)]


def plane(C, d):
    p, n = C.vec("p", d), C.vec("n", d)
    C.nonzero(n)
    return p, n, O("Plane")(C.arr(p), C.arr(n))


@case("C08", D)
def project_point(C, d):
    p, n, pl = plane(C, d)
    q = C.vec("q", d)
    f = C.expect("project_point", pl.project_point, C.arr(q))
    F = C.vals(f)
    C.check("foot on the plane", C.eq(C.dot(C.sub(F, p), n), 0))
    C.check("moved along the normal", C.parallel(C.sub(q, F), n))
    C.typecheck("Point", lambda: type(f) is O("Point"))
    C.check("idempotent", C.eqv(C.expect("again", pl.project_point, f), F))
    C.check("plane unchanged", C.all_([C.eqv(pl.point, p), C.eqv(pl.normal, n)]))


@case("C08", D)
def distances(C, d):
    p, n, pl = plane(C, d)
    q = C.vec("q", d)
    s = C.expect("distance_point_signed", pl.distance_point_signed, C.arr(q))
    C.check("signed distance", C.eq(s * C.norm(n), C.dot(C.sub(q, p), n)))
    a = C.expect("distance_point", pl.distance_point, C.arr(q))
    C.check("not negative", C.ge(a, 0))
    C.check("magnitude", C.eq(a * a, s * s))


def few_free(C, p, v, m, d):
    """m points: the first, a middle one and the last are free, the others lie at fixed multiples of v and of a normal of v."""
    q = C.pts("q", m, d)
    if m < 5:
        return q
    u = [0 - v[1], v[0]] + [0] * (d - 2) if d > 1 else [0]
    return [x if i in (0, m // 2, m - 1) else C.add(p, C.add(C.mul((i * 3) % 7 - 2, v), C.mul(i % 4 - 2, u))) for i, x in enumerate(q)]


@case("C08", [dict(d=d, m=m) for d, m in ((1, 2), (2, 1), (2, 2), (3, 2), (3, 3), (4, 2), (3, 6), (3, 9), (3, 11), (2, 7), (1, 8), (5, 3), (6, 2))])
def bulk(C, d, m):
    p, n, pl = plane(C, d)
    q = few_free(C, p, n, m, d)
    P = C.expect("project_points", pl.project_points, C.arr(q))
    R = C.rows(P)
    C.check("shape", C.true if len(R) == m and all(len(r) == d for r in R) else C.false)
    C.typecheck("Points", lambda: type(P) is O("Points"))
    for a, b in zip(q, R):
        C.check("on the plane", C.eq(C.dot(C.sub(b, p), n), 0))
        C.check("moved along the normal", C.parallel(C.sub(a, b), n))
    N = C.norm(n)
    for a, x in zip(q, C.vals(C.expect("distance_points_signed", pl.distance_points_signed, C.arr(q)))):
        C.check("signed distance", C.eq(x * N, C.dot(C.sub(a, p), n)))
    ds = C.vals(C.expect("distance_points", pl.distance_points, C.arr(q)))
    C.check("one distance per point", C.true if len(ds) == m else C.false)
    for a, x in zip(q, ds):
        y = C.dot(C.sub(a, p), n)
        C.check("distance", C.all_([C.ge(x, 0), C.eq(x * x * C.norm2(n), y * y)]))
    t = 0
    for a in q:
        y = C.dot(C.sub(a, p), n)
        t = t + y * y
    C.check("sum of squares", C.eq(C.expect("sum_squares", pl.sum_squares, C.arr(q)) * C.norm2(n), t))
    C.check("plane unchanged", C.all_([C.eqv(pl.point, p), C.eqv(pl.normal, n)]))


@case("C08", [dict(d=d) for d in (2, 3)])
def bulk_matches_single(C, d):
    p, n, pl = plane(C, d)
    q = C.pts("q", 2, d)
    P = C.rows(C.expect("project_points", pl.project_points, C.arr(q)))
    S = C.vals(C.expect("distance_points_signed", pl.distance_points_signed, C.arr(q)))
    A = C.vals(C.expect("distance_points", pl.distance_points, C.arr(q)))
    for a, b, s, x in zip(q, P, S, A):
        C.check("project_point", C.eqv(C.expect("project_point", pl.project_point, C.arr(a)), b))
        C.check("distance_point_signed", C.eq(C.expect("signed", pl.distance_point_signed, C.arr(a)), s))
        C.check("distance_point", C.eq(C.expect("distance", pl.distance_point, C.arr(a)), x))


@case("C08", [dict(d=d) for d in (1, 2, 3, 4)])
def contains_tolerance(C, d):
    p, n, pl = plane(C, d)
    q, t = C.vec("q", d), C.real("t", lo=0)
    y = C.dot(C.sub(q, p), n)
    r = C.bool(C.expect("contains_point", pl.contains_point, C.arr(q), abs_tol=C.num(t)))
    C.check("contained iff distance <= abs_tol", C.iff(r, C.le(y * y, t * t * C.norm2(n))))
    if C.thin:
        r = C.bool(C.expect("contains_point", pl.contains_point, C.arr(q), obs=False))
        C.check("default: only points of the plane", C.iff(r, C.eq(y, 0)))


@case("C08", [dict(d=d) for d in (1, 2, 3, 4)])
def project_vector(C, d):
    p, n, pl = plane(C, d)
    w = C.vec("w", d)
    r = C.expect("project_vector", pl.project_vector, C.arr(w))
    R = C.vals(r)
    C.check("orthogonal to the normal", C.eq(C.dot(R, n), 0))
    C.check("difference along the normal", C.parallel(C.sub(w, R), n))
    C.typecheck("Vector", lambda: type(r) is O("Vector"))


@case("C08", [dict(d=d) for d in (2, 3)])
def project_line(C, d):
    p, n, pl = plane(C, d)
    a, v = C.vec("a", d), C.vec("v", d)
    C.nonzero(v)
    L = O("Line")(C.arr(a), C.arr(v))
    r = C.call(pl.project_line, L)
    nv = C.dot(n, v)
    lag, prod = C.lagrange(n, v), C.norm2(n) * C.norm2(v)
    if r.raised:
        C.check_value_error("line perpendicular to the plane", r)
        C.check("raises only when nearly perpendicular", C.le(lag * 10**8, prod))
        return
    C.check("a line along the normal is rejected", C.gt(lag, 0))
    l = r.value
    P, W = C.vals(l.point), C.vals(l.direction)
    C.check("point on the plane", C.eq(C.dot(C.sub(P, p), n), 0))
    C.check("point is the projected point", C.parallel(C.sub(a, P), n))
    C.check("direction in the plane", C.eq(C.dot(W, n), 0))
    C.check("direction is the projected vector", C.parallel(C.sub(v, W), n))
    C.check("line argument unchanged", C.all_([C.eqv(L.point, a), C.eqv(L.direction, v)]))


@case("C08", [dict(d=d) for d in (2, 3)])
def project_parallel_line(C, d):
    """A line parallel to the plane keeps its direction vector."""
    p, v = C.vec("p", d), C.vec("v", d)
    C.nonzero(v)
    if d == 2:
        k = C.real("k", nonzero=True)
        n = C.mul(k, [-v[1], v[0]])
    else:
        n = C.cross(v, C.vec("h", 3))
        C.nonzero(n)
    a = C.vec("a", d)
    l = C.expect("project_line", O("Plane")(C.arr(p), C.arr(n)).project_line, O("Line")(C.arr(a), C.arr(v)))
    C.check("same direction", C.eqv(l.direction, v))
    C.check("point on the plane", C.eq(C.dot(C.sub(C.vals(l.point), p), n), 0))


@case("C08", [dict(d=d, t=t) for d in (2, 3) for t in ("1/100",)])
def project_line_tolerance(C, d, t):
    """Keyword tolerances decide what counts as perpendicular or parallel to the plane."""
    from fractions import Fraction

    t = Fraction(t)
    p, n = C.vec("p", d), C.vec("n", d)
    a, v = C.vec("a", d), C.vec("v", d)
    C.assume(C.gt(C.norm2(n), 1))
    C.assume(C.gt(C.norm2(v), 1))
    r = C.call(O("Plane")(C.arr(p), C.arr(n)).project_line, O("Line")(C.arr(a), C.arr(v)), abs_tol=float(t))
    nv = C.dot(n, v)
    par = C.ge(nv * nv, (1 - t) * (1 - t) * C.norm2(n) * C.norm2(v))
    C.check("raises iff perpendicular within abs_tol", C.iff(C.true if r.raised else C.false, par))
    if r.raised:
        C.check_value_error("perpendicular", r)
    else:
        C.check("kept direction when parallel within abs_tol",
                C.implies(C.le(nv * nv, t * t), C.eqv(r.value.direction, v)))


@case("C08", [dict(a=a, b=b) for a, b in ((3, 3), (2, 2), (2, 3), (3, 2))])
def from_vectors(C, a, b):
    """Plane spanned by two vectors at a point (lower-dimensional input is padded with zeros)."""
    p = C.vec("p", a)
    u, v = C.vec("u", a), C.vec("v", a)
    r = C.call(O("Plane").from_vectors, C.arr(C.vec("p", b)), C.arr(u), C.arr(v))
    p = C.vec("p", b)
    lag, prod = C.lagrange(u, v), C.norm2(u) * C.norm2(v)
    if r.raised:
        C.check_value_error("parallel vectors", r)
        C.check("raises only when nearly parallel", C.le(lag * 10**8, prod))
        return
    C.check("parallel vectors are rejected", C.gt(lag, 0))
    pl = r.value
    n = C.vals(pl.normal)
    pad = lambda x: list(x) + [0] * (3 - len(x))
    C.check("3D", C.eq(pl.dimension, 3))
    C.check("point", C.eqv(pl.point, pad(p)))
    C.check("normal is the cross product", C.eqv(n, C.cross(u, v)))
    C.check("orthogonal to both", C.all_([C.eq(C.dot(n, pad(u)), 0), C.eq(C.dot(n, pad(v)), 0)]))


@case("C08", [dict(d=d) for d in (2, 3)])
def from_points(C, d):
    a, u, v = C.vec("a", d), C.vec("u", d), C.vec("v", d)
    b, c = C.add(a, u), C.add(a, v)
    r = C.call(O("Plane").from_points, C.arr(a), C.arr(b), C.arr(c))
    lag, prod = C.lagrange(u, v), C.norm2(u) * C.norm2(v)
    if r.raised:
        C.check_value_error("collinear points", r)
        C.check("raises only when nearly collinear", C.le(lag * 10**8, prod))
        return
    C.check("collinear points are rejected", C.gt(lag, 0))
    n = C.vals(r.value.normal)
    C.check("normal", C.eqv(n, C.cross(u, v)))
    pad = lambda x: list(x) + [0] * (3 - len(x))
    for q in (a, b, c):
        C.check("contains the points", C.eq(C.dot(C.sub(pad(q), C.vals(r.value.point)), n), 0))


@case("C08")
def from_points_tolerance(C):
    """The tol keyword reaches the collinearity test."""
    a = C.vec("a", 2, lo=-10, hi=10)
    r = C.call(O("Plane").from_points, C.arr(a), C.arr([1, 0]), C.arr([0, 2]), tol=10**3)
    C.check_value_error("rank zero under a huge tolerance", r)


@case("C08", [dict(d=d) for d in (1, 2, 3)])
def cartesian(C, d):
    p, n, pl = plane(C, d)
    q = C.vec("q", d)
    a, b, c, e = C.expect("cartesian", pl.cartesian)
    co = [C.unwrap(x) for x in (a, b, c)]
    C.check("normal coefficients", C.eqv(co, list(n) + [0] * (3 - d)))
    C.check("offset", C.eq(e, -C.dot(n, p)))
    C.check("zero exactly on the plane", C.eq(C.dot(co[:d], q) + C.unwrap(e), C.dot(C.sub(q, p), n)))


@case("C08", [dict(d=4), dict(d=5)])
def cartesian_domain(C, d):
    p, n, pl = plane(C, d)
    C.check_value_error("beyond 3D", C.call(pl.cartesian))


@case("C08", [dict(d=d) for d in (2, 3)])
def same_plane_other_representation(C, d):
    p, n, pl = plane(C, d)
    k, q, h = C.real("k", nonzero=True), C.vec("q", d), C.vec("h", d)
    on = C.expect("project_point", pl.project_point, C.arr(h))
    pm = O("Plane")(on, C.arr(C.mul(k, n)))
    C.check("same foot", C.eqv(C.expect("project_point", pm.project_point, C.arr(q)),
                               C.expect("project_point", pl.project_point, C.arr(q))))
    s, t = (C.expect("signed", x.distance_point_signed, C.arr(q)) for x in (pl, pm))
    C.check("same magnitude", C.eq(s * s, t * t))
    C.check("sign follows the normal", C.ge(s * t * k, 0))


@case("C08", [dict(d=d, e=e) for d in (2, 3) for e in (1, 2, 3, 4) if d != e])
def mixed_dimension(C, d, e):
    p, n, pl = plane(C, d)
    q, r = C.arr(C.vec("q", e)), C.vec("r", e)
    for name in ("project_point", "distance_point_signed", "distance_point", "contains_point", "side_point", "project_vector"):
        C.check_value_error(f"{name}: another dimension", C.call(getattr(pl, name), q))
    for rows in ([q], [q, C.arr(r)], [q, C.arr(r), q]):
        for name in ("project_points", "distance_points_signed", "distance_points", "sum_squares"):
            C.check_value_error(f"{name}: points of another dimension", C.call(getattr(pl, name), rows))
    w = C.vec("w", e)
    C.nonzero(w)
    C.check_value_error("project_line: a line of another dimension", C.call(pl.project_line, C.expect("Line", O("Line"), C.arr(r), C.arr(w), obs=False)))


@case("C08", [dict(n=130)], bound="one free point among many fixed ones")
def sum_squares_many(C, n):
    p, m = [1, -2, 3], C.mul(C.real("k", pos=True), [1, 2, 2])
    P = C.expect("Plane", O("Plane"), C.arr(p), C.arr(m), obs=False)
    q = C.vec("q", 3)
    Q = [[(3 * i) % 7 - 3, (5 * i) % 11 - 4, i % 3] for i in range(n - 1)] + [q]
    s = C.expect("sum_squares", P.sum_squares, C.arr(Q))
    t = 0
    for x in Q:
        d = C.dot(C.sub(x, p), m)
        t = t + d * d
    C.check("every point counts", C.eq(s * C.norm2(m), t))
