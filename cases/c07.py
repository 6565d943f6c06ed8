"""C07: projection onto a line, distance to a line, bulk variants, coordinates along a line."""
from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


D = [dict(d=d) for d in (1, 2, 3, 4, 5)]


def line(C, d):
    p, v = C.vec("p", d), C.vec("v", d)
    C.nonzero(v)
    return p, v, O("Line")(C.arr(p), C.arr(v))


@case("C07", D)
def to_point(C, d):
    p, v, l = line(C, d)
    t = C.real("t")
    C.check("default is one step", C.eqv(C.expect("to_point", l.to_point), C.add(p, v)))
    C.check("p + t v", C.eqv(C.expect("to_point", l.to_point, C.num(t)), C.add(p, C.mul(t, v))))
    C.check("by keyword", C.eqv(C.expect("to_point", l.to_point, t=C.num(t)), C.add(p, C.mul(t, v))))
    r = l.to_point(C.num(t))
    C.typecheck("Point", lambda: type(r) is O("Point"))
    C.check("line unchanged", C.all_([C.eqv(l.point, p), C.eqv(l.direction, v)]))


@case("C07", D)
def project_point(C, d):
    p, v, l = line(C, d)
    q = C.vec("q", d)
    f = C.expect("project_point", l.project_point, C.arr(q))
    F = C.vals(f)
    C.check("foot on the line", C.parallel(C.sub(F, p), v))
    C.check("residual orthogonal", C.eq(C.dot(C.sub(q, F), v), 0))
    if d == 1:
        C.check("1D: the point itself", C.eqv(F, q))
    C.typecheck("Point", lambda: type(f) is O("Point"))
    C.check("idempotent", C.eqv(C.expect("project again", l.project_point, f), F))
    C.check("line unchanged", C.all_([C.eqv(l.point, p), C.eqv(l.direction, v)]))


@case("C07", D)
def distance_point(C, d):
    p, v, l = line(C, d)
    q = C.vec("q", d)
    r = C.expect("distance_point", l.distance_point, C.arr(q))
    C.check("not negative", C.ge(r, 0))
    C.check("distance^2 |v|^2 = |w x v|^2", C.eq(r * r * C.norm2(v), C.lagrange(C.sub(q, p), v)))


@case("C07", [dict(d=d) for d in (1, 2, 3, 4)])
def points_of_the_line(C, d):
    """Points p + t v are fixed by projection, at distance zero, and contained."""
    p, v, l = line(C, d)
    t = C.real("t")
    q = C.add(p, C.mul(t, v))
    C.check("fixed", C.eqv(C.expect("project_point", l.project_point, C.arr(q)), q))
    C.check("distance zero", C.eq(C.expect("distance_point", l.distance_point, C.arr(q)), 0))
    if C.thin:
        C.check("contained", C.bool(C.expect("contains_point", l.contains_point, C.arr(q), obs=False)))
    C.check("contained with tolerance", C.bool(C.expect("contains_point", l.contains_point, C.arr(q), abs_tol=1e-3)))


@case("C07", [dict(d=d) for d in (1, 2, 3)])
def contains_tolerance(C, d):
    p, v, l = line(C, d)
    q, t = C.vec("q", d), C.real("t", lo=0)
    r = C.bool(C.expect("contains_point", l.contains_point, C.arr(q), abs_tol=C.num(t)))
    C.check("contained iff distance <= abs_tol", C.iff(r, C.le(C.lagrange(C.sub(q, p), v), t * t * C.norm2(v))))


@case("C07", [dict(d=d) for d in (2, 3)])
def contains_default(C, d):
    p, v, l = line(C, d)
    q = C.vec("q", d)
    r = C.bool(C.expect("contains_point", l.contains_point, C.arr(q)))
    C.check("contained only when on the line", C.implies(r, C.parallel(C.sub(q, p), v)))


def few_free(C, p, v, m, d):
    """m points: the first, a middle one and the last are free, the others lie at fixed multiples of v and of a normal of v."""
    q = C.pts("q", m, d)
    if m < 5:
        return q
    u = [0 - v[1], v[0]] + [0] * (d - 2) if d > 1 else [0]
    return [x if i in (0, m // 2, m - 1) else C.add(p, C.add(C.mul((i * 3) % 7 - 2, v), C.mul(i % 4 - 2, u))) for i, x in enumerate(q)]


@case("C07", [dict(d=d, m=m) for d, m in ((1, 2), (2, 1), (2, 3), (3, 2), (3, 4), (4, 2), (5, 2), (2, 6), (2, 9), (3, 7), (3, 11), (1, 8), (6, 3), (5, 5))])
def bulk(C, d, m):
    """project_points / distance_points / transform_points agree with the one-point formulas."""
    p, v, l = line(C, d)
    q = few_free(C, p, v, m, d)
    Q = C.arr(q)
    P = C.expect("project_points", l.project_points, Q)
    R = C.rows(P)
    C.check("shape", C.true if len(R) == m and all(len(r) == d for r in R) else C.false)
    C.typecheck("Points", lambda: type(P) is O("Points"))
    for a, b in zip(q, R):
        C.check("on the line", C.parallel(C.sub(b, p), v))
        C.check("residual orthogonal", C.eq(C.dot(C.sub(a, b), v), 0))
    ds = C.vals(C.expect("distance_points", l.distance_points, C.arr(q)))
    C.check("as many distances", C.true if len(ds) == m else C.false)
    for a, x in zip(q, ds):
        C.check("distance >= 0", C.ge(x, 0))
        C.check("distance", C.eq(x * x * C.norm2(v), C.lagrange(C.sub(a, p), v)))
    ts = C.expect("transform_points", l.transform_points, C.arr(q))
    C.check("one coordinate per point", C.true if tuple(ts.shape) == (m,) else C.false)
    n = C.norm(v)
    for a, x in zip(q, C.vals(ts)):
        C.check("signed coordinate", C.eq(x * n, C.dot(C.sub(a, p), v)))
    ss = C.expect("sum_squares", l.sum_squares, C.arr(q))
    t = 0
    for a in q:
        t = t + C.lagrange(C.sub(a, p), v)
    C.check("sum of squared distances", C.eq(ss * C.norm2(v), t))
    C.check("line unchanged", C.all_([C.eqv(l.point, p), C.eqv(l.direction, v)]))


@case("C07", [dict(d=d) for d in (2, 3, 4, 5)])
def bulk_matches_single(C, d):
    p, v, l = line(C, d)
    q = C.pts("q", 2, d)
    P = C.rows(C.expect("project_points", l.project_points, C.arr(q)))
    ds = C.vals(C.expect("distance_points", l.distance_points, C.arr(q)))
    for a, b, x in zip(q, P, ds):
        C.check("project_point", C.eqv(C.expect("project_point", l.project_point, C.arr(a)), b))
        C.check("distance_point", C.eq(C.expect("distance_point", l.distance_point, C.arr(a)), x))


@case("C07", [dict(d=d) for d in (1, 2, 3, 4)])
def project_vector(C, d):
    p, v, l = line(C, d)
    w = C.vec("w", d)
    r = C.expect("project_vector", l.project_vector, C.arr(w))
    R = C.vals(r)
    C.check("along the line", C.parallel(R, v))
    C.check("residual orthogonal", C.eq(C.dot(C.sub(w, R), v), 0))
    C.typecheck("Vector", lambda: type(r) is O("Vector"))


@case("C07", [dict(d=d) for d in (2, 3)])
def same_line_other_representation(C, d):
    """Moving the base point along the line and rescaling the direction change nothing."""
    p, v, l = line(C, d)
    s, k, q = C.real("s"), C.real("k", nonzero=True), C.vec("q", d)
    m = O("Line")(C.arr(C.add(p, C.mul(s, v))), C.arr(C.mul(k, v)))
    C.check("same foot", C.eqv(C.expect("project_point", m.project_point, C.arr(q)),
                               C.expect("project_point", l.project_point, C.arr(q))))
    C.check("same distance", C.eq(C.expect("distance_point", m.distance_point, C.arr(q)),
                                  C.expect("distance_point", l.distance_point, C.arr(q))))


@case("C07", [dict(d=d, e=e) for d in (1, 2, 3, 4) for e in (1, 2, 3, 4) if d != e])
def mixed_dimension(C, d, e):
    p, v, l = line(C, d)
    q, r = C.arr(C.vec("q", e)), C.vec("r", e)
    for name in ("project_point", "distance_point", "contains_point", "project_vector"):
        C.check_value_error(f"{name}: another dimension", C.call(getattr(l, name), q))
    for rows in ([q], [q, C.arr(r)], [q, C.arr(r), q]):
        for name in ("project_points", "distance_points", "transform_points", "sum_squares"):
            C.check_value_error(f"{name}: points of another dimension", C.call(getattr(l, name), rows))
