"""C03: vector algebra (from_points, norm, unit, cross, projections, different_direction)."""
from symex.ctx import case


def dims(*ds):
    return [dict(d=d) for d in ds]


def V():
    from skspatial.objects import Vector

    return Vector


@case("C03", dims(1, 2, 3, 4, 5, 6, 7, 8))
def from_points_norm_unit(C, d):
    Vector = V()
    p, q = C.vec("p", d), C.vec("q", d)
    v = C.expect("from_points", Vector.from_points, C.arr(p), C.arr(q))
    C.check("from_points is q-p", C.eqv(v, C.sub(q, p)))
    C.typecheck("from_points gives a Vector", lambda: type(v) is Vector)
    n = C.expect("norm", v.norm)
    C.check("norm >= 0", C.ge(n, 0))
    C.check("norm squared", C.eq(n * n, C.norm2(C.sub(q, p))))
    u = C.call(v.unit)
    if u.raised:
        C.check_value_error("unit of zero", u)
        C.check("unit raises only for zero", C.zero(C.sub(q, p)))
    else:
        w = u.value
        C.check("unit has length one", C.eq(C.norm2(C.vals(w)), 1))
        C.check("unit is along v", C.eqv(C.mul(n, C.vals(w)), C.sub(q, p)))
        C.typecheck("unit gives a Vector", lambda: type(w) is Vector)
    C.check("v unchanged", C.eqv(v, C.sub(q, p)))


@case("C03", dims(1, 2, 3, 4, 5, 6))
def unit_of_scaled(C, d):
    """unit() ignores the length of the vector and keeps its sense."""
    Vector = V()
    v = C.vec("v", d)
    k = C.real("k", pos=True)
    C.nonzero(v)
    a = C.expect("unit", Vector(C.arr(v)).unit)
    b = C.expect("unit", Vector(C.arr(C.mul(k, v))).unit)
    C.check("same unit vector", C.eqv(a, b))
    e = C.expect("unit", Vector(C.arr(C.mul(-1, v))).unit)
    C.check("opposite unit vector", C.eqv(a, C.mul(-1, C.vals(e))))


@case("C03", [dict(a=2, b=2), dict(a=3, b=3), dict(a=2, b=3), dict(a=3, b=2), dict(a=1, b=3), dict(a=3, b=1), dict(a=1, b=2), dict(a=2, b=1), dict(a=1, b=1)])
def cross_product(C, a, b):
    Vector = V()
    u, v = C.vec("u", a), C.vec("v", b)
    x = C.expect("cross", Vector(C.arr(u)).cross, C.arr(v))
    C.check("components", C.eqv(x, C.cross(u, v)))
    y = C.expect("cross", Vector(C.arr(v)).cross, Vector(C.arr(u)))
    C.check("anticommutative", C.eqv(x, C.mul(-1, C.vals(y))))
    pu, pv = list(u) + [0] * (3 - a), list(v) + [0] * (3 - b)
    C.check("orthogonal to the first", C.eq(C.dot(C.vals(x), pu), 0))
    C.check("orthogonal to the second", C.eq(C.dot(C.vals(x), pv), 0))
    C.check("always 3D", C.true if len(C.vals(x)) == 3 else C.false)
    C.typecheck("Vector", lambda: type(x) is Vector)


@case("C03", [dict(a=4, b=3), dict(a=3, b=4), dict(a=4, b=4), dict(a=5, b=2)])
def cross_high_dimension(C, a, b):
    u, v = C.vec("u", a), C.vec("v", b)
    C.check_value_error("cross beyond 3D", C.call(V()(C.arr(u)).cross, C.arr(v)))


@case("C03", dims(1, 2, 3, 4, 5, 6, 7))
def scalar_projection(C, d):
    Vector = V()
    u, v = C.vec("u", d), C.vec("v", d)
    r = C.call(Vector(C.arr(u)).scalar_projection, C.arr(v))
    if r.raised:
        C.check_value_error("zero vector has no direction", r)
        C.check("raises only for zero", C.zero(u))
        return
    s = r.value
    C.check("s |u| = u.v", C.eq(s * C.norm(u), C.dot(u, v)))
    C.check("|s| <= |v|", C.le(s * s, C.norm2(v)))


@case("C03", dims(1, 2, 3, 4, 5, 6, 7))
def project_vector(C, d):
    Vector = V()
    u, v = C.vec("u", d), C.vec("v", d)
    C.nonzero(u)
    U = Vector(C.arr(u))
    p = C.expect("project_vector", U.project_vector, C.arr(v))
    pv = C.vals(p)
    C.check("parallel to u", C.parallel(pv, u))
    C.check("residual orthogonal", C.eq(C.dot(C.sub(v, pv), u), 0))
    C.check("residual squared", C.eq(C.norm2(pv) + C.norm2(C.sub(v, pv)), C.norm2(v)))
    q = C.expect("project again", U.project_vector, p)
    C.check("idempotent", C.eqv(q, p))
    s = C.expect("scalar_projection", U.scalar_projection, C.arr(v))
    C.check("length is |scalar projection|", C.eq(C.norm2(pv), s * s))
    C.check("u unchanged", C.eqv(U, u))
    C.typecheck("Vector", lambda: type(p) is Vector)


@case("C03", dims(1, 2, 3, 4, 5, 6))
def different_direction(C, d):
    Vector = V()
    u = C.vec("u", d)
    U = Vector(C.arr(u))
    r = C.call(U.different_direction)
    if r.raised:
        C.check_value_error("zero vector", r)
        C.check("raises only for zero", C.zero(u))
        return
    w = C.vals(r.value)
    C.check("same dimension", C.true if len(w) == d else C.false)
    C.check("nonzero result", C.not_(C.zero(w)))
    C.check("defined for nonzero", C.not_(C.zero(u)))
    if d == 1:
        C.check("opposite sense", C.lt(w[0] * u[0], 0))
    else:
        C.check("not parallel", C.not_(C.parallel(w, u)))
    C.check("u unchanged", C.eqv(U, u))
    C.typecheck("Vector", lambda: type(r.value) is Vector)


@case("C03", dims(1, 2, 3))
def different_direction_tolerance(C, d):
    """The tolerance keywords reach the zero test."""
    Vector = V()
    u = C.vec("u", d)
    t = C.real("t", lo=0, hi=1)
    r = C.call(Vector(C.arr(u)).different_direction, abs_tol=C.num(t))
    C.check("raises iff the squared length is within abs_tol of zero",
            C.iff(C.true if r.raised else C.false, C.close(C.norm2(u), 0, abs_tol=t)))
    if r.raised:
        C.check_value_error("treated as zero", r)


@case("C03", [dict(d=d, rel=r) for d in (2, 3) for r in (1, 0)])
def different_direction_kwargs(C, d, rel):
    """The result is not parallel within the tolerances it was asked for."""
    u = C.vec("u", d)
    U = V()(C.arr(u))
    k = dict(rel_tol=0.25) if rel else dict(abs_tol=0.25)
    r = C.call(U.different_direction, **k)
    if r.raised:
        C.check_value_error("zero vector", r)
        return
    w = C.vals(r.value)
    C.check("nonzero result", C.not_(C.zero(w)))
    # cos^2 < (1 - 0.25)^2
    C.check("not parallel within the tolerance", C.lt(16 * C.dot(u, w) * C.dot(u, w), 9 * C.norm2(u) * C.norm2(w)))


@case("C03", dims(2, 3, 4))
def norm_orders(C, d):
    """Keyword arguments of norm reach numpy."""
    Vector = V()
    u = C.vec("u", d)
    U = Vector(C.arr(u))
    n1 = C.expect("norm ord=1", U.norm, ord=1)
    t = 0
    for x in u:
        t = t + C.abs(x)
    C.check("1-norm", C.eq(n1, t))
