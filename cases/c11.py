"""C11: line segments - membership and intersection."""
from fractions import Fraction

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


def segment(C, a, b):
    r = C.call(O("LineSegment"), C.arr(a), C.arr(b))
    if r.raised:  # endpoints close to each other: the constructor's domain is C02's subject
        C.check_value_error("close endpoints", r)
        C.stop()
    return r.value


K = 1 - (1 - Fraction(1, 10**9)) ** 2


@case("C11", [dict(d=d) for d in (1, 2, 3)])
def contains(C, d):
    """Contained exactly when an endpoint, or seen from the point the endpoints are in opposite directions (within 1e-9)."""
    q, u, v = C.vec("q", d), C.vec("u", d), C.vec("v", d)
    s = segment(C, C.add(q, u), C.add(q, v))
    r = C.bool(C.expect("contains_point", s.contains_point, C.arr(q)))
    between = C.all_([C.le(C.dot(u, v), 0), C.le(C.lagrange(u, v), K * C.norm2(u) * C.norm2(v))])
    C.check("contained iff between the endpoints", C.iff(r, C.any_([C.zero(u), C.zero(v), between])))
    C.check("segment unchanged", C.all_([C.eqv(s.point_a, C.add(q, u)), C.eqv(s.point_b, C.add(q, v))]))


@case("C11", [dict(d=d) for d in (1, 2, 3, 4)])
def contains_parameter(C, d):
    """a + t (b - a) is contained exactly when 0 <= t <= 1."""
    a, w, t = C.vec("a", d), C.vec("w", d), C.real("t")
    s = segment(C, a, C.add(a, w))
    r = C.bool(C.expect("contains_point", s.contains_point, C.arr(C.add(a, C.mul(t, w)))))
    C.check("contained iff 0 <= t <= 1", C.iff(r, C.all_([C.ge(t, 0), C.le(t, 1)])))


@case("C11", [dict(d=d) for d in (1, 2, 3)])
def swapped_endpoints(C, d):
    q, u, v = C.vec("q", d), C.vec("u", d), C.vec("v", d)
    s, t = segment(C, C.add(q, u), C.add(q, v)), segment(C, C.add(q, v), C.add(q, u))
    C.check("same answer", C.iff(C.bool(C.expect("contains_point", s.contains_point, C.arr(q))),
                                 C.bool(C.expect("contains_point", t.contains_point, C.arr(q)))))


@case("C11", [dict(d=d, t=t) for d in (2, 3) for t in ("1/100", "1/4")])
def contains_tolerance(C, d, t):
    """abs_tol widens the test: squared distance to an endpoint, or 1 + cos of the angle, at most abs_tol."""
    t = Fraction(t)
    q, u, v = C.vec("q", d), C.vec("u", d), C.vec("v", d)
    s = segment(C, C.add(q, u), C.add(q, v))
    r = C.bool(C.expect("contains_point", s.contains_point, C.arr(q), abs_tol=float(t)))
    nu, nv, uv = C.norm2(u), C.norm2(v), C.dot(u, v)
    opp = C.all_([C.le(uv, 0), C.le(C.lagrange(u, v), (1 - (1 - t) ** 2) * nu * nv)])
    C.check("contained iff near an endpoint or between", C.iff(r, C.any_([C.le(nu, t), C.le(nv, t), opp])))


@case("C11", [dict(d=d, e=e) for d in (1, 2, 3) for e in (1, 2, 3, 4) if d != e])
def mixed_dimension(C, d, e):
    s = segment(C, C.vec("a", d), C.vec("b", d))
    C.check_value_error("point of another dimension", C.call(s.contains_point, C.arr(C.vec("q", e))))


def cross_segments(C, d):
    """Two segments on lines through x; x sits at parameters s and t of them."""
    x, u, v = C.vec("x", d), C.vec("u", d), C.vec("v", d)
    s, t = C.real("s"), C.real("t")
    lag = C.lagrange(u, v)
    C.assume(C.all_([C.gt(lag, 0), C.gt(lag * 10**8, C.norm2(u) * C.norm2(v))]))
    a = C.sub(x, C.mul(s, u))
    b = C.sub(x, C.mul(t, v))
    return x, s, t, segment(C, a, C.add(a, u)), segment(C, b, C.add(b, v))


@case("C11", [dict(d=d) for d in (2, 3)])
def intersect_crossing(C, d):
    x, s, t, S, T = cross_segments(C, d)
    eps = Fraction(1, 100)
    C.assume(C.all_([C.gt(s, 0), C.gt(t, 0), C.lt(s, 1), C.lt(t, 1)]))
    C.assume(C.all_([C.ge(s, eps), C.le(s, 1 - eps), C.ge(t, eps), C.le(t, 1 - eps)]))
    for A, B in ((S, T), (T, S)):
        r = C.expect("intersect_line_segment", A.intersect_line_segment, B)
        C.check("the crossing point", C.eqv(r, x))
        C.typecheck("Point", lambda: type(r) is O("Point"))


@case("C11", [dict(d=2, end=e) for e in (0, 1)] + [dict(d=3, end=0)], needs_symbolic=True)
def intersect_endpoint(C, d, end):
    """Touching at an endpoint counts (exact arithmetic; rounding may legitimately miss it)."""
    x, u, v, t = C.vec("x", d), C.vec("u", d), C.vec("v", d), C.real("t", lo=0, hi=1)
    lag = C.lagrange(u, v)
    C.assume(C.all_([C.gt(lag, 0), C.gt(lag * 10**8, C.norm2(u) * C.norm2(v))]))
    a = C.sub(x, C.mul(end, u))
    b = C.sub(x, C.mul(t, v))
    S, T = segment(C, a, C.add(a, u)), segment(C, b, C.add(b, v))
    if C.thin:
        C.check("the common point", C.eqv(C.expect("intersect_line_segment", S.intersect_line_segment, T, obs=False), x))
        C.check("the common point", C.eqv(C.expect("intersect_line_segment", T.intersect_line_segment, S, obs=False), x))


@case("C11", [dict(d=d, side=k) for d in (2, 3) for k in ("before", "after")])
def intersect_outside(C, d, side):
    """Segments whose lines meet outside either segment do not intersect."""
    x, s, t, S, T = cross_segments(C, d)
    if side == "before":
        C.assume(C.lt(s, 0))
    else:
        C.assume(C.all_([C.gt(s, 0), C.gt(s, 1)]))
    for A, B in ((S, T), (T, S)):
        C.check_value_error("the segments do not meet", C.call(A.intersect_line_segment, B))


@case("C11", [dict(d=d) for d in (2, 3)])
def intersect_parallel(C, d):
    a, u, q, k = C.vec("a", d), C.vec("u", d), C.vec("q", d), C.real("k", nonzero=True)
    S, T = segment(C, a, C.add(a, u)), segment(C, q, C.add(q, C.mul(k, u)))
    C.check_value_error("parallel segments", C.call(S.intersect_line_segment, T))


@case("C11")
def intersect_skew(C):
    x, u, v = C.vec("x", 3), C.vec("u", 3), C.vec("v", 3)
    s, t, h = C.real("s"), C.real("t"), C.real("h", nonzero=True)
    lag = C.lagrange(u, v)
    C.assume(C.all_([C.gt(lag, 0), C.gt(lag * 10**8, C.norm2(u) * C.norm2(v))]))
    a = C.sub(x, C.mul(s, u))
    b = C.sub(C.add(x, C.mul(h, C.cross(u, v))), C.mul(t, v))
    S, T = segment(C, a, C.add(a, u)), segment(C, b, C.add(b, v))
    C.check_value_error("skew segments", C.call(S.intersect_line_segment, T))


@case("C11", [dict(d=1), dict(d=4)])
def intersect_dimension(C, d):
    S, T = segment(C, C.vec("a", d), C.vec("b", d)), segment(C, C.vec("p", d), C.vec("q", d))
    C.check_value_error("only 2D and 3D segments", C.call(S.intersect_line_segment, T))


@case("C11", [dict(d=2, t="1/100"), dict(d=2, t="1/2")])
def intersect_tolerance(C, d, t):
    """Keyword tolerances decide what counts as parallel."""
    t = Fraction(t)
    x, u, v = C.vec("x", d), C.vec("u", d), C.vec("v", d)
    C.assume(C.all_([C.gt(C.norm2(u), 1), C.gt(C.norm2(v), 1)]))
    half = Fraction(1, 2)
    S = segment(C, C.sub(x, C.mul(half, u)), C.add(x, C.mul(half, u)))
    T = segment(C, C.sub(x, C.mul(half, v)), C.add(x, C.mul(half, v)))
    r = C.call(S.intersect_line_segment, T, abs_tol=float(t))
    par = C.le(C.lagrange(u, v), (1 - (1 - t) ** 2) * C.norm2(u) * C.norm2(v))
    C.check("raises iff parallel within abs_tol", C.iff(C.true if r.raised else C.false, par))
    if r.ok:
        C.check("the common point", C.eqv(r.value, x))
