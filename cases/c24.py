"""C24: equality and closeness of objects, and the distance between points."""
from fractions import Fraction

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


def mk(C, cls, v):
    return C.expect(cls, O(cls), C.arr(v), obs=False)


ARR = [dict(cls=c, d=d) for c in ("Vector", "Point") for d in (1, 2, 3, 4, 5, 6, 7)]


@case("C24", [dict(d=d) for d in (1, 2, 3, 4, 5, 6, 7, 9)])
def distance(C, d):
    p, q = C.vec("p", d), C.vec("q", d)
    P, Q = mk(C, "Point", p), mk(C, "Point", q)
    x = C.expect("distance_point", P.distance_point, Q)
    C.check("not negative", C.ge(x, 0))
    C.check("Euclidean distance", C.eq(x * x, C.norm2(C.sub(p, q))))
    C.check("symmetric", C.eq(C.expect("distance_point", Q.distance_point, P), x))
    C.check("array_like input", C.eq(C.expect("distance_point", P.distance_point, C.arr(q)), x))
    C.check("zero to itself", C.eq(C.expect("distance_point", P.distance_point, P), 0))
    C.check("zero only for equal points", C.implies(C.eq(x, 0), C.eqv(p, q)))
    C.typecheck("float", lambda: isinstance(x, float))


@case("C24", [dict(d=d) for d in (1, 2, 3, 4)])
def triangle_inequality(C, d):
    p, u, v = C.vec("p", d), C.vec("u", d), C.vec("v", d)
    A, B, D = mk(C, "Point", p), mk(C, "Point", C.add(p, u)), mk(C, "Point", C.add(C.add(p, u), v))
    x, y, z = A.distance_point(B), B.distance_point(D), A.distance_point(D)
    if d == 1:
        C.check("triangle inequality", C.le(z, x + y))
        C.check("reverse triangle inequality", C.le(x - y, z))
    # in general: the law of cosines and |u.v| <= |u||v|
    C.check("law of cosines", C.eq(z * z, x * x + y * y + 2 * C.dot(u, v)))
    C.check("Cauchy-Schwarz", C.le(C.dot(u, v) * C.dot(u, v), x * x * y * y))


@case("C24", [dict(d=d) for d in (2, 3)])
def isometry(C, d):
    """Translations and quarter turns keep distances."""
    p, q, t = C.vec("p", d), C.vec("q", d), C.vec("t", d)
    x = C.expect("distance_point", mk(C, "Point", p).distance_point, C.arr(q))
    y = C.expect("distance_point", mk(C, "Point", C.add(p, t)).distance_point, C.arr(C.add(q, t)))
    C.check("translation", C.eq(x, y))
    turn = lambda v: [0 - v[1], v[0]] + list(v[2:])
    z = C.expect("distance_point", mk(C, "Point", turn(p)).distance_point, C.arr(turn(q)))
    C.check("rotation", C.eq(x, z))


@case("C24", [dict(d=d, e=e) for d in (1, 2, 3, 4) for e in (1, 2, 3, 4) if d != e])
def distance_mixed(C, d, e):
    C.check_value_error("mixed dimensions", C.call(mk(C, "Point", C.vec("p", d)).distance_point, C.arr(C.vec("q", e))))


@case("C24", ARR)
def equal(C, cls, d):
    u, v = C.vec("u", d), C.vec("v", d)
    U, W = mk(C, cls, u), mk(C, cls, v)
    b = C.expect("is_equal", U.is_equal, W)
    C.check("equal iff all coordinates are", C.iff(C.bool(b), C.eqv(u, v)))
    C.check("symmetric", C.iff(C.bool(C.expect("is_equal", W.is_equal, U)), C.bool(b)))
    C.check("reflexive", C.bool(C.expect("is_equal", U.is_equal, C.arr(u))))
    C.typecheck("bool", lambda: isinstance(b, bool))


@case("C24", [dict(cls=c, d=d, e=e) for c in ("Vector", "Point") for d, e in ((2, 3), (3, 2), (1, 2), (2, 1), (1, 3), (3, 1), (4, 3), (3, 4), (5, 4), (6, 3))])
def equal_mixed(C, cls, d, e):
    b = C.expect("is_equal", mk(C, cls, C.vec("u", d)).is_equal, C.arr(C.vec("v", e)))
    C.check("never equal", C.not_(C.bool(b)))


@case("C24", [dict(m=1, n=1, d=2), dict(m=2, n=2, d=2), dict(m=2, n=2, d=3), dict(m=2, n=3, d=2), dict(m=3, n=1, d=2), dict(m=6, n=6, d=2), dict(m=9, n=9, d=2), dict(m=3, n=3, d=5), dict(m=2, n=6, d=2), dict(m=7, n=7, d=3)])
def equal_points(C, m, n, d):
    u, v = C.pts("u", m, d), C.pts("v", n, d)
    b = C.expect("is_equal", mk(C, "Points", u).is_equal, C.arr(v))
    C.check("equal iff same shape and coordinates", C.iff(C.bool(b), C.eqv(C.flat(u), C.flat(v)) if m == n else C.false))


@case("C24", [dict(cls=c, d=d) for c in ("Vector", "Point") for d in (1, 2, 3, 4, 6)])
def close_abs(C, cls, d):
    u, v, t = C.vec("u", d), C.vec("v", d), C.real("t", lo=0)
    b = C.expect("is_close", mk(C, cls, u).is_close, C.arr(v), rel_tol=0.0, abs_tol=C.num(t))
    near = C.all_([C.all_([C.le(x - y, t), C.le(y - x, t)]) for x, y in zip(u, v)])
    C.check("close iff every coordinate is within abs_tol", C.iff(C.bool(b), near))
    C.typecheck("bool", lambda: isinstance(b, bool))


@case("C24", [dict(cls="Vector", d=2), dict(cls="Point", d=3)])
def close_rel(C, cls, d):
    u, v, t = C.vec("u", d), C.vec("v", d), C.real("t", lo=0)
    b = C.expect("is_close", mk(C, cls, u).is_close, C.arr(v), rel_tol=C.num(t))
    C.check("close iff every coordinate is within rel_tol", C.iff(C.bool(b), C.all_([C.close(x, y, rel_tol=t) for x, y in zip(u, v)])))


@case("C24", ARR)
def close_default(C, cls, d):
    u, v = C.vec("u", d), C.vec("v", d)
    U = mk(C, cls, u)
    b = C.bool(C.expect("is_close", U.is_close, C.arr(v)))
    far = [C.gt(C.abs(x - y) * 10**6, C.max(C.abs(x), C.abs(y))) for x, y in zip(u, v)] if d < 3 else []
    C.check("equal arrays are close", C.bool(C.expect("is_close", U.is_close, C.arr(u))))
    C.check("clearly different arrays are not", C.implies(C.any_(far), C.not_(b)))
    if C.thin:
        C.check("default tolerance 1e-9", C.iff(b, C.all_([C.close(x, y) for x, y in zip(u, v)])))


@case("C24", [dict(m=2, d=2), dict(m=1, d=3), dict(m=5, d=2), dict(m=6, d=1), dict(m=8, d=1), dict(m=2, d=5)])
def close_points(C, m, d):
    u, v, t = C.pts("u", m, d), C.pts("v", m, d), C.real("t", lo=0)
    b = C.expect("is_close", mk(C, "Points", u).is_close, C.arr(v), rel_tol=0.0, abs_tol=C.num(t))
    near = C.all_([C.all_([C.le(x - y, t), C.le(y - x, t)]) for x, y in zip(C.flat(u), C.flat(v))])
    C.check("close iff every coordinate is within abs_tol", C.iff(C.bool(b), near))


@case("C24", [dict(d=2), dict(d=3)])
def line_moved(C, d):
    """The same line written with another point and a scaled direction is close; a shifted one is not."""
    e, f = {2: ([3, 4], [-4, 3]), 3: ([1, 2, 2], [2, 1, -2])}[d]
    p, s, k, h = C.vec("p", d), C.real("s"), C.real("k", nonzero=True), C.real("h")
    l = C.expect("Line", O("Line"), C.arr(p), C.arr(e), obs=False)
    m = C.expect("Line", O("Line"), C.arr(C.add(C.add(p, C.mul(s, e)), C.mul(h, f))), C.arr(C.mul(k, e)), obs=False)
    if C.thin:
        b = C.bool(C.expect("is_close", l.is_close, m, obs=False))
        C.check("close iff the same line", C.iff(b, C.eq(h, 0)))
        C.check("symmetric", C.iff(C.bool(m.is_close(l)), b))


@case("C24", [dict(d=2), dict(d=3)])
def line_turned(C, d):
    e, f = {2: ([3, 4], [-4, 3]), 3: ([1, 2, 2], [2, 1, -2])}[d]
    p, x, y = C.vec("p", d), C.real("x"), C.real("y")
    C.assume(C.gt(x * x + y * y, 0))
    C.assume(C.any_([C.eq(y, 0), C.gt(y * y * 10**8, x * x)]))
    l = C.expect("Line", O("Line"), C.arr(p), C.arr(e), obs=False)
    m = C.expect("Line", O("Line"), C.arr(p), C.arr(C.add(C.mul(x, e), C.mul(y, f))), obs=False)
    if C.thin:
        C.check("close iff parallel", C.iff(C.bool(C.expect("is_close", l.is_close, m, obs=False)), C.eq(y, 0)))


@case("C24")
def plane_moved(C):
    e, f, g = [1, 2, 2], [2, 1, -2], [2, -2, 1]
    p, s, t, h, k = C.vec("p", 3), C.real("s"), C.real("t"), C.real("h"), C.real("k", nonzero=True)
    a = C.expect("Plane", O("Plane"), C.arr(p), C.arr(g), obs=False)
    q = C.add(C.add(C.add(p, C.mul(s, e)), C.mul(t, f)), C.mul(h, g))
    b = C.expect("Plane", O("Plane"), C.arr(q), C.arr(C.mul(k, g)), obs=False)
    if C.thin:
        r = C.bool(C.expect("is_close", a.is_close, b, obs=False))
        C.check("close iff the same plane", C.iff(r, C.eq(h, 0)))
        C.check("symmetric", C.iff(C.bool(b.is_close(a)), r))


@case("C24")
def plane_turned(C):
    f, g = [2, 1, -2], [2, -2, 1]
    p, x, y = C.vec("p", 3), C.real("x"), C.real("y")
    C.assume(C.gt(x * x + y * y, 0))
    C.assume(C.any_([C.eq(y, 0), C.gt(y * y * 10**8, x * x)]))
    a = C.expect("Plane", O("Plane"), C.arr(p), C.arr(g), obs=False)
    b = C.expect("Plane", O("Plane"), C.arr(p), C.arr(C.add(C.mul(x, g), C.mul(y, f))), obs=False)
    if C.thin:
        C.check("close iff parallel", C.iff(C.bool(C.expect("is_close", a.is_close, b, obs=False)), C.eq(y, 0)))


@case("C24", [dict(kind=k, t=t) for k in ("Line", "Plane") for t in ("1/100", "1/2")])
def close_tolerance(C, kind, t):
    """abs_tol bounds both the distance of the points and the deviation of the directions."""
    p, h = C.vec("p", 3), C.real("h")
    e, f = [1, 2, 2], [2, 1, -2]
    v = f if kind == "Plane" else e
    a = C.expect(kind, O(kind), C.arr(p), C.arr(v), obs=False)
    b = C.expect(kind, O(kind), C.arr(C.add(p, C.mul(h, f))), C.arr(v), obs=False)
    r = C.bool(C.expect("is_close", a.is_close, b, abs_tol=float(Fraction(t))))
    C.check("close iff within abs_tol", C.iff(r, C.all_([C.le(3 * h, Fraction(t)), C.le(-3 * h, Fraction(t))])))


@case("C24", [dict(a=a, b=b) for a in ("Line", "Plane") for b in ("Line", "Plane", "list") if a != b])
def other_type(C, a, b):
    p, v = C.vec("p", 3), C.vec("v", 3)
    C.nonzero(v)
    x = C.expect(a, O(a), C.arr(p), C.arr(v), obs=False)
    y = C.arr(p) if b == "list" else C.expect(b, O(b), C.arr(p), C.arr(v), obs=False)
    o = C.call(x.is_close, y)
    C.check("TypeError for another type", C.true if o.raised and isinstance(o.exc, TypeError) else C.false)


@case("C24", [dict(kind="Line", d=2, e=3), dict(kind="Line", d=3, e=2), dict(kind="Plane", d=3, e=2), dict(kind="Plane", d=3, e=4), dict(kind="Line", d=1, e=3), dict(kind="Line", d=3, e=1), dict(kind="Plane", d=3, e=1), dict(kind="Plane", d=1, e=2)])
def close_mixed(C, kind, d, e):
    u, v = C.vec("u", d), C.vec("v", e)
    C.nonzero(u)
    C.nonzero(v)
    x = C.expect(kind, O(kind), C.arr(C.vec("p", d)), C.arr(u), obs=False)
    y = C.expect(kind, O(kind), C.arr(C.vec("q", e)), C.arr(v), obs=False)
    C.check_value_error("mixed dimensions", C.call(x.is_close, y))


@case("C24", [dict(d=d, e=e) for d, e in ((2, 3), (3, 2), (2, 4), (4, 2), (3, 6), (6, 2))])
def close_mixed(C, d, e):
    """Arrays of different sizes are never called close, whatever they begin with."""
    u, v = C.vec("u", min(d, e)), C.vec("v", max(d, e) - min(d, e))
    a, b = (u, u + v) if d < e else (u + v, u)
    for cls in ("Vector", "Point"):
        r = C.call(mk(C, cls, a).is_close, C.arr(b), abs_tol=1)
        if not r.raised:
            C.check("not close", C.not_(C.bool(r.value)))


@case("C24", [dict(m=2, n=3, d=2), dict(m=3, n=2, d=2), dict(m=2, n=4, d=3)])
def close_points_mixed(C, m, n, d):
    u = C.pts("u", max(m, n), d)
    r = C.call(mk(C, "Points", u[:m]).is_close, C.arr(u[:n]), abs_tol=1)
    if not r.raised:
        C.check("not close", C.not_(C.bool(r.value)))
