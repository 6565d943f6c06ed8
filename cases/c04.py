"""C04: is_zero / is_parallel / is_perpendicular decide the geometric relation within the stated tolerances."""
from fractions import Fraction

from symex.ctx import case


def V():
    from skspatial.objects import Vector

    return Vector


D = [dict(d=d) for d in (1, 2, 3, 4, 5)]


@case("C04", D)
def exact(C, d):
    """With default tolerances the predicates are the exact relations (parallel up to the relative tolerance)."""
    Vector = V()
    u, v = C.vec("u", d), C.vec("v", d)
    U = Vector(C.arr(u))
    C.check("is_zero", C.iff(C.bool(C.expect("is_zero", U.is_zero)), C.zero(u)))
    C.check("is_perpendicular", C.iff(C.bool(C.expect("is_perpendicular", U.is_perpendicular, C.arr(v))),
                                      C.eq(C.dot(u, v), 0)))
    C.check("u unchanged", C.eqv(U, u))


@case("C04", [dict(d=d) for d in (1, 2, 3, 4)])
def parallel_definition(C, d):
    """is_parallel: cos^2 within the tolerance of 1 (zero vectors are parallel to everything)."""
    Vector = V()
    u, v = C.vec("u", d), C.vec("v", d)
    r = C.bool(C.expect("is_parallel", Vector(C.arr(u)).is_parallel, C.arr(v)))
    lag = C.lagrange(u, v)
    p = C.norm2(u) * C.norm2(v)
    # 1 - |cos| <= 1e-9  <=>  cos^2 >= (1-1e-9)^2 <=> lagrange <= (1-(1-1e-9)^2) |u|^2|v|^2
    k = 1 - (1 - Fraction(1, 10**9)) ** 2
    C.check("accepted within the tolerance only", C.iff(r, C.le(lag, k * p)))


@case("C04", D)
def parallel_multiples(C, d):
    """Every multiple (positive, negative or zero) is parallel, in either order."""
    Vector = V()
    u, k = C.vec("u", d), C.real("k")
    w = C.mul(k, u)
    C.check("u || ku", C.bool(C.expect("is_parallel", Vector(C.arr(u)).is_parallel, C.arr(w))))
    C.check("ku || u", C.bool(C.expect("is_parallel", Vector(C.arr(w)).is_parallel, Vector(C.arr(u)))))


@case("C04", [dict(d=d) for d in (2, 3, 4)])
def not_parallel(C, d):
    """A vector with a clear perpendicular part is never parallel."""
    Vector = V()
    u, v = C.vec("u", d), C.vec("v", d)
    C.assume(C.gt(C.lagrange(u, v) * 1000, C.norm2(u) * C.norm2(v)))
    C.check("not parallel", C.not_(C.bool(C.expect("is_parallel", Vector(C.arr(u)).is_parallel, C.arr(v)))))


@case("C04", [dict(d=d) for d in (2, 3, 4)])
def symmetric(C, d):
    Vector = V()
    u, v = C.vec("u", d), C.vec("v", d)
    a = C.bool(C.expect("is_parallel", Vector(C.arr(u)).is_parallel, C.arr(v)))
    b = C.bool(C.expect("is_parallel", Vector(C.arr(v)).is_parallel, C.arr(u)))
    C.check("parallel symmetric", C.iff(a, b))
    a = C.bool(C.expect("is_perpendicular", Vector(C.arr(u)).is_perpendicular, C.arr(v)))
    b = C.bool(C.expect("is_perpendicular", Vector(C.arr(v)).is_perpendicular, C.arr(u)))
    C.check("perpendicular symmetric", C.iff(a, b))


@case("C04", [dict(d=d) for d in (2, 3)])
def parallel_is_not_perpendicular(C, d):
    Vector = V()
    u, v = C.vec("u", d), C.vec("v", d)
    C.nonzero(u)
    C.nonzero(v)
    U = Vector(C.arr(u))
    a = C.bool(C.expect("is_parallel", U.is_parallel, C.arr(v)))
    b = C.bool(C.expect("is_perpendicular", U.is_perpendicular, C.arr(v)))
    C.check("not both", C.not_(C.all_([a, b])))


@case("C04", [dict(d=d) for d in (1, 2, 3)])
def zero_tolerance(C, d):
    Vector = V()
    u = C.vec("u", d)
    t = C.real("t", lo=0)
    r = C.bool(C.expect("is_zero", Vector(C.arr(u)).is_zero, abs_tol=C.num(t)))
    C.check("abs_tol bounds the squared length", C.iff(r, C.close(C.norm2(u), 0, abs_tol=t)))


@case("C04", [dict(d=d) for d in (1, 2, 3)])
def perpendicular_tolerance(C, d):
    Vector = V()
    u, v = C.vec("u", d), C.vec("v", d)
    t = C.real("t", lo=0)
    r = C.bool(C.expect("is_perpendicular", Vector(C.arr(u)).is_perpendicular, C.arr(v), abs_tol=C.num(t)))
    C.check("abs_tol bounds the dot product", C.iff(r, C.close(C.dot(u, v), 0, abs_tol=t)))


@case("C04", [dict(d=d, t=t) for d in (1, 2, 3) for t in ("0", "1/1000", "1/4", "1")])
def parallel_tolerance(C, d, t):
    """abs_tol reaches both the zero tests and the comparison of |cos| with 1."""
    Vector = V()
    u, v = C.vec("u", d), C.vec("v", d)
    t = Fraction(t)
    r = C.bool(C.expect("is_parallel", Vector(C.arr(u)).is_parallel, C.arr(v), abs_tol=C.num(t)))
    z = C.any_([C.le(C.norm2(u), t), C.le(C.norm2(v), t)])
    dt = C.dot(u, v)
    m = max(t, Fraction(1, 10**9))
    # |cos| >= 1 - m  <=>  (u.v)^2 >= (1-m)^2 |u|^2 |v|^2   (0 <= m <= 1)
    C.check("tolerance respected", C.iff(r, C.any_([z, C.ge(dt * dt, (1 - m) * (1 - m) * C.norm2(u) * C.norm2(v))])))


@case("C04", [dict(d=d, t=t) for d in (2, 3) for t in ("0", "1/1000", "1/4")])
def parallel_rel_tol(C, d, t):
    Vector = V()
    u, v = C.vec("u", d), C.vec("v", d)
    C.nonzero(u)
    C.nonzero(v)
    t = Fraction(t)
    r = C.bool(C.expect("is_parallel", Vector(C.arr(u)).is_parallel, C.arr(v), rel_tol=C.num(t)))
    dt = C.dot(u, v)
    C.check("rel_tol respected", C.iff(r, C.ge(dt * dt, (1 - t) * (1 - t) * C.norm2(u) * C.norm2(v))))


@case("C04", [dict(a=2, b=3), dict(a=3, b=2), dict(a=1, b=3), dict(a=3, b=1), dict(a=2, b=1)])
def mixed_dimensions(C, a, b):
    """Predicates on vectors of different dimension do not silently answer."""
    Vector = V()
    u, v = C.vec("u", a), C.vec("v", b)
    C.nonzero(u)
    C.nonzero(v)
    C.check_value_error("is_parallel", C.call(Vector(C.arr(u)).is_parallel, C.arr(v)))
    C.check_value_error("is_perpendicular", C.call(Vector(C.arr(u)).is_perpendicular, C.arr(v)))
