"""C05: angles between vectors."""
from symex.ctx import case


def V():
    from skspatial.objects import Vector

    return Vector


@case("C05", [dict(d=d) for d in (1, 2, 3, 4, 5, 6)])
def cosine(C, d):
    Vector = V()
    u, v = C.vec("u", d), C.vec("v", d)
    r = C.call(Vector(C.arr(u)).cosine_similarity, C.arr(v))
    if r.raised:
        C.check_value_error("zero vector", r)
        C.check("raises only when a vector is zero", C.any_([C.zero(u), C.zero(v)]))
        return
    C.check("both non-zero", C.not_(C.any_([C.zero(u), C.zero(v)])))
    c = r.value
    C.check("c |u||v| = u.v", C.eq(c * C.norm(u) * C.norm(v), C.dot(u, v)))
    C.check("at most 1", C.le(c, 1))
    C.check("at least -1", C.ge(c, -1))


@case("C05", [dict(d=d) for d in (1, 2, 3, 4, 5, 6)])
def between(C, d):
    Vector = V()
    u, v = C.vec("u", d), C.vec("v", d)
    r = C.call(Vector(C.arr(u)).angle_between, C.arr(v))
    if r.raised:
        C.check_value_error("zero vector", r)
        C.check("raises only when a vector is zero", C.any_([C.zero(u), C.zero(v)]))
        return
    t = r.value
    C.check("both non-zero", C.not_(C.any_([C.zero(u), C.zero(v)])))
    C.check("not negative", C.ge(t, 0))
    C.check("at most pi", C.le(t, C.pi))
    C.check("its cosine", C.eq(C.cos(t) * C.norm(u) * C.norm(v), C.dot(u, v)))


@case("C05", [dict(d=d) for d in (2, 3)])
def between_symmetric(C, d):
    Vector = V()
    u, v = C.vec("u", d), C.vec("v", d)
    C.nonzero(u)
    C.nonzero(v)
    a = C.expect("angle", Vector(C.arr(u)).angle_between, C.arr(v))
    b = C.expect("angle", Vector(C.arr(v)).angle_between, Vector(C.arr(u)))
    C.check("symmetric", C.eq(C.cos(a), C.cos(b)))
    k = C.real("k", pos=True)
    c = C.expect("angle", Vector(C.arr(C.mul(k, u))).angle_between, C.arr(v))
    C.check("independent of length", C.eq(C.cos(a), C.cos(c)))


@case("C05", [dict(d=d) for d in (1, 2, 3, 4, 5, 6)])
def between_multiples(C, d):
    """Parallel vectors: exactly 0 or pi, never a domain error."""
    Vector = V()
    u = C.vec("u", d)
    k = C.real("k", pos=True)
    C.nonzero(u)
    a = C.expect("angle", Vector(C.arr(u)).angle_between, C.arr(C.mul(k, u)))
    C.check("same direction", C.eq(C.cos(a), 1))
    b = C.expect("angle", Vector(C.arr(u)).angle_between, C.arr(C.mul(-k, u)))
    C.check("opposite direction", C.eq(C.cos(b), -1))
    C.check("opposite is pi", C.eq(C.sin(b), 0))


@case("C05")
def signed_2d(C):
    Vector = V()
    u, v = C.vec("u", 2), C.vec("v", 2)
    C.nonzero(u)
    C.nonzero(v)
    t = C.expect("angle_signed", Vector(C.arr(u)).angle_signed, C.arr(v))
    p = C.norm(u) * C.norm(v)
    C.check("cosine", C.eq(C.cos(t) * p, C.dot(u, v)))
    C.check("sine", C.eq(C.sin(t) * p, u[0] * v[1] - u[1] * v[0]))
    C.check("range", C.all_([C.le(t, C.pi), C.ge(t, -C.pi)]))


@case("C05")
def signed_2d_antisymmetric(C):
    Vector = V()
    u, v = C.vec("u", 2), C.vec("v", 2)
    C.nonzero(u)
    C.nonzero(v)
    a = C.expect("angle_signed", Vector(C.arr(u)).angle_signed, C.arr(v))
    b = C.expect("angle_signed", Vector(C.arr(v)).angle_signed, C.arr(u))
    C.check("opposite sine", C.eq(C.sin(a), -C.sin(b)))
    C.check("same cosine", C.eq(C.cos(a), C.cos(b)))
    g = C.expect("angle_between", Vector(C.arr(u)).angle_between, C.arr(v))
    C.check("magnitude is the unsigned angle", C.eq(C.cos(a), C.cos(g)))


@case("C05", [dict(a=a, b=b) for a, b in ((1, 2), (2, 1), (3, 3), (2, 3), (3, 2), (4, 4))])
def signed_2d_domain(C, a, b):
    u, v = C.vec("u", a), C.vec("v", b)
    C.check_value_error("only 2D", C.call(V()(C.arr(u)).angle_signed, C.arr(v)))


@case("C05", seconds=100)
def signed_3d(C):
    """The reference direction is any non-zero multiple of the cross product."""
    Vector = V()
    u, v, k = C.vec("u", 3), C.vec("v", 3), C.real("k", nonzero=True)
    n = C.cross(u, v)
    C.nonzero(n)
    t = C.expect("angle_signed_3d", Vector(C.arr(u)).angle_signed_3d, C.arr(v), C.arr(C.mul(k, n)))
    c, s = C.cos(t), C.sin(t)
    p = C.norm(u) * C.norm(v)
    C.check("cosine", C.eq(c * p, C.dot(u, v)))
    C.check("sine has the sign of the reference", C.gt(s * k, 0))
    C.check("|sine|", C.eq(s * s * C.norm2(u) * C.norm2(v), C.norm2(n)))
    C.check("range", C.all_([C.le(t, C.pi), C.ge(t, -C.pi)]))


@case("C05", [dict(axis=i) for i in range(3)])
def signed_3d_in_coordinate_plane(C, axis):
    Vector = V()
    a, b = C.vec("u", 2), C.vec("v", 2)
    k = C.real("k", nonzero=True)
    C.nonzero(a)
    C.nonzero(b)
    u, v, w = list(a), list(b), [0, 0]
    u.insert(axis, 0)
    v.insert(axis, 0)
    w.insert(axis, k)
    t = C.expect("angle_signed_3d", Vector(C.arr(u)).angle_signed_3d, C.arr(v), C.arr(w))
    p = C.norm(a) * C.norm(b)
    det = (a[0] * b[1] - a[1] * b[0]) * (-1 if axis == 1 else 1)
    C.check("cosine", C.eq(C.cos(t) * p, C.dot(a, b)))
    if C.truth(C.gt(k, 0)):
        C.check("sine", C.eq(C.sin(t) * p, det))
    else:
        C.check("sine", C.eq(C.sin(t) * p, -det))


@case("C05", [dict(axis=i) for i in range(3)])
def signed_3d_rejects(C, axis):
    """A reference direction clearly off the common normal is rejected."""
    Vector = V()
    a, b, w = C.vec("u", 2), C.vec("v", 2), C.vec("w", 3)
    C.assume(C.ne(a[0] * b[1] - a[1] * b[0], 0))
    u, v = list(a), list(b)
    u.insert(axis, 0)
    v.insert(axis, 0)
    off = C.norm2(w) - w[axis] * w[axis]
    C.assume(C.gt(1000 * off, C.norm2(w)))
    C.check_value_error("reference not perpendicular", C.call(Vector(C.arr(u)).angle_signed_3d, C.arr(v), C.arr(w)))


@case("C05")
def signed_3d_zero_reference(C):
    Vector = V()
    u, v = C.vec("u", 3), C.vec("v", 3)
    C.check_value_error("zero reference", C.call(Vector(C.arr(u)).angle_signed_3d, C.arr(v), [0, 0, 0]))


@case("C05", [dict(a=a, b=b, c=c) for a, b, c in ((2, 3, 3), (3, 2, 3), (3, 3, 2), (2, 2, 2), (4, 4, 4), (3, 3, 4))])
def signed_3d_domain(C, a, b, c):
    u, v, w = C.vec("u", a), C.vec("v", b), C.vec("w", c)
    C.check_value_error("only 3D", C.call(V()(C.arr(u)).angle_signed_3d, C.arr(v), C.arr(w)))
