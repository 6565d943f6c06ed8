"""C12: intersection of a line with a circle or a sphere."""
from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


NAME = {2: "Circle", 3: "Sphere"}


def check_pair(C, out, c, r, a, v):
    """Both common points of |X - c| = r and the line a + t v, each once (twice the same when tangent)."""
    d = len(c)
    A, B = out
    X, Y = C.vals(A), C.vals(B)
    C.check("dimension", C.true if len(X) == d and len(Y) == d else C.false)
    for P in (X, Y):
        C.check("on the line", C.parallel(C.sub(P, a), v))
        C.check("on the surface", C.eq(C.norm2(C.sub(P, c)), r * r))
    mid2 = C.sub(C.add(X, Y), C.mul(2, c))
    C.check("two different points unless tangent: midpoint is the foot of the centre", C.eq(C.dot(mid2, v), 0))
    C.typecheck("Point", lambda: type(A) is O("Point") and type(B) is O("Point"))


@case("C12", [dict(d=d) for d in (2, 3)])
def intersect(C, d):
    c, a, v = C.vec("c", d), C.vec("a", d), C.vec("v", d)
    r = C.real("r", pos=True)
    C.nonzero(v)
    S, L = O(NAME[d])(C.arr(c), C.num(r)), O("Line")(C.arr(a), C.arr(v))
    o = C.call(S.intersect_line, L)
    far = C.gt(C.lagrange(C.sub(c, a), v), r * r * C.norm2(v))
    C.check("raises iff the line passes farther than the radius", C.iff(C.true if o.raised else C.false, far))
    if o.raised:
        C.check_value_error("no intersection", o)
        return
    check_pair(C, o.value, c, r, a, v)
    C.check("inputs unchanged", C.all_([C.eqv(S.point, c), C.eq(S.radius, r), C.eqv(L.point, a), C.eqv(L.direction, v)]))


@case("C12", [dict(d=d) for d in (2, 3)])
def through_point(C, d):
    """A line through a point of the surface finds that point, whatever the representation of the line."""
    a, w, v = C.vec("a", d), C.vec("w", d), C.vec("v", d)
    s = C.real("s")
    C.nonzero(v)
    C.nonzero(w)
    c = C.add(a, w)
    r = C.norm(w)
    if C.thin:
        S = O(NAME[d])(C.arr(c), C.num(r))
        L = O("Line")(C.arr(C.add(a, C.mul(s, v))), C.arr(v))
        A, B = C.expect("intersect_line", S.intersect_line, L, obs=False)
        X, Y = C.vals(A), C.vals(B)
        C.check("the known point is one of the two", C.any_([C.eqv(X, a), C.eqv(Y, a)]))


@case("C12", [dict(d=d) for d in (2, 3)])
def through_centre(C, d):
    """A line through the centre meets the surface in two antipodal points."""
    c, v = C.vec("c", d), C.vec("v", d)
    r, s = C.real("r", pos=True), C.real("s")
    C.nonzero(v)
    S, L = O(NAME[d])(C.arr(c), C.num(r)), O("Line")(C.arr(C.add(c, C.mul(s, v))), C.arr(v))
    A, B = C.expect("intersect_line", S.intersect_line, L)
    X, Y = C.vals(A), C.vals(B)
    C.check("antipodal", C.eqv(C.add(X, Y), C.mul(2, c)))
    C.check("diameter", C.eq(C.norm2(C.sub(X, Y)), 4 * r * r))
    C.check("along the line", C.parallel(C.sub(X, c), v))


@case("C12", [dict(d=d) for d in (2, 3)])
def tangent(C, d):
    """A line at exactly the radius touches in one point (returned twice)."""
    c, v = C.vec("c", d), C.vec("v", d)
    s, k = C.real("s"), C.real("k", nonzero=True)
    C.nonzero(v)
    n = C.mul(k, [-v[1], v[0]]) if d == 2 else C.cross(v, C.vec("h", 3))
    C.nonzero(n)
    t = C.add(c, n)
    if C.thin:
        S, L = O(NAME[d])(C.arr(c), C.num(C.norm(n))), O("Line")(C.arr(C.add(t, C.mul(s, v))), C.arr(v))
        A, B = C.expect("intersect_line", S.intersect_line, L, obs=False)
        C.check("touching point", C.all_([C.eqv(A, t), C.eqv(B, t)]))


@case("C12", [dict(d=d, e=e) for d in (2, 3) for e in (1, 2, 3, 4) if d != e])
def mixed_dimension(C, d, e):
    c, r = C.vec("c", d), C.real("r", pos=True)
    a, v = C.vec("a", e), C.vec("v", e)
    C.nonzero(v)
    C.check_value_error("line of another dimension",
                        C.call(O(NAME[d])(C.arr(c), C.num(r)).intersect_line, O("Line")(C.arr(a), C.arr(v))))
