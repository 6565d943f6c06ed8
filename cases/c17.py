"""C17: intersection of a line with a cylinder."""
from fractions import Fraction

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


def radial2(C, X, p, v):
    """(distance of X to the axis)^2 * |v|^2"""
    return C.lagrange(C.sub(X, p), v)


def check_infinite(C, pair, p, v, r, a, u):
    A, B = pair
    X, Y = C.vals(A), C.vals(B)
    for P in (X, Y):
        C.check("on the line", C.parallel(C.sub(P, a), u))
        C.check("on the lateral surface", C.eq(radial2(C, P, p, v), r * r * C.norm2(v)))
    m = C.sub(C.add(X, Y), C.mul(2, p))
    # (2 midpoint - 2 p), freed of its axial part, is orthogonal to u: both roots, each once
    C.check("both crossings", C.eq(C.dot(m, u) * C.norm2(v), C.dot(m, v) * C.dot(u, v)))
    C.typecheck("Point", lambda: type(A) is O("Point") and type(B) is O("Point"))


AXES = {"general": None, "z": [0, 0, 1], "x": [1, 0, 0], "122": [1, 2, 2], "y-": [0, -1, 0]}


def make(C, axis, flat=False):
    p, r = C.vec("p", 3), C.real("r", pos=True)
    if AXES[axis] is None:
        v = C.vec("v", 3)
        C.nonzero(v)
    else:
        v = C.mul(C.real("h", pos=True), AXES[axis])
    a, u = C.vec("a", 3), C.vec("u", 3)
    if axis == "122":  # same generality, coordinates along an orthogonal frame around the axis
        fr = [[1, 2, 2], [2, 1, -2], [2, -2, 1]]
        rot = lambda w: [sum(w[j] * fr[j][i] for j in range(3)) for i in range(3)]
        a, u = C.add(p, rot(a)), rot(u)
    C.nonzero(u)
    return p, v, r, a, u


@case("C17", [dict(axis=k) for k in AXES])
def infinite(C, axis):
    p, v, r, a, u = make(C, axis)
    c, l = O("Cylinder")(C.arr(p), C.arr(v), C.num(r)), O("Line")(C.arr(a), C.arr(u))
    o = C.call(c.intersect_line, l)
    par = C.parallel(u, v)
    # distance between axis and line > r: (w . u x v)^2 > r^2 |u x v|^2
    t = C.dot(C.sub(a, p), C.cross(u, v))
    far = C.gt(t * t, r * r * C.lagrange(u, v))
    if o.raised:
        C.check_value_error("no intersection", o)
        # a sine below 1e-15 counts as parallel
        tiny = C.le(C.lagrange(u, v) * 10**28, C.norm2(u) * C.norm2(v))
        C.check("raises only for lines parallel to the axis or farther than the radius", C.any_([tiny, far]))
        return
    C.check("lines parallel to the axis or farther than the radius are rejected", C.not_(C.any_([par, far])))
    check_infinite(C, o.value, p, v, r, a, u)
    C.check("inputs unchanged", C.all_([C.eqv(c.point, p), C.eqv(c.vector, v), C.eq(c.radius, r), C.eqv(l.point, a), C.eqv(l.direction, u)]))


@case("C17", [dict(axis=k, end=e) for k in ("z", "122") for e in (False, True)])
def infinite_through_point(C, axis, end):
    """A line through a known surface point finds it."""
    p, h = C.vec("p", 3), C.real("h", pos=True)
    v = C.mul(h, AXES[axis])
    w = C.cross(v, C.vec("g", 3))
    C.nonzero(w)
    x = C.add(C.add(p, w), C.mul(C.real("s"), v))
    u, t = C.vec("u", 3), C.real("t")
    C.assume(C.gt(C.lagrange(u, v) * 10**20, C.norm2(u) * C.norm2(v)))
    if C.thin:
        c = O("Cylinder")(C.arr(p), C.arr(v), C.norm(w))
        l = O("Line")(C.arr(C.add(x, C.mul(t, u)) if end else x), C.arr(u))
        A, B = C.expect("intersect_line", c.intersect_line, l, obs=False)
        C.check("the known point is one of the two", C.any_([C.eqv(A, x), C.eqv(B, x)]))


@case("C17", [dict(axis=k) for k in ("z", "x", "122", "y-")])
def finite(C, axis):
    """The finite cylinder is a convex solid: the result bounds the part of the line inside it."""
    p, v, r, a, u = make(C, axis)
    c, l = O("Cylinder")(C.arr(p), C.arr(v), C.num(r)), O("Line")(C.arr(a), C.arr(u))
    o = C.call(c.intersect_line, l, infinite=False)
    s = C.real("s")
    Q = C.add(a, C.mul(s, u))

    def inside(X):
        h = C.dot(C.sub(X, p), v)
        return C.all_([C.ge(h, 0), C.le(h, C.norm2(v)), C.le(radial2(C, X, p, v), r * r * C.norm2(v))])

    if o.raised:
        C.check_value_error("no intersection", o)
        tiny = C.all_([C.le(C.lagrange(u, v) * 10**28, C.norm2(u) * C.norm2(v)), C.gt(C.lagrange(u, v), 0)])
        C.check("raises only when no point of the line is inside", C.any_([tiny, C.not_(inside(Q))]))
        return
    A, B = o.value
    X, Y = C.vals(A), C.vals(B)
    n2 = C.norm2(v)
    for P in (X, Y):
        C.check("on the line", C.parallel(C.sub(P, a), u))
        h = C.dot(C.sub(P, p), v)
        C.check("between the caps", C.all_([C.ge(h, 0), C.le(h, n2)]))
        R = radial2(C, P, p, v)
        C.check("within the radius", C.le(R, r * r * n2))
        C.check("on the boundary", C.any_([C.eq(h, 0), C.eq(h, n2), C.eq(R, r * r * n2)]))
    C.check("every inside point of the line lies between the two", C.implies(inside(Q), C.le(C.dot(C.sub(Q, X), C.sub(Q, Y)), 0)))


@case("C17", [dict(axis=k, infinite=i) for k in ("general", "z") for i in (True, False)])
def parallel_line(C, axis, infinite):
    """A line along the axis direction: only the caps of a finite cylinder can be hit."""
    p, v, r, a, _ = make(C, axis)
    k = C.real("k", nonzero=True)
    c, l = O("Cylinder")(C.arr(p), C.arr(v), C.num(r)), O("Line")(C.arr(a), C.arr(C.mul(k, v)))
    o = C.call(c.intersect_line, l, infinite=infinite)
    w = C.sub(a, p)
    if infinite:
        C.check_value_error("parallel to the axis", o)
        return
    near = C.le(C.lagrange(w, v), r * r * C.norm2(v))
    C.check("hits the caps iff within the radius", C.iff(C.false if o.raised else C.true, near))
    if o.raised:
        C.check_value_error("outside", o)
        return
    f = C.sub(w, C.mul(C.dot(w, v) / C.norm2(v), v))
    C.check("cap points", C.any_([
        C.all_([C.eqv(o.value[i], C.add(p, f)), C.eqv(o.value[1 - i], C.add(C.add(p, f), v))]) for i in (0, 1)]))


@case("C17", [dict(n=n) for n in (3, 6)])
def n_digits(C, n):
    """With n_digits, directions closer to the axis than the rounding are treated as parallel."""
    e = C.real("e", lo=0, hi=1)
    r = C.real("r", lo=1, hi=5)
    c = O("Cylinder")(C.arr([0, 0, 0]), C.arr([0, 0, 1]), C.num(r))
    o = C.call(c.intersect_line, O("Line")(C.arr([0, 0, 0]), C.arr([e, 0, 1])), n_digits=n)
    a = e * e / (1 + e * e)
    half = Fraction(1, 2 * 10**n)
    if o.raised:
        C.check_value_error("parallel", o)
        C.check("raises only below the rounding", C.le(a, half))
    else:
        C.check("raises below the rounding", C.ge(a, half))


@case("C17", [dict(n=n, inf=i) for n in (2, 9) for i in (True, False)])
def n_digits_exact(C, n, inf):
    """Rounding does not disturb coefficients that already have that few digits."""
    k = C.real("k", lo=-50, hi=50)
    c = O("Cylinder")(C.arr([0, 0, 0]), C.arr([0, 0, 200]), C.num(5))
    A, B = C.expect("intersect_line", c.intersect_line, O("Line")(C.arr([3, 1, k + 100]), C.arr([0, 2, 0])),
                    n_digits=n, infinite=inf)
    lo, hi = [3, -4, k + 100], [3, 4, k + 100]
    C.check("both points", C.any_([C.all_([C.eqv(A, lo), C.eqv(B, hi)]), C.all_([C.eqv(A, hi), C.eqv(B, lo)])]))


@case("C17", [dict(d=2, inf=True), dict(d=2, inf=False), dict(d=4, inf=True), dict(d=4, inf=False), dict(d=1, inf=True)])
def dimension(C, d, inf):
    p, v, r, _, _ = make(C, "general")
    a, u = C.vec("b", d), C.vec("w", d)
    C.nonzero(u)
    C.check_value_error("only 3D lines", C.call(O("Cylinder")(C.arr(p), C.arr(v), C.num(r)).intersect_line,
                                               O("Line")(C.arr(a), C.arr(u)), infinite=inf))
