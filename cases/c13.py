"""C13: intersection of two circles."""
from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


def check_pair(C, pair, p, r, q, s):
    A, B = pair
    X, Y = C.vals(A), C.vals(B)
    C.check("two coordinates each", C.true if len(X) == 2 and len(Y) == 2 else C.false)
    for P in (X, Y):
        C.check("on the first circle", C.eq(C.norm2(C.sub(P, p)), r * r))
        C.check("on the second circle", C.eq(C.norm2(C.sub(P, q)), s * s))
    w = C.sub(q, p)
    C.check("mirror images across the line of centres", C.eq(C.dot(C.sub(X, Y), w), 0))
    m = C.sub(C.add(X, Y), C.mul(2, p))
    C.check("midpoint on the line of centres", C.eq(m[0] * w[1] - m[1] * w[0], 0))
    C.typecheck("Point", lambda: type(A) is O("Point") and type(B) is O("Point"))


@case("C13")
def domain(C):
    """ValueError exactly for concentric, separate and nested circles."""
    p, q = C.vec("p", 2), C.vec("q", 2)
    r, s = C.real("r", pos=True), C.real("s", pos=True)
    a, b = O("Circle")(C.arr(p), C.num(r)), O("Circle")(C.arr(q), C.num(s))
    o = C.call(a.intersect_circle, b)
    d2 = C.norm2(C.sub(q, p))
    bad = C.any_([C.eq(d2, 0), C.gt(d2, (r + s) * (r + s)), C.lt(d2, (r - s) * (r - s))])
    C.check("raises iff concentric, separate or nested", C.iff(C.true if o.raised else C.false, bad))
    if o.raised:
        C.check_value_error("no intersection", o)
        return
    check_pair(C, o.value, p, r, q, s)
    C.check("circles unchanged", C.all_([C.eqv(a.point, p), C.eq(a.radius, r), C.eqv(b.point, q), C.eq(b.radius, s)]))


@case("C13")
def crossing(C):
    """Circles with a known common point, in either order; everything parametrised rationally."""
    p, w = C.vec("p", 2), C.vec("w", 2)
    al, be = C.real("al"), C.real("be")
    C.nonzero(w)
    n = [-w[1], w[0]]
    x = C.add(p, C.add(C.mul(al, w), C.mul(be, n)))
    q = C.add(p, w)
    r, s = C.norm(C.sub(x, p)), C.norm(C.sub(x, q))
    C.assume(C.ne(be, 0))
    if C.thin:
        a, b = O("Circle")(C.arr(p), C.num(r)), O("Circle")(C.arr(q), C.num(s))
        for first, second in ((a, b), (b, a)):
            A, B = C.expect("intersect_circle", first.intersect_circle, second, obs=False)
            y = C.add(p, C.sub(C.mul(al, w), C.mul(be, n)))
            X, Y = C.vals(A), C.vals(B)
            C.check("both common points", C.any_([C.all_([C.eqv(X, x), C.eqv(Y, y)]), C.all_([C.eqv(X, y), C.eqv(Y, x)])]))


@case("C13", [dict(kind=k) for k in ("outside", "inside")])
def tangent(C, kind):
    """Tangent circles touch in one point."""
    p, w = C.vec("p", 2), C.vec("w", 2)
    k = C.real("k", pos=True)
    C.nonzero(w)
    L = C.norm(w)
    # outside: radii L and kL, centres (1+k) L apart; inside: radii (1+k) L and L, centres k L apart
    r, s, f, touch = ((L, k * L, 1 + k, 1) if kind == "outside" else ((1 + k) * L, L, k, 1 + k))
    if C.thin:
        a, b = O("Circle")(C.arr(p), C.num(r)), O("Circle")(C.arr(C.add(p, C.mul(f, w))), C.num(s))
        t = C.add(p, C.mul(touch, w))
        for first, second in ((a, b), (b, a)):
            A, B = C.expect("intersect_circle", first.intersect_circle, second, obs=False)
            C.check("touching point", C.all_([C.eqv(A, t), C.eqv(B, t)]))


@case("C13")
def swapped(C):
    """Swapping the circles changes neither the domain nor the set of points."""
    p, q = C.vec("p", 2), C.vec("q", 2)
    r, s = C.real("r", pos=True), C.real("s", pos=True)
    a, b = O("Circle")(C.arr(p), C.num(r)), O("Circle")(C.arr(q), C.num(s))
    o, u = C.call(a.intersect_circle, b), C.call(b.intersect_circle, a)
    C.check("same domain", C.true if o.raised == u.raised else C.false)
    if o.ok and u.ok:
        check_pair(C, u.value, p, r, q, s)


@case("C13")
def same_circle(C):
    p, r = C.vec("p", 2), C.real("r", pos=True)
    a = O("Circle")(C.arr(p), C.num(r))
    C.check_value_error("itself", C.call(a.intersect_circle, a))
    C.check_value_error("concentric", C.call(a.intersect_circle, O("Circle")(C.arr(p), C.num(C.real("s", pos=True)))))
