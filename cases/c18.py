"""C18: triangles."""
from fractions import Fraction

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


OPP = {"A": "a", "B": "b", "C": "c"}
ENDS = {"a": ("B", "C"), "b": ("C", "A"), "c": ("A", "B")}


def tri(C, d, origin=False):
    """Free vertices; with origin=True the first one is at the origin."""
    P = {v: C.vec(v.lower(), d) for v in "ABC"}
    if origin:
        P["A"] = [0] * d
    C.assume(C.gt(C.lagrange(C.sub(P["B"], P["A"]), C.sub(P["C"], P["A"])), 0))
    for s in "abc":
        C.assume(C.gt(C.norm2(C.sub(*side(P, s))), 0))
    T = C.expect("Triangle", O("Triangle"), *[C.arr(P[v]) for v in "ABC"], obs=False)
    return P, T


def side(P, s):
    p, q = ENDS[s]
    return P[p], P[q]


@case("C18", [dict(d=d) for d in (2, 3, 4)])
def parts(C, d):
    P, T = tri(C, d)
    for v in "ABC":
        C.check(f"point {v}", C.eqv(C.expect("point", T.point, v), P[v]))
        C.typecheck("Point", lambda: type(T.point(v)) is O("Point"))
    for s in "abc":
        p, q = side(P, s)
        l = C.expect("line", T.line, s)
        C.check(f"line {s} starts at its first vertex", C.eqv(l.point, p))
        C.check(f"line {s} runs to its second vertex", C.eqv(l.direction, C.sub(q, p)))
        x = C.expect("length", T.length, s)
        C.check(f"length {s}", C.eq(x, C.dist(p, q)))
        C.typecheck("Line", lambda: type(l) is O("Line"))
    C.check("perimeter", C.eq(C.expect("perimeter", T.perimeter), C.dist(P["A"], P["B"]) + C.dist(P["B"], P["C"]) + C.dist(P["C"], P["A"])))
    g = C.expect("centroid", T.centroid)
    C.check("centroid", C.eqv(g, C.mul(Fraction(1, 3), C.add(C.add(P["A"], P["B"]), P["C"]))))
    C.typecheck("centroid Point", lambda: type(g) is O("Point"))
    m = C.expect("multiple", T.multiple, "point", "CAB", obs=False)
    C.check("multiple", C.all_([C.eqv(list(m[0]), P["C"]), C.eqv(list(m[1]), P["A"]), C.eqv(list(m[2]), P["B"]),
                                C.true if len(m) == 3 else C.false]))
    C.check("unchanged", C.all_([C.eqv(T.point_a, P["A"]), C.eqv(T.point_b, P["B"]), C.eqv(T.point_c, P["C"])]))
    C.check("dimension", C.true if T.dimension == d else C.false)


@case("C18", [dict(d=d) for d in (2, 3)])
def names(C, d):
    P, T = tri(C, d)
    for bad in ("D", "a", "", "AB", 1, None):
        for m in ("point", "angle", "altitude"):
            C.check_value_error(f"{m} of {bad!r}", C.call(getattr(T, m), bad, obs=False))
    for bad in ("d", "A", "", "ab", 0, None):
        for m in ("line", "length"):
            C.check_value_error(f"{m} of {bad!r}", C.call(getattr(T, m), bad, obs=False))


@case("C18", [dict(d=d) for d in (2, 3)])
def normal_area(C, d):
    P, T = tri(C, d)
    n = C.cross(C.sub(P["B"], P["A"]), C.sub(P["C"], P["A"]))
    C.check("normal is AB x AC", C.eqv(C.expect("normal", T.normal), n))
    x = C.expect("area", T.area)
    C.check("area is half the norm of the cross product", C.all_([C.gt(x, 0), C.eq(4 * x * x, C.norm2(n))]))
    from skspatial.measurement import area_triangle

    y = C.expect("area_triangle", area_triangle, *[C.arr(P[v]) for v in "ABC"])
    C.check("measurement agrees", C.eq(x, y))
    C.typecheck("Vector", lambda: type(T.normal()) is O("Vector"))


@case("C18", [dict(d=d, v=v) for d in (2, 3, 4) for v in "ABC"])
def angle(C, d, v):
    P, T = tri(C, d)
    p, q = [P[w] for w in "ABC" if w != v]
    u, w = C.sub(p, P[v]), C.sub(q, P[v])
    x = C.expect("angle", T.angle, v)
    C.check("cosine rule", C.eq(C.cos(x) * C.norm(u) * C.norm(w), C.dot(u, w)))
    C.check("between 0 and pi", C.all_([C.ge(x, 0), C.le(x, C.pi)]))
    C.check("neither 0 nor pi", C.all_([C.lt(C.cos(x), 1), C.gt(C.cos(x), -1)]))
    C.typecheck("float", lambda: isinstance(x, float))


@case("C18", [dict(d=d) for d in (2, 3)])
def angle_sum(C, d):
    P, T = tri(C, d, origin=True)
    if C.thin:
        A, B, G = [C.expect("angle", T.angle, v, obs=False) for v in "ABC"]
        ca, cb, cg = C.cos(A), C.cos(B), C.cos(G)
        sa, sb, sg = C.sin(A), C.sin(B), C.sin(G)
        # the sum of three angles in (0, pi) with cosine -1 is pi
        C.check("sum is pi", C.eq((ca * cb - sa * sb) * cg - (sa * cb + ca * sb) * sg, -1))


@case("C18", [dict(d=d, v=v) for d in (2, 3) for v in "ABC"])
def altitude(C, d, v):
    P, T = tri(C, d)
    p, q = side(P, OPP[v])
    u = C.sub(q, p)
    l = C.expect("altitude", T.altitude, v)
    D = C.vals(l.direction)
    C.check("starts at the vertex", C.eqv(l.point, P[v]))
    C.check("perpendicular to the side", C.eq(C.dot(D, u), 0))
    C.check("ends on the line of the side", C.parallel(C.sub(C.add(P[v], D), p), u))
    C.check("area = side * altitude / 2", C.eq(C.norm2(D) * C.norm2(u), C.lagrange(C.sub(P[v], p), u)))


FRAME = {2: ([3, 4], [-4, 3]), 3: ([1, 2, 2], [2, 1, -2])}


@case("C18", [dict(d=d, top=v) for d in (2, 3) for v in "ABC"],
      bound="all triangles with one side along a fixed oblique direction, in a fixed oblique plane")
def orthocenter(C, d, top):
    e, f = FRAME[d]
    o, x, y, z = C.vec("o", d), C.real("x"), C.real("y", nonzero=True), C.real("z", nonzero=True)
    p, q = [v for v in "ABC" if v != top]
    P = {p: o, q: C.add(o, C.mul(z, e)), top: C.add(o, C.add(C.mul(x, e), C.mul(y, f)))}
    T = C.expect("Triangle", O("Triangle"), *[C.arr(P[v]) for v in "ABC"], obs=False)
    a, b, c = (P[v] for v in "ABC")
    C.assume(C.ne(C.dot(C.sub(b, a), C.sub(c, a)), 0))
    C.assume(C.ne(C.dot(C.sub(a, b), C.sub(c, b)), 0))
    u, w = C.sub(c, b), C.sub(a, c)  # the documented tolerance for parallel lines does not apply
    C.assume(C.gt(C.norm2(u), 0))
    C.assume(C.gt(C.norm2(w), 0))
    C.assume(C.gt(C.lagrange(u, w) * 10**8, C.norm2(u) * C.norm2(w)))
    r = C.call(T.orthocenter, obs=False)
    if r.raised:
        C.fail("orthocenter", repr(r.exc))
        return
    h = C.vals(r.value)
    for v in "ABC":
        p, q = side(P, OPP[v])
        C.check(f"on the altitude of {v}", C.eq(C.dot(C.sub(h, P[v]), C.sub(q, p)), 0))
    C.check("in the plane of the triangle", C.true if d == 2 else C.eq(C.det([C.sub(h, a), C.sub(b, a), C.sub(c, a)]), 0))
    C.typecheck("Point", lambda: type(r.value) is O("Point"))


def lens(C, P):
    return [C.dist(*side(P, s)) for s in "abc"]


@case("C18", [dict(d=2, free=f) for f in (0, 1)])
def classify(C, d, free):
    P, T = tri(C, d)
    k = dict(rel_tol=0.0, abs_tol=C.num(C.real("t", lo=0))) if free else dict(rel_tol=0.0)
    t = C.real("t", lo=0) if free else 0
    name = C.expect("classify", T.classify, **k)
    a, b, c = lens(C, P)
    near = lambda x, y: C.all_([C.le(x - y, t), C.le(y - x, t)])
    ab, bc, ca = near(a, b), near(b, c), near(c, a)
    C.check("a known class", C.true if name in ("equilateral", "isosceles", "scalene") else C.false)
    eq = C.true if name == "equilateral" else C.false
    sc = C.true if name == "scalene" else C.false
    C.check("equilateral iff all sides equal", C.iff(eq, C.all_([ab, bc, ca])))
    C.check("scalene iff no two sides equal", C.iff(sc, C.all_([C.not_(x) for x in (ab, bc, ca)])))


@case("C18", [dict(d=2), dict(d=3)])
def is_right(C, d):
    P, T = tri(C, d)
    if C.thin:
        b = C.bool(C.expect("is_right", T.is_right, rel_tol=0.0, obs=False))
        dots = []
        for v in "ABC":
            p, q = [P[w] for w in "ABC" if w != v]
            dots.append(C.eq(C.dot(C.sub(p, P[v]), C.sub(q, P[v])), 0))
        C.check("right iff two sides are perpendicular", C.iff(b, C.any_(dots)))


@case("C18", [dict(d=2, rel=r, free=f) for r in ("0", "1/1000", "1/4") for f in (0, 1)])
def is_right_tolerance(C, d, rel, free):
    """The tolerances are those of math.isclose for the squares of the legs and of the longest side."""
    p, q = C.vec("p", d), C.vec("q", d)
    P = {"A": [0] * d, "B": p, "C": q}
    C.assume(C.gt(C.lagrange(p, q), 0))
    T = C.expect("Triangle", O("Triangle"), *[C.arr(P[v]) for v in "ABC"], obs=False)
    t = C.real("t", lo=0) if free else 0
    b = C.bool(C.expect("is_right", T.is_right, rel_tol=float(Fraction(rel)), **(dict(abs_tol=C.num(t)) if free else {})))
    x, y, z = [C.norm2(C.sub(*side(P, s))) for s in "abc"]
    out = []
    for a, b2, c in ((x, y, z), (y, z, x), (z, x, y)):
        longest = C.all_([C.ge(c, a), C.ge(c, b2)])
        out.append(C.implies(longest, C.iff(b, C.close(a + b2, c, rel_tol=Fraction(rel), abs_tol=t))))
    C.check("right iff the squares are close", C.all_(out))


@case("C18", [dict(d=d) for d in (2, 3)])
def classify_default(C, d):
    """Default tolerances: equal sides are recognised, sides that differ clearly are told apart."""
    P, T = tri(C, d, origin=True)
    name = C.expect("classify", T.classify)
    a, b, c = [C.norm2(C.sub(*side(P, s))) for s in "abc"]
    k = Fraction(1001, 1000)
    apart = lambda x, y: C.any_([C.gt(x, k * y), C.gt(y, k * x)])
    is_ = lambda n: C.true if name == n else C.false
    pairs = [(a, b), (b, c), (c, a)]
    C.check("equal sides", C.implies(C.any_([C.eq(x, y) for x, y in pairs]), C.not_(is_("scalene"))))
    C.check("three equal sides", C.implies(C.all_([C.eq(x, y) for x, y in pairs]), is_("equilateral")))
    C.check("different sides", C.implies(C.all_([apart(x, y) for x, y in pairs]), is_("scalene")))
    C.check("not all equal", C.implies(C.any_([apart(x, y) for x, y in pairs]), C.not_(is_("equilateral"))))


@case("C18", [dict(d=d, v=v) for d in (2, 3) for v in "ABC"])
def right_default(C, d, v):
    P, T = tri(C, d, origin=True)
    b = C.bool(C.expect("is_right", T.is_right))
    p, q = [P[w] for w in "ABC" if w != v]
    u, w = C.sub(p, P[v]), C.sub(q, P[v])
    if C.thin:
        C.check("right angle is recognised", C.implies(C.eq(C.dot(u, w), 0), b))
    a, b2, c = [C.norm2(C.sub(*side(P, s))) for s in "abc"]
    t = (a + b2 + c) / 1000
    near = [C.all_([C.lt(x + y - z, t), C.lt(z - x - y, t)]) for x, y, z in ((a, b2, c), (b2, c, a), (c, a, b2))]
    C.check("no angle clearly different from 90 degrees on all sides", C.implies(b, C.any_(near)))


@case("C18", [dict(v=v) for v in range(3)])
def equilateral(C, v):
    o, t = C.vec("o", 3), C.real("t", nonzero=True)
    P = [C.add(o, [t if i == (j + v) % 3 else 0 for i in range(3)]) for j in range(3)]
    T = C.expect("Triangle", O("Triangle"), *[C.arr(p) for p in P], obs=False)
    if C.thin:
        C.check("equilateral", C.true if T.classify() == "equilateral" else C.false)
        C.check("exactly equilateral", C.true if T.classify(rel_tol=0.0, abs_tol=0.0) == "equilateral" else C.false)
        C.check("not right", C.not_(C.bool(T.is_right())))
        for w in "ABC":
            C.check("angle pi / 3", C.eq(2 * C.cos(T.angle(w)), 1))
