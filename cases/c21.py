"""C21: transformation of coordinates."""
from symex.ctx import case


def T():
    from skspatial.transformation import transform_coordinates

    return transform_coordinates


SHAPES = [dict(n=n, d=d, m=m) for n in (1, 2, 3) for d in (2, 3) for m in range(1, d + 1)]


@case("C21", SHAPES + [dict(n=2, d=4, m=4), dict(n=1, d=1, m=1), dict(n=4, d=3, m=3), dict(n=7, d=2, m=2), dict(n=9, d=3, m=3), dict(n=2, d=5, m=5), dict(n=2, d=5, m=3), dict(n=3, d=3, m=5), dict(n=5, d=6, m=2)])
def coordinates(C, n, d, m):
    P, o, B = C.pts("p", n, d), C.vec("o", d), C.pts("b", m, d)
    r = C.expect("transform_coordinates", T(), C.arr(P), C.arr(o), [C.arr(b) for b in B])
    R = C.rows(r)
    C.check("one row per point", C.true if len(R) == n and all(len(x) == m for x in R) else C.false)
    for i in range(n):
        for j in range(m):
            C.check("coordinate is the product with the basis vector", C.eq(R[i][j], C.dot(C.sub(P[i], o), B[j])))


@case("C21", [dict(d=2), dict(d=3)])
def objects(C, d):
    from skspatial.objects import Point, Points, Vector

    P, o, B = C.pts("p", 2, d), C.vec("o", d), C.pts("b", d, d)
    Q = C.call(Points, C.arr(P), obs=False).value
    r = C.expect("transform_coordinates", T(), Q, C.call(Point, C.arr(o), obs=False).value,
                 [C.call(Vector, C.arr(b), obs=False).value for b in B])
    R = C.rows(r)
    for i in range(2):
        for j in range(d):
            C.check("objects are accepted", C.eq(R[i][j], C.dot(C.sub(P[i], o), B[j])))
    C.check("the points are unchanged", C.eqv(Q, P))


@case("C21", [dict(d=2), dict(d=3)])
def standard_basis(C, d):
    P, o = C.pts("p", 3, d), C.vec("o", d)
    E = [[1.0 if i == j else 0.0 for j in range(d)] for i in range(d)]
    r = C.expect("transform_coordinates", T(), C.arr(P), C.arr(o), E)
    C.check("standard basis translates", C.eqv(C.flat(r), C.flat([C.sub(p, o) for p in P])))


@case("C21", [dict(f=f) for f in (0, 1)])
def isometry(C, f):
    """With an orthonormal basis, distances are kept and the points can be rebuilt."""
    d = (2, 3)[f]
    k = (5, 3)[f]
    F = ([[3, 4], [-4, 3]], [[1, 2, 2], [2, 1, -2], [2, -2, 1]])[f]
    p, q, o = C.pts("p", 3, d)
    from fractions import Fraction

    B = [[Fraction(x, k) for x in v] for v in F]
    if not C.thin:
        return
    r = C.expect("transform_coordinates", T(), C.arr([p, q]), C.arr(o), C.arr(B), obs=False)
    x, y = C.rows(r)
    C.check("distances", C.eq(C.norm2(C.sub(x, y)), C.norm2(C.sub(p, q))))
    back = o
    for xi, b in zip(x, B):
        back = C.add(back, C.mul(xi, b))
    C.check("rebuilt", C.eqv(back, p))


@case("C21", [dict(d=d, e=e, g=g) for d in (1, 2, 3) for e in (1, 2, 3) for g in (1, 2, 3) if not d == e == g])
def mixed(C, d, e, g):
    r = C.call(T(), C.arr(C.pts("p", 2, d)), C.arr(C.vec("o", e)), [C.arr(v) for v in C.pts("b", 2, g)])
    C.check_value_error("mixed dimensions", r)
