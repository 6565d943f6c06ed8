"""C19: areas and volumes."""
from fractions import Fraction

from symex.ctx import case


def M(name):
    import skspatial.measurement as m

    return getattr(m, name)


@case("C19", [dict(d=d) for d in (2, 3)])
def area_triangle(C, d):
    a, b, c = C.pts("p", 3, d)
    x = C.expect("area_triangle", M("area_triangle"), C.arr(a), C.arr(b), C.arr(c))
    l = C.lagrange(C.sub(b, a), C.sub(c, a))
    C.check("not negative", C.ge(x, 0))
    C.check("4 area^2 is the Gram determinant", C.eq(4 * x * x, l))
    if C.thin and d == 2:
        C.check("zero iff the points are collinear", C.iff(C.eq(x, 0), C.parallel(C.sub(b, a), C.sub(c, a))))
    C.typecheck("float", lambda: isinstance(x, float))


@case("C19", [dict(d=d, perm=p) for d in (2, 3) for p in ((1, 0, 2), (1, 2, 0))])
def area_triangle_symmetry(C, d, perm):
    P = C.pts("p", 3, d)
    k, t = C.real("k"), C.vec("t", d)
    f = M("area_triangle")
    x = C.expect("area", f, *map(C.arr, P))
    C.check("order of the points", C.eq(x, C.expect("area permuted", f, *[C.arr(P[i]) for i in perm])))
    C.check("translation", C.eq(x, C.expect("area translated", f, *[C.arr(C.add(p, t)) for p in P])))
    y = C.expect("area scaled", f, *[C.arr(C.mul(k, p)) for p in P])
    C.check("scaling", C.eq(y * y, k * k * k * k * x * x))


@case("C19", [dict(d=d, e=e, i=i) for d in (1, 2, 3) for e in (1, 2, 3) if d != e for i in range(3)])
def area_mixed(C, d, e, i):
    P = [C.arr(C.vec(f"p{j}", e if i == j else d)) for j in range(3)]
    C.check_value_error("area_triangle", C.call(M("area_triangle"), *P))


@case("C19", [dict(d=3), dict(d=2)])
def volume(C, d):
    a, b, c, e = C.pts("p", 4, d)
    x = C.expect("volume_tetrahedron", M("volume_tetrahedron"), *map(C.arr, (a, b, c, e)))
    m = [C.sub(p, a) for p in (b, c, e)]
    D = C.det(m) if d == 3 else 0
    C.check("not negative", C.ge(x, 0))
    C.check("6 volume = |det|", C.any_([C.eq(6 * x, D), C.eq(6 * x, 0 - D)]))
    C.typecheck("float", lambda: isinstance(x, float))


@case("C19", [dict(perm=p) for p in ((1, 0, 2, 3), (1, 2, 3, 0), (0, 1, 3, 2), (0, 2, 1, 3))])
def volume_symmetry(C, perm):
    P = C.pts("p", 4, 3)
    t = C.vec("t", 3)
    f = M("volume_tetrahedron")
    x = C.expect("volume", f, *map(C.arr, P))
    y = C.expect("volume permuted", f, *[C.arr(P[i]) for i in perm])
    C.check("order of the points", C.eq(x, y))
    z = C.expect("volume translated", f, *[C.arr(C.add(p, t)) for p in P])
    C.check("translation", C.eq(x, z))


@case("C19", [dict(i=i, e=e) for i in range(4) for e in (1, 2, 4)])
def volume_mixed(C, i, e):
    P = [C.arr(C.vec(f"p{j}", e if i == j else 3)) for j in range(4)]
    C.check_value_error("volume_tetrahedron", C.call(M("volume_tetrahedron"), *P))


def shoelace(P):
    t = 0
    n = len(P)
    for i in range(n):
        (x, y), (u, v) = P[i], P[(i + 1) % n]
        t = t + (x * v - u * y)
    return t / 2


@case("C19", [dict(n=n) for n in (3, 4, 5, 6, 7, 8, 9, 10, 11, 12)])
def area_signed(C, n):
    P = C.pts("p", n, 2)
    f = M("area_signed")
    x = C.expect("area_signed", f, C.arr(P))
    C.check("sum over the fan of triangles", C.eq(2 * x, sum_fan(C, P)))
    C.check("shoelace", C.eq(x, shoelace(P)))
    C.typecheck("float", lambda: isinstance(x, float))


def sum_fan(C, P):
    t = 0
    for q, r in zip(P[1:], P[2:]):
        t = t + C.cross(C.sub(q, P[0]), C.sub(r, P[0]))[2]
    return t


@case("C19", [dict(n=n) for n in (3, 4, 5, 6, 8)])
def area_signed_laws(C, n):
    P = C.pts("p", n, 2)
    f = M("area_signed")
    x = C.expect("area", f, C.arr(P))
    y = C.expect("reversed", f, C.arr(P[::-1]))
    C.check("reversal changes the sign", C.eq(y, 0 - x))
    z = C.expect("rotated", f, C.arr(P[1:] + P[:1]))
    C.check("any starting vertex", C.eq(z, x))
    w = C.expect("swapped axes", f, C.arr([p[::-1] for p in P]))
    C.check("mirror image changes the sign", C.eq(w, 0 - x))


@case("C19")
def area_signed_orientation(C):
    """Counter-clockwise is positive; the absolute value is the area of the triangle."""
    a, b, c = P = C.pts("p", 3, 2)
    x = C.expect("area", M("area_signed"), C.arr(P))
    D = (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])
    C.check("positive iff counter-clockwise", C.iff(C.gt(x, 0), C.gt(D, 0)))
    C.check("negative iff clockwise", C.iff(C.lt(x, 0), C.lt(D, 0)))
    y = C.expect("area_triangle", M("area_triangle"), *map(C.arr, P))
    C.check("absolute value", C.any_([C.eq(x, y), C.eq(x, 0 - y)]))


@case("C19", [dict(n=1, d=2), dict(n=2, d=2), dict(n=3, d=1), dict(n=3, d=3), dict(n=4, d=3), dict(n=2, d=3)])
def area_signed_domain(C, n, d):
    C.check_value_error("area_signed", C.call(M("area_signed"), C.arr(C.pts("p", n, d))))


@case("C19", [dict(n=n) for n in (3, 4, 5)])
def large(C, n):
    """Coordinates far from zero."""
    P = [[C.real(f"p{i}_{j}", lo=18000, hi=19000) for j in range(2)] for i in range(n)]
    for i in range(n):  # fixed large steps: the area stays far from zero
        P[i] = [P[i][0] * (1 if i in (1, 2) else 0 - 1), P[i][1] * (1 if i >= 2 else 0 - 1)]
    x = C.expect("area_signed", M("area_signed"), C.arr(P))
    t = 0
    for a, b in zip(P, P[1:] + P[:1]):
        t = t + a[0] * b[1] - b[0] * a[1]
    C.check("shoelace formula", C.eq(2 * x, t))
    if n == 3:
        y = C.expect("area_triangle", M("area_triangle"), *map(C.arr, P))
        C.check("area of the triangle", C.eq(y, x))
    if n == 4:
        Q = [p + [0] for p in P[:3]] + [P[3] + [50000]]
        z = C.expect("volume", M("volume_tetrahedron"), *map(C.arr, Q))
        u, v = C.sub(P[1], P[0]), C.sub(P[2], P[0])
        C.check("volume of the tetrahedron", C.eq(6 * z, 50000 * (u[0] * v[1] - u[1] * v[0])))
