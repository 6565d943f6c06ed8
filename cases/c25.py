"""C25: surface meshes and the points sampled from them."""
from fractions import Fraction

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


def grid(C, m):
    """(shape, flat list of [x, y, z]) of a mesh, or None when the three arrays do not match."""
    X, Y, Z = m
    if not (len(X.shape) == 2 and X.shape == Y.shape == Z.shape):
        return None
    return X.shape, [[a, b, c] for a, b, c in zip(C.flat(X), C.flat(Y), C.flat(Z))]


@case("C25", [dict(z=z, l=l) for z in ((0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)) for l in (0, 1)])
def plane(C, z, l):
    """z: which components of the normal are non-zero."""
    p = C.vec("p", 3)
    n = [C.real(f"n{i}", nonzero=True) if k else 0 for i, k in enumerate(z)]
    P = C.expect("Plane", O("Plane"), C.arr(p), C.arr(n), obs=False)
    kw, lx, ly = {}, [-1, 1], [-1, 1]
    if l:
        lx, ly = C.vec("lx", 2), C.vec("ly", 2)
        kw = dict(lims_x=C.arr(lx), lims_y=C.arr(ly))
    m = C.expect("to_mesh", P.to_mesh, **kw)
    g = grid(C, m)
    C.check("three 2x2 arrays", C.true if g is not None and g[0] == (2, 2) else C.false)
    if g is None:
        return
    for q in g[1]:
        C.check("every point is on the plane", C.eq(C.dot(C.sub(q, p), n), 0))
    if z[2]:
        want = [[p[0] + x, p[1] + y] for y in ly for x in lx]
        for q, w in zip(g[1], want):
            C.check("corners at the limits", C.all_([C.eq(q[0], w[0]), C.eq(q[1], w[1])]))
    q = C.expect("to_points", P.to_points, **kw)
    C.check("to_points lists the mesh", C.eqv(q, C.flat(g[1])))
    C.typecheck("Points", lambda: type(q) is O("Points"))
    C.check("unchanged", C.all_([C.eqv(P.point, p), C.eqv(P.normal, n)]))


def about(C, x, y, unit):
    """Equal up to a millionth (sines and cosines of constants are known as intervals)."""
    return C.all_([C.le((x - y) * 10**6, unit), C.le((y - x) * 10**6, unit)])


@case("C25", [dict(a=a, b=b) for a, b in ((2, 3), (3, 2), (4, 4), (1, 5))])
def plane_grid(C, a, b):
    """Limits given as several values."""
    p, n = C.vec("p", 3), C.vec("n", 3)
    C.nonzero([n[2]])
    P = C.expect("Plane", O("Plane"), C.arr(p), C.arr(n), obs=False)
    lx, ly = C.vec("lx", a), C.vec("ly", b)
    kw = dict(lims_x=C.arr(lx), lims_y=C.arr(ly))
    g = grid(C, C.expect("to_mesh", P.to_mesh, **kw))
    C.check("one row per y, one column per x", C.true if g is not None and g[0] == (b, a) else C.false)
    if g is None:
        return
    for q, (x, y) in zip(g[1], [(x, y) for y in ly for x in lx]):
        C.check("on the plane", C.eq(C.dot(C.sub(q, p), n), 0))
        C.check("at the limits", C.all_([C.eq(q[0], p[0] + x), C.eq(q[1], p[1] + y)]))
    C.check("to_points lists the mesh", C.eqv(C.expect("to_points", P.to_points, **kw), C.flat(g[1])))


@case("C25", [dict(n=n) for n in (2, 3, 4, 5, 6, 7, 8, 9, 11)])
def sphere(C, n):
    c, r = C.vec("c", 3), C.real("r", pos=True)
    S = C.expect("Sphere", O("Sphere"), C.arr(c), C.num(r), obs=False)
    g = grid(C, C.expect("to_mesh", S.to_mesh, n_angles=n))
    C.check("n x n arrays", C.true if g is not None and g[0] == (n, n) else C.false)
    if g is None:
        return
    for q in g[1]:
        C.check("every point is on the sphere", C.eq(C.norm2(C.sub(q, c)), r * r))
    top, bottom = C.add(c, [0, 0, r]), C.sub(c, [0, 0, r])
    C.check("both poles", C.all_([C.any_([C.eqv(q, t) for q in g[1]]) for t in (top, bottom)]))
    X = lambda i, j: C.sub(g[1][i * n + j], c)  # (either index may run along the meridians)
    rings = [[X(i, j) for j in range(n)] for i in range(n)], [[X(i, j) for i in range(n)] for j in range(n)]
    C.check("rings close after a full turn", C.any_([C.all_([C.eqv(R[0], R[-1]) for R in rr]) for rr in rings]))
    C.check("evenly spaced latitudes", C.any_([
        C.all_([C.eq(R[i][2], r * C.cos(C.pi * Fraction(i, n - 1))) for R in rr for i in range(n)]) for rr in rings]))
    h = C.pi * Fraction(2, n - 1)
    turn = lambda R: C.all_([C.all_([about(C, C.dot(a[:2], b[:2]), C.norm2(a[:2]) * C.cos(h), r * r),
                                     about(C, a[0] * b[1] - a[1] * b[0], C.norm2(a[:2]) * C.sin(h), r * r)]) for a, b in zip(R, R[1:])])
    back = lambda R: turn([[x[0], 0 - x[1], x[2]] for x in R])
    C.check("even turns along the rings", C.any_([C.all_([f(R) for R in rr]) for rr in rings for f in (turn, back)]))
    if n == 5:
        C.check("equator", C.all_([C.any_([C.eqv(q, C.add(c, w)) for q in g[1]]) for w in ([r, 0, 0], [0, r, 0], [0 - r, 0, 0], [0, 0 - r, 0])]))
    q = C.expect("to_points", S.to_points, n_angles=n)
    C.check("to_points lists the mesh", C.eqv(q, C.flat(g[1])))
    C.typecheck("Points", lambda: type(q) is O("Points"))


def cyl(C, mode):
    p, r = C.vec("p", 3), C.real("r", pos=True)
    if mode == "free":
        v = C.vec("v", 3)
        C.nonzero(v)
    else:
        k = C.real("k", nonzero=True)
        v = C.mul(k, {"x": [1, 0, 0], "y": [0, 1, 0], "z": [0, 0, 1], "oblique": [1, 2, 2], "xy": [3, 4, 0]}[mode])
    return p, v, r, C.expect("Cylinder", O("Cylinder"), C.arr(p), C.arr(v), C.num(r), obs=False)


@case("C25", [dict(mode=m, a=a, n=n) for m in ("x", "y", "z", "xy", "oblique") for a, n in ((2, 3), (3, 4), (4, 5), (2, 6), (5, 2), (3, 7), (6, 3), (2, 9))])
def cylinder(C, mode, a, n):
    p, v, r, Y = cyl(C, mode)
    g = grid(C, C.expect("to_mesh", Y.to_mesh, n_along_axis=a, n_angles=n))
    C.check("n_angles x n_along_axis arrays", C.true if g is not None and g[0] == (n, a) else C.false)
    if g is None:
        return
    v2 = C.norm2(v)
    for i, q in enumerate(g[1]):
        w = C.sub(q, p)
        C.check("on the lateral surface", C.eq(C.lagrange(w, v), r * r * v2))
        C.check("evenly spaced along the axis", C.eq(C.dot(w, v) * (a - 1), v2 * (i % a)))
    for i in range(n):
        for j in range(n):
            x, y = C.sub(g[1][i * a], p), C.sub(g[1][j * a], p)
            if (i - j) % (n - 1) == 0:
                C.check("closed ring", C.eqv(x, y))
            elif n == 5:
                C.check("quarter turns", C.eq(C.dot(x, y), 0 if (i - j) % 2 else 0 - r * r))
    X = [C.sub(g[1][i * a], p) for i in range(n)]
    h = C.pi * Fraction(2, n - 1)
    C.check("even turns", C.all_([about(C, C.dot(x, y), r * r * C.cos(h), r * r) for x, y in zip(X, X[1:])]))
    one = C.cross(X[0], X[1])
    C.check("always the same way round", C.all_([about(C, C.dot(C.cross(x, y), one), C.norm2(one), C.norm2(one)) for x, y in zip(X, X[1:])]))
    q = C.expect("to_points", Y.to_points, n_along_axis=a, n_angles=n)
    C.check("to_points lists the mesh", C.eqv(q, C.flat(g[1])))
    C.typecheck("Points", lambda: type(q) is O("Points"))


@case("C25", [dict(n=3)])
def cylinder_free(C, n):
    p, v, r, Y = cyl(C, "free")
    if C.thin:
        g = grid(C, C.expect("to_mesh", Y.to_mesh, n_along_axis=2, n_angles=n, obs=False))
        v2 = C.norm2(v)
        for i, q in enumerate(g[1]):
            w = C.sub(q, p)
            C.check("on the lateral surface", C.eq(C.norm2(w) * v2 - C.dot(w, v) * C.dot(w, v), r * r * v2))
            C.check("evenly spaced along the axis", C.eq(C.dot(w, v), v2 * (i % 2)))


@case("C25", [dict(kind="Sphere"), dict(kind="Cylinder")], bound="default resolution")
def defaults(C, kind):
    p, r = C.vec("p", 3), C.real("r", pos=True)
    if kind == "Sphere":
        o, want = C.expect(kind, O(kind), C.arr(p), C.num(r), obs=False), (30, 30)
    else:
        k = C.real("k", pos=True)
        o, want = C.expect(kind, O(kind), C.arr(p), C.arr([0, 0, k]), C.num(r), obs=False), (30, 100)
    g = grid(C, C.expect("to_mesh", o.to_mesh, obs=False))
    C.check("documented default resolution", C.true if g is not None and g[0] == want else C.false)
    for q in g[1][::17]:
        w = C.sub(q, p)
        C.check("on the surface", C.eq(C.norm2(w if kind == "Sphere" else w[:2]), r * r))
    if kind == "Sphere":
        for t in (C.add(p, [0, 0, r]), C.sub(p, [0, 0, r])):
            C.check("both poles", C.any_([C.eqv(q, t) for q in g[1]]))
    else:
        for i in (0, 7, 29):
            for j in (0, 1, 41, 98, 99):
                C.check("evenly spaced from end to end", C.eq(99 * (g[1][100 * i + j][2] - p[2]), k * j))
            C.check("rings close", C.eqv(g[1][i], g[1][2900 + i]))
