"""C20: collections of points."""
from fractions import Fraction

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


def PTS(C, P):
    return C.expect("Points", O("Points"), C.arr(P), obs=False)


ND = [dict(n=n, d=d) for n in (1, 2, 3, 4) for d in (1, 2, 3)] + [dict(n=2, d=4), dict(n=5, d=2), dict(n=7, d=2), dict(n=8, d=3), dict(n=10, d=1), dict(n=11, d=2), dict(n=3, d=6), dict(n=6, d=5)]


@case("C20", ND)
def centroid(C, n, d):
    P = C.pts("p", n, d)
    Q = PTS(C, P)
    g = C.expect("centroid", Q.centroid)
    m = [sum(p[i] for p in P[1:]) + P[0][i] if n > 1 else P[0][i] for i in range(d)]
    C.check("mean of the points", C.eqv(C.mul(n, C.vals(g)), m))
    C.typecheck("Point", lambda: type(g) is O("Point"))
    r = C.expect("mean_center", Q.mean_center)
    C.check("centred points", C.eqv(C.mul(n, C.flat(r)), C.flat([C.sub(C.mul(n, p), m) for p in P])))
    R = C.rows(r)
    for i in range(d):
        C.check("mean-centred", C.eq(sum(x[i] for x in R[1:]) + R[0][i] if n > 1 else R[0][i], 0))
    r2, g2 = C.expect("mean_center with centroid", Q.mean_center, return_centroid=True)
    C.check("same points", C.eqv(r2, C.flat(r)))
    C.check("same centroid", C.eqv(g2, C.vals(g)))
    C.typecheck("Points", lambda: type(r) is O("Points") and type(r2) is O("Points") and type(g2) is O("Point"))
    C.check("unchanged", C.eqv(Q, P))


@case("C20", [dict(n=n, d=d) for n in (1, 2, 3) for d in (1, 2, 3)] + [dict(n=2, d=5), dict(n=6, d=1, far=5), dict(n=7, d=2, far=6), dict(n=6, d=3, far=0)])
def normalize(C, n, d, far=None):
    """far: only this point and one other are free, the rest are fixed."""
    P = C.pts("p", n, d)
    if far is not None:
        P = [p if i in (far, 2) else [Fraction((i + 2) * (j + 1) % 5 - 2) for j in range(d)] for i, p in enumerate(P)]
    C.assume(C.any_([C.gt(C.norm2(p), 0) for p in P]))
    Q = PTS(C, P)
    r = C.expect("normalize_distance", Q.normalize_distance)
    R = C.rows(r)
    for x in R:
        C.check("no point beyond distance 1", C.le(C.norm2(x), 1))
    C.check("one point at distance 1", C.any_([C.eq(C.norm2(x), 1) for x in R]))
    # scaled by one positive factor: multiply by the largest norm
    for i, p in enumerate(P):
        for j, q in enumerate(P):
            if n > 3 and (j - i) % n > 1:
                continue
            for a in range(d):
                for b in range(d):
                    C.check("one common factor", C.eq(R[i][a] * q[b], R[j][b] * p[a]))
                    if i == j and a == b:
                        C.check("same direction", C.ge(R[i][a] * p[a], 0))
    C.check("unchanged", C.eqv(Q, P))
    C.typecheck("Points", lambda: type(r) is O("Points"))


@case("C20", [dict(n=n, d=d) for n in (1, 2, 3) for d in (1, 2)] + [dict(n=2, d=3), dict(n=3, d=3)])
def unique(C, n, d):
    P = C.pts("p", n, d)
    Q = PTS(C, P)
    r = C.expect("unique", Q.unique, obs=False)
    R = C.rows(r)
    C.check("every point is kept", C.all_([C.any_([C.eqv(p, x) for x in R]) for p in P]))
    C.check("no point is added", C.all_([C.any_([C.eqv(p, x) for p in P]) for x in R]))
    C.check("no duplicates", C.all_([C.not_(C.eqv(R[i], R[j])) for i in range(len(R)) for j in range(i)]))
    C.check("unchanged", C.eqv(Q, P))
    C.typecheck("Points", lambda: type(r) is O("Points"))


# rank k by construction: points o + sum t_i e_i in an oblique frame
FR = {1: [[3]], 2: [[3, 4], [-4, 3]], 3: [[1, 2, 2], [2, 1, -2], [2, -2, 1]],
      4: [[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]]}


def on_flat(C, n, d, k):
    o = C.vec("o", d)
    T = C.pts("t", n, k) if k else [[] for _ in range(n)]
    P = []
    for t in T:
        p = o
        for x, e in zip(t, FR[d]):
            p = C.add(p, C.mul(x, e))
        P.append(p)
    return P, T


def verdicts(C, Q, **kw):
    f = lambda m: C.bool(C.expect(m, getattr(Q, m), obs=False, **kw))
    return f("are_concurrent"), f("are_collinear"), f("are_coplanar")


@case("C20", [dict(n=n, d=d) for n in (1, 2, 3) for d in (1, 2, 3)] + [dict(n=4, d=2), dict(n=2, d=4)])
def concurrent(C, n, d):
    P = C.pts("p", n, d)
    if C.thin:
        a, b, c = verdicts(C, PTS(C, P))
        C.check("concurrent iff all points are equal", C.iff(a, C.all_([C.eqv(P[0], p) for p in P[1:]])))
        C.check("concurrent points are collinear", C.implies(a, b))
        C.check("collinear points are coplanar", C.implies(b, c))


@case("C20", [dict(n=2, d=1), dict(n=3, d=1), dict(n=2, d=2), dict(n=2, d=3), dict(n=3, d=2), dict(n=3, d=3), dict(n=4, d=2), dict(n=1, d=3)])
def collinear(C, n, d):
    P = C.pts("p", n, d)
    if C.thin:
        a, b, c = verdicts(C, PTS(C, P))
        U = [C.sub(p, P[0]) for p in P[1:]]
        C.check("collinear iff all differences are parallel",
                C.iff(b, C.all_([C.parallel(U[i], U[j]) for i in range(len(U)) for j in range(i)])))
        if d <= 2 or n <= 3:
            C.check("coplanar in the plane", c)


@case("C20", [dict(n=4, d=3)])
def coplanar(C, n, d):
    P = C.pts("p", n, d)
    if C.thin:
        c = C.bool(C.expect("are_coplanar", PTS(C, P).are_coplanar, obs=False))
        C.check("coplanar iff the determinant vanishes", C.iff(c, C.eq(C.det([C.sub(p, P[0]) for p in P[1:]]), 0)))


@case("C20", [dict(n=n, d=d, k=k) for d in (2, 3, 4) for k in (0, 1, 2) for n in (3, 4, 5) if k < d and n > k + 1 and not (n == 5 and k == 2)])
def flats(C, n, d, k):
    """Points of a k-dimensional flat in an oblique frame have affine rank at most k."""
    P, T = on_flat(C, n, d, k)
    if C.thin:
        r = C.expect("affine_rank", PTS(C, P).affine_rank, obs=False)
        C.check("rank at most k", C.true if r <= k else C.false)
        a, b, c = verdicts(C, PTS(C, P))
        if k == 0:
            C.check("rank 0", C.all_([C.true if r == 0 else C.false, a, b, c]))
        if k == 1:
            C.check("collinear", C.all_([b, c]))
            C.check("concurrent iff equal", C.iff(a, C.all_([C.eqv(T[0], t) for t in T[1:]])))
        if k == 2:
            C.check("coplanar", c)


@case("C20", [dict(n=n, d=d, k=k, j=j) for n, d, k in ((3, 2, 1), (4, 2, 1), (4, 3, 1), (5, 3, 1), (5, 4, 1), (4, 3, 2), (5, 3, 2), (5, 4, 2), (6, 3, 1), (3, 3, 0), (5, 2, 0), (7, 2, 0))
              for j in (0, n // 2, n - 1)])
def one_point_off(C, n, d, k, j):
    """All points but one lie on a k-dimensional flat (with fixed, different parameters); point j is off it."""
    o, h = C.vec("o", d), C.real("h", nonzero=True)
    s = C.real("s", pos=True)
    F = FR[d]
    P = []
    for i in range(n):
        if i == j:
            P.append(C.add(o, C.mul(h, F[k])))
            continue
        p = o
        for a in range(k):
            p = C.add(p, C.mul(s * Fraction([i + 1, i * i - 2][a]), F[a]))
        P.append(p)
    if C.thin:
        Q = PTS(C, P)
        rest = C.expect("affine_rank", PTS(C, P[:j] + P[j + 1:]).affine_rank, obs=False)
        r = C.expect("affine_rank", Q.affine_rank, obs=False)
        C.check("the rank grows by one", C.true if int(r) == int(rest) + 1 == min(k, n - 2) + 1 else C.false)
        a, b, c = verdicts(C, Q)
        C.check("verdicts follow the rank", C.all_([C.iff(a, C.true if r <= 0 else C.false), C.iff(b, C.true if r <= 1 else C.false),
                                                    C.iff(c, C.true if r <= 2 else C.false)]))


@case("C20", [dict(d=d) for d in (2, 3, 4)])
def simplex(C, d):
    """d + 1 points in general position have rank d."""
    o, t = C.vec("o", d), [C.real(f"t{i}", nonzero=True) for i in range(d)]
    P = [o] + [C.add(o, C.mul(x, e)) for x, e in zip(t, FR[d])]
    if C.thin:
        Q = PTS(C, P)
        C.check("rank d", C.true if C.expect("affine_rank", Q.affine_rank, obs=False) == d else C.false)
        a, b, c = verdicts(C, Q)
        C.check("not concurrent", C.not_(a))
        C.check("not collinear", C.not_(b))
        C.check("coplanar only in the plane", c if d == 2 else C.not_(c))


@case("C20", [dict(d=d, k=k) for d in (2, 3) for k in (1, 2) if k < d or d == 2])
def duplicates(C, d, k):
    """Repeating points does not change the rank."""
    P, T = on_flat(C, 3, d, k)
    if C.thin:
        r = C.expect("affine_rank", PTS(C, P).affine_rank, obs=False)
        s = C.expect("affine_rank", PTS(C, P + [P[0], P[0], P[1]]).affine_rank, obs=False)
        C.check("same rank", C.true if int(r) == int(s) else C.false)


@case("C20", [dict(d=d, i=i) for d in (2, 3) for i in (0, 1)])
def tolerance(C, d, i):
    """Two points at distance D have the singular value D / sqrt(2): tol decides between rank 0 and 1."""
    p, q, t = C.vec("p", d), C.vec("q", d), C.real("t", pos=True)
    D2 = C.norm2(C.sub(q, p))
    C.assume(C.gt(D2, 0))
    if C.thin:
        # exact singular value decomposition of the centred points (p - q)/2, (q - p)/2
        a = C.expect("are_concurrent", PTS(C, [p, q]).are_concurrent, obs=False, tol=C.num(t))
        C.check("concurrent iff the spread is within tol", C.iff(C.bool(a), C.le(D2, 2 * t * t)))
        e = C.expect("are_concurrent", PTS(C, [p, q, q, p, q]).are_concurrent, obs=False, tol=C.num(t))
        C.check("repeated points change nothing", C.iff(C.bool(e), C.bool(a)))
        b = C.expect("are_collinear", PTS(C, [p, q]).are_collinear, obs=False, tol=C.num(t))
        C.check("two points are collinear", C.bool(b))
