"""C01: array objects hold exactly the given numbers and reject malformed input."""
import math
from fractions import Fraction

from symex.ctx import case


def cls(name):
    import skspatial.objects as o

    return getattr(o, name)


def copies(C, make, check):
    """Copies of an array object of every kind: values, class and dimension agree with the original."""
    import copy
    import pickle

    for name, f in (("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x))),
                    ("copy method", lambda x: x.copy()), ("in a list", lambda x: copy.deepcopy([x])[0])):
        a = make()
        b = C.expect(name, f, a)
        check(name, a, b)
        C.typecheck(f"{name}: class", lambda: type(b) is type(a))


ONE_D = [dict(cls=c, d=d) for c in ("Vector", "Point") for d in (1, 2, 3, 4, 5, 6, 7, 9)]


@case("C01", ONE_D)
def construct_1d(C, cls, d):
    K = globals()["cls"](cls)
    v = C.vec("v", d)
    a = C.expect("construct", K, C.arr(v))
    C.check("values", C.eqv(a, v))
    C.check("dimension", C.eq(a.dimension, d))
    C.check("shape", C.true if a.shape == (d,) and a.size == d else C.false)
    C.typecheck("class", lambda: type(a) is K)
    b = C.expect("construct from object", K, a)
    C.check("copy constructor", C.eqv(b, v))
    C.check("copy dimension", C.eq(b.dimension, d))
    t = C.expect("to_array", a.to_array, obs=False)
    C.check("to_array values", C.eqv(t, v))
    if C.mode == "concrete":
        import numpy as np

        C.typecheck("to_array is a plain array", lambda: type(t) is np.ndarray)
        t[0] = t[0] + 1
        C.check("to_array is a copy", C.eqv(a, v))


@case("C01", [dict(cls=c, d=d) for c in ("Vector", "Point") for d in (1, 2, 3, 4, 6)])
def copies_1d(C, cls, d):
    K = globals()["cls"](cls)
    v = C.vec("v", d)

    def check(name, a, b):
        C.check(f"{name}: values", C.eqv(b, v))
        C.check(f"{name}: dimension", C.eq(b.dimension, d))
        s = C.expect(f"{name}: sum", lambda: b + a)
        C.check(f"{name}: sum", C.eqv(s, [2 * x for x in v]))
        C.check(f"{name}: dimension of a sum", C.eq(s.dimension, d))
        C.check(f"{name}: padded", C.eqv(b.set_dimension(d + 1), list(v) + [0]))
        C.check_value_error(f"{name}: shrinking", C.call(b.set_dimension, d - 1))
        C.check(f"{name}: original", C.eqv(a, v))
        C.check(f"{name}: original dimension", C.eq(a.dimension, d))

    copies(C, lambda: K(C.arr(v)), check)


@case("C01", [dict(m=m, d=d) for m, d in ((1, 1), (1, 3), (2, 2), (3, 3), (4, 2), (6, 3))])
def copies_2d(C, m, d):
    K = globals()["cls"]("Points")
    p = C.pts("p", m, d)

    def check(name, a, b):
        C.check(f"{name}: values", C.eqv(b, C.flat(p)))
        C.check(f"{name}: shape", C.true if b.shape == (m, d) else C.false)
        C.check(f"{name}: dimension", C.eq(b.dimension, d))
        C.check_value_error(f"{name}: shrinking", C.call(b.set_dimension, d - 1))
        C.check(f"{name}: original dimension", C.eq(a.dimension, d))

    copies(C, lambda: K(C.arr(p)), check)


@case("C01", [dict(kind=k) for k in ("Line", "Plane", "Sphere", "Circle", "Cylinder", "Triangle", "LineSegment")])
def copies_composite(C, kind):
    import copy
    import pickle

    d = 2 if kind == "Circle" else 3
    K = globals()["cls"](kind)
    p = C.vec("p", d, **({"lo": -100, "hi": 100} if kind == "LineSegment" else {}))
    if kind in ("Line", "Plane"):
        a = K(C.arr(p), [1, -2, 3])
        parts = {"point": p, "vector": [1, -2, 3], "direction" if kind == "Line" else "normal": [1, -2, 3]}
    elif kind in ("Sphere", "Circle"):
        a = K(C.arr(p), 3)
        parts = {"point": p}
    elif kind == "Cylinder":
        a = K(C.arr(p), [1, -2, 3], 2)
        parts = {"point": p, "vector": [1, -2, 3]}
    elif kind == "LineSegment":
        q = [p[0] + 1, p[1], p[2] - 3]
        a = K(C.arr(p), C.arr(q))
        parts = {"point_a": p, "point_b": q}
    else:
        a = K([0, 1, 0], [1, 2, 3], [0, 0, 5])
        parts = {"point_a": [0, 1, 0], "point_b": [1, 2, 3], "point_c": [0, 0, 5]}
    for name, f in (("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
        b = C.expect(name, f, a, obs=False)
        C.typecheck(f"{name}: class", lambda: type(b) is K)
        C.check(f"{name}: dimension", C.eq(b.dimension, d))
        for part, val in parts.items():
            C.check(f"{name}: {part}", C.eqv(getattr(b, part), val))
            C.check(f"{name}: dimension of {part}", C.eq(getattr(b, part).dimension, d))


@case("C01", ONE_D)
def set_dimension_1d(C, cls, d):
    K = globals()["cls"](cls)
    v = C.vec("v", d)
    a = K(C.arr(v))
    for m in range(0, d):
        C.check_value_error(f"shrinking to {m}", C.call(a.set_dimension, m))
    for m in range(d, d + 4):
        b = C.expect("set_dimension", a.set_dimension, m)
        C.check("padded with zeros", C.eqv(b, list(v) + [0] * (m - d)))
        C.check("new dimension", C.eq(b.dimension, m))
        C.typecheck("class kept", lambda: type(b) is K)
    C.check("operand untouched", C.eqv(a, v))
    C.check("operand dimension untouched", C.eq(a.dimension, d))


@case("C01", [dict(m=m, d=d) for m, d in [(m, d) for m in (1, 2, 3, 5) for d in (1, 2, 3, 4)] + [(9, 2), (10, 3), (12, 2), (2, 6), (4, 7), (7, 5), (3, 9)]])
def construct_2d(C, m, d):
    K = cls("Points")
    p = C.pts("p", m, d)
    a = C.expect("construct", K, C.arr(p))
    C.check("values", C.eqv(a, C.flat(p)))
    C.check("dimension", C.eq(a.dimension, d))
    C.check("shape", C.true if a.shape == (m, d) else C.false)
    C.typecheck("class", lambda: type(a) is K)
    t = C.expect("to_array", a.to_array)
    C.check("to_array values", C.eqv(t, C.flat(p)))
    for k in range(0, d):
        C.check_value_error(f"shrinking to {k}", C.call(a.set_dimension, k))
    for k in range(d, d + 3):
        b = C.expect("set_dimension", a.set_dimension, k)
        C.check("padded with zeros", C.eqv(b, C.flat([list(r) + [0] * (k - d) for r in p])))
        C.check("new dimension", C.eq(b.dimension, k))
        C.check("new shape", C.true if b.shape == (m, k) else C.false)
        C.typecheck("class kept", lambda: type(b) is K)
    C.check("operand untouched", C.eqv(a, C.flat(p)))


@case("C01", [dict(cls=c, d=d) for c in ("Vector", "Point") for d in (1, 2, 3, 4, 5, 6, 8)])
def nonfinite_1d(C, cls, d):
    K = globals()["cls"](cls)
    for i in range(d):
        for bad in (math.nan, math.inf, -math.inf):
            v = C.vec("v", d)
            l = C.arr(v)
            l = list(l)
            l[i] = bad
            C.check_value_error(f"non-finite entry {i}", C.call(K, l))


@case("C01", [dict(m=2, d=2), dict(m=3, d=3), dict(m=1, d=3), dict(m=5, d=2), dict(m=8, d=3), dict(m=2, d=6)])
def nonfinite_2d(C, m, d):
    K = cls("Points")
    for i in range(m):
        for j in range(d):
            for bad in (math.nan, math.inf, -math.inf):
                p = [list(r) for r in C.arr(C.pts("p", m, d))]
                p[i][j] = bad
                C.check_value_error(f"non-finite entry {i},{j}", C.call(K, p))


@case("C01")
def malformed(C):
    x, y = C.real("x"), C.real("y")
    X, Y = C.num(x), C.num(y)
    for n in ("Vector", "Point"):
        K = cls(n)
        C.check_value_error("empty", C.call(K, []))
        C.check_value_error("scalar", C.call(K, X))
        C.check_value_error("2D", C.call(K, [[X, Y]]))
        C.check_value_error("column", C.call(K, [[X], [Y]]))
        C.check_value_error("3D", C.call(K, [[[X, Y]]]))
        C.check_value_error("nested empty", C.call(K, [[], []]))
    K = cls("Points")
    C.check_value_error("empty", C.call(K, []))
    C.check_value_error("nested empty", C.call(K, [[]]))
    C.check_value_error("nested empties", C.call(K, [[], []]))
    C.check_value_error("1D", C.call(K, [X, Y]))
    C.check_value_error("scalar", C.call(K, X))
    C.check_value_error("3D", C.call(K, [[[X, Y]]]))


@case("C01")
def ragged(C):
    x, y = C.real("x"), C.real("y")
    X, Y = C.num(x), C.num(y)
    C.check_value_error("ragged rows", C.call(cls("Points"), [[X, Y], [X]]))
    C.check_value_error("ragged rows", C.call(cls("Points"), [[X], [X, Y, X]]))
    C.check_value_error("ragged vector", C.call(cls("Vector"), [X, [Y]]))


@case("C01", [dict(cls=c, d=d) for c in ("Vector", "Point") for d in (1, 2, 3, 4, 5, 7)])
def arithmetic_1d(C, cls, d):
    """Sums, differences and scalings stay objects of the class with the right dimension."""
    K = globals()["cls"](cls)
    u, v = C.vec("u", d), C.vec("v", d)
    k = C.real("k")
    a, b = K(C.arr(u)), K(C.arr(v))
    for name, r, want in (
        ("sum", a + b, C.add(u, v)), ("difference", a - b, C.sub(u, v)), ("scaled", C.num(k) * a, C.mul(k, u)),
        ("scaled right", a * C.num(k), C.mul(k, u)), ("negated", -a, C.mul(-1, u)),
        ("sum with list", a + C.arr(v), C.add(u, v)), ("list minus", C.arr(v) - a, C.sub(v, u)),
        ("product", a * b, [x * y for x, y in zip(u, v)]),
    ):
        C.check(name, C.eqv(r, want))
        C.check(name + " dimension", C.eq(r.dimension, d))
        C.typecheck(name + " class", lambda: type(r) is K)
    C.check("operands untouched", C.all_([C.eqv(a, u), C.eqv(b, v)]))


@case("C01", [dict(m=2, d=2), dict(m=3, d=3), dict(m=1, d=4), dict(m=6, d=2), dict(m=9, d=3), dict(m=2, d=6)])
def arithmetic_2d(C, m, d):
    K = cls("Points")
    p, q = C.pts("p", m, d), C.pts("q", m, d)
    k = C.real("k")
    a, b = K(C.arr(p)), K(C.arr(q))
    P, Q = C.flat(p), C.flat(q)
    for name, r, want in (
        ("sum", a + b, C.add(P, Q)), ("difference", a - b, C.sub(P, Q)), ("scaled", C.num(k) * a, C.mul(k, P)),
        ("shifted", a + C.arr(q)[0], C.flat([C.add(r_, q[0]) for r_ in p])),
    ):
        C.check(name, C.eqv(r, want))
        C.check(name + " dimension", C.eq(r.dimension, d))
        C.typecheck(name + " class", lambda: type(r) is K)


@case("C01", [dict(d=3), dict(d=4)])
def slices(C, d):
    v = C.vec("v", d)
    a = cls("Vector")(C.arr(v))
    C.check("slice values", C.eqv(a[1:], v[1:]))
    C.check("slice dimension", C.eq(a[1:].dimension, d - 1))
    p = C.pts("p", 3, d)
    P = cls("Points")(C.arr(p))
    C.check("row", C.eqv(P[1], p[1]))
    C.check("rows", C.eqv(P[1:], C.flat(p[1:])))
    C.check("rows dimension", C.eq(P[1:].dimension, d))
    C.check("columns dimension", C.eq(P[:, :2].dimension, 2))


@case("C01", [dict(d=1, n=0), dict(d=2, n=1), dict(d=2, n=0), dict(d=1, n=2), dict(d=1, n=-1), dict(d=2, n=-2), dict(d=1, n=4)])
def rounding(C, d, n):
    n10 = Fraction(10) ** n
    v = C.vec("v", d, lo=Fraction(-3) / min(n10, 1), hi=Fraction(3) / min(n10, 1))
    for name in ("Vector", "Point"):
        K = cls(name)
        a = K(C.arr(v))
        r = C.expect("round", a.round, n)
        s = C.vals(r)
        C.check("length", C.true if len(s) == d else C.false)
        for x, y in zip(v, s):
            C.check("a multiple of the unit", C.multiple(y, 1 / n10))
            C.check("within half a unit", C.all_([C.le(2 * n10 * (x - y), 1), C.le(2 * n10 * (y - x), 1)]))
        C.typecheck("class", lambda: type(r) is K)
        C.check("operand untouched", C.eqv(a, v))


@case("C01", [dict(kind=k, big=b) for k in ("Vector", "Point", "Points") for b in (1, 0)])
def extreme(C, kind, big):
    """Finite coordinates near the ends of the floating-point range are accepted and kept."""
    lo, hi = (10**308, 17 * 10**307) if big else (Fraction(1, 10**305), Fraction(2, 10**305))
    x = [C.real(f"x{i}", lo=lo, hi=hi) for i in range(4)]
    v = [x[:2], x[2:]] if kind == "Points" else x
    a = C.expect(kind, cls(kind), C.arr(v), obs=False)
    C.check("coordinates kept", C.eqv(C.flat(a), x))
    n = C.expect("negated", cls(kind), C.arr([[0 - e for e in r] for r in v] if kind == "Points" else [0 - e for e in x]), obs=False)
    C.check("negative coordinates kept", C.eqv(C.flat(n), [0 - e for e in x]))
