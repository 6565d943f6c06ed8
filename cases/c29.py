"""C29: the text of an object is an expression that names the class and rebuilds its data."""
import inspect
from fractions import Fraction

import numpy as np

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


class Arr(list):
    """A literal array in the text."""

    name = "array"


def text(C, obj, how):
    """The text of the object, and the numbers its references stand for (symbolic runs write references instead of digits)."""
    write = {"repr": repr, "str": str, "format": lambda x: f"{x}"}[how]
    if C.mode == "concrete":
        return C.expect(f"{how} of the object", write, obj, obs=False), []
    from symex import sym as S

    S.TEXT = []
    try:
        return C.expect(f"{how} of the object", write, obj, obs=False), S.TEXT
    finally:
        S.TEXT = None


def read(C, t, refs):
    """Evaluates the text with constructors that only record what they are given; None if it is not an expression."""

    def arr(name):
        def make(v, dtype=None):
            a = Arr(v)
            a.name = name
            return a

        return make

    def rec(name):
        def make(*a, **k):
            return name, dict(inspect.signature(O(name)).bind(*a, **k).arguments)

        return make

    env = {"__builtins__": {}, "_T": refs, "np": np, "array": arr("array"), "object": object,
           **{n: arr(n) for n in ("Point", "Vector", "Points")},
           **{n: rec(n) for n in ("Line", "Plane", "LineSegment", "Triangle", "Circle", "Sphere", "Cylinder")}}
    try:
        return eval(t, env)
    except Exception:
        return None


def digits(C, v, k=0):
    """The same set of numbers, but with many digits when the solver picks simple ones."""
    return [x + Fraction(12345678901 + 7 * i + k, 10**11) for i, x in enumerate(v)]


def flat(x):
    if isinstance(x, (list, tuple)):
        return [e for y in x for e in flat(y)]
    return [x]


def agree(C, got, want, unit=1):
    """Same numbers; digits that numpy does not print (the ninth and later) do not count on the real objects."""
    got, want = flat(got), flat(want)
    if len(got) != len(want):
        return C.false
    if C.mode == "concrete":
        return C.true if all(abs(float(g) - float(w)) <= 2e-8 * (float(unit) + abs(float(w))) for g, w in zip(got, want)) else C.false
    return C.all_([C.eq(g, w) for g, w in zip(got, want)])


def check(C, obj, name, parts, unit=1):
    for how in ("repr", "str", "format"):
        t, refs = text(C, obj, how)
        r = read(C, t, refs)
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict)):
            C.fail(f"{how} is an expression", t)
            continue
        C.check(f"{how} names the class", C.true if r[0] == name else C.false)
        C.check(f"{how} names every argument", C.true if list(r[1]) == list(parts) else C.false)
        for k, (kind, val) in parts.items():
            if k in r[1]:
                got = r[1][k]
                if kind:
                    C.check(f"{how}: {k} is a {kind}", C.true if getattr(got, "name", "") == kind else C.false)
                if not kind and C.mode == "concrete":  # plain numbers are written with all their digits
                    C.check(f"{how}: {k}", C.true if float(got) == float(val) else C.false)
                else:
                    C.check(f"{how}: {k}", agree(C, got, val, unit))


@case("C29", [dict(kind=k, d=d) for k in ("Line", "Plane") for d in (1, 2, 3, 4, 6)])
def line_plane(C, kind, d):
    p, v = digits(C, C.vec("p", d)), digits(C, C.vec("v", d), 50)
    C.assume(C.gt(C.norm2(v), 0))
    x = C.call(O(kind), C.arr(p), C.arr(v), obs=False)
    if not x.ok:
        return
    check(C, x.value, kind, {"point": ("Point", p), {"Line": "direction", "Plane": "normal"}[kind]: ("Vector", v)})


@case("C29", [dict(d=d) for d in (1, 2, 3, 5)])
def segment(C, d):
    p, v = digits(C, C.vec("p", d)), digits(C, C.vec("v", d), 50)
    C.assume(C.gt(C.norm2(v), 0))
    q = C.add(p, v)
    x = C.call(O("LineSegment"), C.arr(p), C.arr(q), obs=False)
    if not x.ok:
        return
    check(C, x.value, "LineSegment", {"point_a": ("Point", p), "point_b": ("Point", q)})


@case("C29", [dict(d=d) for d in (2, 3)])
def triangle(C, d):
    a, b, c = digits(C, C.vec("a", d)), digits(C, C.vec("b", d), 20), digits(C, C.vec("c", d), 40)
    x = C.call(O("Triangle"), C.arr(a), C.arr(b), C.arr(c), obs=False)
    if not x.ok:
        return
    check(C, x.value, "Triangle", {"point_a": ("Point", a), "point_b": ("Point", b), "point_c": ("Point", c)})


@case("C29", [dict(kind=k) for k in ("Circle", "Sphere", "Cylinder")])
def round_objects(C, kind):
    d = 2 if kind == "Circle" else 3
    p, r = digits(C, C.vec("p", d)), C.real("r", lo=Fraction(-1, 9)) + Fraction(12345678901, 10**11)
    parts = {"point": ("Point", p)}
    args = [C.arr(p)]
    if kind == "Cylinder":
        v = digits(C, C.vec("v", 3), 50)
        C.assume(C.gt(C.norm2(v), 0))
        parts["vector"] = ("Vector", v)
        args.append(C.arr(v))
    x = C.call(O(kind), *args, C.num(r), obs=False)
    if not x.ok:
        return
    check(C, x.value, kind, {**parts, "radius": (None, r)})


@case("C29", [dict(kind=k, d=d) for k in ("Point", "Vector") for d in (1, 2, 3, 5, 9)] + [dict(kind="Points", d=d) for d in (1, 2, 3, 4)])
def arrays(C, kind, d):
    v = digits(C, C.vec("p", d)) if kind != "Points" else [digits(C, r, 9 * i) for i, r in enumerate(C.pts("p", 3, d))]
    x = C.expect(kind, O(kind), C.arr(v), obs=False)
    t, refs = text(C, x, "repr")
    r = read(C, t, refs)
    C.check("repr names the class", C.true if getattr(r, "name", "") == kind else C.false)
    C.check("repr holds every coordinate", agree(C, r or [], v))


@case("C29", [dict(kind=k) for k in ("Line", "Sphere", "Cylinder")])
def after_change(C, kind):
    """The text follows the object: it shows the present data, not the data it was built with."""
    p, q, r = C.vec("p", 3), C.vec("q", 3), C.real("r", pos=True)
    v = [1, -2, 3]
    args = [C.arr(p)] + ([v] if kind != "Sphere" else []) + ([C.num(r)] if kind != "Line" else [])
    x = C.expect(kind, O(kind), *args, obs=False)
    names = {"point": ("Point", p)}
    if kind != "Sphere":
        names["direction" if kind == "Line" else "vector"] = ("Vector", v)
    if kind != "Line":
        names["radius"] = (None, r)
    check(C, x, kind, names)
    x.point = O("Point")(C.arr(q))
    check(C, x, kind, {**names, "point": ("Point", q)})


@case("C29", [dict(kind=k) for k in ("Line", "Plane", "Circle", "Sphere", "Cylinder")])
def small(C, kind):
    """Coordinates far below one are shown, not rounded to zero."""
    d = 2 if kind == "Circle" else 3
    u = Fraction(1, 10**9)
    p = [u * C.real(f"p{i}", lo=1, hi=9) + Fraction(12345678901, 10**20) for i in range(d)]
    v = [1, -2, 3]
    args, names = [C.arr(p)], {"point": ("Point", p)}
    if kind not in ("Circle", "Sphere"):
        args.append(v)
        names[{"Line": "direction", "Plane": "normal"}.get(kind, "vector")] = ("Vector", v)
    if kind not in ("Line", "Plane"):
        r = u * C.real("r", lo=1, hi=9) + Fraction(12345678901, 10**20)
        args.append(C.num(r))
        names["radius"] = (None, r)
    check(C, C.expect(kind, O(kind), *args, obs=False), kind, names, u)
