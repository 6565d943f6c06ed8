"""C28: what the plotting methods draw (recorded by stand-ins for the axes)."""
from fractions import Fraction

import numpy as np

from symex.ctx import case


def O(name):
    import skspatial.objects as o

    return getattr(o, name)


class Rec:
    """Records the drawing calls."""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)

        def f(*a, **k):
            self.__dict__["calls"].append((name, a, k))

        return f


def ax2():
    return Rec()


def ax3():
    from mpl_toolkits.mplot3d import Axes3D

    class Ax(Axes3D):
        def __init__(self):
            self.__dict__["calls"] = []

        def __getattribute__(self, name):
            if name in ("scatter", "plot", "plot_surface"):
                return lambda *a, **k: self.__dict__["calls"].append((name, a, k))
            return object.__getattribute__(self, name)

        def __del__(self):
            pass

    return Ax()


def axes(d):
    return ax2() if d == 2 else ax3()


def drawn(C, ax, name, n=1):
    calls = [c for c in ax.__dict__["calls"]]
    ok = len(calls) == n and all(c[0] == name for c in calls)
    C.check(f"{n} {name} call(s)", C.true if ok else C.false)
    if not ok:
        C.stop()
    return calls


def plotted(C, x, d, what, **k):
    """Plot directly and through plotter(): both must draw the same."""
    a, b = axes(d), axes(d)
    C.expect(what, lambda: getattr(x, f"plot_{d}d")(a, **k), obs=False)
    f = C.expect("plotter", lambda: x.plotter(**k), obs=False)
    C.expect("plotter call", f, b, obs=False)
    ca, cb = a.__dict__["calls"], b.__dict__["calls"]
    same = len(ca) == len(cb) and all(u[0] == v[0] and len(u[1]) == len(v[1]) and sorted(u[2]) == sorted(v[2]) for u, v in zip(ca, cb))
    C.check("plotter draws the same", C.true if same else C.false)
    if same:
        for u, v in zip(ca, cb):
            for p, q in zip(u[1], v[1]):
                C.check("plotter draws the same coordinates", C.eqv(C.flat(p), C.flat(q)))
    return a


def kw_ok(C, call, **k):
    C.check("keywords are passed on", C.true if call[2] == k else C.false)


def coords(C, call, pts, d):
    """The call's coordinate arrays are those of the points."""
    ok = len(call[1]) == d
    C.check("one array per axis", C.true if ok else C.false)
    if ok:
        for i in range(d):
            C.check("coordinates", C.eqv(C.flat(call[1][i]), [p[i] for p in pts]))


D = (2, 3)
# style keywords of every kind of value: they mean nothing to the library and are passed on as they are
STYLES = (dict(c="g"), dict(label="x", alpha=0.5, marker="o"), dict(shade=False, alpha=0, label="", zorder=None), {}, dict(color=(0.1, 0.2, 0.3), lw=1, visible=True))


@case("C28", [dict(d=d) for d in D])
def point(C, d):
    p = C.vec("p", d)
    P = C.expect("Point", O("Point"), C.arr(p), obs=False)
    for st in STYLES:
        c, = drawn(C, plotted(C, P, d, "plot", **st), "scatter")
        coords(C, c, [p], d)
        kw_ok(C, c, **st)


@case("C28", [dict(d=d, n=n) for d in D for n in (1, 2, 3, 6)])
def points(C, d, n):
    P = C.pts("p", n, d)
    Q = C.expect("Points", O("Points"), C.arr(P), obs=False)
    for st in STYLES + (dict(s=3), dict(s=0)):
        c, = drawn(C, plotted(C, Q, d, "plot", **st), "scatter")
        coords(C, c, P, d)
        kw_ok(C, c, **st)


@case("C28", [dict(d=d, free=f) for d in D for f in (0, 1)])
def vector(C, d, free):
    v = C.vec("v", d)
    k, p, s = {}, [0] * d, 1
    if free:
        p, s = C.vec("p", d), C.real("s")
        k.update(point=C.arr(p), scalar=C.num(s))
    V = C.expect("Vector", O("Vector"), C.arr(v), obs=False)
    for st in STYLES:
        c, = drawn(C, plotted(C, V, d, "plot", **k, **st), "arrow" if d == 2 else "plot")
        kw_ok(C, c, **st)
        if d == 2:
            C.check("arrow from the point along the scaled vector", C.eqv(C.flat(list(c[1])), p + C.mul(s, v)))
        else:
            coords(C, c, [p, C.add(p, C.mul(s, v))], d)


@case("C28", [dict(d=d, free=f) for d in D for f in (0, 1)])
def line(C, d, free):
    p, v = C.vec("p", d), C.vec("v", d)
    C.nonzero(v)
    t, k = [0, 1], {}
    if free:
        t = [C.real("t1"), C.real("t2")]
        k.update(t_1=C.num(t[0]), t_2=C.num(t[1]))
    L = C.expect("Line", O("Line"), C.arr(p), C.arr(v), obs=False)
    for st in STYLES:
        c, = drawn(C, plotted(C, L, d, "plot", **k, **st), "plot")
        coords(C, c, [C.add(p, C.mul(x, v)) for x in t], d)
        kw_ok(C, c, **st)


@case("C28", [dict(d=d) for d in D])
def segment(C, d):
    a, v = C.vec("a", d, lo=-1, hi=1), C.vec("v", d, lo=1)
    s = C.expect("LineSegment", O("LineSegment"), C.arr(a), C.arr(C.add(a, v)), obs=False)
    for st in STYLES:
        c, = drawn(C, plotted(C, s, d, "plot", **st), "plot")
        coords(C, c, [a, C.add(a, v)], d)
        kw_ok(C, c, **st)




@case("C28", [dict(d=d, part=p, style=s) for d in D for p in ("default", "points", "lines") for s in (0, 1, 2, 3)])
def triangle(C, d, part, style):
    a, b, c = P = C.pts("p", 3, d)
    C.assume(C.gt(C.lagrange(C.sub(b, a), C.sub(c, a)), 0))
    for x, y in ((a, b), (b, c), (c, a)):
        C.assume(C.gt(C.norm2(C.sub(y, x)), 0))
    T = C.expect("Triangle", O("Triangle"), *map(C.arr, P), obs=False)
    k = dict(STYLES[style])
    if part != "default":
        k["part"] = part
    cs = drawn(C, plotted(C, T, d, "plot", **k), "plot" if part == "lines" else "scatter", 3)
    want = [[b, c], [c, a], [a, b]] if part == "lines" else [[a], [b], [c]]
    for u, w in zip(cs, want):
        coords(C, u, w, d)
        kw_ok(C, u, **STYLES[style])


@case("C28")
def circle(C):
    c, r = C.vec("c", 2), C.real("r", pos=True)
    k = C.expect("Circle", O("Circle"), C.arr(c), C.num(r), obs=False)
    import matplotlib.pyplot as plt

    class Artist:
        def __init__(self, xy=(0, 0), radius=5, **kw):
            self.center, self.radius, self.kw = xy, radius, kw

    real = plt.Circle
    try:
        plt.Circle = Artist
        ax = ax2()
        C.expect("plot_2d", k.plot_2d, ax, obs=False, fill=False)
        C.expect("plotter", k.plotter(fill=True), ax, obs=False)
    finally:
        plt.Circle = real
    calls = [x for x in ax.calls if x[0] in ("add_artist", "add_patch")]
    C.check("one artist per call", C.true if len(calls) == 2 and all(x[1] for x in calls) else C.false)
    for (_, a, kw), fill in zip(calls, (False, True)):
        C.check("centre and radius", C.eqv(C.flat(list(a[0].center)), c) if len(a[0].center) == 2 else C.false)
        C.check("radius", C.eq(C.unwrap(a[0].radius), r))
        if isinstance(a[0], Artist):
            C.check("keywords are passed on", C.true if a[0].kw == dict(fill=fill) else C.false)


def surface(C, x, mesh, ax, st):
    c, = drawn(C, ax, "plot_surface")
    ok = len(c[1]) == 3
    C.check("three arrays", C.true if ok else C.false)
    if ok:
        for u, w in zip(c[1], mesh):
            C.check("the mesh", C.eqv(C.flat(u), C.flat(w)))
    kw_ok(C, c, **st)


@case("C28", [dict(lims=l) for l in (0, 1)])
def plane(C, lims):
    p, n = C.vec("p", 3), [C.real("n0"), C.real("n1"), C.real("n2", nonzero=True)]
    P = C.expect("Plane", O("Plane"), C.arr(p), C.arr(n), obs=False)
    k = dict(lims_x=C.arr(C.vec("lx", 2)), lims_y=C.arr(C.vec("ly", 2))) if lims else {}
    for st in STYLES:
        surface(C, P, C.expect("to_mesh", P.to_mesh, obs=False, **k), plotted(C, P, 3, "plot", **st, **k), st)


@case("C28")
def sphere(C):
    c, r = C.vec("c", 3), C.real("r", pos=True)
    S = C.expect("Sphere", O("Sphere"), C.arr(c), C.num(r), obs=False)
    for i, st in enumerate(STYLES):
        kw = dict(n_angles=2 + i)
        surface(C, S, C.expect("to_mesh", S.to_mesh, obs=False, **kw), plotted(C, S, 3, "plot", **st, **kw), st)


@case("C28")
def cylinder(C):
    c, r, k = C.vec("c", 3), C.real("r", pos=True), C.real("k", nonzero=True)
    S = C.expect("Cylinder", O("Cylinder"), C.arr(c), C.arr(C.mul(k, [1, 2, 2])), C.num(r), obs=False)
    for st, (m, n) in zip(STYLES * 2, ((2, 3), (4, 3), (3, 3), (5, 2), (2, 6), (3, 2), (2, 2), (2, 4), (6, 3), (4, 4))):
        kw = dict(n_along_axis=m, n_angles=n)
        surface(C, S, C.expect("to_mesh", S.to_mesh, obs=False, **kw), plotted(C, S, 3, "plot", **st, **kw), st)


@case("C28", [dict(kind=k) for k in ("Sphere", "Cylinder", "Plane")])
def default_resolution(C, kind):
    """Without a resolution the default mesh is drawn, at every position."""
    p = C.vec("p", 3)
    args = {"Sphere": [2], "Cylinder": [[0, 0, 3], 1], "Plane": [[0, 0, 2]]}[kind]
    x = C.expect(kind, O(kind), C.arr(p), *args, obs=False)
    mesh = C.expect("to_mesh", x.to_mesh, obs=False)
    for st in STYLES[:3]:
        ax = axes(3)
        C.expect("plot_3d", lambda: x.plot_3d(ax, **st), obs=False)
        c, = drawn(C, ax, "plot_surface")
        ok = len(c[1]) == 3 and all(np.shape(u) == np.shape(w) for u, w in zip(c[1], mesh))
        C.check("the shape of the default mesh", C.true if ok else C.false)
        kw_ok(C, c, **st)
        if ok:
            for u, w in zip(c[1], mesh):
                C.check("the default mesh", C.eqv([u[0][0], u[-1][-1], u[len(u) // 2][0]], [w[0][0], w[-1][-1], w[len(w) // 2][0]]))


@case("C28", [dict(kind=k, d=d) for k, d in (("Point", 1), ("Point", 4), ("Vector", 1), ("Vector", 4), ("Points", 1), ("Points", 4), ("Line", 1), ("Line", 4))])
def other_dimensions(C, kind, d):
    a = [C.arr(C.pts("p", 2, d))] if kind == "Points" else [C.arr(C.vec("p", d))]
    if kind == "Line":
        v = C.vec("v", d)
        C.nonzero(v)
        a.append(C.arr(v))
    x = C.expect(kind, O(kind), *a, obs=False)
    C.check_value_error("plotter", C.call(x.plotter, obs=False))


@case("C28", [dict(kind="Plane", d=2), dict(kind="Plane", d=4)])
def cannot_plot(C, kind, d):
    v = C.vec("v", d)
    C.nonzero(v)
    x = C.expect(kind, O(kind), C.arr(C.vec("p", d)), C.arr(v), obs=False)
    C.check_value_error("plotter", C.call(x.plotter, obs=False))


@case("C28", [dict(kind=k) for k in ("Point", "Points", "Vector", "Line")])
def wrong_axes(C, kind):
    p, v = C.vec("p", 3), C.vec("v", 3)
    C.nonzero(v)
    a = {"Points": [C.arr([p, v])], "Point": [C.arr(p)], "Vector": [C.arr(v)], "Line": [C.arr(p), C.arr(v)]}[kind]
    x = C.expect(kind, O(kind), *a, obs=False)
    ax = ax2()
    C.check_value_error("plot_3d on 2D axes", C.call(x.plot_3d, ax, obs=False))
    C.check("nothing drawn", C.true if not ax.calls else C.false)


@case("C28", [dict(d=d) for d in D])
def figure(C, d):
    """plot_2d / plot_3d call every plotter once, in order, on one axes object."""
    import skspatial.plotting as sp

    p, q = C.vec("p", d), C.vec("q", d)
    ax = axes(d)

    class Fig:
        def add_subplot(self, *a, **k):
            C.check("3D axes are requested", C.true if k.get("projection") == "3d" or d == 2 else C.false)
            return ax

    fig = Fig()

    class Plt:
        @staticmethod
        def subplots(*a, **k):
            return fig, ax

        @staticmethod
        def figure(*a, **k):
            return fig

    real = sp.plt
    try:
        sp.plt = Plt
        P, Q = [C.expect("Point", O("Point"), C.arr(x), obs=False) for x in (p, q)]
        f = sp.plot_2d if d == 2 else sp.plot_3d
        again = P.plotter(c="a")
        l = C.expect("Line", O("Line"), C.arr(q), C.arr([2] + [1] * (d - 1)), obs=False)
        r = C.expect("plot", f, again, Q.plotter(c="b"), again, P.plotter(c="c"), l.plotter(c="d"), obs=False)
    finally:
        sp.plt = real
    C.check("returns figure and axes", C.true if len(r) == 2 and r[0] is fig and r[1] is ax else C.false)
    last = ax.__dict__["calls"].pop()
    C.check("the line comes last", C.true if last[0] == "plot" else C.false)
    coords(C, last, [q, C.add(q, [2] + [1] * (d - 1))], d)
    cs = drawn(C, ax, "scatter", 4)
    for c, w, n in zip(cs, (p, q, p, p), "abac"):
        coords(C, c, [w], d)
        kw_ok(C, c, c=n)
