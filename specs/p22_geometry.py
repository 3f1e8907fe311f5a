"""P22 planar geometry: poses, transforms and shapes"""
import math
import z3
from types import SimpleNamespace as NS
import numpy as np
from shapely.geometry import Polygon, LineString, Point, MultiPolygon, LinearRing, box
from pyvc.vc import target, Undecided, Discard
from pyvc import loops as L
from . import useqs as U
import dg_commons.geo as geo
from dg_commons.geo import *
from dg_commons.geo import SE2_interpolate, SE2_apply_T2, relative_pose, get_distance_SE2, SE2Transform, PoseState, apply_SE2_to_shapely_geo, transform_xy, norm_between_SE2value
from dg_commons.sim.models import extract_pose_from_state, extract_vel_from_state
from dg_commons.sim.models.utils import extract_2d_position_from_state, kmh2ms, ms2kmh
from zuper_commons.types import ZValueError

G = "dg_commons.geo."


def mat(vc, x, y, th):
    s, c = vc.sin(th), vc.cos(th)
    return np.array([[c, -s, x], [s, c, y], [0.0, 0.0, 1.0]], dtype=object if vc.symbolic else float)


def pose(vc, name):
    x, y, th = vc.real(name + ".x"), vc.real(name + ".y"), vc.angle(name + ".th")
    return mat(vc, x, y, th), (x, y, th)


def app(vc, q, p):
    """the point p of the frame q"""
    x, y, th = q
    s, c = vc.sin(th), vc.cos(th)
    return [x + c * p[0] - s * p[1], y + s * p[0] + c * p[1]]


@target("P22", "points of a frame", [G + "SE2_apply_T2"], samples=100)
def h(vc):
    q, v = pose(vc, "q")
    p = [vc.real("px"), vc.real("py")]
    r = SE2_apply_T2(q, np.array(p, dtype=object if vc.symbolic else float))
    vc.prove("rotated and translated", vc.And(len(r) == 2, vc.eq(list(r), app(vc, v, p))))


@target("P22", "relative pose", [G + "relative_pose"], samples=200)
def h(vc):
    b, vb = pose(vc, "base")
    q, vq = pose(vc, "pose")
    r = relative_pose(b, q)
    vc.prove("moving along it leads from base to pose", vc.And(*[vc.eq(b[i, 0] * r[0, j] + b[i, 1] * r[1, j] + b[i, 2] * r[2, j], q[i, j]) for i in (0, 1) for j in range(3)]))
    dx, dy = vq[0] - vb[0], vq[1] - vb[1]
    s, c = vc.sin(vb[2]), vc.cos(vb[2])
    vc.prove("position in the frame of the base", vc.eq([r[0, 2], r[1, 2]], [c * dx + s * dy, -s * dx + c * dy]))
    vc.prove("heading relative to the base", vc.eq([r[0, 0], r[1, 0]], [vc.cos(vq[2] - vb[2]), vc.sin(vq[2] - vb[2])]))
    vc.prove("base is left alone", vc.eq([b[0, 2], b[1, 2]], [vb[0], vb[1]]))


@target("P22", "distance of poses", [G + "norm_between_SE2value"], samples=100)
def h(vc):
    (a, va), (b, vb) = pose(vc, "a"), pose(vc, "b")
    d = norm_between_SE2value(a, b)
    vc.prove("euclidean", vc.And(vc.le(0, d), vc.eq(d * d, (va[0] - vb[0]) ** 2 + (va[1] - vb[1]) ** 2, 1e-5)))


@target("P22", "transforms and matrices", [G + "SE2Transform.as_SE2", G + "SE2Transform.from_SE2", G + "SE2Transform.from_PoseState", G + "SE2Transform.identity"], samples=200)
def h(vc):
    x, y, th = vc.real("x"), vc.real("y"), vc.angle("th")
    p = [x, y]
    t = SE2Transform(p, th)
    M = t.as_SE2()
    ex = mat(vc, x, y, th)
    vc.prove("matrix of the pose", vc.eq([list(r) for r in M], [list(r) for r in ex]))
    u = SE2Transform.from_SE2(ex)
    vc.prove("from a matrix: position", vc.eq(list(u.p), p))
    vc.prove("from a matrix: heading", vc.And(vc.eq(vc.cos(u.theta), vc.cos(th)), vc.eq(vc.sin(u.theta), vc.sin(th))))
    w = SE2Transform.from_PoseState(PoseState(x=x, y=y, psi=th))
    vc.prove("from a pose state", vc.And(vc.eq(list(w.p), p), vc.eq(w.theta, th)))
    i = SE2Transform.identity()
    vc.prove("identity", vc.eq([i.p[0], i.p[1], i.theta], [0, 0, 0]))
    p[0] = x + 1
    vc.prove("a copy of the position it was built from", vc.eq(t.p[0], x))


@target("P22", "points transformed together", [G + "transform_xy"], kind="bounded", bound="3 points, all values", samples=100)
def h(vc):
    q, v = pose(vc, "q")
    ps = [(vc.real(f"x{i}"), vc.real(f"y{i}")) for i in range(3 if vc.symbolic else vc.choice("n", [1, 3, 7]))]
    r = transform_xy(q, ps)
    vc.prove("as many points", len(r) == len(ps))
    for a, p in zip(r, ps):
        vc.prove("each transformed", vc.eq(list(a), app(vc, v, p)))


@target("P22", "any number of points transformed together", [G + "transform_xy"], kind="loop", samples=20)
def h(vc):
    vc.loops(G + "transform_xy")
    q, v = pose(vc, "q")
    n = U.length(vc, "n", 1)
    xs, ys = U.numbers(vc, "x", n), U.numbers(vc, "y", n)
    if not vc.symbolic:
        r = transform_xy(q, list(zip(xs, ys)))
        vc.prove("as many points", len(r) == len(xs))
        for a, p in zip(r, zip(xs, ys)):
            vc.prove("each transformed", vc.eq(list(a), app(vc, v, p)))
        return
    r = transform_xy(q, L.SSeq(L.I(n), lambda j: (xs.get(j), ys.get(j)), list))
    if not L.symbolic(r):
        raise Undecided("points are transformed in another way")
    vc.prove("as many points", L.SBool(L.as_seq(r).n == L.I(n)))
    vc.forall("each transformed", 0, n, lambda j: vc.eq(list(L.as_seq(r).get(L.I(j))), app(vc, v, (xs.get(L.I(j)), ys.get(L.I(j))))))


@target("P22", "shapes", [G + "apply_SE2_to_shapely_geo"], samples=100)
def h(vc):
    q, v = pose(vc, "q")
    shape = box(-1, -2, 3, 1)
    calls = []

    def affine(g, m):
        calls.append((g, list(m)))
        return shape

    from shapely.affinity import affine_transform

    if vc.symbolic:
        if not vc.patch(affine_transform, affine):
            raise Undecided("shapes are transformed in another way")
        apply_SE2_to_shapely_geo(shape, q)
        if len(calls) != 1 or calls[0][0] is not shape:
            raise Undecided("shapes are transformed in another way")
        a, b, d, e, x, y = calls[0][1]
        p = [vc.real("px"), vc.real("py")]
        vc.prove("every point of the shape moves with the frame", vc.eq([a * p[0] + b * p[1] + x, d * p[0] + e * p[1] + y], app(vc, v, p)))
        return
    n = vc.choice("n", [3, 5])
    pts = [(vc.real(f"r{i}", 0.5, 4) * math.cos(2 * math.pi * i / n), vc.real(f"r{i}", 0.5, 4) * math.sin(2 * math.pi * i / n)) for i in range(n)]
    for s in (Polygon(pts), LineString(pts), Point(pts[0]), MultiPolygon([Polygon(pts), box(20, 20, 21, 22)]), Polygon(pts, [[(0.1, 0), (0, 0.1), (0.05, 0.1)]])):
        t = apply_SE2_to_shapely_geo(s, q)
        vc.prove("same kind of shape", t.geom_type == s.geom_type)
        vc.prove("rigid", abs(t.area - s.area) < 1e-6 and abs(t.length - s.length) < 1e-6)
        c = app(vc, v, s.centroid.coords[0])
        vc.prove("moves with the frame", np.allclose(t.centroid.coords[0], c, atol=1e-6))
    t = apply_SE2_to_shapely_geo(Polygon(pts), q)
    vc.prove("vertex by vertex", np.allclose(list(t.exterior.coords)[:-1], [app(vc, v, p) for p in pts], atol=1e-6))
    c = app(vc, v, list(LineString(pts).coords)[0])
    vc.prove("lines keep their direction", np.allclose(apply_SE2_to_shapely_geo(LineString(pts), q).coords[0], c, atol=1e-6))


@target("P22", "interpolating poses", [G + "SE2_interpolate", G + "get_distance_SE2"], kind="runtime", samples=500, bound="seeded poses, heading differences below 3 rad")
def h(vc):
    from .p21_lanes import arc

    x0, y0, t0 = vc.real("x0", -30, 30), vc.real("y0", -30, 30), vc.real("t0", -3.14, 3.14)
    d = vc.choice("d", [0.0, None])
    d = vc.real("dth", -3, 3) if d is None else d
    q0, q1 = SE2Transform([x0, y0], t0), SE2Transform([x0 + vc.real("dx", -20, 20), y0 + vc.real("dy", -20, 20)], t0 + d)
    a = vc.choice("a", [0.0, 1.0, 0.5, None])
    a = vc.real("alpha", 0, 1) if a is None else a
    m0, m1 = q0.as_SE2(), q1.as_SE2()
    r = SE2_interpolate(m0, m1, a)
    p, th, l = arc(q0, q1, a)
    vc.prove("on the constant curvature arc between them", np.allclose([r[0, 2], r[1, 2]], p, atol=1e-5))
    vc.prove("heading turns evenly, the short way", abs(math.remainder(math.atan2(r[1, 0], r[0, 0]) - th, 2 * math.pi)) < 1e-6)
    vc.prove("a pose", np.allclose(r[:2, :2] @ r[:2, :2].T, np.eye(2), atol=1e-9) and np.allclose(r[2], [0, 0, 1]))
    vc.prove("the distance is the length of that arc", abs(get_distance_SE2(m0, m1) - l) < 1e-5)
    vc.prove("symmetric distance", abs(get_distance_SE2(m1, m0) - l) < 1e-5)
    vc.prove("distances add up along the arc", abs(get_distance_SE2(m0, r) + get_distance_SE2(r, m1) - l) < 1e-5)
    vc.prove("poses are left alone", np.allclose(m0, q0.as_SE2()) and np.allclose(m1, q1.as_SE2()))


def rigid_inverse(m):
    r = np.empty((3, 3), dtype=object)
    r[0, 0], r[0, 1], r[1, 0], r[1, 1] = m[0, 0], m[1, 0], m[0, 1], m[1, 1]
    r[0, 2], r[1, 2] = -(m[0, 0] * m[0, 2] + m[1, 0] * m[1, 2]), -(m[0, 1] * m[0, 2] + m[1, 1] * m[1, 2])
    r[2, 0], r[2, 1], r[2, 2] = 0, 0, 1
    return r


class Algebra:
    """the contract of the group library: log and exp are inverse to one another, exp(0) is the identity"""

    def __init__(self, vc):
        self.vc, self.logs, self.exps = vc, [], []
        from geometry import SE2

        vc.patch_attr(SE2, "multiply", lambda g, h: np.dot(g, h))
        vc.patch_attr(SE2, "inverse", rigid_inverse)
        vc.patch_attr(SE2, "algebra_from_group", self.log)
        vc.patch_attr(SE2, "group_from_algebra", self.exp)
        vc.patch(geo.linear_angular_from_se2, lambda v: (np.array([v[0, 2], v[1, 2]], dtype=object), v[1, 0]))

    def log(self, g):
        k = len(self.logs)
        w, a, b = (self.vc.havoc(f"twist{k}.{n}") for n in "wxy")
        v = np.array([[0, -w, a], [w, 0, b], [0, 0, 0]], dtype=object)
        self.logs.append((g, (w, a, b)))
        return v

    def exp(self, v):
        vc = self.vc
        k = len(self.exps)
        c, s, x, y = (vc.havoc(f"motion{k}.{n}") for n in "csxy")
        m = np.array([[c, -s, x], [s, c, y], [0, 0, 1]], dtype=object)
        vc.assume(vc.eq(c * c + s * s, 1))
        t = (v[1, 0], v[0, 2], v[1, 2])
        vc.assume(vc.Implies(vc.eq(list(t), [0, 0, 0]), vc.eq([c, s, x, y], [1, 0, 0, 0])))
        for g, l in self.logs:
            vc.assume(vc.Implies(vc.eq(list(t), list(l)), vc.eq([c, s, x, y], [g[0, 0], g[1, 0], g[0, 2], g[1, 2]])))
        self.exps.append((t, m))
        return m


def rows(m):
    return [m[i, j] for i in (0, 1) for j in range(3)]


@target("P22", "interpolating and measuring any two poses", [G + "SE2_interpolate", G + "get_distance_SE2"], samples=100)
def h(vc):
    (q0, v0), (q1, v1) = pose(vc, "q0"), pose(vc, "q1")
    end = vc.choice("end", [0, 1, None])
    al = vc.real("alpha", -1, 2)
    al = al if end is None else end
    d = v1[2] - v0[2]
    if not vc.symbolic:
        from .p21_lanes import arc

        vc.assume(abs(math.remainder(d, 2 * math.pi)) < 3)
        r = SE2_interpolate(q0, q1, al)
        p, th, l = arc(SE2Transform([v0[0], v0[1]], v0[2]), SE2Transform([v1[0], v1[1]], v0[2] + math.remainder(d, 2 * math.pi)), al)
        vc.prove("that share of the motion between them", np.allclose([r[0, 2], r[1, 2]], p, atol=1e-4) and abs(math.remainder(math.atan2(r[1, 0], r[0, 0]) - th, 2 * math.pi)) < 1e-6)
        vc.prove("their distance is the length of that motion", abs(get_distance_SE2(q0, q1) - l) < 1e-4)
        return
    lib = Algebra(vc)
    r = SE2_interpolate(q0, q1, al)
    if len(lib.logs) != 1 or len(lib.exps) != 1:
        raise Undecided("poses are interpolated in another way")
    g, l = lib.logs[0]
    vc.prove("the motion between them", vc.eq(rows(np.dot(q0, g)), rows(q1)))
    if end == 0:
        vc.prove("starts at the first", vc.eq(rows(r), rows(q0)))
    elif end == 1:
        vc.prove("ends at the second", vc.eq(rows(r), rows(q1)))
    else:
        t, m = lib.exps[0]
        vc.prove("that share of the motion between them", vc.And(vc.eq(list(t), [al * c for c in l]), vc.eq(rows(r), rows(np.dot(q0, m)))))
    lib.logs.clear()
    dist = get_distance_SE2(q0, q1)
    if len(lib.logs) != 1:
        raise Undecided("poses are measured in another way")
    g, l = lib.logs[0]
    vc.prove("measured along the motion between them", vc.Or(vc.eq(rows(np.dot(q0, g)), rows(q1)), vc.eq(rows(np.dot(q1, g)), rows(q0))))
    vc.prove("their distance is the length of that motion", vc.And(vc.le(0, dist), vc.eq(dist * dist, l[1] * l[1] + l[2] * l[2])))


@target("P22", "shapes for the ray tracer", [G + "shapely2crPolygons", G + "sPolygon2crPolygon", G + "sLine2crPolygon"], kind="runtime", samples=200, bound="seeded shapes")
def h(vc):
    from .p20_perception import library

    library(vc)
    n = vc.choice("n", [3, 4, 6])
    pts = [(vc.real(f"r{i}", 0.5, 4) * math.cos(2 * math.pi * i / n), vc.real(f"r{i}", 0.5, 4) * math.sin(2 * math.pi * i / n)) for i in range(n)]
    poly = Polygon(pts)
    r = geo.shapely2crPolygons(poly)
    vc.prove("a polygon is itself", len(r) == 1 and r[0].poly.symmetric_difference(poly).area < 1e-9)
    vc.prove("no repeated vertex", len(r[0].poly.exterior.coords) == n + 1)
    for ln in (LineString(pts[:2]), LineString(pts), LinearRing(pts)):
        r = geo.shapely2crPolygons(ln)
        vc.prove("a line is one thin polygon per segment", len(r) == len(ln.coords) - 1)
        for p, (a, b) in zip(r, zip(ln.coords, ln.coords[1:])):
            vc.prove("around its segment", p.poly.buffer(1e-6).contains(LineString([a, b])) and LineString([a, b]).buffer(0.0201).contains(p.poly))
    vc.prove("anything else is refused", vc.raises(ValueError, lambda: geo.shapely2crPolygons(Point(0, 0))))


class Pts:
    """shapely geometry given by its vertices"""

    def __init__(self, cls, n, pt):
        self.cls, self.n, self.pt = cls, n, pt

    @property
    def __class__(self):
        return self.cls

    @property
    def exterior(self):
        if self.cls is not Polygon:
            raise AttributeError("exterior")
        return self

    @property
    def xy(self):
        return (L.SSeq(self.n, lambda j: self.pt(j)[0], list), L.SSeq(self.n, lambda j: self.pt(j)[1], list))

    @property
    def coords(self):
        return L.SSeq(self.n, lambda j: self.pt(j), list)

    def __getattr__(self, n):
        raise Undecided(f"shapes are converted by {n}")


@target("P22", "polygons of any number of corners for the ray tracer", [G + "shapely2crPolygons", G + "sPolygon2crPolygon"], kind="loop", samples=50)
def h(vc):
    n = U.length(vc, "n", 3)
    xs, ys = U.numbers(vc, "x", n), U.numbers(vc, "y", n)
    if not vc.symbolic:
        from .p20_perception import library

        library(vc)
        k = int(n)
        pts = [(math.cos(2 * math.pi * i / k) * (3 + xs[i] / 5), math.sin(2 * math.pi * i / k) * (3 + xs[i] / 5)) for i in range(k)]
        r = geo.shapely2crPolygons(Polygon(pts))
        vc.prove("one polygon", len(r) == 1)
        vc.prove("of the same corners", np.allclose(list(r[0].poly.exterior.coords), pts + pts[:1]))
        return
    vc.loops(G + "sPolygon2crPolygon")
    made = []

    def polygon(vertices, *a):
        made.append((vertices, a))
        return "polygon"

    if not vc.patch(geo.CommonRoadPolygon, polygon):
        raise Undecided("polygons are made in another way")
    last = z3.simplify(L.I(n))
    pt = lambda j: L.pick(L.I(j) == last, lambda: (xs.get(0), ys.get(0)), lambda: (xs.get(L.I(j)), ys.get(L.I(j))))
    r = geo.shapely2crPolygons(Pts(Polygon, last + 1, pt))
    vc.prove("one polygon", r == ["polygon"] and len(made) == 1)
    v = made[0][0]
    if not L.symbolic(v):
        raise Undecided("corners are given in another way")
    v = L.as_seq(v)
    vc.prove("every corner once", L.SBool(v.n == last))
    vc.forall("of the same corners", 0, n, lambda j: vc.eq(list(v.get(L.I(j))), [xs.get(L.I(j)), ys.get(L.I(j))]))


class Thin:
    """the polygon around the segment from point i to point j, or its conversion"""

    def __init__(self, i, j, r=None, done=False):
        self.i, self.j, self.r, self.done = i, j, r, done

    def __vc_equal__(self, o):
        if type(o) is not Thin or o.done != self.done or o.r != self.r:
            return [False]
        return [self.i == o.i, self.j == o.j]

    def __vc_pick__(self, c, o):
        return Thin(z3.If(c, self.i, o.i), z3.If(c, self.j, o.j), self.r, self.done)


@target("P22", "lines of any number of points for the ray tracer", [G + "shapely2crPolygons", G + "sLine2crPolygon"], kind="loop", samples=50)
def h(vc):
    n = U.length(vc, "n", 2)
    if not vc.symbolic:
        from .p20_perception import library

        library(vc)
        pts = [(2.0 * i, vc.real(f"y{i}")) for i in range(int(n))]
        r = geo.shapely2crPolygons(LineString(pts))
        vc.prove("one polygon per segment", len(r) == len(pts) - 1)
        for p, (a, b) in zip(r, zip(pts, pts[1:])):
            vc.prove("around its segment", p.poly.buffer(1e-6).contains(LineString([a, b])) and LineString([a, b]).buffer(0.0201).contains(p.poly))
        return
    nt = z3.simplify(L.I(n))

    class Line(type):
        def __instancecheck__(cls, x):
            return isinstance(x, LineString)

    class NewLine(metaclass=Line):
        def __new__(cls, seg):
            if len(seg) != 2 or not all(isinstance(p, tuple) and len(p) == 2 and all(type(c) is Pick for c in p) for p in seg):
                raise Undecided("segments are made in another way")
            (a, b), (c, d) = seg
            vc.prove("segments join corners", L.SBool(z3.And(a.k == b.k, c.k == d.k)) if (a.axis, b.axis, c.axis, d.axis) == (0, 1, 0, 1) else False)
            return Seg(a.k, c.k)

    class Pick:
        """one coordinate of point k"""

        def __init__(self, axis, k):
            self.axis, self.k = axis, k

    class Seg:
        def __init__(self, i, j):
            self.i, self.j = i, j

        def buffer(self, r, *a, **k):
            if a or k or not 0 < r <= 0.02:
                raise Undecided("segments are made in another way")
            return Thin(self.i, self.j, r)

    class Track(Pts):
        @property
        def xy(self):
            return tuple(L.SSeq(nt, lambda j, ax=ax: Pick(ax, L.I(j)), list) for ax in (0, 1))

        @property
        def coords(self):
            raise Undecided("lines are converted by another way")

    vc.loops(G + "sLine2crPolygon", lambda l, e: L.LoopSpec(vals={"crpolys": lambda k: L.SSeq(k, lambda j: Thin(L.I(j), L.I(j) + 1, 0.01, True), list)}))
    vc.use(G + "sPolygon2crPolygon", lambda p: Thin(p.i, p.j, p.r, True) if type(p) is Thin and not p.done else (_ for _ in ()).throw(Undecided("segments are converted in another way")))
    if not vc.patch(geo.LineString, NewLine):
        raise Undecided("segments are made in another way")
    r = geo.shapely2crPolygons(Track(LineString, nt, None))
    if not L.symbolic(r):
        raise Undecided("lines are converted in another way")
    r = L.as_seq(r)
    vc.prove("one polygon per segment", L.SBool(r.n == nt - 1))
    vc.forall("around its segment", 0, nt - 1, lambda j: L.SBool(L.conj(L.equal(r.get(L.I(j)), Thin(L.I(j), L.I(j) + 1, 0.01, True)))))


@target("P22", "poses and velocities of states", ["dg_commons.sim.models.utils.extract_pose_from_state", "dg_commons.sim.models.utils.extract_vel_from_state",
                                                  "dg_commons.sim.models.utils.extract_2d_position_from_state"], samples=100)
def h(vc):
    from . import common as C

    x, y, th, v = vc.real("x"), vc.real("y"), vc.angle("th"), vc.real("v")
    k = vc.choice("kind", ["theta", "psi"])
    s = NS(x=x, y=y, vx=v, **{k: th})
    vc.prove("pose", vc.eq([list(r) for r in extract_pose_from_state(s)], [list(r) for r in mat(vc, x, y, th)]))
    vc.prove("position", vc.eq(list(extract_2d_position_from_state(s)), [x, y]))
    vc.prove("velocity", vc.eq(extract_vel_from_state(s), v))
    vc.prove("without a heading: refused", vc.raises(ZValueError, lambda: extract_pose_from_state(NS(x=1.0, y=2.0))))
    vc.prove("without a velocity: refused", vc.raises(ZValueError, lambda: extract_vel_from_state(NS(x=1.0, y=2.0))))
    vc.prove("units of speed", vc.And(vc.eq(kmh2ms(v) * 3.6, v), vc.eq(ms2kmh(v), v * 3.6)))
