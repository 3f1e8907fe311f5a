"""P16 impact geometry and accident reports"""
import math
from types import SimpleNamespace as NS
import numpy as np
from shapely.geometry import Polygon, LineString, Point, MultiPoint
import z3
from pyvc.vc import target, Discard, Undecided
from pyvc import loops as L
from pyvc.core import Sym
from . import many as M, useqs as U
from dg_commons.sim import collision_utils as cu
from dg_commons.sim.collision_structures import CollisionReport, CollisionReportPlayer, combine_collision_reports
from zuper_commons.types import ZValueError

K = "dg_commons.sim.collision_utils."


def _box(c, w, h, th):
    u, v = np.array([math.cos(th), math.sin(th)]), np.array([-math.sin(th), math.cos(th)])
    c = np.array(c)
    return Polygon([tuple(c + a * w * u + b * h * v) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))])


@target("P16", "two overlapping bodies", [K + "compute_impact_geometry", K + "_find_intersection_points"], kind="runtime", samples=1200,
        bound="seeded convex bodies and lines in general position")
def h(vc):
    kind = vc.choice("kind", ["box", "triangle", "line"])
    ox, oy = vc.choice("offset", [(0, 0), (40, -30), (-15, 7)])
    a = _box((ox + vc.real("a.x", -2, 2), oy + vc.real("a.y", -2, 2)), vc.real("a.w", 0.5, 3), vc.real("a.h", 0.5, 2), vc.real("a.th", -3, 3))
    c, s, th = (ox + vc.real("b.x", -4, 4), oy + vc.real("b.y", -4, 4)), vc.real("b.w", 0.2, 3), vc.real("b.th", -3, 3)
    if kind == "box":
        b = _box(c, s, vc.real("b.h", 0.2, 2), th)
    elif kind == "triangle":
        b = Polygon([(c[0] + s * math.cos(th + k), c[1] + s * math.sin(th + k)) for k in (0, 2, 4.3)])
    else:
        b = LineString([(c[0] - 4 * s * math.cos(th), c[1] - 4 * s * math.sin(th)), (c[0] + 4 * s * math.cos(th), c[1] + 4 * s * math.sin(th))])
    cross = a.exterior.intersection(b.exterior if kind != "line" else b)
    if not (isinstance(cross, MultiPoint) and len(cross.geoms) == 2):
        raise Discard()
    p, q = [np.array(g.coords[0]) for g in cross.geoms]
    mid, d = (p + q) / 2, q - p
    L = np.linalg.norm(d)
    if L < 1e-3 or a.intersection(b).area < 1e-4 and kind != "line":
        raise Discard()
    corners = [np.array(x) for x in a.exterior.coords[:-1]] + [np.array(x) for x in (b.exterior if kind != "line" else b).coords]
    if min(np.linalg.norm(x - y) for x in corners for y in (p, q)) < 1e-3:
        raise Discard()
    r = mid - np.array(a.centroid.coords[0])
    if abs(r @ np.array([-d[1], d[0]]) / L) < 1e-6:
        raise Discard()
    n, pt = cu.compute_impact_geometry(a, b)
    n = np.array(n, float)
    vc.prove("unit normal", abs(np.linalg.norm(n) - 1) < 1e-9)
    vc.prove("impact point midway between the crossings", np.linalg.norm(np.array(pt.coords[0]) - mid) < 1e-6)
    vc.prove("normal to the contact line", abs(n @ d / L) < 1e-6)
    vc.prove("normal points out of the first body", n @ r > 0)
    if kind != "line" and not b.contains(a) and not a.contains(b):
        r2 = mid - np.array(b.centroid.coords[0])
        if abs(r2 @ n) > 1e-6:
            n2, pt2 = cu.compute_impact_geometry(b, a)
            vc.prove("same impact point seen from the other body", np.linalg.norm(np.array(pt2.coords[0]) - mid) < 1e-6)
            vc.prove("same contact line seen from the other body", abs(abs(n2 @ n) - 1) < 1e-6)


@target("P16", "an obstacle inside the body", [K + "compute_impact_geometry"], kind="runtime", samples=300, bound="seeded obstacles contained in a body")
def h(vc):
    a = _box((vc.real("a.x", -20, 20), vc.real("a.y", -20, 20)), 3, 2, vc.real("a.th", -3, 3))
    ca = np.array(a.centroid.coords[0])
    th, d = vc.real("th", -3, 3), vc.real("d", 0.05, 1.5)
    c = ca + d * np.array([math.cos(th), math.sin(th)])
    b = vc.choice("kind", [_box(c, 0.2, 0.3, th), Point(c).buffer(0.2)])
    vc.assume(a.contains(b))
    n, pt = cu.compute_impact_geometry(a, b)
    vc.prove("impact at the obstacle's centroid", np.linalg.norm(np.array(pt.coords[0]) - c) < 1e-6)
    vc.prove("normal away from the body's centre", np.linalg.norm(np.array(n) - (c - ca) / d) < 1e-5)


class Corner(tuple):
    """the i-th vertex of a shape"""

    def __new__(cls, xy, i):
        c = super().__new__(cls, xy)
        c.i = i
        return c


class _Strict:
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Undecided(f"another operation on a shape: {k}")


class Segment(_Strict):
    """contract of shapely's LineString of two points"""

    def __init__(self, points):
        p, q = points
        self.p, self.q = p, q

    def interpolate(self, d, normalized=False):
        if not normalized or d != 0.5:
            raise Undecided("another point of the contact line")
        return _at((self.p[0] + self.q[0]) / 2, (self.p[1] + self.q[1]) / 2)

    @property
    def centroid(self):
        return self.interpolate(0.5, normalized=True)


def _at(x, y):
    return NS(coords=[(x, y)], x=x, y=y)


class Spot(_Strict):
    """contract of shapely's Point: containment asks for the vertex it was made of"""

    def __init__(self, p, *r):
        if r or not isinstance(p, Corner):
            raise Undecided("a point that is no vertex of the intersection")
        self.i = p.i

    def buffer(self, d):
        if not 0 < d <= 1e-6:
            raise Undecided("another neighbourhood")
        return self


class Body(_Strict):
    def __init__(self, centroid, **k):
        self.centroid = _at(*centroid)
        vars(self).update(k)

    def touches(self, o):
        return False


class Ring(_Strict):
    def __init__(self, coords):
        self.exterior = self
        self.coords = coords

    @property
    def __class__(self):
        return Polygon


class Open(_Strict):
    def __init__(self, coords):
        self.coords = coords

    @property
    def __class__(self):
        return Segment


class Several(_Strict):
    kind = MultiPoint

    @property
    def __class__(self):
        return self.kind


@target("P16", "impact of two bodies, intersections of any number of vertices", [K + "compute_impact_geometry", K + "_find_intersection_points"], kind="loop", samples=300)
def h(vc):
    """what shapely answers about two shapes is arbitrary; exactly two vertices of their intersection lie in neither body"""
    kind = vc.choice("intersection", ["polygon", "line", "several"])
    inside = vc.flag("the other is inside")
    n = 4 if kind == "several" else U.length(vc, "vertices", 3 if kind == "polygon" else 2, 6)
    j1, j2 = vc.int("first outside", 0, None, most=5), vc.int("second outside", 0, None, most=5)
    vc.assume(vc.And(j1 < j2, j2 < n))
    cx, cy, ox, oy = vc.real("a.x"), vc.real("a.y"), vc.real("b.x"), vc.real("b.y")
    if vc.symbolic:
        X, Y = z3.Function("vertex.x", z3.IntSort(), z3.RealSort()), z3.Function("vertex.y", z3.IntSort(), z3.RealSort())
        inA, inB = z3.Function("in the first body", z3.IntSort(), z3.BoolSort()), z3.Function("in the second body too", z3.IntSort(), z3.BoolSort())
        nn = L.I(n)
        wrap = lambda j: z3.simplify(z3.If(j == nn, z3.IntVal(0), j))
        corner = lambda j: Corner((Sym(X(L.I(j))), Sym(Y(L.I(j)))), L.I(j))
        outside = lambda i: z3.Or(i == j1.t, i == j2.t)
        inbody = {"a": lambda i: L.SBool(z3.And(z3.Not(outside(i)), inA(i))), "b": lambda i: L.SBool(z3.And(z3.Not(outside(i)), z3.Or(inB(i), z3.Not(inA(i)))))}
        ring = L.SSeq(nn + 1, lambda j: corner(wrap(j)), list)
        line = L.SSeq(nn, corner, list)
        u = L.uni()
        u.gaps = True
        for t in (j1.t, j1.t + 1, j2.t, j2.t + 1):
            u.touch(t)
    else:
        n = int(n)
        pts = [Corner((vc.rng.uniform(-5, 5), vc.rng.uniform(-5, 5)), i) for i in range(n)]
        both = [vc.rng.choice(["a", "b", "ab"]) for _ in range(n)]
        corner = lambda j: pts[int(j)]
        inbody = {k: (lambda i, k=k: i not in (int(j1), int(j2)) and k in both[i]) for k in "ab"}
        ring, line = pts + pts[:1], list(pts)
    shape = Open(line) if kind == "line" else Ring(ring)
    if kind == "several":
        shape, rectangle = Several(), shape
        shape.minimum_rotated_rectangle = rectangle

    def contains(o):
        if o is b:
            return inside
        if type(o) is not Spot:
            raise Undecided("contains another shape")
        return inbody["a"](o.i)

    def contains_b(o):
        if o is a:
            return False
        if type(o) is not Spot:
            raise Undecided("contains another shape")
        return inbody["b"](o.i)

    b = Body((ox, oy), contains=contains_b)

    def intersection(o):
        if o is not b:
            raise Undecided("intersection with another shape")
        return shape

    a = Body((cx, cy), contains=contains, intersection=intersection)
    b.intersection = lambda o: shape if o is a else intersection(o)
    p, q = corner(j1.t if vc.symbolic else j1), corner(j2.t if vc.symbolic else j2)
    d = (q[0] - p[0], q[1] - p[1])
    dd = d[0] * d[0] + d[1] * d[1]
    vc.assume(dd > (0 if vc.symbolic else 1e-6))
    oo = (ox - cx) * (ox - cx) + (oy - cy) * (oy - cy)
    vc.assume(oo > (0 if vc.symbolic else 1e-6))
    if vc.patch(LineString, Segment) == 0 or vc.patch(Point, Spot) == 0:
        raise Undecided("impact geometry computed with other shapes")
    vc.loops(K + "_find_intersection_points")
    vc.loops(K + "compute_impact_geometry")
    normal, at = cu.compute_impact_geometry(a, b)
    x, y = at.coords[0]
    nx, ny = normal[0], normal[1]
    vc.prove("unit normal", vc.eq(nx * nx + ny * ny, 1, 1e-9))
    if inside:
        vc.prove("an obstacle inside is hit at its centroid", vc.eq([x, y], [ox, oy], 1e-9))
        vc.prove("the normal points from the first body's centre to it", vc.And(vc.eq(nx * (oy - cy), ny * (ox - cx), 1e-6), nx * (ox - cx) + ny * (oy - cy) >= 0))
        return
    vc.prove("impact midway between the two crossings", vc.eq([x, y], [(p[0] + q[0]) / 2, (p[1] + q[1]) / 2], 1e-9))
    vc.prove("normal to the contact line", vc.eq(nx * d[0] + ny * d[1], 0, 1e-6))
    vc.prove("normal points out of the first body", nx * (x - cx) + ny * (y - cy) >= (0 if vc.symbolic else -1e-9))


@target("P16", "velocity of a point of a rigid body", [K + "velocity_of_P_given_A"], samples=100)
def h(vc):
    v, w, r = [vc.real("vx"), vc.real("vy")], vc.real("w"), [vc.real("rx"), vc.real("ry")]
    out = cu.velocity_of_P_given_A(np.array(v), w, np.array(r))
    vc.prove("v + w x r", vc.eq(list(out), [v[0] - w * r[1], v[1] + w * r[0]], 1e-9 if vc.symbolic else 1e-9))


@target("P16", "direction of an impact", [K + "get_impact_point_direction"], samples=100)
def h(vc):
    x, y, psi = vc.real("x"), vc.real("y"), vc.angle("psi")
    d, b = vc.pos("dist", typ=(0.1, 10.0)), vc.angle("bearing")
    vc.assume(vc.And(b > -math.pi, b < math.pi))
    p = NS(x=x + d * vc.cos(b), y=y + d * vc.sin(b))
    out = cu.get_impact_point_direction(NS(x=x, y=y, psi=psi), p)
    vc.prove("angle from the heading to the impact point", vc.And(vc.eq(vc.cos(out + psi), vc.cos(b)), vc.eq(vc.sin(out + psi), vc.sin(b))))


def _report(vc, k, names):
    pl = {p: CollisionReportPlayer(locations=[(f"{p}{k}", k)] * (1 + k % 2), at_fault=vc.flag(f"{p}{k}.fault"), footprint=f"fp{p}{k}",
                                   velocity=([vc.real(f"{p}{k}.v0"), vc.real(f"{p}{k}.v1")], vc.real(f"{p}{k}.w")),
                                   velocity_after=([vc.real(f"{p}{k}.va0"), vc.real(f"{p}{k}.va1")], vc.real(f"{p}{k}.wa")),
                                   energy_delta=vc.real(f"{p}{k}.E")) for p in names}
    return CollisionReport(players=pl, impact_point=f"pt{k}", impact_normal=f"n{k}", at_time=vc.real(f"t{k}"))


@target("P16", "combining two reports", ["dg_commons.sim.collision_structures.combine_collision_reports"], samples=200)
def h(vc):
    names = vc.choice("players", [("a", "b"), ("a",)])
    r1, r2 = _report(vc, 1, names), _report(vc, 2, names[::-1])
    c = combine_collision_reports(r1, r2)
    first, second = (r1, r2) if r1.at_time <= r2.at_time else (r2, r1)
    vc.prove("impact of the earlier one", vc.And(vc.eq(c.at_time, first.at_time), c.impact_point == first.impact_point, c.impact_normal == first.impact_normal))
    vc.prove("players", set(c.players) == set(names))
    for p in names:
        x, f, s = c.players[p], first.players[p], second.players[p]
        vc.prove("velocity before the accident", vc.eq(x.velocity, f.velocity))
        vc.prove("velocity after the accident", vc.eq(x.velocity_after, s.velocity_after))
        vc.prove("energies add up", vc.eq(x.energy_delta, f.energy_delta + s.energy_delta))
        vc.prove("all locations", x.locations == f.locations + s.locations)
        vc.prove("fault and footprint of the earlier one", x.at_fault == f.at_fault and x.footprint == f.footprint)
        vc.prove("reports are left alone", len(r1.players[p].locations) == 2 and len(r2.players[p].locations) == 1)


@target("P16", "combining three reports", ["dg_commons.sim.collision_structures.combine_collision_reports"], samples=200)
def h(vc):
    rs = [_report(vc, k, ("a",)) for k in (1, 2, 3)]
    vc.assume(vc.And(rs[0].at_time < rs[1].at_time, rs[1].at_time < rs[2].at_time))
    l = combine_collision_reports(combine_collision_reports(rs[0], rs[1]), rs[2])
    r = combine_collision_reports(rs[0], combine_collision_reports(rs[1], rs[2]))
    for f in ("velocity", "velocity_after", "energy_delta", "locations", "at_fault", "footprint"):
        vc.prove(f"grouping does not matter: {f}", vc.eq(getattr(l.players["a"], f), getattr(r.players["a"], f)) if f.startswith(("v", "e")) else getattr(l.players["a"], f) == getattr(r.players["a"], f))
    vc.prove("grouping does not matter: impact", vc.And(vc.eq(l.at_time, r.at_time), l.impact_point == r.impact_point))


@target("P16", "reports of different accidents", ["dg_commons.sim.collision_structures.combine_collision_reports"], samples=20)
def h(vc):
    r1, r2 = _report(vc, 1, ("a", "b")), _report(vc, 2, vc.choice("other", [("a",), ("a", "c"), ("a", "b", "c")]))
    vc.prove("cannot be combined", vc.raises((ZValueError, ValueError), lambda: combine_collision_reports(r1, r2)))
