"""P26 planning goals"""
import math
from fractions import Fraction
from types import SimpleNamespace as NS
import numpy as np
import z3
from shapely.geometry import Polygon, Point, LineString
from pyvc.vc import target, Discard, Undecided
from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons.sim.goals import PolygonGoal, PoseGoal, RefLaneGoal
from dg_commons.sim.models.vehicle import VehicleState
from . import common as C
from . import useqs as U
from .useqs import L
from pyvc.core import Sym

G = "dg_commons.sim.goals."
KINDS = ["vehicle", "pedestrian", "diffdrive", "spacecraft", "rocket"]


def some_state(vc, x, y, psi):
    cls = C.MODELS[vc.choice("type", KINDS)][1]
    return C.mk(vc, cls, "s", x=x, y=y, psi=psi)


@target("P26", "pose goal", [G + "PoseGoal.is_fulfilled"], samples=300)
def h(vc):
    gx, gy, gt = vc.real("gx"), vc.real("gy"), vc.angle("gt")
    tol = None if vc.flag("default") else vc.pos("tol", typ=(1e-3, 5.0))
    x, y, t = vc.real("x"), vc.real("y"), vc.angle("t")
    if not vc.symbolic:
        if vc.flag("close"):
            x, y, t = gx + x / 30, gy + y / 30, gt + t / 20
        if vc.flag("exact"):
            x, y, t = gx, gy, gt + vc.choice("turn", [0, 0, 2 * math.pi])
    st = some_state(vc, x, y, t)
    p = SE2Transform(p=np.array([gx, gy]), theta=gt)
    goal = vc.again("goal", lambda: PoseGoal(p) if tol is None else PoseGoal(p, tol), (gx, gy, gt, tol))
    tol = 1e-7 if tol is None else tol
    ds, dc = vc.sin(t) - vc.sin(gt), vc.cos(t) - vc.cos(gt)
    d2 = (x - gx) * (x - gx) + (y - gy) * (y - gy) + 2 * (ds * ds + dc * dc)
    vc.margin((math.sqrt(d2) if not vc.symbolic else d2, tol if not vc.symbolic else tol))
    if not vc.symbolic and abs(math.sqrt(d2) - tol) < 1e-8:
        raise Discard("borderline")
    r = goal.is_fulfilled(st) if not vc.flag("timed") else goal.is_fulfilled(st, vc.real("at", 0, 10))
    vc.prove("iff position and heading agree within the tolerance", vc.Iff(r, vc.sqrt(d2) <= tol))
    vc.prove("goals stand still", goal.is_static)


@target("P26", "pose goal shape", [G + "PoseGoal.get_plottable_geometry", G + "PoseGoal.goal_pose_poly"], kind="runtime", samples=50, bound="seeded poses")
def h(vc):
    gx, gy, gt = vc.real("gx"), vc.real("gy"), vc.angle("gt")
    g = vc.again("goal", lambda: PoseGoal(SE2Transform(p=np.array([gx, gy]), theta=gt)), (gx, gy, gt)).get_plottable_geometry()
    tip = np.array([gx, gy]) + vc.rot(gt, (0.8, 0))
    vc.prove("an arrow at the goal pose pointing along its heading", g.geom_type == "Polygon" and Point(*tip).distance(Point(*max(
        g.exterior.coords, key=lambda c: math.hypot(c[0] - gx, c[1] - gy)))) < 1e-6 and g.distance(Point(gx, gy)) < 1e-6)


def blob(vc):
    n = vc.choice("corners", [3, 4, 6])
    cx, cy = vc.real("cx"), vc.real("cy")
    return Polygon([(cx + vc.real(f"r{i}", 1, 8) * math.cos(2 * math.pi * i / n), cy + vc.real(f"r{i}", 1, 8) * math.sin(2 * math.pi * i / n)) for i in range(n)]), cx, cy


@target("P26", "area goal", [G + "PolygonGoal.is_fulfilled", G + "PolygonGoal.get_plottable_geometry"], kind="runtime", samples=300, bound="seeded polygons and states")
def h(vc):
    poly, cx, cy = blob(vc)
    x, y = cx + vc.real("dx", -9, 9), cy + vc.real("dy", -9, 9)
    # winding number, independent of shapely
    cs = list(poly.exterior.coords)
    wn = 0.0
    for (ax, ay), (bx, by) in zip(cs, cs[1:]):
        a, b = math.atan2(ay - y, ax - x), math.atan2(by - y, bx - x)
        wn += math.remainder(b - a, 2 * math.pi)
    if poly.exterior.distance(Point(x, y)) < 1e-7:
        raise Discard("on the border")
    goal = vc.again("goal", lambda: PolygonGoal(poly), poly.wkb)
    st = some_state(vc, x, y, vc.angle("psi"))
    vc.prove("iff the position lies in the polygon", bool(goal.is_fulfilled(st, vc.real("at", 0, 5))) == (abs(wn) > 1))
    vc.prove("it is what is plotted", goal.get_plottable_geometry().equals(poly))


def lane(vc):
    """a straight lane"""
    L, w = vc.real("L", 15, 60), [vc.real("w0", 1.5, 3), vc.real("w1", 1.5, 3)]
    p, th = np.array([vc.real("px"), vc.real("py")]), vc.angle("th")
    u, n = np.array([math.cos(th), math.sin(th)]), vc.choice("points", [2, 3, 5])
    ps = [LaneCtrPoint(SE2Transform(p=p + u * (L * i / (n - 1)), theta=th), w[0] + (w[1] - w[0]) * i / (n - 1)) for i in range(n)]
    return vc.again("lane", lambda: DgLanelet(ps), (L, w, list(p), th, n)), L, w, p, th, u


def gate_distance(u, p, at, half, q):
    """distance of q from the line across the lane"""
    d = q - p
    along, across = float(d @ u), float(d @ np.array([-u[1], u[0]]))
    return math.hypot(along - at, max(0.0, abs(across) - half)), along


@target("P26", "lane goal", [G + "RefLaneGoal.is_fulfilled", G + "RefLaneGoal.goal_polygon", G + "_polygon_at_along_lane"], kind="runtime", samples=300,
        bound="seeded straight lanes and states")
def h(vc):
    ln, L, w, p, th, u = lane(vc)
    prog = vc.real("progress", 1.5, L - 1.5) if vc.flag("within") else vc.real("frac", 0.1, 0.9) * L
    if vc.flag("at the very beginning") and vc.flag("really"):
        prog = 0.0
    goal = vc.again("goal", lambda: RefLaneGoal(ln, goal_progress=prog), (id(ln), prog))
    d, lat = prog + vc.real("d", -2.5, 2.5), vc.real("lat", -5, 5)
    q = p + u * d + np.array([-u[1], u[0]]) * lat
    half = w[0] + (w[1] - w[0]) * prog / L
    dist, along = gate_distance(u, p, prog, half, q)
    if abs(dist - 1) < 0.03 or abs(along - prog) < 1e-2:
        raise Discard("borderline")
    st = some_state(vc, q[0], q[1], th + vc.real("dh", -0.5, 0.5))
    want = dist < 1 and along >= prog
    vc.prove("iff within a metre behind the line across the lane at the goal progress", bool(goal.is_fulfilled(st)) == want)
    g = goal.get_plottable_geometry()
    vc.prove("the plotted area surrounds that line", (Point(*q).distance(g) < 1e-9) == (dist < 1))


@target("P26", "end of lane goal", [G + "PolygonGoal.from_DgLanelet"], kind="runtime", samples=200, bound="seeded straight lanes and states")
def h(vc):
    ln, L, w, p, th, u = lane(vc)
    r = None if vc.flag("default") else vc.real("inflation", 0.6, 4)
    goal = vc.again("goal", lambda: PolygonGoal.from_DgLanelet(ln) if r is None else PolygonGoal.from_DgLanelet(ln, inflation_radius=r), (id(ln), r))
    r = 1 if r is None else r
    q = p + u * (L + vc.real("d", -5, 5)) + np.array([-u[1], u[0]]) * vc.real("lat", -6, 6)
    dist, along = gate_distance(u, p, L, w[1], q)
    if abs(dist - r) < 0.15 + 0.03 * r:
        raise Discard("borderline: the line stands up to 0.1 m past the end")
    st = some_state(vc, q[0], q[1], vc.angle("psi"))
    vc.prove("iff near the end of the lane", bool(goal.is_fulfilled(st)) == (dist < r))


class Area:
    """a shape behind the contract of shapely: whether it contains a point depends on the point alone"""

    def __init__(self, vc):
        self.vc, self.asked = vc, []

    def contains(self, p):
        if not isinstance(p, Spot):
            raise Undecided("positions are looked up in another way")
        self.asked.append((p.xy, self.vc.flag(f"inside{len(self.asked)}")))
        return self.asked[-1][1]

    def __getattr__(self, n):
        raise Undecided(f"areas are used by {n}")


class Spot:
    def __init__(self, *a):
        x, y = a if len(a) == 2 else a[0]
        self.xy = [x, y]

    def __getattr__(self, n):
        raise Undecided(f"points are used by {n}")


class Wire:
    """a line whose surroundings are an area (contract of buffer: all points closer than the radius)"""

    def __init__(self, coords):
        self.coords = [list(c) for c in coords]

    def buffer(self, radius=None, **k):
        if k or radius is None:
            raise Undecided("surroundings are built in another way")
        a = Area(Wire.vc)
        a.ends, a.radius = self.coords, radius
        Wire.made.append(a)
        return a

    def __getattr__(self, n):
        raise Undecided(f"lines are used by {n}")


def shapely_stubs(vc):
    Wire.vc, Wire.made = vc, []
    vc.patch(Point, Spot)
    vc.patch(LineString, Wire)


class Road:
    """a lane of any shape, behind its contracts (P21): progress to control point parameter, centre line, half width, position along the lane"""

    def __init__(self, vc, n=None):
        self.vc, self.n, self.poses = vc, n, []
        R = z3.RealSort()
        fs = {k: z3.Function("road." + k, R, R) for k in ("beta", "x", "y", "th", "r")}
        self.f = lambda k, v: Sym(fs[k](L.as_real(v.t if isinstance(v, Sym) else L.I(v))), "float")

    def beta_from_along_lane(self, s):
        return self.f("beta", s)

    def centre(self, b):
        return self.f("x", b), self.f("y", b), self.f("th", b)

    def center_point(self, b):
        x, y, th = self.centre(b)
        c, s = self.vc.cos(th), self.vc.sin(th)
        return np.array([[c, -s, x], [s, c, y], [0, 0, 1]], dtype=object)

    def radius(self, b):
        r = self.f("r", b)
        self.vc.assume(r > 0)
        return r

    def lane_pose_from_SE2_generic(self, q, tol=1e-3):
        self.poses.append((q, self.vc.havoc("along")))
        return NS(along_lane=self.poses[-1][1])

    @property
    def control_points(self):
        return L.SSeq(L.I(self.n), lambda j: Stub(), list)

    def __getattr__(self, n):
        raise Undecided(f"lanes are used by {n}")


class Stub:
    def __getattr__(self, n):
        raise Undecided(f"lanes are used by {n}")


def across(vc, pose, r):
    """the line across a lane at a pose"""
    x, y, th = pose
    c, s = vc.cos(th), vc.sin(th)
    return [x - s * r, y + c * r], [x + s * r, y - c * r]


def same_line(vc, ends, want):
    if len(ends) != 2:
        raise Undecided("lines are drawn in another way")
    return vc.Or(vc.eq(list(ends), [list(w) for w in want]), vc.eq(list(ends)[::-1], [list(w) for w in want]))


@target("P26", "any area goal", [G + "PolygonGoal.is_fulfilled", G + "PolygonGoal.get_plottable_geometry"], samples=60)
def h(vc):
    x, y = vc.real("x"), vc.real("y")
    st = some_state(vc, x, y, vc.angle("psi"))
    at = vc.real("at", 0, 10)
    if vc.symbolic:
        shapely_stubs(vc)
        area = Area(vc)
    else:
        area, cx, cy = blob(vc)
        if area.exterior.distance(Point(x, y)) < 1e-7:
            raise Discard("on the border")
    goal = PolygonGoal(area) if vc.symbolic else vc.again("goal", lambda: PolygonGoal(area), area.wkb)
    r = goal.is_fulfilled(st, at)
    if vc.symbolic:
        if len(area.asked) != 1:
            raise Undecided("positions are looked up in another way")
        xy, inside = area.asked[0]
        vc.prove("asked about the position", vc.eq(xy, [x, y]))
    else:
        inside = area.contains(Point(x, y))
    vc.prove("exactly when the position is inside", vc.Iff(r, inside))
    g = goal.get_plottable_geometry(at)
    vc.prove("it is what is plotted", g is area if vc.symbolic else g.equals(area))
    vc.prove("goals stand still", goal.is_static)


@target("P26", "any lane goal", [G + "RefLaneGoal.is_fulfilled", G + "RefLaneGoal.goal_polygon", G + "RefLaneGoal.get_plottable_geometry", G + "_polygon_at_along_lane"], samples=60)
def h(vc):
    if not vc.symbolic:
        ln, Ln, w, p, th, u = lane(vc)
        prog = 0.0 if vc.flag("at the very beginning") and vc.flag("really") else vc.real("frac", 0.1, 0.9) * Ln
        q = p + u * (prog + vc.real("d", -2.5, 2.5)) + np.array([-u[1], u[0]]) * vc.real("lat", -5, 5)
        dist, along = gate_distance(u, p, prog, w[0] + (w[1] - w[0]) * prog / Ln, q)
        if abs(dist - 1) < 0.03 or abs(along - prog) < 1e-2:
            raise Discard("borderline")
        goal = vc.again("goal", lambda: RefLaneGoal(ln, goal_progress=prog), (id(ln), prog))
        vc.prove("fulfilled exactly around the line and not before the goal progress", bool(goal.is_fulfilled(some_state(vc, q[0], q[1], vc.angle("psi")))) == (dist < 1 and along >= prog))
        return
    shapely_stubs(vc)
    road, prog = Road(vc), vc.real("progress", 0)
    goal = RefLaneGoal(road, goal_progress=prog)
    if vc.flag("plotted before"):
        goal.get_plottable_geometry()
    for k in range(2):
        x, y, psi = vc.real(f"x{k}"), vc.real(f"y{k}"), vc.angle(f"psi{k}")
        for a in Wire.made:
            a.asked.clear()
        road.poses.clear()
        r = goal.is_fulfilled(some_state(vc, x, y, psi), vc.real(f"at{k}", 0, 10))
        asked = [a for a in Wire.made if a.asked]
        if len(asked) > 1 or any(len(a.asked) > 1 for a in asked) or not asked and not road.poses:
            raise Undecided("positions are looked up in another way")
        b = road.beta_from_along_lane(prog)
        inside = beyond = None
        if asked:
            vc.prove("the line across the lane at the goal progress", same_line(vc, asked[0].ends, across(vc, road.centre(b), road.radius(b))))
            vc.prove("and a metre around it", vc.eq(asked[0].radius, 1))
            xy, inside = asked[0].asked[0]
            vc.prove("asked about the position", vc.eq(xy, [x, y]))
        if road.poses:
            q, along = road.poses[-1]
            c, s = vc.cos(psi), vc.sin(psi)
            vc.prove("progress of the own pose", vc.eq([q[0, 2], q[1, 2], q[0, 0], q[1, 0]], [x, y, c, s]))
            beyond = along >= prog
        if inside is not None and beyond is not None:
            vc.prove("exactly around the line and not before the goal progress", vc.Iff(r, vc.And(inside, beyond)))
        else:
            # one answer already decides
            vc.prove("exactly around the line and not before the goal progress", vc.And(vc.Not(inside if beyond is None else beyond), vc.Not(r)))
    g = goal.get_plottable_geometry()
    if not isinstance(g, Area):
        raise Undecided("goals are plotted in another way")
    vc.prove("that is what is plotted", vc.And(same_line(vc, g.ends, across(vc, road.centre(b), road.radius(b))), vc.eq(g.radius, 1)))


@target("P26", "end of any lane", [G + "PolygonGoal.from_DgLanelet", G + "_polygon_at_along_lane"], samples=60)
def h(vc):
    default = vc.flag("default")
    inflation = vc.pos("inflation", typ=(0.6, 4.0))
    kw = {} if default else {"inflation_radius": inflation}
    if not vc.symbolic:
        ln, Ln, w, p, th, u = lane(vc)
        goal = vc.again("goal", lambda: PolygonGoal.from_DgLanelet(ln, **kw), (id(ln), kw))
        r = 1 if default else inflation
        q = p + u * (Ln + vc.real("d", -5, 5)) + np.array([-u[1], u[0]]) * vc.real("lat", -6, 6)
        dist, along = gate_distance(u, p, Ln, w[1], q)
        if abs(dist - r) < 0.15 + 0.03 * r:
            raise Discard("borderline: the line stands up to 0.1 m past the end")
        vc.prove("exactly near the end of the lane", bool(goal.is_fulfilled(some_state(vc, q[0], q[1], vc.angle("psi")))) == (dist < r))
        return
    shapely_stubs(vc)
    n = vc.int("n", 2)
    road = Road(vc, n)
    vc.loops(G + "_polygon_at_along_lane")
    # contract of the lane: past the last control point the centre line goes straight on, by at most a metre in a unit of the parameter
    # (a tenth of a metre on the pinned tree), at the width of the end
    ends = []

    def centre(b):
        d = b - (n - 1)
        if not vc.And(0 <= d, d <= 1):
            raise Undecided("the line stands elsewhere")
        x, y, th = [road.f(k, n - 1) for k in ("x", "y", "th")]
        e = d / 10
        ends.append(d)
        return x + e * vc.cos(th), y + e * vc.sin(th), th

    road.centre = centre
    road.f_r = road.radius
    road.radius = lambda b: road.f_r(n - 1) if vc.And(b >= n - 1) else road.f_r(b)
    goal = PolygonGoal.from_DgLanelet(road, **kw)
    x, y = vc.real("x"), vc.real("y")
    r = goal.is_fulfilled(some_state(vc, x, y, vc.angle("psi")), vc.real("at", 0, 10))
    asked = [a for a in Wire.made if a.asked]
    if len(asked) != 1 or len(asked[0].asked) != 1 or not ends:
        raise Undecided("positions are looked up in another way")
    xy, inside = asked[0].asked[0]
    vc.prove("the line across the end of the lane, at most 0.1 m further", same_line(vc, asked[0].ends, across(vc, centre(n - 1 + ends[0]), road.f_r(n - 1))))
    vc.prove("and the inflation around it", vc.eq(asked[0].radius, 1 if default else inflation))
    vc.prove("asked about the position", vc.eq(xy, [x, y]))
    vc.prove("exactly when the position is inside", vc.Iff(r, inside))


@target("P26", "any pose goal is drawn", [G + "PoseGoal.get_plottable_geometry", G + "PoseGoal.goal_pose_poly"], samples=40)
def h(vc):
    gx, gy, gt = vc.real("gx"), vc.real("gy"), vc.angle("gt")
    goal = vc.again("goal", lambda: PoseGoal(SE2Transform(p=np.array([gx, gy], dtype=object if vc.symbolic else float), theta=gt)), (gx, gy, gt))
    if vc.symbolic:
        from shapely.affinity import affine_transform

        vc.patch(affine_transform, lambda g, k: NS(pts=[[k[0] * p[0] + k[1] * p[1] + k[4], k[2] * p[0] + k[3] * p[1] + k[5]] for p in g.exterior.coords], kind=g.geom_type))
        g = goal.get_plottable_geometry(vc.real("at", 0, 10))
        if not hasattr(g, "pts"):
            raise Undecided("poses are drawn in another way")
        pts = g.pts
        vc.prove("a polygon", g.kind == "Polygon")
    else:
        g = goal.get_plottable_geometry(vc.real("at", 0, 10))
        vc.prove("a polygon", g.geom_type == "Polygon")
        pts = list(g.exterior.coords)
    c, s = vc.cos(gt), vc.sin(gt)
    loc = [(c * (p[0] - gx) + s * (p[1] - gy), c * (p[1] - gy) - s * (p[0] - gx)) for p in pts]
    vc.prove("closed", vc.eq(list(loc[0]), list(loc[-1])))
    tips = [vc.And(vc.eq(a, Fraction(4, 5)), vc.eq(b, 0)) for a, b in loc]
    vc.prove("with its tip ahead of the pose along the heading", vc.Or(*tips))
    vc.prove("nothing reaches as far as the tip but the tip", vc.And(*[vc.Or(t, vc.lt(a, Fraction(4, 5))) for t, (a, b) in zip(tips, loc)]))
    vc.prove("the pose is on it", vc.Or(*[vc.And(vc.eq(a, 0), vc.eq(b, 0)) for a, b in loc]))
    vc.prove("as wide to the left as to the right", vc.And(*[vc.Or(*[vc.And(vc.eq(a, e), vc.eq(b, -f)) for e, f in loc]) for a, b in loc]))
