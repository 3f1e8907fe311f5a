"""P21 lanes: parametrization, widths, poses in the lane"""
import math
from fractions import Fraction
import z3
import numpy as np
from types import SimpleNamespace as NS
from pyvc.vc import target, Undecided, Discard
from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint, DgLanePose
from geometry import SE2_from_translation_angle

L = "dg_commons.maps.lanes.DgLanelet."


def wrap(a):
    return math.remainder(a, 2 * math.pi)


def abstract_lane(vc, nmax=4):
    """a lane of n control points with arbitrary positive segment lengths and widths (the lengths' contract: target "length")"""
    n = vc.choice("n", range(2, nmax + 1))
    ls = [vc.real(f"l{i}", lo=0.01, hi=1000, typ=(0.2, 8.0)) for i in range(n - 1)]
    rs = [vc.pos(f"r{i}", typ=(0.5, 3.0)) for i in range(n)]
    lane = DgLanelet([LaneCtrPoint(SE2Transform([7.0 * i, 0.0], 0.0), r) for i, r in enumerate(rs)])
    if not hasattr(DgLanelet, "get_lane_lengths"):
        raise Undecided("lanes do not expose their segment lengths")
    vc.patch_attr(DgLanelet, "get_lane_lengths", lambda self: list(ls))
    return lane, n, ls, rs


def _along(vc, ls, beta):
    """cumulative length, linear on every segment: (condition, value) pairs"""
    out, s = [], 0.0
    for i, l in enumerate(ls):
        out.append((vc.And(i <= beta, beta <= i + 1), s + l * (beta - i)))
        s = s + l
    return out, s


@target("P21", "along lane from beta", [L + "along_lane_from_beta"], kind="bounded", bound="2..4 control points, all lengths", samples=300)
def h(vc):
    lane, n, ls, _ = abstract_lane(vc, 4 if vc.symbolic else 12)
    beta = vc.real("beta", 0, n - 1)
    s = lane.along_lane_from_beta(beta)
    parts, S = _along(vc, ls, beta)
    for i, (c, v) in enumerate(parts):
        vc.prove("linear on every segment", vc.Implies(c, vc.eq(s, v)))
    vc.prove("within the lane", vc.And(vc.le(0, s), vc.le(s, S)))
    vc.prove("starts at zero", vc.eq(lane.along_lane_from_beta(0), 0))
    vc.prove("ends at the length of the lane", vc.And(vc.eq(lane.along_lane_from_beta(n - 1), S), vc.eq(lane.get_lane_length(), S)))


@target("P21", "beta from along lane", [L + "beta_from_along_lane"], kind="bounded", bound="2..4 control points, all lengths", samples=300)
def h(vc):
    lane, n, ls, _ = abstract_lane(vc, 4 if vc.symbolic else 12)
    S = sum(ls[1:], ls[0])
    f = vc.real("f", 0, 1)
    x = f * S
    beta = lane.beta_from_along_lane(x)
    vc.prove("within the lane", vc.And(vc.le(0, beta), vc.le(beta, n - 1)))
    parts, _ = _along(vc, ls, beta)
    vc.prove("the position at that progress", vc.And(*[vc.Implies(c, vc.abs(v - x) <= 1e-6 * (1 + S)) for c, v in parts]))
    k = vc.choice("k", range(n))
    vc.prove("control points", vc.eq(lane.beta_from_along_lane(sum(ls[:k])), k))


@target("P21", "there and back", [L + "beta_from_along_lane", L + "along_lane_from_beta"], kind="bounded", bound="2..3 control points, all lengths", samples=300)
def h(vc):
    lane, n, ls, _ = abstract_lane(vc, 3 if vc.symbolic else 12)
    S = sum(ls[1:], ls[0])
    x = vc.real("f", 0, 1) * S
    vc.prove("along lane is recovered", vc.abs(lane.along_lane_from_beta(lane.beta_from_along_lane(x)) - x) <= 1e-6 * (1 + S))
    b = vc.real("beta", 0, n - 1)
    vc.prove("progress is recovered", vc.abs(lane.beta_from_along_lane(lane.along_lane_from_beta(b)) - b) <= 1e-4 * (1 + S))
    a, c = vc.real("a", -3, 1) , vc.pos("c", typ=(0.01, 3.0))
    vc.prove("before the lane stays before", vc.Implies(a < 0, vc.And(vc.lt(lane.beta_from_along_lane(a), 0), vc.lt(lane.along_lane_from_beta(a), 0))))
    vc.prove("after the lane stays after", vc.And(vc.Or(c <= 1e-7, vc.lt(n - 1, lane.beta_from_along_lane(S + c))), vc.lt(S, lane.along_lane_from_beta(n - 1 + c))))


@target("P21", "half width", [L + "radius"], kind="bounded", bound="2..4 control points, all widths", samples=300)
def h(vc):
    lane, n, _, rs = abstract_lane(vc, 4 if vc.symbolic else 12)
    beta = vc.real("beta", -2, n + 1)
    r = lane.radius(beta)
    vc.prove("held before", vc.Implies(beta <= 0, vc.eq(r, rs[0])))
    vc.prove("held after", vc.Implies(beta >= n - 1, vc.eq(r, rs[-1])))
    for i in range(n - 1):
        vc.prove("linear between control points", vc.Implies(vc.And(i <= beta, beta <= i + 1), vc.eq(r, rs[i] + (rs[i + 1] - rs[i]) * (beta - i))))


@target("P21", "pose in the lane", [L + "lane_pose"], samples=400)
def h(vc):
    """beta_from_along_lane, radius, center_point behind their contracts: any progress, any width, any centre"""
    n = 3
    lane = DgLanelet([LaneCtrPoint(SE2Transform([7.0 * i, 0.0], 0.0), 1.0) for i in range(n)])
    r, S, beta, d, lat = vc.pos("r", typ=(0.5, 4.0)), vc.pos("S", typ=(1.0, 60.0)), vc.real("beta"), vc.real("along", typ=(-10.0, 70.0)), vc.real("lateral", typ=(-6.0, 6.0))
    th = vc.real("heading", -math.pi, math.pi)
    ctr = SE2_from_translation_angle([3.0, -2.0], 0.4)
    calls = []

    def contract(name, val):
        def f(self, *a):
            calls.append((name,) + a)
            return val

        return f

    for nm, v in (("beta_from_along_lane", beta), ("radius", r), ("center_point", ctr), ("get_lane_length", S), ("get_lane_lengths", [S / 2, S / 2])):
        if not hasattr(DgLanelet, nm):
            raise Undecided(nm)
        vc.patch_attr(DgLanelet, nm, contract(nm, v))
    p = lane.lane_pose(along_lane=d, relative_heading=th, lateral=lat)
    if not {c[0] for c in calls} >= {"beta_from_along_lane", "radius", "center_point"}:
        raise Undecided("computed in another way")
    vc.prove("evaluated at that position", all(vc.eq(c[1], d if c[0] == "beta_from_along_lane" else beta) is not False for c in calls if len(c) > 1))
    vc.prove("as given", vc.And(vc.eq(p.along_lane, d), vc.eq(p.lateral, lat), vc.eq(p.relative_heading, th)))
    vc.prove("lateral_inside", vc.Iff(p.lateral_inside, vc.And(-r <= lat, lat <= r)))
    vc.prove("outside_left", vc.Iff(p.outside_left, lat > r))
    vc.prove("outside_right", vc.Iff(p.outside_right, lat < -r))
    vc.prove("along_before", vc.Iff(p.along_before, d < 0))
    vc.prove("along_inside", vc.Implies(vc.And(0 <= d, d < S), p.along_inside))
    vc.prove("not along_inside off the lane", vc.Implies(vc.Or(d < 0, d > S), vc.Not(p.along_inside)))
    vc.prove("along_after", vc.Iff(p.along_after, d > S))
    vc.prove("inside", vc.Iff(p.inside, vc.And(p.lateral_inside, p.along_inside)))
    vc.prove("distances", vc.And(vc.eq(p.distance_from_left, vc.abs(r - lat)), vc.eq(p.distance_from_right, vc.abs(r + lat)), vc.eq(p.distance_from_center, vc.abs(lat))))
    vc.prove("boundaries", vc.And(vc.eq(p.lateral_left, r), vc.eq(p.lateral_right, -r)))
    vc.margin((vc.abs(th), math.pi / 2))
    vc.prove("direction", vc.Iff(p.correct_direction, vc.abs(th) <= np.pi / 2))
    c = p.center_point
    vc.prove("centre", vc.eq((c.p[0], c.p[1], c.theta), (3.0, -2.0, 0.4)))


# ---------------------------------------------------------------------------- geometry of concrete lanes
def lane(vc, nmax=9, curv=0.06, name="lane"):
    """a gently curved lane: arcs between unevenly spaced control points"""
    n = vc.choice(name + ".n", range(2, nmax))
    sp = vc.choice(name + ".spacing", [1.0, 4.0, 10.0])
    x, th, k = np.array([vc.real(name + ".x", -50, 50), vc.real(name + ".y", -50, 50)]), vc.real(name + ".th", -3.14, 3.14), vc.real(name + ".k", -curv, curv)
    pts = []
    for i in range(n):
        pts.append(LaneCtrPoint(SE2Transform(x, wrap(th)), vc.real(f"{name}.r{i}", 1.2, 2.5)))
        d = sp * vc.real(f"{name}.d{i}", 0.5, 1.5)
        x = x + d * np.array([math.cos(th), math.sin(th)]) if abs(k) < 1e-9 else x + np.array([math.sin(th + k * d) - math.sin(th), math.cos(th) - math.cos(th + k * d)]) / k
        th += k * d
        k = min(curv, max(-curv, k + vc.real(f"{name}.dk{i}", -curv / 3, curv / 3)))
    return vc.again(name, lambda: DgLanelet(pts), tuple((*q.q.p, q.q.theta, q.r) for q in pts)), pts


def arc(q0, q1, a):
    """the point at fraction a of the constant-curvature arc from q0 to q1: position, heading, length of the arc"""
    d = wrap(q1.theta - q0.theta)
    c, s = math.cos(q0.theta), math.sin(q0.theta)
    v = q1.p - q0.p
    lx, ly = c * v[0] + s * v[1], -s * v[0] + c * v[1]
    if abs(d) < 1e-7:
        vx, vy = lx, ly
    else:
        A, B = math.sin(d) / d, (1 - math.cos(d)) / d
        vx, vy = (A * lx + B * ly) / (A * A + B * B), (A * ly - B * lx) / (A * A + B * B)
    e = a * d
    if abs(e) < 1e-7:
        px, py = a * vx, a * vy
    else:
        px, py = (math.sin(e) * vx - (1 - math.cos(e)) * vy) / d, ((1 - math.cos(e)) * vx + math.sin(e) * vy) / d
    return q0.p + np.array([c * px - s * py, s * px + c * py]), q0.theta + e, math.hypot(vx, vy)


def _pose(q):
    return np.array([q[0, 2], q[1, 2]]), math.atan2(q[1, 0], q[0, 0])


@target("P21", "centre line", [L + "center_point", L + "center_point_fast_SE2Transform"], kind="runtime", samples=500, bound="seeded lanes")
def h(vc):
    ln, pts = lane(vc)
    n = len(pts)
    beta = float(vc.choice("k", range(n))) if vc.flag("at") else vc.real("beta", 0, n - 1)
    i = min(int(beta), n - 2)
    p, th, _ = arc(pts[i].q, pts[i + 1].q, beta - i)
    x, h_ = _pose(ln.center_point(beta))
    vc.prove("on the arc between the control points", np.linalg.norm(x - p) < 1e-6 and abs(wrap(h_ - th)) < 1e-6)
    f = ln.center_point_fast_SE2Transform(beta)
    chord = pts[i].q.p + (pts[i + 1].q.p - pts[i].q.p) * (beta - i)
    vc.prove("fast: on the chord", np.linalg.norm(f.p - chord) < 1e-6)
    vc.prove("fast: heading turns the short way", abs(wrap(f.theta - th)) < 1e-6)
    b = vc.real("before", -20, -0.01)
    for q in (ln.center_point(b), ln.center_point_fast_SE2Transform(b).as_SE2()):
        x, h_ = _pose(q)
        u = np.array([math.cos(pts[0].q.theta), math.sin(pts[0].q.theta)])
        vc.prove("straight on before the start", abs(wrap(h_ - pts[0].q.theta)) < 1e-6 and (x - pts[0].q.p) @ u < 0 and abs(u[0] * (x - pts[0].q.p)[1] - u[1] * (x - pts[0].q.p)[0]) < 1e-6)
    for q in (ln.center_point(n - 1 - b), ln.center_point_fast_SE2Transform(n - 1 - b).as_SE2()):
        x, h_ = _pose(q)
        u = np.array([math.cos(pts[-1].q.theta), math.sin(pts[-1].q.theta)])
        vc.prove("straight on after the end", abs(wrap(h_ - pts[-1].q.theta)) < 1e-6 and (x - pts[-1].q.p) @ u > 0 and abs(u[0] * (x - pts[-1].q.p)[1] - u[1] * (x - pts[-1].q.p)[0]) < 1e-6)


@target("P21", "length", [L + "get_lane_lengths", L + "get_lane_length"], kind="runtime", samples=300, bound="seeded lanes")
def h(vc):
    ln, pts = lane(vc)
    ex = [arc(a.q, b.q, 0)[2] for a, b in zip(pts, pts[1:])]
    vc.prove("arc length of every segment", np.allclose(ln.get_lane_lengths(), ex, atol=1e-6))
    vc.prove("total", abs(ln.get_lane_length() - sum(ex)) < 1e-6)
    ln2, pts2 = lane(vc, name="other")
    vc.prove("every lane has its own length", abs(ln2.get_lane_length() - sum(arc(a.q, b.q, 0)[2] for a, b in zip(pts2, pts2[1:]))) < 1e-6)
    vc.prove("reading changes nothing", np.allclose(ln.get_lane_lengths(), ex, atol=1e-6) and len(ln.get_control_points()) == len(pts))


@target("P21", "a pose placed in a lane is found there", [L + "lane_pose_from_SE2_generic", L + "lane_pose_from_SE2Transform", L + "find_along_lane_closest_point",
                                                          L + "find_along_lane_closest_point_fast", L + "along_lane_from_T2value", L + "is_inside_from_T2value"],
        kind="runtime", samples=400, bound="seeded gently curved lanes, positions up to 3 m off the centre line, any heading")
def h(vc):
    ln, pts = lane(vc)
    n = len(pts)
    beta, lat, hd = vc.real("beta", 0.02, 0.98) * (n - 1), vc.real("lateral", -3, 3), vc.real("heading", -3.1, 3.1)
    i = min(int(beta), n - 2)
    p, th, _ = arc(pts[i].q, pts[i + 1].q, beta - i)
    s = sum(arc(a.q, b.q, 0)[2] for a, b in zip(pts[:i], pts[1 : i + 1])) + arc(pts[i].q, pts[i + 1].q, 0)[2] * (beta - i)
    pos = p + lat * np.array([-math.sin(th), math.cos(th)])
    r = pts[i].r + (pts[i + 1].r - pts[i].r) * (beta - i)
    if abs(abs(lat) - r) < 0.1:
        raise Discard()
    S = ln.get_lane_length()
    tol = 0.05 + 5e-3 * S
    q = SE2_from_translation_angle(pos, th + hd)
    for lp in (ln.lane_pose_from_SE2_generic(q), ln.lane_pose_from_SE2Transform(SE2Transform(pos, th + hd))):
        vc.prove("position along the lane", abs(lp.along_lane - s) < tol)
        vc.prove("lateral position, positive to the left", abs(lp.lateral - lat) < 0.05)
        vc.prove("heading relative to the lane", abs(wrap(lp.relative_heading - hd)) < 0.05)
        vc.prove("inside exactly within the boundaries", bool(lp.inside) == (abs(lat) < r) and bool(lp.outside_left) == (lat > r) and bool(lp.outside_right) == (lat < -r))
        if abs(abs(hd) - math.pi / 2) > 0.06:
            vc.prove("direction", bool(lp.correct_direction) == (abs(hd) < math.pi / 2))
    vc.prove("along lane of a position", abs(ln.along_lane_from_T2value(pos) - s) < tol)
    x, h_ = _pose(ln.find_along_lane_closest_point(pos)[1])
    vc.prove("closest point", np.linalg.norm(x - p) < tol and abs(wrap(h_ - th)) < 0.05)
    q0, q1 = pts[i].q, pts[i + 1].q  # the inside test works on the chords
    if abs(abs(lat) - r) > 0.1 + np.linalg.norm(q0.p + (q1.p - q0.p) * (beta - i) - p):
        vc.prove("inside test", bool(ln.is_inside_from_T2value(pos)) == (abs(lat) < r))
    if max(np.linalg.norm(b.q.p - a.q.p) for a, b in zip(pts, pts[1:])) < 2:
        x, h_ = _pose(ln.find_along_lane_closest_point_fast(pos)[1])
        vc.prove("fast closest point", np.linalg.norm(x - p) < tol + 0.1 and abs(wrap(h_ - th)) < 0.1)
        vc.prove("fast along lane", abs(ln.along_lane_from_T2value(pos, fast=True) - s) < tol + 0.1)


@target("P21", "beyond the ends", [L + "lane_pose_from_SE2_generic"], kind="runtime", samples=200, bound="seeded gently curved lanes")
def h(vc):
    ln, pts = lane(vc)
    d, lat = vc.real("d", 0.3, 5), vc.real("lateral", -2, 2)
    k = vc.choice("end", [0, -1])
    q = pts[k].q
    pos = q.p + (-d if k == 0 else d) * np.array([math.cos(q.theta), math.sin(q.theta)]) + lat * np.array([-math.sin(q.theta), math.cos(q.theta)])
    lp = ln.lane_pose_from_SE2_generic(SE2_from_translation_angle(pos, q.theta))
    vc.prove("not inside", not lp.inside and not lp.along_inside)
    vc.prove("before or after", bool(lp.along_before) == (k == 0) and bool(lp.along_after) == (k == -1))
    vc.prove("lateral", abs(lp.lateral - lat) < 0.05)
    vc.prove("inside test", not ln.is_inside_from_T2value(pos))


@target("P21", "lanes from boundaries", [L + "from_vertices", L + "from_commonroad_lanelet"], samples=200, kind="bounded", bound="2 vertices, all positions")
def h(vc):
    n = 2 if vc.symbolic else vc.choice("n", [2, 3, 6])
    arr = lambda rows: np.array(rows, dtype=object if vc.symbolic else float)
    l, r, c = [[(vc.real(f"{k}{i}x"), vc.real(f"{k}{i}y")) for i in range(n)] for k in "lrc"]
    for a, b in zip(l, r):
        vc.assume(vc.Or(vc.abs(a[0] - b[0]) > 1e-3, vc.abs(a[1] - b[1]) > 1e-3))
    if vc.symbolic:
        ln = DgLanelet.from_vertices(left_vertices=arr(l), right_vertices=arr(r), center_vertices=arr(c))
    else:
        ln = DgLanelet.from_commonroad_lanelet(NS(left_vertices=arr(l), right_vertices=arr(r), center_vertices=arr(c)))
    vc.prove("one control point per vertex", len(ln.control_points) == n)
    for i, cp in enumerate(ln.control_points):
        vc.prove("on the centre vertices", vc.eq((cp.q.p[0], cp.q.p[1]), c[i]))
        dx, dy = l[i][0] - r[i][0], l[i][1] - r[i][1]
        vc.prove("half the distance between the boundaries", vc.And(vc.eq(4 * cp.r * cp.r, dx * dx + dy * dy, 1e-5), vc.le(0, cp.r)))
        s, k = vc.sin(cp.q.theta), vc.cos(cp.q.theta)
        vc.prove("left boundary to the left, perpendicular to the heading", vc.And(vc.eq(-s * 2 * cp.r, dx, 1e-5), vc.eq(k * 2 * cp.r, dy, 1e-5)))


@target("P21", "outline", [L + "lane_profile"], kind="runtime", samples=200, bound="seeded lanes, 2..6 points per segment")
def h(vc):
    ln, pts = lane(vc)
    n = len(pts)
    m = vc.choice("per", [2, 5, 6]) * (n - 1)
    if vc.flag("asked before"):  # an outline of another resolution asked for earlier
        ln.lane_profile(points_per_segment=vc.choice("before", [3, 5, 7])) if vc.flag("explicit") else ln.lane_profile()
    pr = [np.array(x) for x in (ln.lane_profile(points_per_segment=m // (n - 1)))]
    vc.prove("right boundary forth, left boundary back", len(pr) == 2 * m)
    for j in range(m):
        b = (n - 1) * j / (m - 1)
        i = min(int(b), n - 2)
        p, th, _ = arc(pts[i].q, pts[i + 1].q, b - i)
        r = pts[i].r + (pts[i + 1].r - pts[i].r) * (b - i)
        u = r * np.array([-math.sin(th), math.cos(th)])
        vc.prove("right boundary", np.linalg.norm(pr[j] - (p - u)) < 1e-5)
        vc.prove("left boundary", np.linalg.norm(pr[2 * m - 1 - j] - (p + u)) < 1e-5)


# ---------------------------------------------------------------------------- any number of control points
from . import useqs as U
from .useqs import L as W


class _Ctr:
    """a control point: half width r, centre q"""

    def __init__(self, i, r, q=None):
        self.i, self.r, self.q = i, r, q


class AnyLane:
    """a lane of any number n of control points: l(i) the length of segment i (contract of get_lane_lengths, target "lengths"), r(i) half
    widths, at(k) the position along the lane of control point k"""

    def __init__(self, vc, nmin=2, poses=False):
        self.vc = vc
        self.n = n = U.length(vc, "n", nmin, 12)
        self.ls = U.numbers(vc, "l", n - 1, typ=(0.2, 8.0), pytype=list)
        self.rs = U.numbers(vc, "r", n, typ=(0.5, 3.0))
        if vc.symbolic:
            W.uni().add(W.All(0, n - 1, lambda j: self.ls.get(j).t >= z3.RealVal("0.01")))
            W.uni().add(W.All(0, n, lambda j: self.rs.get(j).t > 0))
        mk = lambda i: _Ctr(i, self.r(i))
        self.lane = DgLanelet([])
        if "control_points" not in vars(self.lane):
            raise Undecided("lanes keep no control points")
        if vc.symbolic:
            W.install(__import__("sys").modules[DgLanelet.__module__])
            self.lane.control_points = W.SSeq(W.I(n), lambda j: mk(W.Sym(j, "int")), list)
        else:
            vc.assume(vc.And(*[l >= 0.01 for l in self.ls], *[r > 0 for r in self.rs]))
            self.lane.control_points = [LaneCtrPoint(SE2Transform([7.0 * i, 0.0], 0.0), self.r(i)) for i in range(int(n))]
        if not hasattr(DgLanelet, "get_lane_lengths"):
            raise Undecided("lanes do not expose their segment lengths")
        ls = self.ls
        vc.patch_attr(DgLanelet, "get_lane_lengths", lambda self: ls.copy_() if vc.symbolic else list(ls))
        self.sums = U.Running(vc, n - 1, self.l)

    def l(self, i):
        return self.ls.get(W.I(i)) if self.vc.symbolic else self.ls[int(i)]

    def r(self, i):
        return self.rs.get(W.I(i)) if self.vc.symbolic else self.rs[int(i)]

    def at(self, k):
        return self.sums.upto(k)

    def segment(self, name="i"):
        i = self.vc.int(name, 0, None, most=int(self.n) - 2 if not self.vc.symbolic else None)
        self.vc.assume(i <= self.n - 2)
        if self.vc.symbolic:
            W.uni().touch(i.t)
            W.uni().touch(z3.simplify(i.t + 1))
        return i


@target("P21", "along lane from beta, any number of control points", [L + "along_lane_from_beta", L + "get_lane_length"], kind="loop", samples=300)
def h(vc):
    a = AnyLane(vc)
    if vc.symbolic:
        vc.loops(L + "along_lane_from_beta")
    i = a.segment()
    f = vc.real("f", 0, 1)
    x = a.lane.along_lane_from_beta(i + f)
    vc.prove("linear on every segment", vc.eq(x, a.at(i) + a.l(i) * f))
    vc.prove("starts at zero", vc.eq(a.lane.along_lane_from_beta(0), 0))
    S = a.at(a.n - 1)
    vc.prove("ends at the length of the lane", vc.And(vc.eq(a.lane.along_lane_from_beta(a.n - 1), S), vc.eq(a.lane.get_lane_length(), S)))
    c = vc.pos("c", typ=(0.01, 3.0))
    vc.prove("before the lane stays before", vc.lt(a.lane.along_lane_from_beta(-c), 0))
    vc.prove("after the lane stays after", vc.lt(S, a.lane.along_lane_from_beta(a.n - 1 + c)))


@target("P21", "beta from along lane, any number of control points", [L + "beta_from_along_lane"], kind="loop", samples=300)
def h(vc):
    a = AnyLane(vc)
    if vc.symbolic:
        x0 = {}

        def inv(k, env):
            return [vc.And(a.at(k) <= x0["x"])]

        def spec(l, env):
            return W.LoopSpec(inv=inv)

        vc.loops(L + "beta_from_along_lane", {0: spec})
        U.rising(vc, a.sums, a.n - 1, a.l, Fraction(1, 100))
    i = a.segment()
    f = vc.real("f", 0, 1)
    x = a.at(i) + a.l(i) * f
    if vc.symbolic:
        x0["x"] = x
    b = a.lane.beta_from_along_lane(x)
    tol = 1e-6 if vc.symbolic else 1e-4
    vc.prove("the progress at that position", vc.abs(b - (i + f)) <= tol + 1e-6 * (1 + a.at(a.n - 1)))


@target("P21", "half width, any number of control points", [L + "radius"], kind="loop", samples=300)
def h(vc):
    a = AnyLane(vc)
    i, f, c = a.segment(), vc.real("f", 0, 1), vc.pos("c", typ=(0.01, 3.0))
    vc.prove("linear between control points", vc.eq(a.lane.radius(i + f), a.r(i) + (a.r(i + 1) - a.r(i)) * f))
    vc.prove("held before", vc.eq(a.lane.radius(-c), a.r(0)))
    vc.prove("held after", vc.And(vc.eq(a.lane.radius(a.n - 1 + c), a.r(a.n - 1)), vc.eq(a.lane.radius(a.n - 1), a.r(a.n - 1))))


class PosedLane(AnyLane):
    """a lane of any number of control points anywhere"""

    def __init__(self, vc):
        super().__init__(vc)
        n = self.n
        nums = lambda k, typ: U.numbers(vc, k, n, typ=typ)
        self.xs, self.ys, self.ths = nums("x", (-30.0, 30.0)), nums("y", (-30.0, 30.0)), nums("th", (-3.1, 3.1))
        get = (lambda s, i: s.get(W.I(i))) if vc.symbolic else (lambda s, i: s[int(i)])
        self.pose = lambda i: (get(self.xs, i), get(self.ys, i), get(self.ths, i))
        def mk(i):
            x, y, th = self.pose(i)
            return _Ctr(i, self.r(i), SE2Transform(np.array([x, y], dtype=object if vc.symbolic else float), th))
        self.lane.control_points = W.SSeq(W.I(n), lambda j: mk(W.Sym(j, "int")), list) if vc.symbolic else [mk(i) for i in range(int(n))]

    def is_pose(self, q, i, ahead=0.0):
        """the matrix q is the pose of control point i"""
        vc, (x, y, th) = self.vc, self.pose(i)
        c, s = vc.cos(th), vc.sin(th)
        return vc.And(*[vc.eq(a, b) for a, b in ((q[0, 2], x), (q[1, 2], y), (q[0, 0], c), (q[0, 1], -s), (q[1, 0], s), (q[1, 1], c))])

    def straight_ahead(self, q, i):
        vc, (x, y, th) = self.vc, self.pose(i)
        c, s = vc.cos(th), vc.sin(th)
        dx, dy = q[0, 2] - x, q[1, 2] - y
        return vc.And(vc.eq(q[0, 0], c), vc.eq(q[1, 0], s), vc.eq(c * dy - s * dx, 0), c * dx + s * dy > 1e-6)


def _interpolation(vc):
    """SE2_interpolate behind its contract (P22): records what is interpolated"""
    import dg_commons.maps.lanes as M

    calls = []

    def interpolate(q0, q1, alpha):
        calls.append((q0, q1, alpha))
        return ("interpolated", len(calls) - 1)

    f = getattr(M, "SE2_interpolate", None)
    if f is None or vc.patch(f, interpolate) == 0:
        raise Undecided("centre points are interpolated in another way")

    def at(lane, beta):
        r = lane.center_point(beta)
        if not (isinstance(r, tuple) and r[0] == "interpolated"):
            raise Undecided("centre points are interpolated in another way")
        return calls[r[1]]

    return at


@target("P21", "centre line, any number of control points", [L + "center_point"], kind="loop", samples=200)
def h(vc):
    a = PosedLane(vc)
    at = _interpolation(vc)
    i, f, c = a.segment(), vc.real("f", 0, 1), vc.pos("c", typ=(0.01, 3.0))
    q0, q1, al = at(a.lane, i + f)
    if f < 1:
        vc.prove("between the control points around it", vc.And(a.is_pose(q0, i), vc.eq(al, f), a.is_pose(q1, i + 1)))
    else:
        vc.prove("at the next control point", vc.And(a.is_pose(q0, i + 1), vc.eq(al, 0)))
    q0, q1, al = at(a.lane, -c)
    vc.prove("straight on before the start", vc.And(a.is_pose(q0, 0), a.straight_ahead(q1, 0), al < 0))
    q0, q1, al = at(a.lane, a.n - 1 + c)
    vc.prove("straight on after the end", vc.And(a.is_pose(q0, a.n - 1), a.straight_ahead(q1, a.n - 1), al > 0))


@target("P21", "straight centre line, any number of control points", [L + "center_point_fast_SE2Transform"], kind="loop", samples=200)
def h(vc):
    a = PosedLane(vc)
    part = vc.choice("part", ["chord", "control point", "turn", "before", "after"])
    if part in ("chord", "control point", "turn"):
        i = a.segment()
        (x0, y0, t0), (x1, y1, t1) = a.pose(i), a.pose(i + 1)
    if part == "control point":
        vc.assume(i <= a.n - 3)
        q = a.lane.center_point_fast_SE2Transform(i + 1)
        vc.prove("at the control point", vc.And(vc.eq(q.p[0], x1), vc.eq(q.p[1], y1), vc.eq(q.theta, t1)))
    elif part in ("chord", "turn"):
        f = vc.real("f", 0, 1)
        vc.assume(f < 1)
        q = a.lane.center_point_fast_SE2Transform(i + f)
        if part == "chord":
            vc.prove("on the chord", vc.And(vc.eq(q.p[0], x0 + (x1 - x0) * f), vc.eq(q.p[1], y0 + (y1 - y0) * f)))
        else:
            # the shorter way around to a heading that differs from the next one by full turns
            vc.margin((vc.abs(t1 - t0), math.pi))
            d = t1 - t0
            full = vc.int("turns", None, None, most=2)
            vc.assume(vc.And(-math.pi < d - 2 * math.pi * full, d - 2 * math.pi * full < math.pi))
            vc.prove("the shorter way around", vc.eq(q.theta, t0 + (d - 2 * math.pi * full) * f))
    else:
        k, sg = (0, -1) if part == "before" else (a.n - 1, 1)
        c = vc.pos("c", typ=(0.01, 3.0))
        x, y, th = a.pose(k)
        co, s = vc.cos(th), vc.sin(th)
        if vc.symbolic:
            m = vc.choice("turns", [-1, 0, 1])

            def from_SE2(q):
                """the pose of a matrix: its translation and its angle (up to full turns)"""
                vc.prove("straight on", a.straight_ahead(q, k))
                return SE2Transform(np.array([q[0, 2], q[1, 2]], dtype=object), th + 2 * math.pi * m)

            vc.patch_attr(SE2Transform, "from_SE2", staticmethod(from_SE2))
        q = a.lane.center_point_fast_SE2Transform(sg * c + k)
        dx, dy = q.p[0] - x, q.p[1] - y
        vc.prove("straight on beyond the ends", vc.And(vc.eq(vc.sin(q.theta), s), vc.eq(vc.cos(q.theta), co), vc.eq(co * dy - s * dx, 0), sg * (co * dx + s * dy) > 0))


@target("P21", "lengths, any number of control points", [L + "get_lane_lengths"], kind="loop", samples=200)
def h(vc):
    import dg_commons.maps.lanes as M

    if not hasattr(DgLanelet, "get_lane_lengths"):
        raise Undecided("lanes do not expose their segment lengths")
    orig = vars(DgLanelet)["get_lane_lengths"]
    a = PosedLane(vc)
    vc.patch_attr(DgLanelet, "get_lane_lengths", orig)
    calls = []

    def distance(q0, q1, *r):
        calls.append((q0, q1))
        i = pending[0] if vc.symbolic else len(calls) - 1
        vc.prove("between consecutive control points", vc.And(a.is_pose(q0, i), a.is_pose(q1, i + 1)))
        return a.l(i)

    if vc.patch(M.get_distance_SE2, distance) == 0:
        raise Undecided("lengths are computed in another way")
    pending = [None]
    if vc.symbolic:
        def spec(l, env):
            def inv(k, env):
                if l.case == "step":
                    pending[0] = W.Sym(l.k, "int")
                return []

            return W.LoopSpec(vals={"res": lambda k: W.SSeq(W.I(k), lambda j: a.ls.get(j), list)}, inv=inv)

        vc.loops(L + "get_lane_lengths", {0: spec})
    r = a.lane.get_lane_lengths()
    if vc.symbolic:
        r = W.as_seq(r)
        W.prove("one length per segment", [W.SBool(r.n == W.I(a.n) - 1)])
        vc.forall("the distance of its ends", 0, a.n - 1, lambda j: vc.eq(r.get(W.I(j)), a.l(j)))
    else:
        vc.prove("one length per segment", len(r) == a.n - 1)
        vc.prove("the distance of its ends", all(vc.eq(x, a.l(j)) for j, x in enumerate(r)))


def _probe(vc, names):
    for nm, f in names.items():
        if not hasattr(DgLanelet, nm):
            raise Undecided(nm)
        vc.patch_attr(DgLanelet, nm, f)


@target("P21", "pose relative to the closest point", [L + "lane_pose_from_SE2_generic", L + "lane_pose_from_SE2Transform"], samples=300, norm=True)
def h(vc):
    """the closest point, the position along the lane and the verdict (lane_pose) behind their contracts"""
    x, y, th = vc.real("x"), vc.real("y"), vc.real("th", -3.1, 3.1)
    x0, y0, th0, beta, along = vc.real("x0"), vc.real("y0"), vc.real("th0", -3.1, 3.1), vc.real("beta"), vc.real("along")
    seen, ret = [], object()
    near = lambda p: vc.And(vc.eq(p[0], x), vc.eq(p[1], y))

    def closest(self, p, *a, **k):
        vc.prove("the closest point to that position", near(p))
        return beta, SE2_from_translation_angle([x0, y0], th0)

    def along_(self, b):
        vc.prove("the position along the lane of the closest point", vc.eq(b, beta))
        return along

    def verdict(self, along_lane, relative_heading, lateral):
        seen.append((along_lane, relative_heading, lateral))
        return ret

    _probe(vc, {"find_along_lane_closest_point": closest, "along_lane_from_beta": along_, "lane_pose": verdict})
    lane_ = DgLanelet([])
    which = vc.flag("transform")
    if which:
        r = lane_.lane_pose_from_SE2Transform(SE2Transform([x, y], th))
    else:
        r = lane_.lane_pose_from_SE2_generic(SE2_from_translation_angle([x, y], th))
    if len(seen) != 1 or r is not ret:
        raise Undecided("judged elsewhere")
    al, hd, lat = seen[0]
    c, s = vc.cos(th0), vc.sin(th0)
    vc.prove("along", vc.eq(al, along))
    vc.prove("lateral, positive to the left", vc.eq(lat, c * (y - y0) - s * (x - x0)))
    vc.prove("heading relative to the lane", vc.And(vc.eq(vc.sin(hd), vc.sin(th) * c - vc.cos(th) * s), vc.eq(vc.cos(hd), vc.cos(th) * c + vc.sin(th) * s)))
    vc.prove("at most half a turn", vc.le(vc.abs(hd), np.pi))


@target("P21", "closest point search", [L + "find_along_lane_closest_point", L + "find_along_lane_closest_point_fast", L + "along_lane_from_T2value"], samples=300)
def h(vc):
    """what scipy minimizes is the distance to the centre line, over the whole lane, and the point returned is that of the progress it finds"""
    import dg_commons.maps.lanes as M

    fast = vc.flag("fast")
    px, py = vc.real("px"), vc.real("py")
    pts = []

    def centre(b):
        for b0, p in pts:
            if b0 is b:
                return p
        k = len(pts)
        p = (vc.real(f"cx{k}"), vc.real(f"cy{k}"), vc.real(f"ct{k}", -3.1, 3.1))
        pts.append((b, p))
        return p

    b1, b2, best = vc.real("b1"), vc.real("b2"), vc.real("best")
    n = vc.choice("n", [2, 5])
    ran = []

    def minimize(fun, bracket=None, **kw):
        ran.append(bracket)
        f1, f2 = fun(b1), fun(b2)
        d = lambda b: (centre(b)[0] - px) * (centre(b)[0] - px) + (centre(b)[1] - py) * (centre(b)[1] - py)
        vc.margin((d(b1), d(b2)))
        vc.prove("closer means smaller", vc.Iff(f1 < f2, d(b1) < d(b2)))
        return NS(x=best, fun=fun(best))

    if vc.patch(M.minimize_scalar, minimize) == 0:
        raise Undecided("searched in another way")
    mat = lambda b: SE2_from_translation_angle([centre(b)[0], centre(b)[1]], centre(b)[2])
    _probe(vc, {"center_point": lambda self, b: mat(b),
                "center_point_fast_SE2Transform": lambda self, b: SE2Transform([centre(b)[0], centre(b)[1]], centre(b)[2])})
    lane_ = DgLanelet([None] * n)
    p = np.array([px, py], dtype=object if vc.symbolic else float)
    f = lane_.find_along_lane_closest_point_fast if fast else lane_.find_along_lane_closest_point
    beta, q = f(p)
    if len(ran) != 1:
        raise Undecided("searched in another way")
    vc.prove("the progress found", vc.eq(beta, best))
    x, y, th = centre(best)
    vc.prove("the point of that progress", vc.And(vc.eq(q[0, 2], x), vc.eq(q[1, 2], y), vc.eq(q[0, 0], vc.cos(th)), vc.eq(q[1, 0], vc.sin(th))))
    vc.prove("from one end of the lane to the other", ran[0] is not None and ran[0][0] <= 0 and ran[0][-1] >= n - 1)
    al = vc.real("along")

    def along_(self, b):
        vc.prove("position along the lane of the closest point", vc.eq(b, best))
        return al

    _probe(vc, {"along_lane_from_beta": along_})
    vc.prove("along lane of a position", vc.eq(lane_.along_lane_from_T2value(p, fast=fast), al))
    f(p, bracket=(0.25, 0.75))
    vc.prove("or within the bracket asked for", tuple(ran[-1]) == (0.25, 0.75))


@target("P21", "inside test behind contracts", [L + "is_inside_from_T2value"], samples=300)
def h(vc):
    px, py, cx_, cy_, r, beta = vc.real("px"), vc.real("py"), vc.real("cx"), vc.real("cy"), vc.pos("r", typ=(0.5, 8.0)), vc.real("beta", typ=(-1.0, 4.0))
    n = vc.choice("n", [2, 4])
    at = lambda b: vc.prove("at the closest point", vc.eq(b, beta))
    nearest = lambda self, p, *a, **k: (beta, None)
    _probe(vc, {"find_along_lane_closest_point": nearest, "find_along_lane_closest_point_fast": nearest,
                "radius": lambda self, b: (at(b), r)[1],
                "center_point": lambda self, b: (at(b), SE2_from_translation_angle([cx_, cy_], 0.3))[1],
                "center_point_fast_SE2Transform": lambda self, b: (at(b), SE2Transform([cx_, cy_], 0.3))[1]})
    arr = lambda *v: np.array(v, dtype=object if vc.symbolic else float)
    ins = DgLanelet([None] * n).is_inside_from_T2value(arr(px, py))
    d2 = (px - cx_) * (px - cx_) + (py - cy_) * (py - cy_)
    vc.margin((d2, r * r), (beta, 0), (beta, n - 1))
    vc.prove("within the width and between the ends", vc.Iff(ins, vc.And(d2 <= r * r, 0 <= beta, beta <= n - 1)))


@target("P21", "lanes from boundaries, any number of vertices", [L + "from_vertices"], kind="loop", samples=200, congruent=True)
def h(vc):
    n = U.length(vc, "n", 1, 8)
    cols = {k: U.numbers(vc, k, n, typ=(-20.0, 20.0)) for k in ("lx", "ly", "rx", "ry", "cx", "cy")}
    get = lambda k, i: cols[k].get(W.I(i)) if vc.symbolic else cols[k][int(i)]
    arr = lambda *v: np.array(v, dtype=object if vc.symbolic else float)
    wide = lambda i: vc.Or(vc.abs(get("lx", i) - get("rx", i)) > 1e-3, vc.abs(get("ly", i) - get("ry", i)) > 1e-3)
    if vc.symbolic:
        rows = {k: W.SSeq(W.I(n), lambda j, k=k: arr(get(k + "x", j), get(k + "y", j)), list) for k in "lrc"}
        W.uni().add(W.All(0, n, lambda j: W.bterm(wide(j))))
        from pyvc import shims

        def point(j):
            """what the contract says of control point j, as an object"""
            dx, dy = get("lx", j) - get("rx", j), get("ly", j) - get("ry", j)
            # left minus right, turned by a quarter to the right, is the direction of the lane
            return LaneCtrPoint(SE2Transform(arr(get("cx", j), get("cy", j)), shims.m_atan2(-dx, dy)), r=shims.m_hypot(dx, dy) / 2)

        vc.loops(L + "from_vertices", {0: lambda l, env: W.LoopSpec(vals={"ctr_points": lambda k: W.SSeq(W.I(k), point, list)})})
    else:
        vc.assume(all(wide(i) for i in range(int(n))))
        rows = {k: np.array([[get(k + "x", i), get(k + "y", i)] for i in range(int(n))]) for k in "lrc"}
    ln = DgLanelet.from_vertices(left_vertices=rows["l"], right_vertices=rows["r"], center_vertices=rows["c"])
    ps = W.as_seq(ln.control_points) if vc.symbolic else ln.control_points
    vc.prove("one control point per vertex", W.SBool(ps.n == W.I(n)) if vc.symbolic else len(ps) == n)
    i = vc.int("i", 0, None, most=int(n) - 1 if not vc.symbolic else None)
    vc.assume(i < n)
    cp = ps.get(i.t) if vc.symbolic else ps[i]
    vc.prove("on the centre vertices", vc.And(vc.eq(cp.q.p[0], get("cx", i)), vc.eq(cp.q.p[1], get("cy", i))))
    dx, dy = get("lx", i) - get("rx", i), get("ly", i) - get("ry", i)
    vc.prove("half the distance between the boundaries", vc.And(vc.eq(4 * cp.r * cp.r, dx * dx + dy * dy, 1e-5), vc.le(0, cp.r)))
    s, k = vc.sin(cp.q.theta), vc.cos(cp.q.theta)
    vc.prove("left boundary to the left", vc.eq(-s * 2 * cp.r, dx, 1e-5))
    vc.prove("perpendicular to the heading", vc.eq(k * 2 * cp.r, dy, 1e-5))


@target("P21", "outline, any number of control points", [L + "lane_profile"], kind="loop", samples=120)
def h(vc):
    """centre points and half widths behind their contracts"""
    import dg_commons.maps.lanes as M

    a = AnyLane(vc)
    per = vc.int("per", 2, None, most=5)
    m = (a.n - 1) * per
    fn = {k: ((lambda b, f=z3.Function(k, z3.RealSort(), z3.RealSort()): W.Sym(f(W.as_real(W.num(b))))) if vc.symbolic
              else (lambda b, ph=ph: 3 * math.sin(float(b) + ph))) for ph, k in enumerate(("fx", "fy", "ft", "fr"))}
    mat = lambda b: SE2_from_translation_angle([fn["fx"](b), fn["fy"](b)], fn["ft"](b))
    _probe(vc, {"center_point": lambda self, b: mat(b), "center_point_fast_SE2Transform": lambda self, b: SE2Transform([fn["fx"](b), fn["fy"](b)], fn["ft"](b)),
                "radius": lambda self, b: fn["fr"](b)})

    def side(j, sg):
        b = (a.n - 1) * W.Sym(j, "int") / (m - 1) if vc.symbolic else (a.n - 1) * j / (m - 1)
        r = fn["fr"](b) * sg
        return np.array([fn["fx"](b) - r * vc.sin(fn["ft"](b)), fn["fy"](b) + r * vc.cos(fn["ft"](b))], dtype=object if vc.symbolic else float)

    same = lambda p, q: vc.And(vc.eq(p[0], q[0]), vc.eq(p[1], q[1]))
    if vc.symbolic:
        pts = {}

        def pt(sg):
            def f(j):
                return side(j, sg)
            return f

        vc.loops(L + "lane_profile", {0: lambda l, env: W.LoopSpec(vals={"points_left": lambda k: W.SSeq(W.I(k), pt(1), list), "points_right": lambda k: W.SSeq(W.I(k), pt(-1), list)})})
    pr = a.lane.lane_profile(points_per_segment=per)
    if vc.symbolic:
        pr = W.as_seq(pr)
        W.prove("right boundary forth, left boundary back", [W.SBool(pr.n == 2 * W.I(m))])
        vc.forall("right boundary", 0, m, lambda j: same(pr.get(W.I(j)), side(W.I(j), -1)))
        vc.forall("left boundary", 0, m, lambda j: same(pr.get(z3.simplify(2 * W.I(m) - 1 - W.I(j))), side(W.I(j), 1)))
    else:
        vc.prove("right boundary forth, left boundary back", len(pr) == 2 * m)
        for j in range(m):
            vc.prove("right boundary", same(pr[j], side(j, -1)))
            vc.prove("left boundary", same(pr[2 * m - 1 - j], side(j, 1)))
