"""P06 pure pursuit steers along the circle through the goal point"""
import math
from types import SimpleNamespace as NS
import numpy as np
import scipy.optimize
from pyvc.vc import target, Undecided
from geometry import SE2_from_xytheta, translation_angle_from_SE2
from dg_commons.controllers import pure_pursuit as PPM
from dg_commons.controllers.pure_pursuit import PurePursuit, PurePursuitParam
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons.geo import SE2Transform
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from . import common as C

K = "dg_commons.controllers.pure_pursuit.PurePursuit."
EPS = 1e-9


def mkparam(vc):
    lo, hi = vc.real("la_min", lo=0.01, typ=(0.5, 5.0)), None
    if vc.symbolic:
        hi = vc.real("la_max", lo=lo)
    else:
        hi = vc.real("la_max", lo=lo, typ=(lo, lo + 30))
    return PurePursuitParam(look_ahead_minmax=(lo, hi), k_lookahead=vc.real("k_la", lo=0, typ=(0.1, 2.0)),
                            min_distance=vc.real("min_d", lo=0, typ=(0.0, 4.0)), length=vc.pos("length", typ=(1.0, 6.0)),
                            lr=vc.real("lr", lo=0, typ=(0.3, 3.0)))


def pose(vc, x, y, th):
    return np.array([[vc.cos(th), -vc.sin(th), x], [vc.sin(th), vc.cos(th), y], [0, 0, 1]], dtype=object if vc.symbolic else float)


@target("P06", "steering towards a goal point", [K + "get_desired_steering"], samples=300, feas_ms=120, budget=100)
def h(vc):
    p = mkparam(vc)
    c = vc.again("pursuit", lambda: PurePursuit(p), p)
    x, y, th = vc.real("x"), vc.real("y"), vc.angle("theta")
    gx, gy, gth = vc.real("gx"), vc.real("gy"), vc.angle("gtheta")
    v = vc.real("speed", typ=(0.0, 30.0))
    c.path = NS()
    c.pose, c.along_path = pose(vc, x, y, th), 0.0
    c.update_speed(v)
    vc.use(K + "_get_lookahead", lambda self: vc.clip(self.param.k_lookahead * self.speed, *self.param.look_ahead_minmax))
    vc.patch_attr(PurePursuit, "find_goal_point", lambda self: (0.0, pose(vc, gx, gy, gth)))
    la = vc.clip(p.k_lookahead * v, *p.look_ahead_minmax)
    rx, ry = x - p.lr * vc.cos(th), y - p.lr * vc.sin(th)
    if not vc.symbolic:
        vc.assume(math.hypot(gx - rx, gy - ry) > 1e-3)
    alpha = vc.atan2(gy - ry, gx - rx) - th
    s = vc.sin(alpha)
    # not on the one direction where the regularised denominator 2 sin(alpha) + eps vanishes
    vc.assume(vc.Or(2 * s + EPS > EPS / 1000, 2 * s + EPS < -EPS / 1000))
    a = c.get_desired_steering()
    vc.prove("an angle a wheel can have", vc.And(vc.le(a, math.pi / 2), vc.le(-a, math.pi / 2)))
    vc.prove("curvature 2 sin(alpha) / lookahead over the wheelbase", vc.eq(vc.tan(a) * la, p.length * (2 * s + EPS), 1e-5))
    if vc.symbolic:
        vc.prove("steers to the side of the goal", vc.And(vc.Implies(s > EPS, a > 0), vc.Implies(s < -EPS, a < 0)))
    elif abs(s) > 1e-6:
        vc.prove("steers to the side of the goal", (a > 0) == (s > 0))


@target("P06", "look-ahead distance", [K + "_get_lookahead"], samples=200)
def h(vc):
    p = mkparam(vc)
    c = vc.again("pursuit", lambda: PurePursuit(p), p)
    if not hasattr(c, "_get_lookahead"):
        raise Undecided("renamed")
    v = vc.real("speed")
    c.update_speed(v)
    la = c._get_lookahead()
    vc.prove("proportional to the speed, within its bounds", vc.eq(la, vc.clip(p.k_lookahead * v, *p.look_ahead_minmax)))


class Line(DgLanelet):
    """a straight path of infinite length along a direction (contract of a lane: beta <-> along is monotone, center_point on it)"""

    def __init__(self, x, y, th, pose):
        super().__init__([])
        self.q = (x, y, th)
        self.mk = pose

    def beta_from_along_lane(self, along):
        return along * 2 + 1

    def center_point(self, beta):
        x, y, th = self.q
        s = (beta - 1) / 2
        return self.mk(x + s * self.cs[0], y + s * self.cs[1], th)


@target("P06", "goal point on the path", [K + "find_goal_point"], samples=200)
def h(vc):
    p = mkparam(vc)
    c = vc.again("pursuit", lambda: PurePursuit(p), p)
    x, y, th, along = vc.real("x"), vc.real("y"), vc.angle("theta"), vc.real("along", typ=(0.0, 20.0))
    line = Line(vc.real("lx", typ=(-20.0, 20.0)), vc.real("ly", typ=(-20.0, 20.0)), vc.angle("lth"), lambda *a: pose(vc, *a))
    line.cs = (vc.cos(line.q[2]), vc.sin(line.q[2]))
    c.path, c.pose, c.along_path = line, pose(vc, x, y, th), along
    v = vc.real("speed", typ=(0.0, 30.0))
    c.update_speed(v)
    la = vc.clip(p.k_lookahead * v, *p.look_ahead_minmax)
    probe = {}
    if vc.symbolic:
        res = vc.havoc("optimum")

        def stub(fun, bounds=None, method=None, **k):
            # contract of the bounded scalar minimiser: a point within the bounds (its optimality is not assumed)
            vc.assume(vc.And(bounds[0] <= res, res <= bounds[1]))
            probe["f"] = fun
            return NS(x=res)

        vc.patch_attr(scipy.optimize, "minimize_scalar", stub)
    s, g = c.find_goal_point()
    if vc.symbolic and not probe:
        raise Undecided("another minimiser")
    vc.prove("beyond the minimum progress, at most one look-ahead further",
             vc.And(vc.le(along + p.min_distance, s), vc.le(s, along + p.min_distance + la)))
    vc.prove("the goal is the point of the path at that progress", vc.eq(g, line.center_point(line.beta_from_along_lane(s))))

    def err(t):
        q = line.center_point(line.beta_from_along_lane(t))
        return vc.abs(vc.norm((q[0, 2] - x, q[1, 2] - y)) - la)

    if vc.symbolic:
        t = vc.real("probe")
        vc.prove("what is minimised is the distance error", vc.eq(probe["f"](t), err(t)))
    else:
        # the distance error is minimised over the interval: no better point on a grid where the error is unimodal
        lo, hi = along + p.min_distance, along + p.min_distance + la
        n = 200
        grid = [err(lo + (hi - lo) * i / n) for i in range(n + 1)]
        k = min(range(n + 1), key=lambda i: grid[i])
        uni = all(grid[i] >= grid[i + 1] - 1e-12 for i in range(k)) and all(grid[i] <= grid[i + 1] + 1e-12 for i in range(k, n))
        if uni:
            vc.prove("closest to the look-ahead distance", err(s) <= grid[k] + (hi - lo) / n + 1e-4)


@target("P06", "construction", [K + "from_model_geometry", "dg_commons.controllers.pure_pursuit.PurePursuitParam.from_vehicle_geo"], samples=50)
def h(vc):
    g = C.veh_geo(vc)
    c = PurePursuit.from_model_geometry(g)
    vc.prove("wheelbase and rear axle are those of the vehicle", vc.eq((c.param.length, c.param.lr), (g.lf + g.lr, g.lr)))
    c = PurePursuit()
    vc.prove("no steering before a path and a pose are known", vc.raises(RuntimeError, c.get_desired_steering))
    c.update_path(Line(0.0, 0.0, 0.0, None))
    vc.prove("no steering before a pose is known", vc.raises(RuntimeError, c.get_desired_steering))
    vc.prove("paths are lanes", vc.raises((AssertionError, TypeError), lambda: c.update_path("lane")))


@target("P06", "closing in on a straight lane", [K + "get_desired_steering", K + "find_goal_point"], kind="runtime", samples=150,
        bound="seeded poses beside straight lanes of 2..6 control points")
def h(vc):
    n = vc.choice("n", range(2, 7))
    th, L = vc.angle("lth"), vc.real("step", 8.0, 20.0)
    cps = [LaneCtrPoint(SE2Transform((i * L * math.cos(th), i * L * math.sin(th)), th), 2.0) for i in range(n)]
    lane = DgLanelet(cps)
    c = vc.again("pursuit", lambda: PurePursuit(PurePursuitParam()))
    along, lat, dth = vc.real("along", 0.0, 3.0), vc.real("lat", -2.0, 2.0), vc.real("dth", -0.4, 0.4)
    x, y = along * math.cos(th) - lat * math.sin(th), along * math.sin(th) + lat * math.cos(th)
    c.update_path(lane)
    c.update_pose(SE2_from_xytheta([x, y, th + dth]), along)
    c.update_speed(vc.real("speed", 0.0, 6.0))
    la = min(max(0.8 * c.speed, 3), 30)
    s, g = c.find_goal_point()
    (gx, gy), _ = translation_angle_from_SE2(g)
    vc.prove("goal at the look-ahead distance", vc.eq(math.hypot(gx - x, gy - y), la, 2e-3))
    vc.prove("goal on the centre line", vc.eq(-math.sin(th) * gx + math.cos(th) * gy, 0, 1e-5))
    a = c.get_desired_steering()
    lr = c.param.lr
    rx, ry = x - lr * math.cos(th + dth), y - lr * math.sin(th + dth)
    alpha = math.atan2(gy - ry, gx - rx) - th - dth
    vc.prove("steering towards it", vc.eq(math.tan(a) * la, c.param.length * 2 * math.sin(alpha), 1e-4))
