"""P30 scenarios: CommonRoad import, obstacles and road boundaries"""
import contextlib
import io
import math
import os
import tempfile
import warnings
import numpy as np
import geometry
from shapely.geometry import Polygon, Point, LineString, MultiPoint, box
from shapely.ops import unary_union
import z3
from pyvc import loops as L
from pyvc.core import Sym
from pyvc.vc import target, Undecided, Discard
from . import useqs as U
from commonroad.scenario.scenario import Scenario, ScenarioID, Location, Tag
from commonroad.scenario.lanelet import Lanelet, LaneletNetwork, LaneletType
from commonroad.scenario.obstacle import StaticObstacle as CrStatic, DynamicObstacle, ObstacleType
from commonroad.scenario.trajectory import Trajectory
from commonroad.scenario.state import InitialState, KSState
from commonroad.prediction.prediction import TrajectoryPrediction
from commonroad.geometry.shape import Rectangle
from commonroad.planning.planning_problem import PlanningProblemSet
from commonroad.common.file_writer import CommonRoadFileWriter, OverwriteExistingFile
from dg_commons.maps.road_bounds import build_road_boundary_obstacle
from dg_commons.maps.lanes import DgLanelet
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.models.vehicle import VehicleModel
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.pedestrian import PedestrianModel
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.scenarios.factory import get_scenario_commonroad_replica
from dg_commons.sim.scenarios.utils import load_commonroad_scenario, dglane_from_position, NotSupportedConversion
from dg_commons.sim.scenarios.utils_dyn_obstacle import infer_lane_from_dyn_obs, is_dyn_obstacle_static
from dg_commons.sim.scenarios.model_from_dyn_obstacle import infer_model_from_cr_dyn_obstacle
from dg_commons.sim.scenarios.convert_from_commonroad import model_agent_from_dynamic_obstacle

N = "dg_commons.sim.scenarios."


class Frame:
    """an arbitrary placement of a map in the plane"""

    def __init__(self, vc, name="map"):
        self.x, self.y, self.th = vc.real(name + ".x"), vc.real(name + ".y"), vc.angle(name + ".th")
        self.c, self.s = math.cos(self.th), math.sin(self.th)

    def __call__(self, x, y):
        return np.array([self.x + self.c * x - self.s * y, self.y + self.s * x + self.c * y])

    def heading(self, h=0.0):
        return math.remainder(self.th + h, 2 * math.pi)

    def back(self, p):
        dx, dy = p[0] - self.x, p[1] - self.y
        return np.array([self.c * dx + self.s * dy, -self.s * dx + self.c * dy])


def lanelet(F, i, pts, w=2.0, pred=(), suc=(), normals=None):
    """a lanelet around a polyline in the frame"""
    pts = np.array(pts, dtype=float)
    d = np.gradient(pts, axis=0)
    n = np.stack([-d[:, 1], d[:, 0]], 1) / np.linalg.norm(d, axis=1)[:, None]
    n = n if normals is None else np.array(normals)
    tr = lambda a: np.array([F(*p) for p in a])
    return Lanelet(tr(pts + n * w), tr(pts), tr(pts - n * w), i, predecessor=list(pred), successor=list(suc), lanelet_type={LaneletType.URBAN})


def network(ls):
    return LaneletNetwork.create_from_lanelet_list(ls)


def straight_pts(x0, x1, y=0.0, n=6):
    return [(x, y) for x in np.linspace(x0, x1, n)]


def bend(x0, x1, dy, n=9):
    return [(x, dy * ((x - x0) / (x1 - x0)) ** 2) for x in np.linspace(x0, x1, n)]


def obstacle(vc, F, path, i=700, kind=ObstacleType.CAR, shape=None, turns=0, v=8.0, theta0=None):
    """a dynamic obstacle through the given points of the frame; its headings may be written with extra turns"""
    ps = [F(*p) for p in path]
    hs = []
    for k in range(len(ps)):
        a, b = (ps[k], ps[k + 1]) if k + 1 < len(ps) else (ps[k - 1], ps[k])
        hs.append(math.atan2(b[1] - a[1], b[0] - a[0]) if np.linalg.norm(b - a) > 1e-9 else F.heading())
    shape = shape or Rectangle(4.5, 1.9)
    h0 = (hs[0] if theta0 is None else theta0) + 2 * math.pi * turns
    st = [KSState(position=p, orientation=h, velocity=v, steering_angle=0.0, time_step=k + 1) for k, (p, h) in enumerate(zip(ps[1:], hs[1:]))]
    ini = InitialState(position=ps[0], orientation=h0, velocity=v, time_step=0, acceleration=0.0, yaw_rate=0.0, slip_angle=0.0)
    return DynamicObstacle(i, kind, shape, ini, TrajectoryPrediction(Trajectory(1, st), shape))


def placed(rect, p, th):
    c, s = math.cos(th), math.sin(th)
    return Polygon([(p[0] + c * x - s * y, p[1] + s * x + c * y) for x, y in ((-rect.length / 2, -rect.width / 2), (rect.length / 2, -rect.width / 2), (rect.length / 2, rect.width / 2), (-rect.length / 2, rect.width / 2))])


@target("P30", "obstacles at rest", [N + "utils_dyn_obstacle.is_dyn_obstacle_static"], kind="runtime", samples=200, bound="seeded obstacles")
def h(vc):
    F = Frame(vc)
    a, d, th = (vc.real("ax"), vc.real("ay")), vc.real("d", 0, 0.6), vc.angle("dir")
    mid = (a[0] + 3, a[1]) if vc.flag("wander") else a
    end = (a[0] + d * math.cos(th), a[1] + d * math.sin(th))
    o = obstacle(vc, F, [a, mid, end])
    tol = None if vc.flag("default") else vc.real("tol", 0.05, 0.5)
    r = is_dyn_obstacle_static(o) if tol is None else is_dyn_obstacle_static(o, tol)
    if abs(d - (tol or 0.2)) < 1e-6:
        raise Discard("borderline")
    vc.prove("iff it ends where it began", bool(r) == (d < (tol or 0.2)))


KINDS = {ObstacleType.CAR: VehicleModel, ObstacleType.TRUCK: VehicleModel, ObstacleType.BUS: VehicleModel, ObstacleType.BICYCLE: VehicleModel, ObstacleType.PEDESTRIAN: PedestrianModel}


@target("P30", "models of obstacles", [N + "model_from_dyn_obstacle.infer_model_from_cr_dyn_obstacle"], kind="runtime", samples=300, bound="seeded obstacles of every type")
def h(vc):
    F = Frame(vc)
    kind = vc.choice("kind", list(KINDS) + [ObstacleType.TRAIN, ObstacleType.UNKNOWN])
    rect = Rectangle(vc.real("length", 1.5, 9), vc.real("width", 0.5, 2.5))
    v = vc.real("v", 0, 20)
    dth = vc.real("dth", -0.2, 0.2)
    a = (vc.real("ax"), vc.real("ay"))
    path = [a, (a[0] + math.cos(dth), a[1] + math.sin(dth)), (a[0] + 2 * math.cos(dth), a[1] + 2 * math.sin(dth))]
    o = obstacle(vc, F, path, kind=kind, shape=rect, v=v, theta0=F.heading())
    try:
        m = infer_model_from_cr_dyn_obstacle(o, "red")
    except NotSupportedConversion:
        vc.prove("only what has no model is refused", kind not in KINDS)
        return
    vc.prove("what has no model is refused", kind in KINDS)
    s = m.get_state()
    vc.prove("of the fitting type", type(m) is KINDS[kind])
    vc.prove("at the pose and speed of the obstacle", max(abs(s.x - F(*a)[0]), abs(s.y - F(*a)[1]), abs(s.psi - F.heading()), abs(s.vx - v)) < 1e-9)
    if isinstance(m, VehicleModel):
        g = m.model_geometry
        vc.prove("within the size of the obstacle", 2 * g.w_half <= rect.width + 1e-9 and g.wheelbase <= rect.length + 1e-9 and g.w_half > 0.4 * rect.width and g.wheelbase > 0.5 * rect.length)
        vc.prove("with mass and inertia", g.m > 0 and g.Iz > 0)
        o2 = obstacle(vc, F, path, kind=kind, shape=rect, v=v, theta0=F.heading() + 2 * math.pi * vc.choice("turns", [-1, 1]))
        s2 = infer_model_from_cr_dyn_obstacle(o2, "red").get_state()
        vc.prove("steering does not depend on how headings are written", abs(s.delta - s2.delta) < 1e-9 and abs(s.delta) <= 0.5)
        vc.prove("and turns towards the next state", s.delta * dth >= 0)


def forked(F, ids, dy=12.0):
    """an entry lane that forks: straight on and to the left"""
    a, b, c = ids
    return [lanelet(F, a, straight_pts(0, 40), suc=[b, c]), lanelet(F, b, straight_pts(40, 80), pred=[a]), lanelet(F, c, [(40 + x, y) for x, y in bend(0, 40, dy)], pred=[a])]


@target("P30", "lane of an obstacle", [N + "utils_dyn_obstacle.infer_lane_from_dyn_obs"], kind="runtime", samples=200, bound="seeded maps with forks and overlapping entries")
def h(vc):
    F = Frame(vc)
    ids = vc.choice("ids", [(1, 2, 3), (10, 20, 2), (12, 3, 31), (7, 77, 177), (5, 15, 51)])
    net = network(forked(F, ids))
    left = vc.flag("left")
    end = (76.0, 12.0 * (36 / 40) ** 2) if left else (76.0, 0.0)
    start = (vc.real("s", 3, 30), vc.real("lat", -0.8, 0.8))
    o = obstacle(vc, F, [start, (40.0, 0.0), end])
    ln = infer_lane_from_dyn_obs(o, net)
    vc.prove("a lane", isinstance(ln, DgLanelet))
    line = LineString([F.back(p.q.p) for p in ln.control_points])
    vc.prove("from where it starts", line.distance(Point(*start)) < 1.2)
    vc.prove("to where it ends", line.distance(Point(*end)) < 1.2)


@target("P30", "lane of an obstacle off the road", [N + "utils_dyn_obstacle.infer_lane_from_dyn_obs"], kind="runtime", samples=100, bound="seeded trajectories")
def h(vc):
    F = Frame(vc)
    net = network(forked(F, (1, 2, 3)))
    y = vc.choice("where", [30.0, 0.0])
    path = [(5.0, y), (15.0, y + 1), (25.0, 20.0 + y), (30.0, 32.0 + y)]
    ln = infer_lane_from_dyn_obs(obstacle(vc, F, path), net)
    got = [F.back(p.q.p) for p in ln.control_points]
    vc.prove("its own trajectory", len(got) == 3 and max(np.linalg.norm(np.array(a) - b) for a, b in zip(got, path[1:])) < 1e-6)


@target("P30", "aligned lane", [N + "utils_dyn_obstacle.infer_lane_from_dyn_obs"], kind="runtime", samples=200, bound="seeded crossings and written headings")
def h(vc):
    # two lanes through the same crossing and to the same exit; the obstacle starts where they overlap
    F = Frame(vc)
    ang = vc.real("ang", 0.5, 1.0)
    R = 40.0
    arc = [(R * math.sin(a), R * (1 - math.cos(a))) for a in np.linspace(0, 1.2, 9)]
    off = [(x, y) for x, y in arc]
    st = straight_pts(-30, 0)
    sk = [(-30 * math.cos(ang) * t, -30 * math.sin(ang) * t) for t in np.linspace(1, 0, 6)]
    a = lanelet(F, 1, [(x, y) for x, y in st], suc=[3])
    b = lanelet(F, 2, sk, suc=[3])
    c = lanelet(F, 3, straight_pts(0, 40), pred=[1, 2])
    net = network([a, b, c])
    skew = vc.flag("skew")
    h0 = F.heading(ang if skew else 0.0) + 2 * math.pi * vc.choice("turns", [-1, 0, 0, 1])
    p0 = (-0.9 * math.cos(ang / 2), -0.9 * math.sin(ang / 2))
    o = obstacle(vc, F, [p0, (10, 0), (30, 0)], theta0=h0)
    ln = infer_lane_from_dyn_obs(o, net)
    line = LineString([F.back(p.q.p) for p in ln.control_points])
    if not net.find_lanelet_by_position([F(*p0)])[0] or len(net.find_lanelet_by_position([F(*p0)])[0]) < 2:
        raise Discard("starts on one lane only")
    want, other = (sk[0], st[0]) if skew else (st[0], sk[0])
    vc.prove("the one it is heading along", line.distance(Point(*want)) < 1 and line.distance(Point(*other)) > 5)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


@target("P30", "scenario replica", [N + "factory.get_scenario_commonroad_replica", N + "utils.load_commonroad_scenario", N + "convert_from_commonroad.model_agent_from_dynamic_obstacle"], kind="runtime", samples=12,
        bound="seeded scenario files with moving, parked and static obstacles")
def h(vc):
    F = Frame(vc)
    sc = Scenario(0.1, ScenarioID.from_benchmark_id("ZAM_Test-1_1_T-1", "2020a"))
    sc.add_objects(forked(F, (1, 2, 3)))
    rect = Rectangle(4.5, 1.9)
    kinds, n = [], vc.int("n", 1, 4)
    for i in range(n):
        k = vc.choice(f"kind{i}", ["moving", "parked", "static", "train"])
        kinds.append(k)
        p, th = (vc.real(f"x{i}", 3, 30), 0.0), vc.real(f"th{i}", -0.1, 0.1)
        if k == "moving":
            sc.add_objects(obstacle(vc, F, [p, (p[0] + 4, 0), (78.0, 0)], i=100 + i))
        elif k == "parked":
            sc.add_objects(obstacle(vc, F, [p, p, p], i=100 + i, v=0.0, theta0=F.heading(th)))
        elif k == "static":
            sc.add_objects(CrStatic(100 + i, ObstacleType.PARKED_VEHICLE, rect, InitialState(position=F(*p), orientation=F.heading(th), time_step=0)))
        else:
            sc.add_objects(obstacle(vc, F, [p, (p[0] + 4, 0), (78.0, 0)], i=100 + i, kind=ObstacleType.TRAIN))
    with tempfile.TemporaryDirectory() as d, quiet():
        os.makedirs(os.path.join(d, "sub"))
        CommonRoadFileWriter(sc, PlanningProblemSet(), "a", "b", "c", {Tag.URBAN}, Location()).write_to_file(os.path.join(d, "sub", "ZAM_Test-1_1_T-1.xml"), OverwriteExistingFile.ALWAYS)
        ctx = get_scenario_commonroad_replica("ZAM_Test-1_1_T-1" + vc.choice("ext", ["", ".xml"]), scenarios_dir=d, ego_player=vc.choice("ego", [None, "P0"]), seed=5)
        missing = False
        try:
            load_commonroad_scenario("ZAM_Other-1_1_T-1", d)
        except FileNotFoundError:
            missing = True
    vc.prove("a missing scenario is an error", missing)
    moving = [i for i, k in enumerate(kinds) if k == "moving"]
    vc.prove("a player per obstacle that moves and has a model", len(ctx.players) == len(ctx.models) == len(moving) and set(ctx.players) == set(ctx.models))
    left = [F(vc.real(f"x{i}", 3, 30), 0.0) for i in moving]
    for m in ctx.models.values():
        s = m.get_state()
        k = min(range(len(left)), key=lambda j: np.hypot(*(left[j] - (s.x, s.y))))
        vc.prove("starting where it is", np.hypot(*(left.pop(k) - (s.x, s.y))) < 1e-3)
    vc.prove("following a lane", all(isinstance(a, LFAgent) for a in ctx.players.values()))
    still = [i for i, k in enumerate(kinds) if k in ("parked", "static")]
    obs = list(ctx.dg_scenario.static_obstacles)
    vc.prove("an obstacle per parked or static one", len(obs) == len(still))
    for i in still:
        want = placed(rect, F(vc.real(f"x{i}", 3, 30), 0.0), F.heading(vc.real(f"th{i}", -0.1, 0.1)))
        k = min(range(len(obs)), key=lambda j: obs[j].shape.symmetric_difference(want).area)
        vc.prove("placed where it is", obs.pop(k).shape.symmetric_difference(want).area < 0.01)
    vc.prove("seeded as asked", ctx.seed == 5)


@target("P30", "scenario obstacles", [N + "structures.DgScenario.__post_init__", N + "structures.DgScenario.lanelet_network"], kind="runtime", samples=100, bound="seeded obstacles")
def h(vc):
    F = Frame(vc)
    obs = [StaticObstacle(Point(*F(vc.real(f"x{i}"), vc.real(f"y{i}"))).buffer(vc.real(f"r{i}", 0.5, 4))) for i in range(vc.int("n", 0, 6))]
    sc = None
    if vc.flag("scenario"):
        sc = Scenario(0.1, ScenarioID.from_benchmark_id("ZAM_Test-1_1_T-1", "2020a"))
        sc.add_objects(forked(F, (1, 2, 3)))
    bounds = vc.flag("bounds")
    d = DgScenario(sc, static_obstacles=vc.choice("as", [list, tuple])(obs) if obs or vc.flag("given") else None, use_road_boundaries=bounds)
    vc.prove("its obstacles come first, as given", len(d.static_obstacles) >= len(obs) and all(a is b for a, b in zip(d.static_obstacles, obs)))
    extra = d.static_obstacles[len(obs):]
    vc.prove("road boundaries only on request", (len(extra) > 0) == (bounds and sc is not None))
    probe = box(*F(vc.real("px"), vc.real("py")), *(F(vc.real("px"), vc.real("py")) + 6))
    hit = {int(k) for k in d.strtree_obstacles.query(probe, predicate="intersects")}
    vc.prove("found by their position in the list", hit == {k for k, o in enumerate(d.static_obstacles) if o.shape.intersects(probe)})
    vc.prove("the map of the scenario", d.lanelet_network is (sc.lanelet_network if sc is not None else None))
    bad = False
    try:
        DgScenario(None, static_obstacles=[box(0, 0, 1, 1)])
    except Exception:
        bad = True
    vc.prove("only obstacles are obstacles", bad)


@target("P30", "road boundaries", ["dg_commons.maps.road_bounds.build_road_boundary_obstacle"], kind="runtime", samples=150, bound="seeded maps: roads with ends, forks, circuits and separate roads")
def h(vc):
    F = Frame(vc)
    which = vc.choice("map", ["fork", "two roads", "circuit", "bend"])
    gates = []
    if which == "fork":
        ls = forked(F, (1, 2, 3))
        gates = [(0, 0), (80, 0), (80, 12)]
    elif which == "two roads":
        ls = [lanelet(F, 1, straight_pts(0, 50)), lanelet(F, 2, straight_pts(0, 50, y=20))]
        gates = [(0, 0), (50, 0), (0, 20), (50, 20)]
    elif which == "bend":
        ls = [lanelet(F, 1, bend(0, 40, 10))]
        gates = [(0, 0), (40, 10)]
    else:
        R = vc.real("R", 8, 30)
        half = lambda a0, r=R: [(r * math.cos(a), r * math.sin(a)) for a in np.linspace(a0, a0 + math.pi, 25)]
        ls = [lanelet(F, 1, half(0.0), pred=[2], suc=[2], normals=half(0.0, -1.0)), lanelet(F, 2, half(math.pi), pred=[1], suc=[1], normals=half(math.pi, -1.0))]
    sc = Scenario(0.1, ScenarioID.from_benchmark_id("ZAM_Test-1_1_T-1", "2020a"))
    sc.add_objects(ls)
    buf = None if vc.flag("default") else vc.real("buffer", 0.05, 0.3)
    bounds, _ = build_road_boundary_obstacle(sc) if buf is None else build_road_boundary_obstacle(sc, buf)
    buf = 0.1 if buf is None else buf
    road = unary_union([l.polygon.shapely_object for l in sc.lanelet_network.lanelets]).buffer(1e-6)
    allb = unary_union([b for b in bounds])
    vc.prove("boundaries exist", len(bounds) > 0 and all(not b.is_empty for b in bounds))
    vc.prove("they run along the edge of the road, just outside", all(road.exterior.distance(Point(*q)) < 2 * buf + 0.05 if road.geom_type == "Polygon" and not road.interiors else
                                                                   road.boundary.distance(Point(*q)) < 2 * buf + 0.05 for b in bounds for q in b.coords))
    vc.prove("the road itself is free", allb.intersection(road.buffer(-0.02)).length < 1e-6)
    # every exit and entrance is open, every side is closed
    for g in gates:
        vc.prove("lanes stay open where they begin and end", allb.distance(Point(*F(*g))) > 0.5)
    edge = road.buffer(buf + 0.01).buffer(-buf - 0.01).boundary  # slits narrower than the buffer are closed
    for k in range(20):
        q = edge.interpolate(vc.real(f"along{k}", 0, 1), normalized=True)
        b = F.back((q.x, q.y))
        if all(math.hypot(b[0] - g[0], b[1] - g[1]) > 2 + 5 * buf + 0.6 for g in gates):
            vc.prove("every side of the road is closed", allb.distance(q) < 2 * buf + 0.05)


@target("P30", "lane at a position", [N + "utils.dglane_from_position"], kind="runtime", samples=100, bound="seeded maps and positions")
def h(vc):
    F = Frame(vc)
    net = network(forked(F, (1, 2, 3)))
    p = (vc.real("x", 1, 39), vc.real("lat", -1.5, 1.5))
    k = vc.choice("successor", [0, 1])
    ln = dglane_from_position(F(*p), net, succ_lane_selection=k) if k or vc.flag("given") else dglane_from_position(F(*p), net)
    line = LineString([F.back(c.q.p) for c in ln.control_points])
    vc.prove("a lane from there on", line.distance(Point(*p)) <= abs(p[1]) + 0.05)
    ends = [line.distance(Point(80, 0)) < 0.6, line.distance(Point(80, 12)) < 0.6]
    vc.prove("to an end of the road", ends[0] != ends[1])
    o = dglane_from_position(F(*p), net, succ_lane_selection=1 - k)
    line2 = LineString([F.back(c.q.p) for c in o.control_points])
    vc.prove("as selected", (line2.distance(Point(80, 0)) < 0.6) == ends[1])


# ------------------------------------------------------------------------------------------------ for all obstacles
class Stub:
    """an object of which only the given attributes are specified"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, nm):
        raise Undecided("uses " + nm)


def state(vc, name, **k):
    return Stub(position=np.array([vc.real(name + ".px"), vc.real(name + ".py")]), orientation=vc.real(name + ".psi", typ=(-9.0, 9.0)), velocity=vc.real(name + ".v", typ=(0.0, 20.0)), **k)


class States:
    """the states of a trajectory, any number of them"""

    def __init__(self, vc, name="traj"):
        n = self.n = U.length(vc, name + ".n", 1, 6)
        comp = self.comp = {k: U.numbers(vc, f"{name}.{k}", n, pytype=list) for k in ("x", "y", "psi", "v")}
        at = lambda k, j: comp[k].get(L.I(j)) if vc.symbolic else comp[k][int(j)]
        self.at = at
        mk = lambda j: Stub(position=np.array([at("x", j), at("y", j)]), orientation=at("psi", j), velocity=at("v", j), time_step=Sym(j, "int") + 1 if vc.symbolic else j + 1)
        self.list = L.SSeq(L.I(n), mk, list) if vc.symbolic else [mk(j) for j in range(int(n))]

    @property
    def trajectory(self):
        s = self
        return Stub(state_list=s.list, **({"final_state": s.list[-1]}))


@target("P30", "obstacles at rest, any trajectory", [N + "utils_dyn_obstacle.is_dyn_obstacle_static"], samples=200, norm=True)
def h(vc):
    ini, tr = state(vc, "ini"), States(vc)
    if vc.symbolic:
        vc.loops(N + "utils_dyn_obstacle.is_dyn_obstacle_static")
    if not vc.symbolic and vc.flag("near"):
        for c, i in (("x", 0), ("y", 1)):
            ini.position[i] = tr.at(c, tr.n - 1) + vc.real("near" + c, -0.4, 0.4)
    o = Stub(initial_state=ini, prediction=Stub(trajectory=tr.trajectory, final_time_step=tr.n, initial_time_step=1))
    tol = None if vc.flag("default") else vc.real("tol", 0.0, 50.0)
    r = is_dyn_obstacle_static(o) if tol is None else is_dyn_obstacle_static(o, tol)
    last = tr.n - 1
    dx, dy = tr.at("x", last) - ini.position[0], tr.at("y", last) - ini.position[1]
    d2, t2 = dx * dx + dy * dy, 0.2 * 0.2 if tol is None else tol * tol
    vc.margin((d2, t2))
    t = L.as_real(L.num(d2)) < (z3.RealVal("0.04") if tol is None else L.as_real(L.num(t2))) if vc.symbolic else d2 < t2
    vc.prove("iff it ends where it began", vc.Iff(r, L.SBool(t) if vc.symbolic else t))


@target("P30", "models of all obstacles", [N + "model_from_dyn_obstacle.infer_model_from_cr_dyn_obstacle", N + "model_from_dyn_obstacle._estimate_car_mass_inertia"], samples=300, free_trig=True, norm=True)
def h(vc):
    kind = vc.choice("kind", list(ObstacleType))
    rect = object.__new__(Rectangle)
    rect._length, rect._width = l, w = vc.real("length", 0, 30, lo_open=True), vc.real("width", 0, 10, lo_open=True)
    if not vc.symbolic and min(l, w) < 1e-3:
        raise Discard()
    ini, tr = state(vc, "ini"), States(vc)
    o = Stub(initial_state=ini, prediction=Stub(trajectory=tr.trajectory), obstacle_type=kind, obstacle_shape=rect)
    try:
        m = infer_model_from_cr_dyn_obstacle(o, "red")
    except NotSupportedConversion:
        vc.prove("only what has no model is refused", kind not in KINDS)
        return
    vc.prove("what has no model is refused", kind in KINDS)
    vc.prove("of the fitting type", type(m) is KINDS[kind])
    s = m.get_state()
    vc.prove("at the pose and speed of the obstacle", vc.eq([s.x, s.y, s.psi, s.vx], [ini.position[0], ini.position[1], ini.orientation, ini.velocity]))
    if type(m) is not VehicleModel:
        return
    g = m.model_geometry
    vc.prove("within the size of the obstacle", vc.And(vc.le(2 * g.w_half, w), vc.le(g.lf + g.lr, l), g.w_half > 0, g.lf > 0, g.lr > 0))
    vc.prove("with mass and inertia", vc.And(g.m > 0, g.Iz > 0))
    vc.prove("a bicycle is one, nothing else is", (g.vehicle_type == VehicleGeometry.default_bicycle().vehicle_type) == (kind == ObstacleType.BICYCLE))
    dth = tr.at("psi", 0) - ini.orientation
    sn, cs = vc.sin(dth), vc.cos(dth)
    if not vc.symbolic and (abs(sn) < 1e-9 or cs < -0.999999):
        raise Discard("straight on or back")
    # the steering angle of one and the same turn, however the two headings are written
    vc.prove("turns towards the next state", vc.And(vc.Implies(sn > 0, s.delta > 0), vc.Implies(sn < 0, s.delta < 0), vc.Implies(vc.And(sn == 0, cs > 0), s.delta == 0)))
    vc.prove("by the turn itself, without full turns", abs(s.delta * (g.lf + g.lr)) <= math.pi + 1e-9)
    psi = "psi"
    ini2 = Stub(**{**ini.__dict__, "orientation": ini.orientation + 2 * math.pi * vc.choice("turns", [-2, -1, 1])})
    o2 = Stub(**{**o.__dict__, "initial_state": ini2})
    s2 = infer_model_from_cr_dyn_obstacle(o2, "red").get_state()
    vc.prove("steering does not depend on how headings are written", vc.eq(s.delta, s2.delta))


# ------------------------------------------------------------------------------------------------ lanes of obstacles, any network
class Net:
    """a road network known by its queries only: lanelet number i lies at the start, lanelets f at the end, lanelet i continues to the
    exits in more(i) ways, way j of it running through the lanelets `through`"""

    def __init__(self, vc, start, end=None):
        self.vc, self.start, self.end = vc, start, end
        sym = vc.symbolic
        self.n = U.length(vc, "starts", 0, 3)
        self.m = U.length(vc, "ends", 0, 3)
        self.sid, self.eid = vc.int("sid"), vc.int("eid")
        if sym:
            Z = z3.IntSort()
            S_, E_, M_ = z3.Function("start.id", Z, Z), z3.Function("end.id", Z, Z), z3.Function("ways", Z, Z)
            self.sid, self.eid = (lambda i: Sym(S_(L.I(i)), "int")), (lambda i: Sym(E_(L.I(i)), "int"))
            self.T = z3.Function("runs through", Z, Z, Z, z3.BoolSort())
            self.ways = lambda i: M_(L.I(i))
            L.uni().add(L.All(0, L.I(self.n), lambda i: M_(i) >= 0))
            self.runs = lambda i, j, x: L.SBool(self.T(L.I(i), L.I(j), L.I(x)))
            # ids are unique
            L.uni().add(L.Pairs(lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < L.I(self.n)), S_(i) != S_(j))))
            self.index = z3.Function("start of id", Z, Z)
            L.uni().add(L.All(0, L.I(self.n), lambda i: self.index(S_(i)) == i))
        else:
            ids = [13, 1, 3, 11, 31]
            self.sid, self.eid = (lambda i: ids[int(i)] if i < 5 else 100 + int(i)), (lambda f: [2, 21, 12, 1][(int(f) + vc.choice("e", range(4))) % 4])
            w = [vc.choice(f"ways{i}", range(4)) for i in range(int(self.n) + 1)]
            self.ways = lambda i: w[int(i) % len(w)]
            th = {(i, j): vc.choice(f"ids{i}.{j}", [[], [1], [2], [12, 5], [21, 2], [31, 1, 12]]) for i in range(int(self.n) + 1) for j in range(4)}
            self.runs = lambda i, j, x: x in th[int(i) % (len(w)), int(j) % 4]
        net = self

        class Ids:
            def __init__(s, i, j):
                s.i, s.j = i, j

            def __contains__(s, x):
                return bool(net.runs(s.i, s.j, x))

            __vc_dict__ = True

            def contains(s, x):
                return net.runs(s.i, s.j, x)

        class Lane(Lanelet):
            def __init__(s, i):
                s.__dict__["i"] = i

        class Merged(Lanelet):
            def __init__(s, i, j):
                s.__dict__.update(i=i, j=j)

        def merge(lanelet, network, *a, **k):
            if a or k or not isinstance(lanelet, Lane):
                raise Undecided("merged in another way")
            vc.prove("merged along that network", network is net.network)
            i = lanelet.i
            if sym:
                return tuple(L.SSeq(net.ways(i), f, list) for f in (lambda j: Merged(i, Sym(j, "int")), lambda j: Ids(i, Sym(j, "int"))))
            return [Merged(i, j) for j in range(net.ways(i))], [Ids(i, j) for j in range(net.ways(i))]

        vc.patch_attr(Lanelet, "all_lanelets_by_merging_successors_from_lanelet", staticmethod(merge))

        def positions(points):
            if len(points) != 1:
                raise Undecided("several positions at once")
            p = points[0]
            for q, n, f in ((net.start, net.n, net.sid), (net.end, net.m, net.eid)):
                if q is not None and p is q:
                    return [L.SSeq(L.I(n), lambda i, f=f: f(Sym(i, "int")), list) if sym else [f(i) for i in range(int(n))]]
            raise Undecided("another position")

        def by_id(x):
            if not sym:
                return Lane([net.sid(i) for i in range(int(net.n))].index(x))
            i = z3.simplify(net.index(L.I(x)))
            L.uni().touch(i)
            vc.prove("a lanelet found at the start", L.SBool(z3.And(0 <= i, i < L.I(net.n))))
            return Lane(Sym(i, "int"))

        self.network = Stub(find_lanelet_by_position=positions, find_lanelet_by_id=by_id)
        self.Lane, self.Merged = Lane, Merged


class LaneOf:
    """the lane built from way j of lanelet i (the contract of from_commonroad_lanelet, P21)"""

    def __init__(self, net, i, j):
        self.net, self.i, self.j = net, i, j

    def __vc_equal__(self, o):
        if type(o) is not type(self):
            return [False]
        return [L.SBool(z3.And(L.I(self.i) == L.I(o.i), L.I(self.j) == L.I(o.j)))]

    def __vc_pick__(self, c, o):
        if type(o) is not type(self):
            return NotImplemented
        sel = lambda a, b: Sym(z3.If(L.bterm(c), L.I(a), L.I(b)), "int")
        return type(self)(self.net, sel(self.i, o.i), sel(self.j, o.j))

    def __getattr__(self, nm):
        raise Undecided("uses " + nm)


def lanes_of(vc, net):
    def build(lanelet):
        if not isinstance(lanelet, net.Merged):
            raise Undecided("built from another lanelet")
        return LaneOf(net, lanelet.i, lanelet.j)

    vc.patch_attr(DgLanelet, "from_commonroad_lanelet", staticmethod(build))


@target("P30", "lane at a position, any network", [N + "utils.dglane_from_position"], samples=100)
def h(vc):
    p = np.array([vc.real("x"), vc.real("y")])
    net = Net(vc, p)
    lanes_of(vc, net)
    if vc.symbolic:
        vc.loops(N + "utils.dglane_from_position")
    a = vc.int("lane", 0, 3)
    b = vc.int("way", 0, 3)
    vc.assume(net.n > a)
    vc.assume((Sym(net.ways(a), "int") if vc.symbolic else net.ways(a)) > b)
    how = vc.choice("given", ["both", "none", "lane", "way"])
    args = {"both": dict(init_lane_selection=a, succ_lane_selection=b), "none": {}, "lane": dict(init_lane_selection=a), "way": dict(succ_lane_selection=b)}[how]
    if "init_lane_selection" not in args:
        vc.assume(a == 0)
    if "succ_lane_selection" not in args:
        vc.assume(b == 0)
    r = dglane_from_position(p, net.network, **args)
    if type(r) is not LaneOf:
        raise Undecided("another lane")
    vc.prove("the lanelet there, as selected", r.i == a)
    vc.prove("and the way on from it, as selected", r.j == b)


def trajectory_lane(vc, lane, tr, label):
    """the lane through the states of the trajectory"""
    cps = lane.control_points
    if vc.symbolic:
        cps = L.as_seq(cps)
        vc.prove(label + ": a point per state", L.SBool(cps.n == L.I(tr.n)))
        get = lambda j: cps.get(L.I(j))
    else:
        vc.prove(label + ": a point per state", len(cps) == tr.n)
        get = lambda j: cps[int(j)]
    same = lambda a, b: vc.And(a.r > 0, *[vc.eq(x, y) for x, y in zip([a.q.p[0], a.q.p[1]], b[:2])], vc.same_angle(a.q.theta, b[2]))
    vc.forall(label + ": at the states, as wide everywhere", 0, tr.n, lambda j: vc.And(same(get(j), [tr.at(k, j) for k in ("x", "y", "psi")]), vc.eq(get(j).r, get(0).r)))


@target("P30", "lane along a trajectory", [N + "utils_dyn_obstacle._dglane_from_trajectory"], kind="loop", samples=100)
def h(vc):
    from dg_commons.sim.scenarios import utils_dyn_obstacle as M

    tr = States(vc)
    if not hasattr(M, "_dglane_from_trajectory"):
        raise Undecided("_dglane_from_trajectory")
    if vc.symbolic:
        from dg_commons.maps.lanes import LaneCtrPoint
        from dg_commons import SE2Transform

        def pts(k):
            return L.SSeq(k, lambda j: LaneCtrPoint(q=SE2Transform(p=tr.list.get(j).position, theta=tr.list.get(j).orientation), r=width / 2), list)

        width = 3.0
        vc.loops(N + "utils_dyn_obstacle._dglane_from_trajectory", lambda l, e: L.LoopSpec(vals={"control_points": pts}))
        L.install(__import__("sys").modules[DgLanelet.__module__])
    trajectory_lane(vc, M._dglane_from_trajectory(tr.list), tr, "its own trajectory")


@target("P30", "lane of an obstacle, any network", [N + "utils_dyn_obstacle.infer_lane_from_dyn_obs"], kind="loop", samples=300, budget=120, free_trig=True)
def h(vc):
    from dg_commons.sim.scenarios import utils_dyn_obstacle as M

    tr, ini = States(vc), state(vc, "ini")
    tr.list = L.SSeq(tr.list.n, tr.list._get, list) if vc.symbolic else tr.list
    last = tr.list[-1]
    net = Net(vc, ini.position, last.position)
    sym = vc.symbolic
    if sym:
        Z, R = z3.IntSort(), z3.RealSort()
        H = z3.Function("heading", Z, Z, R)
        heading = lambda i, j: Sym(H(L.I(i), L.I(j)), "float")
    else:
        hs = {(i, j): vc.real(f"h{i}.{j}", -3.1, 3.1) for i in range(4) for j in range(4)}
        heading = lambda i, j: hs[int(i) % 4, int(j) % 4]

    class Candidate(LaneOf):
        def find_along_lane_closest_point_fast(self, p, *a, **k):
            vc.prove("compared where the obstacle starts", p is ini.position)
            t = heading(self.i, self.j)
            c, s = vc.cos(t), vc.sin(t)
            return vc.havoc("along") if sym else 0.0, np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]], dtype=object if sym else float)

        find_along_lane_closest_point = find_along_lane_closest_point_fast

    def build(lanelet):
        if not isinstance(lanelet, net.Merged):
            raise Undecided("built from another lanelet")
        return Candidate(net, lanelet.i, lanelet.j)

    vc.patch_attr(DgLanelet, "from_commonroad_lanelet", staticmethod(build))
    if sym:
        # contract of the geometry library: the angle of a pose, up to full turns
        vc.patch(geometry.angle_from_SE2, lambda q: L.ctx().atan2(q[1, 0], q[0, 0]))
    own = []
    vc.use(N + "utils_dyn_obstacle._dglane_from_trajectory", lambda states, width: (own.append(states), Stub(states=states))[1])
    angle = lambda i, j: (lambda d: vc.atan2(vc.sin(d), vc.cos(d)))(ini.orientation - heading(i, j))
    # a way counts if it runs through a lanelet at the end of the trajectory
    if sym:
        n, m = L.I(net.n), L.I(net.m)
        cat = L.Concat(n, lambda i: net.ways(i), "ways")
        K, W = z3.Function("counts", Z, Z, z3.BoolSort()), z3.Function("through", Z, Z, Z)

        def define(i, j):
            w = z3.simplify(W(i, j))
            t = lambda f: L.bterm(net.runs(i, j, net.eid(f)))
            L.ctx().fact(z3.Implies(K(i, j), z3.And(0 <= w, w < m, t(w))))
            L.uni().touch(w)
            L.uni().add(L.All(0, m, lambda f: z3.Implies(t(f), K(i, j))))

        fl = L.Filtered(cat.total, lambda g: K(cat.part(g), cat.within(g)), "candidates", cat.space)
        cand = lambda g: Candidate(net, Sym(cat.part(g), "int"), Sym(cat.within(g), "int"))
        upto = lambda g: L.SSeq(fl.count(g), lambda q: cand(fl.nth(q)), list)
        st = {}

        def outer(l, e):
            def inv(k, env):
                st["i"] = L.I(k) if l.case == "step" else None
                g = cat.off(L.I(k))
                L.uni().touch(z3.simplify(g), cat.space)
                return []

            return L.LoopSpec(vals={"candidates": lambda k: upto(cat.off(L.I(k)))}, inv=inv)

        def inner(l, e):
            i = st["i"]

            def so_far(k):
                return upto(cat.at(i, k))

            def inv(k, env):
                cat.at(i, k)
                if l.case == "step":
                    define(i, L.I(l.k))
                return []

            return L.LoopSpec(vals={"candidates": so_far}, inv=inv)

        def angles(l, e):
            def inv(k, env):
                if l.case == "step" and "D" not in st:
                    c = st["D"] = cand(fl.nth(L.I(l.k)))
                    L.ctx().fact(D(L.I(c.i), L.I(c.j)) == L.as_real(vc.abs(angle(c.i, c.j)).t))
                return []

            return L.LoopSpec(vals={"displacement_angles": lambda k: L.SSeq(k, lambda q: apart(cand(fl.nth(q))), list)}, inv=inv)

        D = z3.Function("apart", Z, Z, R)  # the angle between obstacle and lane
        apart = lambda c: Sym(D(L.I(c.i), L.I(c.j)), "float")

        vc.loops(N + "utils_dyn_obstacle.infer_lane_from_dyn_obs", {0: outer, 1: inner, 2: angles})
    o = Stub(initial_state=ini, prediction=Stub(trajectory=Stub(state_list=tr.list, final_state=last)))
    r = infer_lane_from_dyn_obs(o, net.network)
    counts = (lambda i, j: L.SBool(K(L.I(i), L.I(j)))) if sym else (lambda i, j: any(net.runs(i, j, net.eid(f)) for f in range(int(net.m))))
    off = lambda i, j: abs(angle(i, j))
    if isinstance(r, LaneOf):
        vc.prove("a way on from a lanelet where it starts", vc.And(0 <= r.i, r.i < net.n, 0 <= r.j, r.j < (Sym(net.ways(r.i), "int") if sym else net.ways(r.i))))
        vc.prove("through a lanelet where it ends", counts(r.i, r.j))
        if sym:
            i = L.any_index(0, n)
            j = L.any_index(0, net.ways(i), space=cat.space)
            g = cat.at(i, j)
            L.uni().touch(z3.simplify(fl.count(g)))
            vc.prove("none of them is better aligned", vc.Implies(counts(i, j), apart(r) <= apart(Candidate(net, i, j))))
        else:
            vc.prove("none of them is better aligned", all(not counts(i, j) or off(r.i, r.j) <= off(i, j) + 1e-9 for i in range(int(net.n)) for j in range(net.ways(i))))
        return
    if sym:
        vc.prove("else its own trajectory", len(own) == 1 and own[0] is tr.list)
        i = L.any_index(0, n)
        j = L.any_index(0, net.ways(i), space=cat.space)
        cat.at(i, j)
        vc.prove("only if no way leads from start to end", vc.Or(vc.Not(counts(i, j)), net.m == 0))
    else:
        trajectory_lane(vc, r, tr, "else its own trajectory")
        vc.prove("only if no way leads from start to end", not any(counts(i, j) for i in range(int(net.n)) for j in range(net.ways(i))))


# ------------------------------------------------------------------------------------------------ scenarios of any size
class Tree:
    """a spatial index over shapes in the order given (contract of shapely's STRtree)"""

    def __init__(self, geoms, *a, **k):
        self.geoms = geoms


class Shape:
    """a shape known by what it is"""

    def __init__(self, kind, i):
        self.kind, self.i = kind, i

    def __vc_equal__(self, o):
        if type(o) is not Shape or o.kind != self.kind:
            return [False]
        return [L.SBool(L.I(self.i) == L.I(o.i))]

    def __eq__(self, o):
        return type(o) is Shape and o.kind == self.kind and bool(self.i == o.i)

    __hash__ = object.__hash__

    def __getattr__(self, nm):
        raise Undecided("uses " + nm)


def same_shape(vc, s, kind, i):
    return False if type(s) is not Shape or s.kind != kind else vc.eq(s.i, i)


@target("P30", "scenario obstacles, any number", [N + "structures.DgScenario.__post_init__", N + "structures.DgScenario.lanelet_network"], kind="loop", samples=100)
def h(vc):
    from dg_commons.sim.scenarios import structures as M
    from dg_commons.maps import road_bounds

    sym = vc.symbolic
    given, want, buf = vc.flag("given"), vc.flag("bounds"), None if vc.flag("default") else vc.real("buffer", 0, 2)
    sc = object.__new__(Scenario) if vc.flag("scenario") else None
    if sc is not None:
        vc.patch_attr(Scenario, "lanelet_network", property(lambda s: "network"))
    pt = vc.choice("as", [list, tuple])
    n = U.length(vc, "n", 0, 5) if given else 0
    m = U.length(vc, "m", 0, 5)
    bad = not sym and given and n > 0 and vc.choice("bad", [False] * 4 + [True])
    mk = lambda i: StaticObstacle(Shape("given", i))
    if sym:
        L.install(M)
        obs = L.SSeq(L.I(n), lambda i: mk(Sym(i, "int")), pt) if given else None
        bounds = L.SSeq(L.I(m), lambda i: Shape("bound", Sym(i, "int")), list)
    else:
        obs = pt(mk(i) for i in range(int(n))) if given else None
        if bad:
            obs = pt(list(obs[:-1]) + [Shape("given", int(n) - 1)])
        bounds = [Shape("bound", i) for i in range(int(m))]
    asked = []

    def build(scenario, buffer=0.1):
        asked.append((scenario, buffer))
        return bounds, []

    if vc.patch(road_bounds.build_road_boundary_obstacle, build) == 0:
        raise Undecided("boundaries built in another way")
    import shapely.strtree

    if vc.patch(shapely.strtree.STRtree, Tree) == 0:
        raise Undecided("indexed in another way")
    if sym:
        total = lambda k: L.SSeq(L.I(n) + k, lambda i: L.pick(i < L.I(n), lambda: mk(Sym(i, "int")), lambda: StaticObstacle(Shape("bound", Sym(z3.simplify(i - L.I(n)), "int")))), list)

        def spec(l, e):
            # a loop over the obstacles changes nothing, the one over the boundaries appends them
            return L.LoopSpec(vals={"static_obstacles": lambda k: total(k)} if "static_obstacles" in getattr(l, "changes", ("static_obstacles",)) and asked else {})

        vc.loops(N + "structures.DgScenario.__post_init__", spec)
    kw = {} if buf is None else dict(road_boundaries_buffer=buf)
    try:
        d = DgScenario(sc, static_obstacles=obs, use_road_boundaries=want, **kw)
    except AssertionError:
        vc.prove("only obstacles are obstacles", bad)
        return
    vc.prove("only obstacles are obstacles", not bad)
    use = want and sc is not None
    vc.prove("road boundaries only on request", (len(asked) > 0) == use)
    if use:
        vc.prove("of that scenario, as wide as asked", vc.And(len(asked) == 1, asked[0][0] is sc, vc.eq(asked[0][1], 0.1 if buf is None else buf)))
    vc.prove("the map of the scenario", d.lanelet_network == ("network" if sc is not None else None))
    k = n + m if use else n
    o, g = d.static_obstacles, d.strtree_obstacles.geoms
    if sym:
        o, g = L.as_seq(o), L.as_seq(g)
        vc.prove("the given ones and the boundaries", L.SBool(o.n == L.I(k)))
        vc.prove("all of them are indexed", L.SBool(g.n == L.I(k)))
        at, ag = (lambda j: o.get(L.I(j))), (lambda j: g.get(L.I(j)))
    else:
        vc.prove("the given ones and the boundaries", len(o) == k)
        vc.prove("all of them are indexed", len(g) == k)
        at, ag = (lambda j: o[int(j)]), (lambda j: g[int(j)])
    if given:
        vc.forall("its obstacles come first, as given", 0, n, lambda j: same_shape(vc, at(j).shape, "given", j))
        vc.forall("found by their position in the list", 0, n, lambda j: same_shape(vc, ag(j), "given", j))
    if use:
        vc.forall("then the boundaries", 0, m, lambda j: same_shape(vc, at(n + j).shape, "bound", j))
        vc.forall("found by their position in the list", 0, m, lambda j: same_shape(vc, ag(n + j), "bound", j))


@target("P30", "replica of any number of obstacles", [N + "factory.get_scenario_commonroad_replica"], kind="loop", samples=200, budget=120)
def h(vc):
    """the reader, the conversion of single obstacles and the placing of shapes behind their contracts"""
    from dg_commons import apply_SE2_to_shapely_geo, PlayerName
    from dg_commons.sim.scenarios import factory as M, utils, utils_dyn_obstacle, convert_from_commonroad
    from dg_commons.sim.simulator import SimContext
    from pyvc import core, dicts

    sym = vc.symbolic
    n, m = U.length(vc, "n", 0, 6), U.length(vc, "m", 0, 4)
    poses = {k: [U.numbers(vc, k + c, c_n, pytype=list) for c in ("x", "y", "psi")] for k, c_n in (("dyn", n), ("sta", m))}
    pose = lambda k, i: [a.get(L.I(i)) if sym else a[int(i)] for a in poses[k]]
    if sym:
        rest, fits = L.flags("rest", n), L.flags("fits", n)
        e = vc.int("ego", 0, None, most=5)
    else:
        rl, fl_ = [[vc.bool(f"{k}{i}") for i in range(int(n))] for k in ("rest", "fits")]
        rest, fits = (lambda i: rl[int(i)]), (lambda i: fl_[int(i)])
        e = vc.int("ego", 0, 5)
    ego = vc.flag("has ego")

    class Pred(TrajectoryPrediction):
        def __init__(s):
            pass

    def obstacle_(kind, i):
        x, y, psi = pose(kind, i)
        o = Stub(kind=kind, i=i, initial_state=Stub(position=np.array([x, y]), orientation=psi), obstacle_shape=Stub(shapely_object=Shape(kind, i)), obstacle_type=Shape(kind + " type", i))
        if kind == "dyn":
            o.__dict__["prediction"] = Pred()
        return o

    many = lambda kind, k: L.SSeq(L.I(k), lambda i: obstacle_(kind, Sym(i, "int")), list) if sym else [obstacle_(kind, i) for i in range(int(k))]
    sc = Stub(dynamic_obstacles=many("dyn", n), static_obstacles=many("sta", m), lanelet_network=Stub())

    def load(name, where=None):
        vc.prove("the scenario asked for", name == "some" and where == "there")
        return sc, None

    def place(shapely_geometry, se2_value):
        if type(shapely_geometry) is not Shape:
            raise Undecided("another shape")
        x, y, psi = pose(shapely_geometry.kind, shapely_geometry.i)
        q = se2_value
        vc.prove("in its place", vc.eq([q[0, 2], q[1, 2], q[0, 0], q[1, 0]], [x, y, vc.cos(psi), vc.sin(psi)]))
        return Shape("placed " + shapely_geometry.kind, shapely_geometry.i)

    def convert(dyn_obs, lanelet_network, *a, **k):
        vc.prove("on the map of the scenario", lanelet_network is sc.lanelet_network)
        if not fits(L.I(dyn_obs.i) if sym else dyn_obs.i):
            raise NotSupportedConversion("no model")
        return Shape("model", dyn_obs.i), Shape("agent", dyn_obs.i)

    def at_rest(o, tol=None):
        if tol is not None:
            raise Undecided("at rest in another way")
        return rest(L.I(o.i) if sym else o.i)

    made = {}

    def dg(scenario=None, static_obstacles=None, **k):
        made["dg"] = (scenario, static_obstacles, k)
        return "dg"

    def ctx(**k):
        made["ctx"] = k
        return "ctx"

    for f, g in ((utils.load_commonroad_scenario, load), (apply_SE2_to_shapely_geo, place), (utils_dyn_obstacle.is_dyn_obstacle_static, at_rest),
                 (convert_from_commonroad.model_agent_from_dynamic_obstacle, convert), (SimContext, ctx), (DgScenario, dg)):
        old = getattr(M, f.__name__, None)
        if old is not f:
            raise Undecided("replicated in another way")
        vc.patch_attr(M, f.__name__, g)
    ego_name = None
    if sym:
        dom = dicts.Domain("player", L.I(n) + 1)  # one name per obstacle and that of the ego
        now = {}
        txt = lambda s: "<" + z3.simplify(s.t).sexpr() + ">"
        vc.patch_attr(core.Sym, "__format__", lambda s, spec: txt(s))

        def name(s):
            if type(s) is dicts.Key:
                return s
            if s == "Ego":
                return dom.key(L.I(n))
            if now.get("k") is not None and s == "P" + txt(Sym(now["k"], "int")):
                return dom.key(now["k"])
            raise Undecided("named in another way")

        vc.patch(PlayerName, name)
        if ego:
            ego_name = dom.key(L.I(e))
            vc.assume(e < n + 1)
            if e == n:
                ego_name = "Else"
        n_ = L.I(n)
        plays = lambda i: z3.And(z3.Not(L.bterm(rest(i))), L.bterm(fits(i)))
        E = L.I(e) if ego else z3.IntVal(-1)
        present = lambda k: lambda i: z3.Or(z3.And(i < n_, i < k, i != E, plays(i)), z3.And(i == n_, 0 <= E, E < n_, E < k, plays(E)))
        who = lambda kind: lambda i: Shape(kind, Sym(z3.If(i == n_, E, i), "int"))
        players = lambda kind, k: dicts.SDict(dom, who(kind), present(k))
        still = L.Filtered(n, lambda i: L.bterm(rest(i)), "rest")
        parked = lambda kind, i: StaticObstacle(obstacle_type=Shape(kind + " type", Sym(i, "int")), shape=Shape("placed " + kind, Sym(i, "int")))

        def moving(l, env):
            def inv(k, en):
                now["k"] = L.I(k) if l.case == "step" else None
                return []

            return L.LoopSpec(vals={"static_obstacles": lambda k: still.seq(lambda i: parked("dyn", i), k), "players": lambda k: players("agent", k), "models": lambda k: players("model", k)}, inv=inv)

        all_still = lambda k: L.SSeq(still.count(n_) + k, lambda q: L.pick(q < still.count(n_), lambda: parked("dyn", still.nth(q)), lambda: parked("sta", z3.simplify(q - still.count(n_)))), list)
        vc.loops(N + "factory.get_scenario_commonroad_replica", {0: moving, 1: lambda l, env: L.LoopSpec(vals={"static_obstacles": all_still})})
    elif ego:
        ego_name = PlayerName(f"P{int(e)}")
    seed = vc.int("seed", 0, 100)
    par = None if vc.flag("default parameters") else Stub(own=True)
    M.get_scenario_commonroad_replica("some", "there", **({} if par is None else dict(sim_param=par)), ego_player=ego_name, seed=seed, description="d")
    if "ctx" not in made or "dg" not in made:
        raise Undecided("another context")
    k = made["ctx"]
    vc.prove("seeded as asked", vc.eq(k["seed"], seed))
    vc.prove("with the parameters asked for", k["param"] is par if par is not None else type(k["param"]).__name__ == "SimParameters")
    vc.prove("in that scenario", k["dg_scenario"] == "dg" and made["dg"][0] is sc and not made["dg"][2].get("use_road_boundaries"))
    ps, ms, obs = k["players"], k["models"], made["dg"][1]
    if sym:
        for d, kind in ((ps, "agent"), (ms, "model")):
            if not dicts.is_dict(d):
                d = dicts.as_dict(d, dom)
            i = L.any_index(0, n_)
            at = z3.simplify(z3.If(i == E, n_, i))
            vc.prove("a player per obstacle that moves and has a model", L.SBool(z3.And(0 <= at, at < dom.n, d.has(at)) == plays(i)))
            vc.prove("with what was made of that obstacle", vc.Implies(L.SBool(plays(i)), L.SBool(L.conj(L.equal(d.value(at), Shape(kind, Sym(i, "int")))))))
            vc.prove("and nobody else", vc.Implies(L.SBool(d.has(n_)), L.SBool(z3.And(0 <= E, E < n_))))
        obs = L.as_seq(obs)
        vc.prove("an obstacle per parked or static one", L.SBool(obs.n == still.count(n_) + L.I(m)))
        vc.forall("those at rest in their places", 0, n, lambda i: vc.Implies(L.SBool(L.bterm(rest(L.I(i)))), L.SBool(L.conj(L.equal(obs.get(still.count(L.I(i))), parked("dyn", L.I(i)))))))
        vc.forall("then the static ones in theirs", 0, m, lambda j: L.SBool(L.conj(L.equal(obs.get(z3.simplify(still.count(n_) + L.I(j))), parked("sta", L.I(j))))))
        return
    want = [i for i in range(int(n)) if not rest(i) and fits(i)]
    vc.prove("a player per obstacle that moves and has a model", sorted(a.i for a in ps.values()) == want and all(a.kind == "agent" for a in ps.values()))
    vc.prove("with what was made of that obstacle", set(ps) == set(ms) and all(ms[p].i == a.i and ms[p].kind == "model" for p, a in ps.items()))
    vc.prove("the ego is one of them, if it moves", ("Ego" in ps) == (ego and int(e) in want) and ("Ego" not in ps or ps["Ego"].i == int(e)))
    still = [i for i in range(int(n)) if rest(i)]
    vc.prove("an obstacle per parked or static one", len(obs) == len(still) + int(m))
    for o, (kind, i) in zip(obs, [("dyn", i) for i in still] + [("sta", i) for i in range(int(m))]):
        vc.prove("those at rest in their places, then the static ones in theirs", o.shape.kind == "placed " + kind and o.shape.i == i and o.obstacle_type.kind == kind + " type" and o.obstacle_type.i == i)


# ------------------------------------------------------------------------------------------------ road boundaries of any road
class Line:
    """a set of points, known by whether one arbitrary point of the plane lies in it (point-set semantics of shapely's operations)"""

    def __init__(self, vc, member, parts=None, empty=None):
        self.__dict__.update(vc=vc, member=member, parts=parts, empty=empty)

    def difference(self, o):
        if not isinstance(o, Line):
            raise Undecided("cut with something else")
        vc = self.vc
        c = vc.And(self.member, vc.Not(o.member))
        return Line(vc, L.SBool(L.bterm(c)) if vc.symbolic else bool(c), self.parts)

    @property
    def is_empty(self):
        if self.empty is None:
            # an empty set has no points; others may have none here
            self.__dict__["empty"] = vc_empty(self.vc, self.member)
        return self.empty

    def __vc_equal__(self, o):
        return [L.SBool(L.bterm(self.member) == L.bterm(o.member))] if isinstance(o, Line) else [False]

    def __getattr__(self, nm):
        if nm == "geoms":
            if self.parts is None:
                raise AttributeError(nm)
            return self.parts(self)
        if nm.startswith("__"):
            raise AttributeError(nm)
        raise Undecided("uses " + nm)


def vc_empty(vc, member):
    if not vc.symbolic:
        return False
    b = L.ctx().fresh("empty", "bool")
    L.ctx().fact(z3.Implies(b, z3.Not(L.bterm(member))))
    return L.SBool(b)


class Bounds:
    """a list of sets of points, known by whether the point lies in one of them"""

    def __init__(self, vc, member):
        self.vc, self.member = vc, member

    def append(self, x):
        if not isinstance(x, Line):
            raise Undecided("something else among the boundaries")
        self.member = L.SBool(z3.Or(L.bterm(self.member), L.bterm(x.member)))

    def extend(self, xs):
        if not L.symbolic(xs):
            for x in list(xs):
                self.append(x)
            return
        n, keep, get = L.over(L.as_seq(xs))
        cx = L.ctx()
        b, w = cx.fresh("in one", "bool"), cx.fresh("in", "int")
        cx.fact(z3.Implies(b, z3.And(0 <= w, w < n)))
        L.uni().touch(w)
        cx.fact(z3.Implies(b, z3.And(keep(w), L.bterm(get(w).member))))
        L.uni().add(L.All(0, n, lambda j: z3.Implies(z3.And(keep(j), L.bterm(get(j).member)), b)))
        self.member = L.SBool(z3.Or(L.bterm(self.member), b))

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __vc_equal__(self, o):
        if isinstance(o, list):
            o = Bounds(self.vc, L.SBool(z3.Or(*[L.bterm(x.member) for x in o])))
        return [L.SBool(L.bterm(self.member) == L.bterm(o.member))] if type(o) is Bounds else [False]


@target("P30", "road boundaries of any road", ["dg_commons.maps.road_bounds.build_road_boundary_obstacle"], kind="loop", samples=200, budget=120)
def h(vc):
    """one arbitrary point: it is on a boundary iff it lies on an edge of the road and in no gate"""
    import shapely
    from shapely.ops import unary_union as union_
    from dg_commons.maps import road_bounds as M

    sym = vc.symbolic
    n, p = U.length(vc, "lanelets", 0, 5), U.length(vc, "parts", 0, 3)
    buf = None if vc.flag("default") else vc.real("buffer", 0, 1)
    width = 0.1 if buf is None else buf
    if sym:
        Z, B = z3.IntSort(), z3.BoolSort()
        fn = lambda nm, *s: z3.Function(nm, *s)
        nexts, prevs, rings = fn("successors", Z, Z), fn("predecessors", Z, Z), fn("holes", Z, Z)
        gate, ext, ring = fn("in gate", Z, Z, B), fn("on exterior", Z, B), fn("on hole", Z, Z, B)
        L.uni().add(L.All(0, n, lambda i: z3.And(nexts(i) >= 0, prevs(i) >= 0)))
        L.uni().add(L.All(0, p, lambda g: rings(g) >= 0))
        Gate, Ext, Ring = (lambda i, e: L.SBool(gate(L.I(i), L.I(e)))), (lambda g: L.SBool(ext(L.I(g)))), (lambda g, r: L.SBool(ring(L.I(g), L.I(r))))
        listed = lambda k, f: L.SSeq(L.I(k), lambda j: f(Sym(j, "int")), list)
        count = lambda f: lambda i: Sym(f(L.I(i)), "int")
        nexts_, prevs_, rings_ = count(nexts), count(prevs), count(rings)
    else:
        tab = {}
        few = lambda nm, opts: lambda i: tab.setdefault((nm, i), vc.choice(f"{nm}{i}", opts))
        nexts_, prevs_, rings_ = few("s", [0, 1, 2]), few("p", [0, 1, 2]), few("h", [0, 1, 2])
        bit = lambda nm, opts: lambda *i: tab.setdefault((nm, i), vc.choice(nm + ".".join(map(str, i)), opts))
        Gate, Ext, Ring = bit("g", [False] * 6 + [True]), bit("e", [False, True]), bit("r", [False, False, True])
        listed = lambda k, f: [f(j) for j in range(int(k))]
    multi = vc.flag("several lines")

    class Vertices:
        def __init__(s, side, i):
            s.side, s.i = side, i

        def __getitem__(s, k):
            if k not in (0, -1):
                raise Undecided("another vertex")
            return (s.side, s.i, k)

    class Segment:
        def __init__(s, pts):
            (a, i, k), (b, j, l) = pts
            vc.prove("gates run across a lane", {a, b} == {"left", "right"} and k == l and vc.eq(i, j))
            s.i, s.end = i, k

        def buffer(s, d, *a, **k):
            vc.prove("gates are wider than the edge is away", vc.Or(d > width, width == 0))
            return Line(vc, Gate(s.i, s.end))

    class Area:
        def __init__(s, i):
            s.i = i

        def buffer(s, d, *a, **k):
            vc.prove("widened as asked", vc.eq(d, width))
            return Area(s.i)

        def __vc_equal__(s, o):
            return [L.SBool(L.I(s.i) == L.I(o.i))] if type(o) is Area else [False]

    lanelet_ = lambda i: Stub(i=i, polygon=Stub(shapely_object=Area(i)), right_vertices=Vertices("right", i), left_vertices=Vertices("left", i),
                              successor=listed(nexts_(i), lambda j: j), predecessor=listed(prevs_(i), lambda j: j))

    def several(line):
        """the parts of a set of points"""
        if not sym:
            return [Line(vc, line.member), Line(vc, False)]
        cx = L.ctx()
        u = cx.n_fresh
        cx.n_fresh += 1
        k, f, w = cx.fresh("pieces", "int"), z3.Function(f"in piece!{u}", z3.IntSort(), z3.BoolSort()), cx.fresh("piece", "int")
        cx.fact(k >= 0)
        cx.fact(z3.Implies(L.bterm(line.member), z3.And(0 <= w, w < k, f(w))))
        L.uni().touch(w)
        L.uni().add(L.All(0, k, lambda j: z3.Implies(f(j), L.bterm(line.member))))
        return L.SSeq(k, lambda j: Line(vc, L.SBool(f(j))), list)

    class Part:
        def __init__(s, g):
            s.g = g

        interiors = property(lambda s: listed(rings_(s.g), lambda r: Line(vc, Ring(s.g, r))))
        exterior = property(lambda s: Line(vc, Ext(s.g), several if multi else None))
        is_empty = False

        @property
        def __class__(s):
            return shapely.Polygon

        def __getattr__(s, nm):
            raise Undecided("uses " + nm)

    class Multi:
        def __init__(s, geoms):
            s.geoms = geoms

        is_empty = False

    one = vc.flag("one piece")
    united = []

    def unite(areas):
        united.append(areas)
        if sym:
            a = L.as_seq(areas)
            vc.prove("all lanes are part of the road", L.SBool(a.n == L.I(n)))
            i = L.any_index(0, n)
            vc.prove("all lanes are part of the road", L.SBool(L.conj(L.equal(a.get(i), Area(i)))))
        else:
            vc.prove("all lanes are part of the road", [a.i for a in areas] == list(range(int(n))))
        return Part(0) if one else Multi(listed(p, Part))

    if one:
        vc.assume(p == 1)
    for nm, new in (("LineString", Segment), ("MultiPolygon", Multi), ("unary_union", unite)):
        if not hasattr(M, nm):
            raise Undecided("built in another way")
        vc.patch_attr(M, nm, new)
    if sym:
        last, first = z3.IntVal(-1), z3.IntVal(0)
        nosucc, nopred = (lambda i: nexts(i) == 0), (lambda i: prevs(i) == 0)
        one_if = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
        cat = L.Concat(n, lambda i: one_if(nosucc(i)) + one_if(nopred(i)), "gates")
        end_of = lambda g: z3.If(z3.And(nosucc(cat.part(g)), cat.within(g) == 0), last, first)
        in_gate = lambda g: gate(cat.part(g), end_of(g))
        hit = L.Filtered(cat.total, in_gate, "hit", cat.space)
        on_hole = z3.Function("on a hole", Z, B)
        some = z3.Function("hole", Z, Z)

        def holes(g):
            """g has a hole on whose edge the point lies"""
            w = z3.simplify(some(g))
            L.ctx().fact(z3.Implies(on_hole(g), z3.And(0 <= w, w < rings(g), ring(g, w))))
            L.uni().touch(w)
            L.uni().add(L.All(0, rings(g), lambda r: z3.Implies(ring(g, r), on_hole(g))))

        clear = lambda: hit.count(cat.total) == 0
        parts = L.Filtered(p, lambda g: z3.Or(on_hole(g), z3.And(ext(g), clear())), "part")
        st = {}

        def gates(k):
            g = cat.off(L.I(k))
            L.uni().touch(z3.simplify(g), cat.space)
            s = L.SSeq(g, lambda q: Line(vc, L.SBool(in_gate(q))), list)
            s.space = cat.space
            return s

        def lanes(l, e):
            def inv(k, env):
                if l.case == "step":
                    for r in (0, 1):
                        cat.at(L.I(l.k), r)
                return []
            return L.LoopSpec(vals={"entrance_exit_gates": gates, "lane_polygons": lambda k: L.SSeq(k, lambda i: Area(i), list)}, inv=inv)

        def pieces(l, e):
            def inv(k, env):
                if l.case == "step" and "g" not in st:
                    st["g"] = l.k
                    holes(l.k)
                    st["holes"] = L.Filtered(rings(l.k), lambda r: ring(st["g"], r), "ring")
                    st["holes"].nth(z3.IntVal(0))
                return []
            return L.LoopSpec(vals={"scenario_bounds": lambda k: Bounds(vc, L.SBool(parts.count(L.I(k)) > 0))}, inv=inv)

        def inner(l, e):
            g = st["g"] if "g" in st else z3.IntVal(0)
            if "holes" not in st:
                holes(g)
                st["holes"] = L.Filtered(rings(g), lambda r: ring(g, r), "ring")
                st["holes"].nth(z3.IntVal(0))
            return L.LoopSpec(vals={"scenario_bounds": lambda k: Bounds(vc, L.SBool(z3.Or(parts.count(g) > 0, st["holes"].count(L.I(k)) > 0)))})

        def cuts(l, e):
            g = st["g"] if "g" in st else z3.IntVal(0)
            return L.LoopSpec(vals={"ext_bounds": lambda k: Line(vc, L.SBool(z3.And(ext(g), hit.count(L.I(k)) == 0)), several if multi else None)})

        vc.loops("dg_commons.maps.road_bounds.build_road_boundary_obstacle", {0: lanes, 1: pieces, 2: inner, 3: cuts})
    sc = Stub(lanelet_network=Stub(lanelets=listed(n, lanelet_)))
    bounds, out = M.build_road_boundary_obstacle(sc) if buf is None else M.build_road_boundary_obstacle(sc, buf)
    if sym:
        if type(bounds) is list:
            b = Bounds(vc, L.SBool(z3.BoolVal(False)))
            b.extend(bounds)
            bounds = b
        on = L.bterm(bounds.member)
        i, g = L.any_index(0, n), L.any_index(0, p)
        r = L.any_index(0, rings(g))
        for e_, none in ((last, nosucc), (first, nopred)):
            q = cat.at(i, 0) if e_ is last else cat.at(i, one_if(nosucc(i)))
            vc.prove("lanes without a next or previous one are open there", L.SBool(z3.Implies(z3.And(none(i), gate(i, e_)), z3.Not(z3.And(ext(g), clear())))))
        holes(g)
        vc.prove("every hole is closed", L.SBool(z3.Implies(ring(g, r), on)))
        vc.prove("the outer edge is closed outside of the gates", L.SBool(z3.Implies(z3.And(ext(g), clear()), on)))
        z = z3.simplify(hit.nth(z3.IntVal(0)))
        cat.part(z)
        vc.prove("gates are only where lanes begin or end", L.SBool(z3.Implies(z3.Not(clear()), z3.And(0 <= z, z < cat.total, in_gate(z), z3.If(end_of(z) == last, nosucc(cat.part(z)), nopred(cat.part(z)))))))
        w = z3.simplify(parts.nth(z3.IntVal(0)))
        vc.prove("nothing else is a boundary", L.SBool(z3.Implies(on, z3.And(0 <= w, w < L.I(p), z3.Or(on_hole(w), z3.And(ext(w), clear()))))))
        return
    open_ = any((nexts_(i) == 0 and Gate(i, -1)) or (prevs_(i) == 0 and Gate(i, 0)) for i in range(int(n)))
    want = any(any(Ring(g, r) for r in range(rings_(g))) or (Ext(g) and not open_) for g in range(int(p)))
    vc.prove("on a boundary iff on the edge of the road and in no gate", any(b.member for b in bounds) == want)
    vc.prove("the gates are returned too", len(out) == sum((nexts_(i) == 0) + (prevs_(i) == 0) for i in range(int(n))))


class FilePath:
    """the file at place j of directory i"""

    def __init__(self, i, j):
        self.i, self.j = i, j

    def __vc_equal__(self, o):
        return [L.SBool(z3.And(L.I(self.i) == L.I(o.i), L.I(self.j) == L.I(o.j)))] if type(o) is FilePath else [False]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Undecided("paths are read by " + n)


@target("P30", "a scenario among any number of files", [N + "utils.load_commonroad_scenario"], kind="loop", samples=40)
def h(vc):
    """the directory tree behind the contract of os.walk: any number of directories with any number of files"""
    from dg_commons.sim.scenarios import utils as M

    ask = "S" + vc.choice("ext", ["", ".xml"])
    opened = []

    class Reader:
        def __init__(self, path, *a, **k):
            self.path = path

        def open(self, *a, **k):
            opened.append(self.path)
            return "scenario", "problems"

    if getattr(M, "CommonRoadFileReader", None) is None:
        raise Undecided("read in another way")
    vc.patch_attr(M, "CommonRoadFileReader", Reader)
    if not vc.symbolic:
        with tempfile.TemporaryDirectory() as d:
            here = []
            for i in range(vc.choice("dirs", range(4))):
                os.makedirs(os.path.join(d, *[f"d{k}" for k in range(i + 1)]) if vc.flag("nested") else os.path.join(d, f"d{i}"), exist_ok=True)
            for root, dirs, files in list(os.walk(d)):
                for nm in ("A.xml", "S", "S.xml", "S.xml.xml", "xS.xml"):
                    if vc.flag(f"{len(here)}{nm}{root[len(d):]}") or False:
                        open(os.path.join(root, nm), "w").close()
                        here.append(os.path.join(root, nm))
            want = [p for p in here if os.path.basename(p) == "S.xml"]
            if not want:
                vc.prove("a missing scenario is an error", vc.raises(FileNotFoundError, lambda: M.load_commonroad_scenario(ask, d)))
                vc.prove("nothing is read", not opened)
            else:
                r = M.load_commonroad_scenario(ask, d)
                vc.prove("what is in the file of that name is returned", r == ("scenario", "problems") and len(opened) == 1 and os.path.realpath(opened[0]) in [os.path.realpath(p) for p in want])
        return
    Z, B = z3.IntSort(), z3.BoolSort()
    size, match = z3.Function("files", Z, Z), z3.Function("named so", Z, Z, B)
    H, F, last = z3.Function("has it", Z, B), z3.Function("where", Z, Z), z3.Function("latest", Z, Z)
    n = vc.int("dirs", 0)

    class Name:
        def __init__(self, i, j):
            self.i, self.j = i, j

        def __eq__(self, o):
            if type(o) is not str or o != "S.xml":
                raise Undecided("names are compared in another way")
            return L.SBool(match(self.i, self.j))

        __hash__ = None

        def __ne__(self, o):
            return vc.Not(self == o)

        def __getattr__(self, nm):
            raise Undecided("names are read by " + nm)

    class Root:
        def __init__(self, i):
            self.i = i

        def __getattr__(self, nm):
            raise Undecided("directories are read by " + nm)

    def listing(i):
        L.ctx().fact(size(i) >= 0)
        return (Root(i), Stub(), L.SSeq(size(i), lambda j: Name(i, j), list))

    def walk(top, topdown=True, onerror=None, followlinks=False):
        if top != "there" or onerror is not None:
            raise Undecided("walked in another way")
        return L.SSeq(L.I(n), listing, list)

    def join(a, b):
        if type(a) is not Root or type(b) is not Name:
            raise Undecided("paths are put together in another way")
        vc.prove("the file in its own directory", L.SBool(a.i == b.i))
        return FilePath(b.i, b.j)

    path = Stub(join=join, abspath=lambda p: p, isdir=os.path.isdir)
    vc.patch_attr(M, "os", Stub(walk=walk, path=path))
    st = {}

    def found(k):
        t = last(k)
        return L.pick(t >= 0, lambda: FilePath(t, F(t)), lambda: None)

    def define(i):
        cx = L.ctx()
        cx.fact(z3.Implies(H(i), z3.And(0 <= F(i), F(i) < size(i), match(i, F(i)))))
        L.uni().add(L.All(0, size(i), lambda j: z3.Implies(match(i, j), z3.And(H(i), F(i) <= j))))
        L.uni().touch(F(i))

    def outer(l, e):
        L.ctx().fact(last(0) == -1)

        def inv(k, env):
            if l.case == "step" and st.get("i") is not L.I(l.k):
                i = st["i"] = L.I(l.k)
                define(i)
                L.ctx().fact(last(i + 1) == z3.If(H(i), i, last(i)))
            k = L.I(k)
            L.ctx().fact(z3.And(last(k) >= -1, last(k) < k))
            return []

        return L.LoopSpec(vals={"scenario_path": found}, inv=inv)

    def inner(l, e):
        i = st["i"]
        return L.LoopSpec(vals={"scenario_path": lambda k: found(i)}, inv=lambda k, env: [L.All(0, k, lambda j: z3.Not(match(i, j)))])

    vc.loops(N + "utils.load_commonroad_scenario", {0: outer, 1: inner})
    r = None
    try:
        r = M.load_commonroad_scenario(ask, "there")
    except FileNotFoundError:
        pass
    k = L.I(n)
    if r is None:
        vc.prove("a missing scenario is an error", L.SBool(last(k) == -1))
        vc.prove("nothing is read", not opened)
        return
    p = opened[0] if len(opened) == 1 else None
    if type(p) is not FilePath:
        raise Undecided("read in another way")
    define(p.i)
    vc.prove("what is in the file of that name is returned", r == ("scenario", "problems"))
    vc.prove("of a directory that has it", L.SBool(z3.And(0 <= p.i, p.i < k, p.i == last(k), p.j == F(p.i))))


@target("P30", "agent of any obstacle", [N + "convert_from_commonroad.model_agent_from_dynamic_obstacle"], samples=20)
def h(vc):
    from dg_commons.sim.scenarios import convert_from_commonroad as M, model_from_dyn_obstacle, utils_dyn_obstacle

    obs, net, fits = object(), object(), vc.flag("has a model")
    col = vc.choice("colour", [None, "red"])
    model, lane, made = Stub(model_params=object(), model_geometry=object()), object(), []

    def infer(dyn_obs, color):
        vc.prove("that obstacle, in that colour", dyn_obs is obs and (color == col if col else isinstance(color, str)))
        if not fits:
            raise NotSupportedConversion("no model")
        return model

    def on(dyn_obs, network):
        vc.prove("on that map", dyn_obs is obs and network is net)
        return lane

    class Agent:
        def __init__(self, *a, **k):
            made.append((a, k))

    for f, g in ((model_from_dyn_obstacle.infer_model_from_cr_dyn_obstacle, infer), (utils_dyn_obstacle.infer_lane_from_dyn_obs, on), (LFAgent, Agent)):
        if getattr(M, f.__name__, None) is not f:
            raise Undecided("converted in another way")
        vc.patch_attr(M, f.__name__, g)
    call = lambda: M.model_agent_from_dynamic_obstacle(obs, net, **({} if col is None else {"color": col}))
    if not fits:
        vc.prove("no model is an error", vc.raises(NotSupportedConversion, call))
        return
    r = call()
    vc.prove("the model of the obstacle and one agent", len(r) == 2 and r[0] is model and isinstance(r[1], Agent) and len(made) == 1)
    a, k = made[0]
    b = dict(zip(("lane", "model_params", "model_geo"), a), **k)
    vc.prove("following its lane with its own parameters and geometry", b.get("lane") is lane and b.get("model_params") is model.model_params and b.get("model_geo") is model.model_geometry)
