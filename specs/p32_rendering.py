"""P32 what is drawn is what was simulated"""
import math
import sys
import z3
import numpy as np
import matplotlib

matplotlib.use("Agg")
from matplotlib import pyplot as plt
from matplotlib.figure import Figure
from matplotlib.patches import Circle, Polygon as MPoly
from matplotlib.collections import LineCollection
from shapely.geometry import Polygon, Point, LineString, MultiPolygon, MultiLineString, MultiPoint, GeometryCollection, LinearRing, box
from types import SimpleNamespace as NS
from pyvc.vc import target, Undecided, Discard
from dg_commons import DgSampledSequence, SE2Transform
from dg_commons.maps.shapely_viz import ShapelyViz
from dg_commons.planning.trajectory import Trajectory
from dg_commons.sim.goals import PolygonGoal
from dg_commons.sim.models.vehicle import VehicleState, VehicleCommands
from dg_commons.sim.models.vehicle_ligths import *
from dg_commons.sim.models import vehicle_ligths as vl
from dg_commons.sim.models.obstacles import StaticObstacle, ObstacleGeometry
from dg_commons.sim.scenarios import DgScenario
from dg_commons.sim.simulator import SimContext
from dg_commons.sim.simulator_structures import SimLog, PlayerLog, SimParameters
from dg_commons.sim.simulator_visualisation import SimRenderer, approximate_bounding_box_players, plot_trajectories
from dg_commons.sim.simulator_animation import adjust_axes_limits, get_lights_colors_from_cmds, lights_colors_from_lights_cmd
from dg_commons.sim.log_visualisation import plot_player_log, plot_players_logs
from pyvc import loops as L
from pyvc.core import ctx, Sym
from . import common as C
from . import useqs as U
from . import many as W
from .p27_footprints import flying
from .p22_geometry import Pts

V = "dg_commons.sim.simulator_visualisation."
A = "dg_commons.sim.simulator_animation."


def axes():
    f = Figure(figsize=(3, 3))
    return f.add_subplot()


def poly_of(patch):
    return Polygon(patch.get_xy())


def same(a, b):
    return a.symmetric_difference(b).area <= 1e-6 * max(1.0, a.area)


def model_of(vc, kind):
    make, scls, ucls = C.MODELS[kind][:3]
    st = C.mk(vc, scls, "x")
    cls = type(make(vc))
    m = make(vc, st) if kind == "dynobstacle" else getattr(cls, vc.choice("veh", ["default_car", "default_truck", "default_bicycle"]) if kind.startswith("vehicle") else "default")(st)
    return m, ucls


def drawn(kind):
    @target("P32", f"players are drawn where they are: {kind}", [V + "SimRenderer.plot_player"], kind="runtime", samples=25, bound="seeded states, commands and lights")
    def h(vc):
        m, ucls = model_of(vc, kind)
        ax = axes()
        ctx = SimContext(dg_scenario=DgScenario(), models={"P": m}, players={"P": None} if False else {}, param=SimParameters()) if False else NS(
            dg_scenario=DgScenario(), models={"P": m}, missions={})
        r = SimRenderer(ctx, ax=ax)
        wheels, lights = vc.flag("wheels"), vc.flag("lights") and kind.startswith("vehicle")
        handles, lp = None, None
        for frame in range(3):
            s = m.get_state()
            if frame:
                s.x, s.y, s.psi = s.x + vc.real(f"dx{frame}", -5, 5), s.y + vc.real(f"dy{frame}", -5, 5), s.psi + vc.real(f"dpsi{frame}", -2, 2)
                if hasattr(s, "delta"):
                    s.delta = vc.real(f"delta{frame}", -0.6, 0.6)
                if hasattr(s, "phi"):
                    s.phi = vc.real(f"phi{frame}", -0.6, 0.6)
            if hasattr(s, "m"):
                s.m = m.model_params.m_v + vc.choice(f"fuel{frame}", [0.0, 0.5])
            u = C.mk(vc, ucls, f"u{frame}") if kind != "vehicle" else VehicleCommands(acc=0.0, ddelta=0.0)
            for n in ("F_left", "F_right", "thrust"):
                if hasattr(u, n):
                    setattr(u, n, vc.real(f"{n}{frame}", 0.1, 2))
            col = vc.choice(f"col{frame}", list(vl.phase2colors.values())) if lights else None
            handles, lp = r.plot_player(ax=ax, player_name="P", state=s, command=u, lights_colors=col, model_poly=handles, lights_patches=lp, plot_wheels=wheels, plot_lights=lights)
            m.set_state(s)
            pose = (s.x, s.y, s.psi)
            put = lambda p: [pose[0] + vc.rot(pose[2], p)[0], pose[1] + vc.rot(pose[2], p)[1]]
            vc.prove("the body is the footprint", same(poly_of(handles[0]), m.get_footprint()))
            if kind == "dynobstacle":
                continue
            vc.prove("named at its position", handles[1].get_text() == "P" and np.allclose(handles[1].get_position(), (s.x, s.y)))
            g = m.model_geometry
            parts = []
            if kind.startswith("vehicle") and wheels:
                parts = [[put((a, b)) for a, b in zip(o[0], o[1])] for o in g.get_rotated_wheels_outlines(s.delta)]
            elif kind == "diffdrive" and wheels:
                parts = [[put((a, b)) for a, b in zip(o[0], o[1])] for o in g.wheels_outlines]
            elif kind == "spacecraft":
                parts = [[put(q) for q in o] for o in g.thrusters_outline_in_body_frame]
            elif kind == "rocket":
                parts = [[put(q) for q in o] for o in g.thrusters_outline_in_body_frame(s.phi) + g.flames_outline_in_body_frame(s.phi, [u.F_left, u.F_right])]
            elif kind == "spaceship":
                parts = [[put(q) for q in o] for o in g.thrusters_outline_in_body_frame(s.delta) + g.flames_outline_in_body_frame(s.delta, u.thrust)]
            vc.prove("all its parts", len(handles) == 2 + len(parts))
            for k, (h, p) in enumerate(zip(handles[2:], parts)):
                flame = kind in ("rocket", "spaceship") and k >= g.n_thrusters
                if flame and s.m <= m.model_params.m_v:
                    vc.prove("no flame without fuel", len(np.unique(np.round(h.get_xy(), 9), axis=0)) <= 1)
                else:
                    vc.prove("parts move along and turn as commanded", same(poly_of(h), Polygon(p)))
            if lights:
                want = {k: (put(p), getattr(col, k)) for k, p in g.lights_position.items()}
                vc.prove("four lights", len(lp) == 4)
                for q, colour in want.values():
                    near = [c for c in lp if np.hypot(*(np.array(c.center) - q)) < 1e-6]
                    vc.prove("lights at their places in their colours", any(np.allclose(c.get_facecolor()[:3], colour) for c in near))


for _k in C.MODELS:
    drawn(_k)


class Art:
    """a drawn polygon"""

    def __init__(self, xy=None):
        self.xy, self.closed = xy, True

    def set_xy(self, xy):
        self.xy = xy

    def get_xy(self):
        return self.xy

    def __getattr__(self, n):
        raise Undecided(f"artists are used by {n}")


class Label(Art):
    def __init__(self, x, y, s):
        self.pos, self.text = (x, y), s

    def set_position(self, p):
        self.pos = tuple(p)

    def set_text(self, s):
        self.text = s


class Lamp(Art):
    def __init__(self, xy, radius=5, color=None, **k):
        self.center, self.color = xy, color

    def set_color(self, c):
        self.color = c


class Paper:
    """axes that remember what is drawn"""

    def __init__(self):
        self.art = []

    def _add(self, a):
        self.art.append(a)
        return a

    def fill(self, x, y, **k):
        return [self._add(Art(list(zip(x, y))))]

    def text(self, x, y, s, **k):
        return self._add(Label(x, y, s))

    def add_patch(self, p):
        return self._add(p)

    def __getattr__(self, n):
        raise Undecided(f"axes are used by {n}")


def ring(vc, art, want):
    """the artist is the polygon through these points, in this order"""
    xy = [list(p) for p in art.xy]
    if len(xy) == len(want) + 1 and len(want) > 1:
        return vc.And(vc.eq(xy[-1], xy[0]), vc.eq(xy[:-1], want))
    if len(xy) != len(want):
        raise Undecided("polygons are drawn through other points")
    return vc.eq(xy, want)


def moved(q, points):
    """the contract of transform_xy (P22)"""
    at = lambda p: (q[0, 0] * p[0] + q[0, 1] * p[1] + q[0, 2], q[1, 0] * p[0] + q[1, 1] * p[1] + q[1, 2])
    if L.symbolic(points):
        return L.as_seq(points).map(at)
    return tuple(at(p) for p in points)


def rendered(kind):
    @target("P32", f"drawn at any pose: {kind}", [V + "SimRenderer.plot_player"], samples=25)
    def h(vc):
        make, scls, ucls = C.MODELS[kind][:3]
        x0 = C.mk(vc, scls, "x")
        if kind.startswith("vehicle"):
            m = make(vc, x0, vtype=vc.choice("vtype", [C.CAR, C.BICYCLE]))
        else:
            m = make(vc, x0)
        wheels = vc.flag("wheels")
        lights = kind.startswith("vehicle") and vc.flag("lights")
        r = object.__new__(SimRenderer)
        r.sim_context = NS(dg_scenario=None, models={"P": m}, missions={})
        if vc.symbolic:
            from shapely.affinity import affine_transform

            vc.patch(Circle, Lamp)
            vc.patch(affine_transform, lambda g, k: NS(exterior=NS(xy=np.array([[k[0] * p[0] + k[1] * p[1] + k[4], k[2] * p[0] + k[3] * p[1] + k[5]] for p in g.exterior.coords], dtype=object).T)))
            if kind in ("spacecraft", "rocket", "spaceship"):
                n = U.length(vc, "corners", 3)
                xs, ys = U.numbers(vc, "corner.x", n), U.numbers(vc, "corner.y", n)
                if "outline" not in vars(type(m.model_geometry)):
                    raise Undecided("outlines are given in another way")
                flying(vc, sys.modules[type(m.model_geometry).__module__])
                vars(m.model_geometry)["outline"] = L.SSeq(L.I(n), lambda j: (xs.get(j), ys.get(j)), tuple)
                if not vc.use("dg_commons.geo.transform_xy", moved):
                    raise Undecided("outlines are moved in another way")
        paper = Paper() if vc.symbolic else axes()
        handles = lp = None
        for frame in range(2):
            s = C.mk(vc, scls, f"s{frame}")
            u = C.mk(vc, ucls, f"u{frame}")
            col = vc.choice(f"colours{frame}", [vl.phase2colors[NO_LIGHTS], vl.phase2colors[LIGHTS_TURN_LEFT]]) if lights else None
            handles, lp = r.plot_player(ax=paper, player_name="P", state=s, command=u, lights_colors=col, model_poly=handles, lights_patches=lp, plot_wheels=wheels, plot_lights=lights)
            put = lambda p: [s.x + vc.cos(s.psi) * p[0] - vc.sin(s.psi) * p[1], s.y + vc.sin(s.psi) * p[0] + vc.cos(s.psi) * p[1]]
            g = m.model_geometry
            outline = list(C.SQUARE.exterior.coords) if kind == "dynobstacle" else g.outline
            parts, flames = [], []
            if kind.startswith("vehicle") and wheels:
                parts = [[put((a, b)) for a, b in zip(o[0], o[1])] for o in g.get_rotated_wheels_outlines(s.delta)]
            elif kind == "diffdrive" and wheels:
                parts = [[put((a, b)) for a, b in zip(o[0], o[1])] for o in g.wheels_outlines]
            elif kind == "spacecraft":
                parts = [[put(q) for q in o] for o in g.thrusters_outline_in_body_frame]
            elif kind == "rocket":
                parts = [[put(q) for q in o] for o in g.thrusters_outline_in_body_frame(s.phi)]
                flames = [[put(q) for q in o] for o in g.flames_outline_in_body_frame(s.phi, [u.F_left, u.F_right])]
            elif kind == "spaceship":
                parts = [[put(q) for q in o] for o in g.thrusters_outline_in_body_frame(s.delta)]
                flames = [[put(q) for q in o] for o in g.flames_outline_in_body_frame(s.delta, u.thrust)]
            body = None if L.symbolic(outline) else [put(p) for p in outline]
            if not vc.symbolic:
                near = lambda h, w: len(h.get_xy()) in (len(w), len(w) + 1) and np.allclose(h.get_xy()[: len(w)], w, atol=1e-6)
            else:
                near = lambda h, w: ring(vc, h, w)
            fuel = flames and s.m > m.model_params.m_v
            if body is None:
                xy = handles[0].xy
                if not L.symbolic(xy):
                    raise Undecided("outlines are drawn in another way")
                xy = L.as_seq(xy)
                vc.prove("all corners of its body", L.SBool(xy.n == outline.n))
                vc.forall("body at its pose", 0, xy.n, lambda j: vc.eq(list(xy.get(L.I(j))), put(outline.get(L.I(j)))))
            else:
                vc.prove("body at its pose", near(handles[0], body))
            if kind == "dynobstacle":
                continue
            vc.prove("all its parts", len(handles) == 2 + len(parts) + len(flames))
            if vc.symbolic:
                vc.prove("named at its position", vc.And(handles[1].text == "P", vc.eq(list(handles[1].pos), [s.x, s.y])))
            else:
                vc.prove("named at its position", handles[1].get_text() == "P" and np.allclose(handles[1].get_position(), (s.x, s.y)))
            for h_, p in zip(handles[2:], parts):
                vc.prove("parts move along and turn as commanded", near(h_, p))
            for h_, p in zip(handles[2 + len(parts):], flames):
                if fuel:
                    vc.prove("flames as strong as commanded", near(h_, p))
                else:
                    vc.prove("no flame without fuel", len(h_.xy) == 1 if vc.symbolic else len(np.unique(np.round(h_.get_xy(), 9), axis=0)) <= 1)
            if lights:
                vc.prove("a lamp for each light", len(lp) == len(g.lights_position))
                colour = (lambda c: tuple(c.color)) if vc.symbolic else (lambda c: c.get_facecolor()[:3])
                for k, p in g.lights_position.items():
                    here = [vc.eq(list(c.center), put(p)) for c in lp if np.allclose(colour(c), getattr(col, k))]
                    vc.prove("lights at their places in their colours", vc.Or(*here) if here else False)


for _k in C.MODELS:
    rendered(_k)


@target("P32", "lights at any time", [A + "lights_colors_from_lights_cmd", A + "get_lights_colors_from_cmds", "dg_commons.sim.models.vehicle_ligths.get_phased_lights"], samples=100)
def h(vc):
    cmd = vc.choice("command", sorted(LightsValues))
    acc = vc.real("acc", typ=(-3, 3))
    off = vc.flag("off phase")
    t = (2 * vc.int("periods", 0, None, most=30) + (1 if off else 0)) * 0.4 + vc.real("o", -0.19, 0.19)
    vc.assume(vc.le(0, t))
    via = vc.flag("via commands")
    c = get_lights_colors_from_cmds(VehicleCommands(acc=acc, ddelta=0.0, lights=cmd), t) if via else lights_colors_from_lights_cmd(cmd, acc, t)
    left = not off and cmd in (LIGHTS_TURN_LEFT, LIGHTS_HAZARD)
    right = not off and cmd in (LIGHTS_TURN_RIGHT, LIGHTS_HAZARD)
    head = vl.yellow if cmd == LIGHTS_HEADLIGHTS else vl.white
    braking = acc < 0
    rear = lambda on: vc.If(braking, vl.red_more[0], vl.red[0]) if not on else vl.orange[0]
    vc.prove("indicators and headlights as commanded", c.front_left == (vl.orange if left else head) and c.front_right == (vl.orange if right else head))
    for got, on in ((c.back_left, left), (c.back_right, right)):
        vc.prove("brake lights brighten exactly while braking", vc.And(vc.eq(got[0], rear(on)), got[1:] == (vl.orange if on else vl.red)[1:]))
    d = lights_colors_from_lights_cmd(cmd, 1.0, t)
    vc.prove("its own only", vc.And(*[vc.eq(g[0], vl.orange[0] if on else vl.red[0]) for g, on in ((d.back_left, left), (d.back_right, right))]))


@target("P32", "brake lights", [A + "lights_colors_from_lights_cmd", A + "get_lights_colors_from_cmds"], kind="runtime", samples=300, bound="seeded sequences of commands")
def h(vc):
    for k in range(4):
        cmd, acc, t = vc.choice(f"cmd{k}", sorted(LightsValues)), vc.choice(f"acc{k}", [-3.0, -0.1, 0.0, 2.0]), vc.int(f"t{k}", 0, 30) * 0.4 + vc.real(f"o{k}", -0.15, 0.15)
        t = max(t, 0.0)
        u = VehicleCommands(acc=acc, ddelta=0.0, lights=cmd)
        c = get_lights_colors_from_cmds(u, t) if vc.flag(f"via{k}") else lights_colors_from_lights_cmd(cmd, acc, t)
        on = int(round(t / 0.4)) % 2 == 0
        left = on and cmd in (LIGHTS_TURN_LEFT, LIGHTS_HAZARD)
        right = on and cmd in (LIGHTS_TURN_RIGHT, LIGHTS_HAZARD)
        rear = vl.red_more if acc < 0 else vl.red
        head = vl.yellow if cmd == LIGHTS_HEADLIGHTS else vl.white
        want = (vl.orange if left else head, vl.orange if right else head, vl.orange if left else rear, vl.orange if right else rear)
        vc.prove("indicators as commanded, brake lights exactly while braking", (c.front_left, c.front_right, c.back_left, c.back_right) == want)
    vc.prove("no lights for what has none", get_lights_colors_from_cmds(NS(acc=1.0), 0.0) is None)


@target("P32", "trajectories", [V + "plot_trajectories", V + "SimRenderer.plot_trajectories"], kind="runtime", samples=60, bound="seeded trajectories")
def h(vc):
    ax = axes()
    lines = points = None
    for frame in range(2):
        trs = []
        for i in range(vc.int(f"n{frame}", 1, 3)):
            n = vc.int(f"m{frame}{i}", 2, 5)
            trs.append(Trajectory(timestamps=list(range(n)), values=[VehicleState(x=vc.real(f"x{frame}{i}{k}"), y=vc.real(f"y{frame}{i}{k}"), psi=0, vx=vc.real(f"v{frame}{i}{k}"), delta=0) for k in range(n)]))
        lines, points = plot_trajectories(ax=ax, trajectories=trs, traj_lines=lines, traj_points=points, colors=["red", "green", "blue"][: len(trs)])
        segs = lines.get_segments()
        vc.prove("a line through the states of each", len(segs) == len(trs) and all(np.allclose(s, [(x.x, x.y) for x in t.values]) for s, t in zip(segs, trs)))
        vc.prove("markers at the states", np.allclose(points.get_offsets(), [(x.x, x.y) for t in trs for x in t.values]))


class Rows:
    """an array of n rows"""

    def __init__(self, n, row):
        self.n, self.row = n, row

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
            return Rows(self.n, (lambda j: list(self.row(j))[k[1]]) if isinstance(k[1], slice) else (lambda j: [list(self.row(j))[k[1]]]))
        raise Undecided("arrays of states are used in another way")

    def __vc_equal__(self, o):
        """goals only: equal at an arbitrary row"""
        if type(o) is not Rows:
            return [False]
        q = ctx().fresh("row", "int")
        a, b = list(self.row(q)), list(o.row(q))
        if len(a) != len(b):
            return [False]
        same = z3.And(*[L.bterm(c) for c in L.equal(a, b)])
        return [self.n == o.n, z3.Implies(z3.And(0 <= q, q < o.n), same)]


class Chart(Paper):
    """axes for trajectories"""

    bbox = NS(size=np.array([300.0, 300.0]))

    def add_collection(self, c, *a, **k):
        return self._add(c)

    def scatter(self, x, y, **k):
        return self._add(Cloud())


class Cloud:
    def set_offsets(self, o):
        self.offsets = o

    def __getattr__(self, n):
        raise Undecided(f"markers are used by {n}")


class Lines:
    def __init__(self, segments, **k):
        self.segments, self.colors = segments, k.get("colors")

    def set_segments(self, segments):
        self.segments = segments

    def set_color(self, c):
        self.colors = c

    def __getattr__(self, n):
        raise Undecided(f"lines are used by {n}")


@target("P32", "any number of trajectories of any length", [V + "plot_trajectories", V + "SimRenderer.plot_trajectories"], kind="loop", samples=30)
def h(vc):
    n, again = U.length(vc, "n", 1, 3), vc.flag("drawn before")
    r = object.__new__(SimRenderer)
    m = C.vehicle(vc)
    r.sim_context = NS(dg_scenario=None, models={"P": m}, missions={})
    if not vc.symbolic:
        trs = [Trajectory(timestamps=list(range(k)), values=[VehicleState(x=vc.real(f"x{i}{j}"), y=vc.real(f"y{i}{j}"), psi=0, vx=vc.real(f"v{i}{j}"), delta=0) for j in range(k)])
               for i in range(int(n)) for k in [vc.int(f"m{i}", 2, 5)]]
        cols = [("red", "green", "blue", "black", "orange")[i % 5] for i in range(len(trs))]
        ax, lines, points = axes(), None, None
        if again:
            lines, points = r.plot_trajectories(ax=ax, player_name="P", trajectories=trs[:1], colors=["yellow"])
        lines, points = r.plot_trajectories(ax=ax, player_name="P", trajectories=trs, colors=cols, traj_lines=lines, traj_points=points)
        segs = lines.get_segments()
        vc.prove("a line through the states of each", len(segs) == len(trs) and all(np.allclose(s, [(x.x, x.y) for x in t.values]) for s, t in zip(segs, trs)))
        vc.prove("markers at the states", np.allclose(points.get_offsets(), [(x.x, x.y) for t in trs for x in t.values]))
        from matplotlib.colors import to_rgba

        vc.prove("each in its colour", np.allclose(lines.get_colors(), [to_rgba(c) for c in cols]))
        return
    nt = L.I(n)
    Z, R = z3.IntSort(), z3.RealSort()
    size, fx, fy, fv = z3.Function("size", Z, Z), *(z3.Function(c, Z, Z, R) for c in ("tx", "ty", "tv"))
    st = lambda i, j: NS(x=Sym(fx(i, j)), y=Sym(fy(i, j)), vx=Sym(fv(i, j)))
    traj = lambda i: NS(values=L.SSeq(size(i), lambda j: st(i, j), list))
    seg = lambda i: Rows(size(L.I(i)), lambda j: [Sym(fx(L.I(i), L.I(j))), Sym(fy(L.I(i), L.I(j)))])
    speeds = lambda i: Rows(size(L.I(i)), lambda j: [Sym(fv(L.I(i), L.I(j)))])

    def vstack(x, **k):
        if not L.symbolic(x):
            raise Undecided("arrays of states are made in another way")
        x = L.as_seq(x)
        return Rows(x.n, x.get)

    joined = []

    def concatenate(x, **k):
        joined.append(x)
        return joined

    from pyvc import shims

    for nm, f in (("vstack", vstack), ("concatenate", concatenate)):
        vc.patch_item(shims.NP, nm, f)
    if not vc.patch(LineCollection, Lines):
        raise Undecided("lines are drawn in another way")
    vc.loops(V + "plot_trajectories", {0: lambda l, e: L.LoopSpec(vals={"segments": lambda k: L.SSeq(L.I(k), seg, list), "mcolor": lambda k: L.SSeq(L.I(k), speeds, list)})})
    colours = L.SSeq(nt, lambda i: ("colour", Sym(i, "int")), list)
    lines, points = r.plot_trajectories(ax=Chart(), player_name="P", trajectories=L.SSeq(nt, traj, list), colors=colours, traj_lines=Lines([]) if again else None, traj_points=Cloud() if again else None)
    ss = getattr(lines, "segments", None)
    if not L.symbolic(ss) or type(points) is not Cloud or getattr(points, "offsets", None) is not joined:
        raise Undecided("trajectories are drawn in another way")
    vc.prove("a line for each", L.SBool(L.as_seq(ss).n == nt))
    vc.forall("through its states", 0, n, lambda i: L.SBool(L.conj(L.equal(L.as_seq(ss).get(L.I(i)), seg(i)))))
    vc.prove("markers at the states", len(joined) == 1 and L.as_seq(joined[0]).n.eq(nt))
    vc.forall("markers at the states", 0, n, lambda i: L.SBool(L.conj(L.equal(L.as_seq(joined[0]).get(L.I(i)), seg(i)))))
    vc.prove("each in its colour", lines.colors is colours)


class Window:
    """axes of which only the limits are set"""

    def __init__(self):
        self.lim, self.auto = {}, False

    def axis(self, *a, **k):
        if a or set(k) - {"xmin", "xmax", "ymin", "ymax"}:
            raise Undecided("limits are set in another way")
        self.lim.update(k)

    def set_xlim(self, a, b):
        self.lim.update(xmin=a, xmax=b)

    def set_ylim(self, a, b):
        self.lim.update(ymin=a, ymax=b)

    def autoscale(self, *a, **k):
        self.auto = True

    def box(self):
        if set(self.lim) != {"xmin", "xmax", "ymin", "ymax"}:
            raise Undecided("limits are set in another way")
        return [self.lim[k] for k in ("xmin", "xmax", "ymin", "ymax")]

    def __getattr__(self, n):
        raise Undecided(f"axes are used by {n}")


@target("P32", "the followed player is in view", [A + "adjust_axes_limits"], samples=100)
def h(vc):
    st = {f"P{i}": C.mk(vc, VehicleState, f"x{i}") for i in range(2)}
    who = vc.choice("who", sorted(st))
    s = st[who]
    w = Window()
    adjust_axes_limits(w, who, st)
    x0, x1, y0, y1 = w.box()
    vc.prove("in view, on the usual scale", vc.And(vc.lt(x0, s.x), vc.lt(s.x, x1), vc.lt(y0, s.y), vc.lt(s.y, y1), vc.eq([x1 - x0, y1 - y0], [70, 70])))
    vc.prove("looking where it is going", vc.And(vc.le(0, ((x0 + x1) / 2 - s.x) * (s.vx * vc.cos(s.psi))), vc.le(0, ((y0 + y1) / 2 - s.y) * (s.vx * vc.sin(s.psi)))))
    lim = [[vc.real("a"), vc.real("b")], [vc.real("c"), vc.real("d")]]
    w = Window()
    adjust_axes_limits(w, lim, st)
    vc.prove("given limits", vc.eq(w.box(), lim[0] + lim[1]))


@target("P32", "any number of players in view", [A + "adjust_axes_limits", V + "approximate_bounding_box_players"], kind="loop", samples=50)
def h(vc):
    n = U.length(vc, "n", 1)
    xs, ys = U.numbers(vc, "x", n), U.numbers(vc, "y", n)
    if not vc.symbolic:
        st = {f"P{i}": NS(x=a, y=b) for i, (a, b) in enumerate(zip(xs, ys))}
        w = Window()
        adjust_axes_limits(w, "auto", st)
        x0, x1, y0, y1 = w.box()
        vc.prove("everybody in view", all(x0 < a < x1 and y0 < b < y1 for a, b in zip(xs, ys)))
        vc.prove("not further than needed", np.allclose([x0, x1, y0, y1], [min(xs) - 15, max(xs) + 15, min(ys) - 15, max(ys) + 15]))
        return
    players = W.Names(vc, "P", 1)
    vc.assume(players.n == n)
    every = lambda i: True
    ends = [U.Best(vc, nm, n, lambda i: L.SBool(z3.BoolVal(True)), lambda i, v=v, g=g: v.get(L.I(i)) * g) for nm, v, g in (("west", xs, -1), ("east", xs, 1), ("south", ys, -1), ("north", ys, 1))]
    end = lambda e, v, k: v.get(L.I(ends[e].at(k)))

    def box(k):
        if ctx().branch(L.SBool(L.I(k) == 0)):
            return [[math.inf, -math.inf], [math.inf, -math.inf]]
        L.uni().touch(z3.IntVal(0))
        return [[end(0, xs, k), end(1, xs, k)], [end(2, ys, k), end(3, ys, k)]]

    vc.loops(V + "approximate_bounding_box_players", {0: lambda l, e: L.LoopSpec(vals={"minmax": box})})
    vc.loops(A + "adjust_axes_limits")
    w = Window()
    L.uni().touch(z3.IntVal(0))
    L.uni().touch(L.I(n))
    adjust_axes_limits(w, "auto", players.dict(lambda i: NS(x=xs.get(L.I(i)), y=ys.get(L.I(i)))))
    x0, x1, y0, y1 = w.box()
    vc.forall("everybody in view", 0, n, lambda i: vc.And(x0 < xs.get(L.I(i)), xs.get(L.I(i)) < x1, y0 < ys.get(L.I(i)), ys.get(L.I(i)) < y1))
    k = [L.I(e.at(n)) for e in ends]
    vc.prove("not further than needed", vc.And(L.SBool(z3.And(*[z3.And(0 <= j, j < L.I(n)) for j in k])), vc.eq([x0, x1, y0, y1], [xs.get(k[0]) - 15, xs.get(k[1]) + 15, ys.get(k[2]) - 15, ys.get(k[3]) + 15])))


@target("P32", "view", [V + "approximate_bounding_box_players", A + "adjust_axes_limits"], kind="runtime", samples=200, bound="seeded positions")
def h(vc):
    st = {f"P{i}": VehicleState(x=vc.real(f"x{i}"), y=vc.real(f"y{i}"), psi=vc.angle(f"psi{i}"), vx=vc.real(f"v{i}", -20, 20), delta=0) for i in range(vc.int("n", 1, 4))}
    b = approximate_bounding_box_players(list(st.values()))
    xs, ys = [s.x for s in st.values()], [s.y for s in st.values()]
    vc.prove("ten metres around everybody", np.allclose(b, [[min(xs) - 10, max(xs) + 10], [min(ys) - 10, max(ys) + 10]]))
    ax = axes()
    adjust_axes_limits(ax, "auto", st)
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    vc.prove("everybody in view", all(x0 < s.x < x1 and y0 < s.y < y1 for s in st.values()))
    adjust_axes_limits(ax, "P0", st)
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    s = st["P0"]
    vc.prove("the followed player in view", x0 < s.x < x1 and y0 < s.y < y1 and abs(x1 - x0 - 70) < 1e-6 and abs(y1 - y0 - 70) < 1e-6)
    vc.prove("looking where it is going", ((x0 + x1) / 2 - s.x) * s.vx * math.cos(s.psi) >= -1e-9 and ((y0 + y1) / 2 - s.y) * s.vx * math.sin(s.psi) >= -1e-9)
    lim = [[vc.real("a", -50, 0), vc.real("b", 1, 50)], [vc.real("c", -50, 0), vc.real("d", 1, 50)]]
    adjust_axes_limits(ax, lim, st)
    vc.prove("given limits", np.allclose([ax.get_xlim(), ax.get_ylim()], lim))
    ok = False
    try:
        adjust_axes_limits(ax, 5, st)
    except Exception:
        ok = True
    vc.prove("anything else is an error", ok)


@target("P32", "arena", [V + "SimRenderer.plot_arena", "dg_commons.maps.shapely_viz.ShapelyViz.add_shape"], kind="runtime", samples=60, bound="seeded obstacles and goals")
def h(vc):
    ax = axes()
    obs = [StaticObstacle(Polygon([(vc.real(f"x{i}"), vc.real(f"y{i}")), (vc.real(f"x{i}") + 3, vc.real(f"y{i}")), (vc.real(f"x{i}"), vc.real(f"y{i}") + 2)])) for i in range(vc.int("n", 0, 4))]
    m = C.vehicle(vc)
    goal = PolygonGoal(box(vc.real("gx"), vc.real("gy"), vc.real("gx") + 4, vc.real("gy") + 2))
    r = SimRenderer(NS(dg_scenario=DgScenario(static_obstacles=obs), models={"P": m}, missions={"P": goal}), ax=ax)
    with r.plot_arena(ax):
        pass
    got = [poly_of(p) for p in ax.patches]
    want = [o.shape for o in obs] + [goal.goal]
    vc.prove("all obstacles and goals", len(got) == len(want) and all(any(same(g, w) for g in got) for w in want))


@target("P32", "arena, any number of obstacles and goals", [V + "SimRenderer.plot_arena"], kind="loop", samples=40)
def h(vc):
    players = W.Names(vc, "P")
    n = U.length(vc, "n", 0)
    static, without = players.flags("static"), players.flags("not drawable")
    sym = vc.symbolic

    class Goal:
        def __init__(self, i):
            self.i, self.is_static = i, static(i)

        def get_plottable_geometry(self, *a):
            if without(self.i):
                raise NotImplementedError
            return ("goal", self.i)

        def __getattr__(self, n):
            raise Undecided(f"goals are used by {n}")

    obstacle = lambda i: NS(shape=("obstacle", i), geometry=NS(color=("grey", i)))
    r = object.__new__(SimRenderer)
    r.sim_context = NS(dg_scenario=NS(scenario=None, static_obstacles=L.SSeq(L.I(n), lambda j: obstacle(Sym(j, "int")), list) if sym else [obstacle(i) for i in range(int(n))]),
                       missions=players.dict(Goal), models=players.dict(lambda i: NS(model_geometry=NS(color=("colour", i)))))
    drawn = []

    class Viz:
        def add_shape(self, shape, color=None, **k):
            drawn.append((shape, color))

        def __getattr__(self, n):
            raise Undecided(f"the arena is drawn by {n}")

    r.shapely_viz = Viz()
    if not sym:
        with r.plot_arena(None):
            pass
        vc.prove("all obstacles, then the goals that stay", drawn == [(("obstacle", i), ("grey", i)) for i in range(int(n))]
                 + [(("goal", i), ("colour", i)) for i in players.indices() if static(i) and not without(i)])
        return
    through = []

    def ran(l, env):
        drawn.clear()
        through.append((which(l), l))
        return L.LoopSpec()

    which = lambda l: "goals" if getattr(l.seq, "names", None) or not l.n.eq(z3.simplify(L.I(n))) else "obstacles"

    def end(l):
        k = Sym(l.k, "int")
        same = lambda a, b, x: a[0] == x and L.I(a[1]).eq(L.I(k)) and L.I(b[1]).eq(L.I(k))
        if which(l) == "obstacles":
            vc.prove("every obstacle once", len(drawn) == 1 and same(*drawn[0], "obstacle"))
        else:
            want = ctx().branch(L.SBool(L.bterm(static(k)))) and not ctx().branch(L.SBool(L.bterm(without(k))))
            vc.prove("every goal that stays, once, in the colour of its player", len(drawn) == (1 if want else 0) and all(same(*d, "goal") and d[1][0] == "colour" for d in drawn))

    vc.loops(V + "SimRenderer.plot_arena", {0: ran, 1: ran})
    ctx().on_step_end = end
    with r.plot_arena(None):
        vc.prove("nothing left out", sorted(nm for nm, l in through) == ["goals", "obstacles"] and all(l.case == "exit" for _, l in through))


def coverage(ax):
    """what is painted: patches in order, later ones in the colour of the background erase"""
    out = Polygon()
    bg = ax.get_facecolor()
    for p in ax.patches:
        q = poly_of(p) if isinstance(p, MPoly) else Point(p.center).buffer(p.radius)
        out = out.difference(q) if np.allclose(p.get_facecolor()[:3], bg[:3]) else out.union(q)
    return out


@target("P32", "shapes", ["dg_commons.maps.shapely_viz.ShapelyViz.add_shape"], kind="runtime", samples=200, bound="seeded shapes of every kind, with holes and several parts")
def h(vc):
    ax = axes()
    sq = lambda n, s=4: box(vc.real(n + "x", -20, 20), vc.real(n + "y", -20, 20), vc.real(n + "x", -20, 20) + s, vc.real(n + "y", -20, 20) + s)
    a = sq("a")
    hole = a.difference(a.buffer(-1))
    b = Polygon([(40, 0), (44, 0), (44, 3)])
    line = LineString([(vc.real(f"l{i}"), vc.real(f"m{i}")) for i in range(3)])
    line2 = LineString([(vc.real(f"n{i}"), vc.real(f"o{i}")) for i in range(2)])
    kind = vc.choice("kind", ["poly", "hole", "multi", "line", "ring", "lines", "collection", "empty"])
    shape = dict(poly=a, hole=hole, multi=MultiPolygon([hole, b]), line=line, ring=LinearRing(line), lines=MultiLineString([line, line2]), collection=GeometryCollection([a, line]), empty=Polygon())[kind]
    ShapelyViz(ax).add_shape(shape, color="red")
    areas = dict(poly=a, hole=hole, multi=MultiPolygon([hole, b]), collection=a).get(kind, Polygon())
    vc.prove("areas as they are", same(coverage(ax), areas))
    lines = dict(line=[line], ring=[LinearRing(line)], lines=[line, line2], collection=[line]).get(kind, [])
    vc.prove("lines as they are", len(ax.lines) == len(lines) and all(np.allclose(l.get_xydata(), np.array(w.coords)) for l, w in zip(ax.lines, lines)))


@target("P32", "shapes of any number of corners", ["dg_commons.maps.shapely_viz.ShapelyViz.add_shape", "dg_commons.maps.shapely_viz.ShapelyViz._plot_polys", "dg_commons.maps.shapely_viz.ShapelyViz._plot_lines"],
        kind="bounded", bound="up to two parts of up to two holes each, any number of corners", samples=40)
def h(vc):
    from dg_commons.maps import shapely_viz as sv

    if not vc.symbolic:
        ax = axes()
        parts, lines = [], []
        for p in range(vc.choice("parts", [1, 2])):
            c = Point(vc.real(f"x{p}", -20, 20) + 60 * p, vc.real(f"y{p}", -20, 20)).buffer(5, vc.choice(f"fine{p}", [1, 2, 4]))
            for k in range(vc.choice(f"holes{p}", [0, 1, 2])):
                c = c.difference(box(c.centroid.x - 1.5, c.centroid.y - 2.5 + 2 * k, c.centroid.x + 1.5, c.centroid.y - 1 + 2 * k))
            parts.append(c)
        shape = parts[0] if len(parts) == 1 else MultiPolygon(parts)
        ShapelyViz(ax).add_shape(shape, color="red")
        vc.prove("areas as they are", same(coverage(ax), shape))
        return
    drawn = []

    class Axes:
        def add_patch(self, p):
            drawn.append(p)

        def get_facecolor(self):
            return "background"

        def plot(self, x, y, **k):
            drawn.append(("line", x, y, k))

        def __getattr__(self, n):
            raise Undecided(f"axes are used by {n}")

    vc.patch_attr(sv.mpatches, "Polygon", lambda xy, **k: ("patch", xy, k))
    for f in ("_plot_polys", "_plot_lines", "_get_poly_coordinates"):
        vc.loops(f"dg_commons.maps.shapely_viz.ShapelyViz.{f}")

    class Ring(Pts):
        is_empty = False
        closed = True

    def ring(nm, cls=LinearRing):
        n = U.length(vc, nm, 3)
        xs, ys = U.numbers(vc, nm + ".x", n), U.numbers(vc, nm + ".y", n)
        last = z3.simplify(L.I(n))
        pt = lambda j: L.pick(L.I(j) == last, lambda: (xs.get(0), ys.get(0)), lambda: (xs.get(L.I(j)), ys.get(L.I(j))))
        r = Ring(cls, last + 1, pt)
        r.corners = (last, xs, ys)
        return r

    class Part(Pts):
        is_empty = False

        def __init__(self, nm, holes):
            self.cls, self._e, self.interiors = Polygon, ring(nm), [ring(f"{nm}.hole{k}") for k in range(holes)]

        exterior = property(lambda s: s._e)

    class Multi(Pts):
        is_empty = False

        def __init__(self, parts):
            self.cls, self.geoms = MultiPolygon, parts

    kind = vc.choice("kind", ["part", "parts", "line"])
    if kind == "line":
        r = ring("line", LineString)
        ShapelyViz(Axes()).add_shape(r, color="red")
        vc.prove("one line", len(drawn) == 1 and drawn[0][0] == "line")
        x, y = (L.as_seq(c) for c in drawn[0][1:3])
        vc.prove("all its points", L.SBool(z3.And(x.n == r.n, y.n == r.n)))
        vc.forall("in their places", 0, r.n, lambda j: vc.eq([x.get(L.I(j)), y.get(L.I(j))], list(r.pt(L.I(j)))))
        return
    parts = [Part("a", vc.choice("holes", [0, 1, 2]))] + ([Part("b", 1)] if kind == "parts" else [])
    ShapelyViz(Axes()).add_shape(parts[0] if kind == "part" else Multi(parts), color="red")
    want = [(r, k) for p in parts for k, r in enumerate([p.exterior] + p.interiors)]
    vc.prove("every ring once", len(drawn) == len(want))
    for d, (r, k) in zip(drawn, want):
        if d[0] != "patch" or not L.symbolic(d[1]):
            raise Undecided("polygons are drawn in another way")
        xy = L.as_seq(d[1])
        n, xs, ys = r.corners
        vc.prove("outlines painted, holes in the background", (d[2].get("facecolor") == "background") == (k > 0) and (k > 0 or d[2].get("color") == "red"))
        vc.prove("all corners", L.SBool(z3.Or(xy.n == n, xy.n == n + 1)))
        vc.forall("in their places", 0, n, lambda j: vc.eq(list(xy.get(L.I(j))), [xs.get(L.I(j)), ys.get(L.I(j))]))


@target("P32", "log plots of any length", ["dg_commons.sim.log_visualisation.plot_player_log"], kind="loop", samples=5)
def h(vc):
    from dg_commons.sim import log_visualisation as lv

    n, m = U.length(vc, "n", 1), U.length(vc, "m", 1)
    names, unames = ["x", "y", "psi", "vx", "delta"], ["acc", "ddelta"]
    ts, us = U.numbers(vc, "t", n, increasing=True), U.numbers(vc, "u", m, increasing=True)
    xs = {k: U.numbers(vc, "x." + k, n) for k in names}
    cs = {k: U.numbers(vc, "c." + k, m) for k in unames}
    at = lambda s, i: s.get(L.I(i)) if vc.symbolic else s[i]
    state = lambda i: VehicleState(**{k: at(v, i) for k, v in xs.items()})
    command = lambda i: VehicleCommands(**{k: at(v, i) for k, v in cs.items()}, lights=NO_LIGHTS)
    if not vc.symbolic:
        log = NS(states=DgSampledSequence[VehicleState](ts, [state(i) for i in range(int(n))]), commands=DgSampledSequence[VehicleCommands](us, [command(i) for i in range(int(m))]))
        f = plt.figure()
        try:
            lv.plot_player_log(log, f)
            by = {l.get_label(): l for a in f.axes for l in a.lines}
            for tt, vs in ((ts, xs), (us, cs)):
                for k, v in vs.items():
                    vc.prove("every value over its time", k in by and np.allclose(by[k].get_xdata(), tt) and np.allclose(by[k].get_ydata(), v))
            vc.prove("one plot for each", len(f.axes) == 8 and len({a.get_position().y0 for a in f.axes}) == 8)
        finally:
            plt.close(f)
        return
    vc.loops("dg_commons.sim.log_visualisation.plot_player_log")
    made = []

    class Fig:
        def add_subplot(self, *a, **k):
            made.append(a)

        def __getattr__(self, n):
            raise Undecided(f"figures are used by {n}")

    shown = {}

    def draw(x, y, *a, label=None, **k):
        shown.setdefault(label, []).append((x, y, len(made)))

    for nm, f in (("plot", draw), ("step", draw), ("grid", lambda *a, **k: None), ("legend", lambda *a, **k: None), ("draw", lambda *a, **k: None)):
        vc.patch_attr(plt, nm, f)
    seq = lambda t, v, k: NS(timestamps=t, values=L.SSeq(L.I(k), v, tuple))
    lv.plot_player_log(NS(states=seq(ts, state, n), commands=seq(us, command, m)), Fig())
    if any(len(v) != 1 for v in shown.values()) or len(made) != 8 or any(len(a) != 3 for a in made):
        raise Undecided("logs are plotted in another way")
    vc.prove("a plot of its own for each", sorted(v[0][2] for v in shown.values()) == list(range(1, 9)) and len(set(made)) == 8)
    for tt, vs, k_ in ((ts, xs, n), (us, cs, m)):
        for k, v in vs.items():
            if k not in shown:
                vc.prove("every field is plotted", False)
                continue
            x, y, _ = shown[k][0]
            if not L.symbolic(x) or not L.symbolic(y):
                raise Undecided("logs are plotted in another way")
            x, y = L.as_seq(x), L.as_seq(y)
            vc.prove("all values", L.SBool(z3.And(x.n == L.I(k_), y.n == L.I(k_))))
            vc.forall("over their times", 0, k_, lambda i: vc.And(vc.eq(x.get(L.I(i)), tt.get(L.I(i))), vc.eq(y.get(L.I(i)), v.get(L.I(i)))))


@target("P32", "logs of the chosen among any number of players", ["dg_commons.sim.log_visualisation.plot_players_logs"], kind="loop", samples=30)
def h(vc):
    from dg_commons.sim import log_visualisation as lv

    players = W.Names(vc, "P")
    chosen = players.flags("chosen")
    everybody = vc.flag("everybody")
    logs = players.dict(lambda i: NS(i=i))
    only = None if everybody else players.dict(lambda i: True, chosen)
    if not vc.symbolic:
        only = None if everybody else set(only)
        seen = []
        vc.patch(lv.plot_player_log, lambda log, fig: seen.append(log.i))
        lv.plot_players_logs(logs, fig="figure", only_players=only)
        vc.prove("the chosen players, once each", sorted(seen) == [i for i in players.indices() if everybody or chosen(i)])
        return
    count = []

    def plot(log, fig=None):
        count.append(log.i)

    through = []

    def ran(l, env):
        count.clear()
        through.append(l)
        return L.LoopSpec()

    def end(loop):
        k = Sym(loop.k, "int")
        there = everybody or ctx().branch(L.SBool(L.bterm(chosen(k))))
        vc.prove("the chosen players, once each", len(count) == (1 if there else 0) and all(L.I(c).eq(L.I(k)) for c in count))

    vc.use("dg_commons.sim.log_visualisation.plot_player_log", plot)
    vc.loops("dg_commons.sim.log_visualisation.plot_players_logs", {0: ran})
    ctx().on_step_end = end
    lv.plot_players_logs(logs, fig="figure", only_players=only)
    vc.prove("every player was looked at", [l.case for l in through] == ["exit"])


@target("P32", "log plots", ["dg_commons.sim.log_visualisation.plot_player_log", "dg_commons.sim.log_visualisation.plot_players_logs"], kind="runtime", samples=10, bound="seeded logs")
def h(vc):
    n = vc.int("n", 2, 5)
    ts = [i * 0.5 for i in range(n)]
    xs = [C.mk(vc, VehicleState, f"x{i}") for i in range(n)]
    us = [VehicleCommands(acc=vc.real(f"a{i}"), ddelta=vc.real(f"d{i}"), lights=NO_LIGHTS) for i in range(n)]
    log = PlayerLog(states=DgSampledSequence[VehicleState](ts, xs), commands=DgSampledSequence[VehicleCommands](ts, us), extra=DgSampledSequence([], []), info=DgSampledSequence([], []))
    f = plt.figure()
    try:
        s = SimLog()
        s["P"], s["Q"] = log, log
        plot_players_logs(s, fig=f, only_players={"P"})
        by = {l.get_label(): l for a in f.axes for l in a.lines}
        for k in ("x", "y", "psi", "vx", "delta"):
            vc.prove("states over time", k in by and np.allclose(by[k].get_xdata(), ts) and np.allclose(by[k].get_ydata(), [getattr(x, k) for x in xs]))
        for k in ("acc", "ddelta"):
            vc.prove("commands over time", k in by and np.allclose(by[k].get_xdata(), ts) and np.allclose(by[k].get_ydata(), [getattr(x, k) for x in us]))
        vc.prove("of the chosen players only", len(f.axes) == 5 + 3)
    finally:
        plt.close(f)
