"""P20 what players get to see: observation filters and sensors"""
import math
import copy
from decimal import Decimal
from types import SimpleNamespace as NS
import numpy as np
from shapely.geometry import Polygon, box, Point, LineString
from pyvc.vc import target, Undecided, Discard
from dg_commons import fd, SE2Transform
from dg_commons.perception.sensor import FullRangeSensor, VisRangeSensor
from dg_commons.sim import SimObservations, PlayerObservations, SimTime
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.models.pedestrian import PedestrianState
from dg_commons.sim.scenarios import DgScenario
from dg_commons.sim.sim_perception import IdObsFilter, FovObsFilter, DelayedObsFilter, GhostObsFilter, ObsFilter

F = "dg_commons.sim.sim_perception."
S = "dg_commons.perception.sensor."
NAMES = ["a", "b", "c"]


def observation(vc, names, t, name="o"):
    return SimObservations(players=fd({p: PlayerObservations(VehicleState(vc.real(f"{name}.{p}.x"), vc.real(f"{name}.{p}.y"), vc.real(f"{name}.{p}.psi"), vc.real(f"{name}.{p}.v"), 0.0), None)
                                       for p in names}), time=t)


class Recorder(ObsFilter):
    """a filter with an arbitrary outcome"""

    def __init__(self, fn):
        self.fn, self.calls = fn, []

    def sense(self, scenario, full_obs, pov):
        self.calls.append((scenario, full_obs, pov))
        return self.fn(scenario, full_obs, pov)


@target("P20", "identity", [F + "IdObsFilter.sense"], samples=40)
def h(vc):
    o = observation(vc, NAMES[: vc.choice("n", [1, 2, 3])], vc.real("t", kind="Decimal"))
    r = IdObsFilter().sense(DgScenario(), o, "a")
    vc.prove("everything, unchanged", r is o or (set(r.players) == set(o.players) and all(r.players[p].state == o.players[p].state for p in o.players) and vc.eq(r.time, o.time)))


@target("P20", "ghosts", [F + "GhostObsFilter.sense"], samples=400)
def h(vc):
    names = NAMES[: vc.choice("n", [1, 2, 3])]
    ghost, pov = vc.choice("ghost", ["a", "b", "z"]), vc.choice("pov", names)
    o = observation(vc, names, vc.real("t", kind="Decimal"))
    inner = Recorder(lambda sc, obs, p: obs)
    far = vc.real("further_than", lo=0, typ=(0.0, 15.0))
    zero = vc.flag("always")
    f = GhostObsFilter(inner, ghost, 0 if zero else far)
    sc = DgScenario()
    r = f.sense(sc, o, pov)
    vc.prove("filters what its inner filter returns", len(inner.calls) == 1 and inner.calls[0][0] is sc and inner.calls[0][1] is o and inner.calls[0][2] == pov)
    for p in names:
        if p != ghost or pov == ghost:
            vc.prove("everybody else is seen as is", p in r.players and r.players[p] is o.players[p])
    if ghost in names and pov != ghost:
        a, g = o.players[pov].state, o.players[ghost].state
        d2 = (a.x - g.x) ** 2 + (a.y - g.y) ** 2
        lim = 0 if zero else far * far
        if not vc.symbolic and abs(d2 - lim) < 1e-6:
            raise Discard()
        vc.prove("the ghost is seen only within its distance", vc.Iff(ghost not in r.players, d2 > lim))
        if ghost in r.players:
            vc.prove("seen as is", r.players[ghost] is o.players[ghost])
    vc.prove("nobody is made up", set(r.players) <= set(names))
    vc.prove("at the same time", vc.eq(r.time, o.time))
    vc.prove("the full observation is left alone", set(o.players) == set(names))


for _m in (1, 2, 3, 4):

    @target("P20", f"delay, {_m} readings", [F + "DelayedObsFilter.sense"], kind="bounded", bound=f"{_m} readings, all times and latencies", samples=80)
    def h(vc, m=_m):
        from . import seqs as Q

        names = NAMES[:2]
        ts = Q.increasing(vc, "t", m, kind="Decimal", lo=None)
        lat = vc.real("latency", lo=0, typ=(0.0, 4.0), kind="Decimal")
        if not vc.symbolic and m > 1 and vc.flag("exactly"):
            lat = ts[-1] - ts[vc.choice("back", range(m - 1))]
        outs = [observation(vc, names, t, f"o{i}") for i, t in enumerate(ts)]
        fulls = [observation(vc, names, t, f"f{i}") for i, t in enumerate(ts)]
        inner = Recorder(lambda sc, obs, p: outs[[o is obs for o in fulls].index(True)])
        f = DelayedObsFilter(inner, lat)
        sc = DgScenario()
        for i, o in enumerate(fulls):
            r = f.sense(sc, o, "a")
            vc.prove("the inner filter senses every reading", len(inner.calls) == i + 1 and inner.calls[i][1] is o and inner.calls[i][2] == "a")
            k = [j for j in range(i + 1) if set(r.players) == set(outs[j].players) and all(r.players[p] is outs[j].players[p] for p in names)]
            vc.prove("a recorded observation", len(k) == 1)
            if len(k) != 1:
                return
            k = k[0]
            vc.prove("never staler than the latency", ts[i] - ts[k] <= lat)
            if k > 0:
                vc.prove("as stale as the latency allows", ts[i] - ts[k - 1] > lat)
            vc.prove("labelled with the time it was due", vc.eq(r.time, ts[k] + lat))
        vc.prove("readings are left alone", all(vc.eq(o.time, t) is not False for o, t in zip(outs, ts)))


@target("P20", "delay over a long episode", [F + "DelayedObsFilter.sense", F + "GhostObsFilter.sense"], kind="runtime", samples=120, bound="seeded episodes of up to 30 readings, filters around filters")
def h(vc):
    """the newest reading at least as old as the latency, or the first one; delays add up; ghosts stay ghosts"""
    lats = [SimTime(vc.choice(f"latency{k}", ["0", "0.1", "0.25", "0.7", "2", "9"])) for k in range(vc.choice("delays", [1, 1, 2, 3]))]
    step = SimTime(vc.choice("step", ["0.05", "0.1", "0.3"]))
    ghost = vc.flag("ghost")
    outs, at = [], []

    def look(sc, o, p):
        outs.append(o)
        return o

    f = Recorder(look)
    if ghost and vc.flag("ghost inside"):
        f = GhostObsFilter(f, "b", 0)
    for lat in lats:
        f = DelayedObsFilter(f, lat)
    if ghost and not vc.flag("ghost inside"):
        f = GhostObsFilter(f, "b", 0)
    sc, t = DgScenario(), SimTime(0)
    for i in range(vc.choice("readings", [3, 8, 30])):
        if i:
            t += step * vc.choice(f"gap{i}", [1, 1, 1, 2, 5])
        at.append(t)
        o = SimObservations(players=fd({p: PlayerObservations(PedestrianState(x=float(i), y=3.0 * (p == "b"), psi=0.0, vx=0.0, vy=0.0, dpsi=0.0), None) for p in NAMES[:2]}), time=t)
        r = f.sense(sc, o, "a")
        k = i
        for lat in lats:  # what the filter inside showed at the time its reading is now due
            k = max([j for j in range(k + 1) if at[j] + lat <= at[k]], default=0) if len(lats) == 1 else None
            if k is None:
                break
        got = int(r.players["a"].state.x)
        if k is not None:
            early = [j for j in range(i + 1) if at[j] + lats[0] >= at[i]]
            vc.prove("the oldest reading not staler than the latency", got == early[0])
        else:
            # every filter shows the oldest reading whose label (time + latency) is not before the label of what it is shown
            labels, idx = [list(at)], [list(range(i + 1))]
            for lat in lats:
                prev, pl, pi = labels[-1], [], []
                for j in range(i + 1):
                    e = next(q for q in range(j + 1) if prev[q] + lat >= prev[j])
                    pl.append(prev[e] + lat)
                    pi.append(idx[-1][e])
                labels.append(pl)
                idx.append(pi)
            vc.prove("delays add up", got == idx[-1][i])
        vc.prove("ghosts stay unseen", ("b" in r.players) == (not ghost))
        vc.prove("everybody is seen at the same time", all(int(q.state.x) == got for q in r.players.values()))


@target("P20", "delay in a new episode", [F + "DelayedObsFilter.sense"], kind="runtime", samples=100, bound="seeded episodes")
def h(vc):
    lat = SimTime(vc.choice("latency", ["0", "0.1", "0.3", "1"]))
    f, g = DelayedObsFilter(Recorder(lambda sc, o, p: o), lat), DelayedObsFilter(Recorder(lambda sc, o, p: o), lat)
    sc = DgScenario()
    for i in range(vc.int("first", 1, 8)):
        f.sense(sc, observation(vc, NAMES[:2], SimTime(i) / 10 + SimTime(1), f"old{i}"), "a")
    for i in range(5):
        o = observation(vc, NAMES[:2], SimTime(i) / 10, f"new{i}")
        a, b = f.sense(sc, o, "a"), g.sense(sc, o, "a")
        vc.prove("nothing of an earlier episode is seen", all(a.players[p] is b.players[p] for p in NAMES[:2]) and a.time == b.time)


# ------------------------------------------------------------------------------------------------ geometry
class CrPolygon:
    """contract of pycrcc.Polygon (the installed build has no polygon support): the area within its vertices"""

    def __init__(self, vertices, holes=(), *a):
        self.poly = Polygon([tuple(v) for v in vertices])


class CrChecker:
    """contract of pycrcc.CollisionChecker.raytrace: where the ray enters and leaves every object it meets"""

    def __init__(self):
        self.objs = []

    def add_collision_object(self, o):
        self.objs.append(o.poly)

    def raytrace(self, x0, y0, x1, y1, closest):
        ray, out = LineString([(x0, y0), (x1, y1)]), []
        for o in self.objs:
            x = ray.intersection(o)
            for g in getattr(x, "geoms", [x]):
                if not g.is_empty:
                    c = list(g.coords)
                    out.append((*c[0], *c[-1]))
        if closest and out:
            out = [min(out, key=lambda h: (h[0] - x0) ** 2 + (h[1] - y0) ** 2)]
        return out


def library(vc):
    from commonroad_dc import pycrcc

    vc.patch(pycrcc.Polygon, CrPolygon)
    vc.patch_attr(pycrcc, "Polygon", CrPolygon)
    vc.patch(pycrcc.CollisionChecker, CrChecker)
    vc.patch_attr(pycrcc, "CollisionChecker", CrChecker)


def obs_at(p, half=0.9):
    return PlayerObservations(PedestrianState(x=p[0], y=p[1], psi=0.0, vx=0.0, vy=0.0, dpsi=0.0), box(p[0] - half, p[1] - half, p[0] + half, p[1] + half))


def _boxes(vc, me, rng, theta, fov, n):
    """other players all around, clear of the sensor"""
    out = []
    for i in range(n):
        d, a = vc.real(f"d{i}", 3.0, 1.5 * rng), vc.real(f"a{i}", -math.pi, math.pi)
        out.append((me[0] + d * math.cos(a), me[1] + d * math.sin(a)))
    return out


def _corners(poly):
    return [np.array(c) for c in poly.exterior.coords[:-1]]


def _dense(poly, k=9):
    c = _corners(poly)
    return [c[i] + (c[(i + 1) % len(c)] - c[i]) * j / k for i in range(len(c)) for j in range(k)]


@target("P20", "full range", [F + "FovObsFilter.sense", S + "FullRangeSensor.fov_as_polygon"], kind="runtime", samples=300, bound="seeded scenes of up to 5 players")
def h(vc):
    library(vc)
    rng, me = vc.real("range", 4, 40), (vc.real("x", -30, 30), vc.real("y", -30, 30))
    names = [f"p{i}" for i in range(vc.choice("n", [1, 2, 5]))]
    pos = _boxes(vc, me, rng, 0, 2 * math.pi, len(names))
    wall = vc.flag("wall")
    sc = DgScenario(static_obstacles=[StaticObstacle(box(me[0] + 2, me[1] - 9, me[0] + 2.5, me[1] + 9))] if wall else [])
    o = SimObservations(players=fd({"me": obs_at(me), **{n: obs_at(p) for n, p in zip(names, pos)}}), time=Decimal(3))
    r = vc.again("filter", lambda: FovObsFilter(FullRangeSensor(range=rng)), rng).sense(sc, o, "me")
    vc.prove("sees itself", r.players["me"] is o.players["me"])
    vc.prove("time is kept", r.time == 3)
    vc.prove("full observation is left alone", len(o.players) == 1 + len(names))
    for n in names:
        d = o.players[n].occupancy.distance(Point(*me))
        if abs(d - rng) > 0.02 * rng:
            vc.prove("sees exactly who is within range, through everything", (n in r.players) == (d < rng))
        if n in r.players:
            vc.prove("sees them as they are", r.players[n] is o.players[n])


@target("P20", "line of sight", [F + "FovObsFilter.sense", S + "VisRangeSensor.fov_as_polygon"], kind="runtime", samples=400,
        bound="seeded scenes of up to 6 players and 3 walls, any field of view; borderline visibility not judged")
def h(vc):
    library(vc)
    rng, me, th = vc.real("range", 8, 40), np.array([vc.real("x", -30, 30), vc.real("y", -30, 30)]), vc.real("theta", -3.1, 3.1)
    fov = vc.choice("fov", [2 * math.pi, 2 * math.pi, math.pi, 1.2, 4.5])
    names = [f"p{i}" for i in range(vc.choice("n", [1, 2, 6]))]
    pos = [p for p in _boxes(vc, me, rng, th, fov, len(names))]
    walls = []
    for i in range(vc.choice("walls", [0, 1, 3])):
        d, a, w = vc.real(f"wd{i}", 4.5, rng), vc.real(f"wa{i}", -math.pi, math.pi), vc.real(f"ww{i}", 1.5, 6)
        c, u, v = me + d * np.array([math.cos(a), math.sin(a)]), np.array([math.cos(a), math.sin(a)]), np.array([-math.sin(a), math.cos(a)])
        q = [c + 0.2 * u + w * v, c + 0.2 * u - w * v, c - 0.2 * u - w * v, c - 0.2 * u + w * v]
        walls.append(Polygon(q) if vc.choice(f"wk{i}", ["poly", "line"]) == "poly" else LineString([c - w * v, c + w * v]))
    sc = DgScenario(static_obstacles=[StaticObstacle(w) for w in walls])
    st = PedestrianState(x=me[0], y=me[1], psi=th, vx=0.0, vy=0.0, dpsi=0.0)
    o = SimObservations(players=fd({"me": PlayerObservations(st, box(me[0] - 0.5, me[1] - 0.5, me[0] + 0.5, me[1] + 0.5)), **{n: obs_at(p) for n, p in zip(names, pos)}}), time=Decimal(3))
    f = vc.again("filter", lambda: FovObsFilter(VisRangeSensor(range=rng, field_of_view=fov)), (rng, fov))
    for _ in range(vc.choice("times", [1, 2])):
        r = f.sense(sc, o, "me")
    vc.prove("sees itself", r.players["me"] is o.players["me"])
    vc.prove("time is kept", r.time == 3)
    res = math.atan(1 / rng)
    for n in names:
        body = o.players[n].occupancy
        others = [w.buffer(0.011) if isinstance(w, LineString) else w for w in walls] + [o.players[m].occupancy for m in names if m != n]
        if any(body.distance(x) < 0.3 for x in others) or body.distance(Point(*me)) < 1.5:
            continue
        ang = lambda p: math.remainder(math.atan2(p[1] - me[1], p[0] - me[0]) - th, 2 * math.pi)
        pts = _dense(body)

        def clear(p, grow):
            ray = LineString([tuple(me), tuple(me + (p - me) * (1 - 1e-9))])
            return all(ray.distance(x) > grow for x in others)

        def visible(p, m):  # with margin m (m > 0: surely visible; m < 0: surely not, unless true)
            d = np.linalg.norm(p - me)
            return d < rng * (1 - 0.05 * np.sign(m)) - m and (fov > 6.2 or abs(ang(p)) < fov / 2 - np.sign(m) * 0.03) and clear(p, m if m > 0 else -1)

        # surely visible: an arc of the near side wider than three rays, all of it in plain sight
        a0 = math.atan2(body.centroid.y - me[1], body.centroid.x - me[0])
        near = []
        for k in np.linspace(-0.5, 0.5, 161):
            e = me + 3 * rng * np.array([math.cos(a0 + k), math.sin(a0 + k)])
            x = body.intersection(LineString([tuple(me), tuple(e)]))
            if x.is_empty:
                near.append((k, False))
                continue
            p = np.array(min((c for c in (x.coords if hasattr(x, "coords") else [])), key=lambda c: np.linalg.norm(np.array(c) - me)))
            near.append((k, visible(p, 0.05)))
        run = best = 0
        for k, v in near:
            run = run + 1 if v else 0
            best = max(best, run)
        if best / 160 > 3.2 * res:
            vc.prove("sees whoever is in plain sight", n in r.players)
            vc.prove("sees them as they are", n not in r.players or r.players[n] is o.players[n])
        # surely hidden: no point of the outline within (grown) range and field of view, or every line of sight blocked by a wide margin
        def hidden(p):
            d = np.linalg.norm(p - me)
            if d > rng * 1.02 or (fov < 6.2 and abs(ang(p)) > fov / 2 + 0.02):
                return True
            ray = LineString([tuple(me), tuple(p)])
            for x in others:
                s = x.buffer(-0.05) if x.area > 1 else x
                y = ray.intersection(s)
                # blocked, and still blocked when the ray is turned by two rays either way
                if not y.is_empty and all(not LineString([tuple(me), tuple(me + np.array([math.cos(b) * q[0] - math.sin(b) * q[1], math.sin(b) * q[0] + math.cos(b) * q[1]]))]).intersection(s).is_empty
                                          for b in (-2.2 * res, 2.2 * res) for q in [p - me]):
                    return True
            return False

        if all(hidden(p) for p in pts):
            vc.prove("sees nobody out of range, out of view or behind something", n not in r.players)


@target("P20", "sensors in the scene", [F + "FovObsFilter.sense"], kind="runtime", samples=100, bound="recording sensor")
def h(vc):
    """every sensor is posed at its player and given all other bodies and obstacles, also when used for several players or scenarios"""
    library(vc)
    seen = []

    class Rec(FullRangeSensor):
        def fov_as_polygon(self, obstacles):
            seen.append((self.pose, len(list(obstacles))))
            return box(-500, -500, 500, 500)

    f = FovObsFilter(Rec(range=10.0))
    sc = None
    for k in range(vc.choice("times", [2, 3, 5])):
        if sc is None or not vc.flag(f"same scenario{k}"):
            scene = vc.choice(f"obstacles{k}", [0, 1, 3])
            sc = DgScenario(static_obstacles=[StaticObstacle(box(5 * i, 0, 5 * i + 1, 1)) for i in range(scene)])
        names = NAMES[: vc.choice(f"n{k}", [1, 2, 3])]
        o = SimObservations(players=fd({p: PlayerObservations(PedestrianState(x=vc.real(f"x{k}{p}"), y=vc.real(f"y{k}{p}"), psi=vc.real(f"psi{k}{p}", -3, 3), vx=0.0, vy=0.0, dpsi=0.0),
                                                              box(0, 0, 1, 1)) for p in names}), time=Decimal(k))
        pov = vc.choice(f"pov{k}", names)
        r = f.sense(sc, o, pov)
        q, m = seen[-1]
        s = o.players[pov].state
        vc.prove("posed at its player", np.allclose(q.p, [s.x, s.y], atol=1e-9) and abs(math.remainder(q.theta - s.psi, 2 * math.pi)) < 1e-9)
        vc.prove("all obstacles of this scenario and all other bodies", m == scene + len(names) - 1)
        vc.prove("everybody in view is seen", set(r.players) == set(names))


# ------------------------------------------------------------------------------------------------ any number of players, any history
import z3
from pyvc import loops as L, dicts as DD
from pyvc.core import Sym
from . import many as M, useqs as U


def players(vc, w, present=None):
    """any number of players, each with an observation of its own"""
    x, y, psi, v = (w.numbers(k) for k in ("x", "y", "psi", "v"))
    objs = w.objects(lambda i: PlayerObservations(VehicleState(x(i), y(i), psi(i), v(i), 0.0), None))
    d = w.dict(lambda i: objs.get(i), present)
    if vc.symbolic:
        d.pytype = fd
    return (d if vc.symbolic else fd(d)), objs, x, y


@target("P20", "ghosts, any number of players", [F + "GhostObsFilter.sense"], kind="loop", samples=300)
def h(vc):
    w = M.Names(vc, "p", 1)
    here = w.flags("seen")
    d, objs, x, y = players(vc, w, here)
    g, q = w.any("ghost"), w.any("pov")
    vc.assume(here(q) if not vc.symbolic else Sym(z3.If(L.bterm(here(q)), z3.IntVal(1), z3.IntVal(0)), "int") == 1)
    ghost, pov = w.key(g), w.key(q)
    o = SimObservations(players=d, time=vc.real("t", kind="Decimal"))
    inner = Recorder(lambda sc, obs, p: obs)
    far = vc.real("further_than", lo=0, typ=(0.0, 15.0))
    sc = DgScenario()
    vc.loops(F + "GhostObsFilter.sense")
    r = GhostObsFilter(inner, ghost, far).sense(sc, o, pov)
    vc.prove("filters what its inner filter returns", len(inner.calls) == 1 and inner.calls[0][0] is sc and inner.calls[0][1] is o and inner.calls[0][2] == pov)
    d2, lim = (x(q) - x(g)) ** 2 + (y(q) - y(g)) ** 2, far * far
    if not vc.symbolic and abs(d2 - lim) < 1e-6:
        raise Discard()
    hidden = vc.And(g != q, d2 > lim)
    M.holds_dict(vc, "everybody but the ghost out of sight", r.players, w, lambda i: objs.get(i), lambda i: vc.And(here(i), vc.Not(vc.And(i == g, hidden))))
    vc.prove("at the same time", vc.eq(r.time, o.time))
    M.holds_dict(vc, "the full observation is left alone", d, w, lambda i: objs.get(i), here)


def remembered():
    """the attribute in which the delay filter keeps (time it is due, observation) of past readings, oldest first"""
    f = DelayedObsFilter(Recorder(lambda sc, o, p: o), SimTime("0.5"))
    o = [SimObservations(players=fd({}), time=SimTime(k)) for k in (1, 2)]
    for x in o:
        f.sense(DgScenario(), x, "a")
    ks = [k for k, v in vars(f).items() if type(v) is list]
    if len(ks) != 1 or set(vars(f)) != {ks[0], "obs_filter", "latency"}:
        raise Undecided("memory of the delay filter")
    h = getattr(f, ks[0])
    if len(h) != 2 or any(type(e) is not tuple or len(e) != 2 or e[0] != x.time + SimTime("0.5") or e[1].time != e[0] or e[1].players is not x.players for e, x in zip(h, o)):
        raise Undecided("memory of the delay filter")
    return ks[0]


@target("P20", "delay, any history", [F + "DelayedObsFilter.sense"], kind="loop", samples=300)
def h(vc):
    """one reading after any history of readings of one episode; the memory it leaves is that of a history again"""
    n = U.length(vc, "n", 0, 6)
    lat = vc.real("latency", lo=0, typ=(0.0, 4.0), kind="Decimal")
    ts = U.numbers(vc, "reading", n, "Decimal", True, list)
    at = lambda j: M.at(ts, j)
    t = vc.real("t", typ=(-6.0, 12.0), kind="Decimal")
    if not vc.symbolic and int(n) and vc.flag("exactly"):
        t = ts[vc.int("which", 0, None, most=int(n) - 1) % int(n)] + lat
    if n > 0:
        vc.assume(vc.Not(vc.eq(t, at(n - 1), 0)) if vc.symbolic else t != ts[-1])
        again = t < at(n - 1)
    else:
        again = False
    # what a reading showed, by its number: nobody looks into it
    full, sc = SimObservations(players=fd({}), time=t), DgScenario()
    inner = Recorder(lambda s, o, p: SimObservations(players=n if vc.symbolic else fd({"x": n}), time=t))
    f = DelayedObsFilter(inner, lat)
    if vc.symbolic:
        k = remembered()
        mk = lambda j: (at(Sym(j, "int")) + lat, SimObservations(players=Sym(j, "int"), time=at(Sym(j, "int")) + lat))
        f.__dict__[k] = L.SSeq(L.I(n), mk, list)
        vc.loops(F + "DelayedObsFilter.sense")
        vc.loops(F + "DelayedObsFilter._get_obs_history_timestamps")
        of = lambda r: r.players
    else:
        past = Recorder(lambda s, o, p: o)
        f.obs_filter = past
        for j in range(int(n)):
            f.sense(sc, SimObservations(players=fd({"x": j}), time=ts[j]), "a")
        f.obs_filter = inner
        of = lambda r: r.players["x"]
    r = f.sense(sc, full, "a")
    vc.prove("the inner filter senses the reading", len(inner.calls) == 1 and inner.calls[0][0] is sc and inner.calls[0][1] is full and inner.calls[0][2] == "a")
    j = of(r)
    if again:
        vc.prove("nothing of an earlier episode is seen", j == n)
    vc.prove("a reading of the inner filter", vc.And(0 <= j, j <= n))
    if j == n:
        s = t
        before = lambda j: vc.Implies(vc.Not(again), at(j) + lat < t)
        vc.forall("older readings only if this one is not due", 0, n, before)
    else:
        s = at(j)
        vc.prove("never staler than the latency", t - s <= lat)
        vc.prove("not after the reading", s <= t)
        vc.forall("as stale as the latency allows", 0, j, lambda i: t - at(i) > lat)
    vc.prove("labelled with the time it was due", vc.eq(r.time, s + lat))
    if vc.symbolic:
        m = L.as_seq(f.__dict__[k])
        if again:
            vc.prove("a new episode remembers this reading", vc.And(m.n == 1, *L.equal(m.get(z3.IntVal(0)), (t + lat, SimObservations(players=n, time=t + lat)))))
        else:
            vc.prove("remembers one reading more", m.n == L.I(n) + 1)
            vc.forall("the earlier ones", 0, n, lambda j: L.SBool(L.conj(L.equal(m.get(L.I(j)), mk(L.I(j))))))
            vc.prove("and this one", L.SBool(L.conj(L.equal(m.get(L.I(n)), (t + lat, SimObservations(players=n, time=t + lat))))))


class Shape:
    """the outline of the i-th obstacle or body; pieces(i) polygons of the ray tracer"""

    def __init__(self, kind, i):
        self.kind, self.i = kind, i

    def __vc_equal__(self, o):
        return [type(o) is Shape and o.kind == self.kind, L.SBool(L.I(self.i) == L.I(o.i))] if type(o) is Shape else [False]


class Piece(Shape):
    def __init__(self, shape, r):
        self.shape, self.r, self.kind, self.i = shape, r, "piece of " + shape.kind, shape.i


class Pieces(L.SSeq):
    """the polygons of one outline"""

    def __init__(self, shape, n):
        L.SSeq.__init__(self, n, lambda r: Piece(shape, r), list)
        self.shape = shape

    __class__ = L.SSeq.__class__

    def __vc_equal__(self, o):
        return self.shape.__vc_equal__(o.shape) if type(o) is Pieces else [False]


@target("P20", "field of view, any number of players and obstacles", [F + "FovObsFilter.sense"], kind="loop", samples=60)
def h(vc):
    """the sensor is asked once, at the player's pose, with all obstacles and all other bodies; exactly who intersects what it sees is seen"""
    import dg_commons.sim.sim_perception as SP
    from dg_commons.geo import shapely2crPolygons

    w, ob = M.Names(vc, "p", 1), M.Names(vc, "obstacle")
    q = w.any("pov")
    x, y, psi = (w.numbers(k, typ=(-3, 3)) for k in ("x", "y", "psi"))
    vis = w.flags("visible")
    body = lambda i: Shape("body", i)
    state = lambda i: VehicleState(x(i), y(i), psi(i), 0.0, 0.0)
    seen = {}

    class Observed:
        """what there is to know about the i-th player"""

        def __init__(self, i):
            self.i, self.state, self.occupancy = i, state(i), body(i)

        def __vc_pick__(self, c, o):
            return Observed(Sym(z3.simplify(z3.If(c, L.I(self.i), L.I(o.i))), "int"))

        def __vc_equal__(self, o):
            return [L.SBool(L.I(self.i) == L.I(o.i))] if type(o) is Observed else [False]

    get = (lambda i: Observed(i)) if vc.symbolic else (lambda i: seen.setdefault(int(i), Observed(int(i))))
    d = w.dict(get)
    if vc.symbolic:
        d.pytype = fd
    else:
        d = fd(d)
    asked = []

    class Fov:
        is_valid = True

        def intersects(self, o):
            if type(o) is not Shape or o.kind != "body":
                raise Undecided("seen in another way")
            return vis(Sym(o.i, "int") if vc.symbolic and not isinstance(o.i, Sym) else o.i) if not vc.symbolic else L.SBool(L.bterm(vis(Sym(L.I(o.i), "int"))))

    class Sens(FullRangeSensor):
        def fov_as_polygon(self, obstacles):
            asked.append((self.pose, obstacles))
            return Fov()

    sens = Sens(range=10.0)
    if vc.symbolic:
        size = {k: z3.Function("pieces of " + k, z3.IntSort(), z3.IntSort()) for k in ("body", "obstacle")}
        L.uni().add(L.All(0, 1 << 60, lambda j: z3.And(size["body"](j) >= 0, size["obstacle"](j) >= 0)))
        pieces = lambda s: Pieces(s, size[s.kind](L.I(s.i)))
        static = L.SSeq(L.I(ob.n), lambda j: NS(shape=Shape("obstacle", j)), list)
    else:
        count = {k: [vc.choice(f"{k} {i}", [1, 2]) for i in range(6)] for k in ("body", "obstacle")}
        pieces = lambda s: [Piece(s, r) for r in range(count[s.kind][int(s.i) % 6])]
        static = [NS(shape=Shape("obstacle", j)) for j in range(int(ob.n))]
    if vc.patch(shapely2crPolygons, pieces) == 0:
        raise Undecided("converted in another way")
    if vc.symbolic:
        # poses of states and their conversion: P22
        vc.use("dg_commons.sim.models.utils.extract_pose_from_state", lambda s: ("pose of", s))
        vc.patch_attr(SE2Transform, "from_SE2", staticmethod(lambda m: NS(p=(m[1].x, m[1].y), theta=m[1].psi) if type(m) is tuple and m[0] == "pose of" else m))

    def spec(l, e):
        same = {k: (lambda _, v=v: v) for k, v in e.items() if type(v) is Fov}
        return L.LoopSpec(vals={**same, "new_players": lambda k: DD.SDict(w.dom, lambda i: get(Sym(i, "int")), lambda i: z3.Or(i == q.t, z3.And(i < k, L.bterm(vis(Sym(i, "int"))))))})

    vc.loops(F + "FovObsFilter.sense", {0: spec})
    f = FovObsFilter(sens)
    sc, o = NS(static_obstacles=static), SimObservations(players=d, time=vc.real("t", kind="Decimal"))
    if not vc.symbolic and vc.flag("another scenario before"):
        f.sense(NS(static_obstacles=[NS(shape=Shape("obstacle", 5))]), o, w.key(q))
        asked.clear()
    r = f.sense(sc, o, w.key(q))
    vc.prove("the sensor is asked once", len(asked) == 1)
    pose, obs = asked[0]
    vc.prove("posed at its player", vc.eq([*pose.p, pose.theta] if vc.symbolic else [*pose.p, math.remainder(pose.theta - float(psi(q)), 2 * math.pi)], [x(q), y(q), psi(q) if vc.symbolic else 0.0], 1e-9))
    if vc.symbolic:
        if type(obs) is not DD.Flat:
            raise Undecided("collected in another way")
        others = L.Filtered(w.dom.n, lambda i: i != q.t, "others").seq(lambda i: pieces(body(i)))
        all_ = L.SSeq(L.I(ob.n), lambda j: pieces(Shape("obstacle", j)), list)
        vc.prove("all obstacles of this scenario and all other bodies", obs.__vc_equal__(DD.Flat([all_, others])))
    else:
        got = sorted((p.shape.kind, int(p.i), p.r) for p in obs)
        want = sorted([("obstacle", j, r) for j in range(int(ob.n)) for r in range(count["obstacle"][j % 6])] + [("body", i, r) for i in w.indices() if i != int(q) for r in range(count["body"][i % 6])])
        vc.prove("all obstacles of this scenario and all other bodies", got == want)
    M.holds_dict(vc, "itself and exactly who is in view", r.players, w, lambda i: get(i), lambda i: vc.Or(i == q, vis(i)))
    vc.prove("at the same time", vc.eq(r.time, o.time))
    M.holds_dict(vc, "the full observation is left alone", d, w, lambda i: get(i))


def _same_pt(vc, p, q):
    return vc.And(vc.eq(p[0], q[0]), vc.eq(p[1], q[1]))


@target("P20", "view of a sensor, any number of rays, obstacles and hits", [S + "VisRangeSensor.fov_as_polygon"], kind="loop", samples=150, budget=120, norm=True, feas_ms=80, free_trig=True)
def h(vc):
    """one ray after the other over the field of view; what is seen ends where a ray first meets something, else at the range"""
    import dg_commons.perception.sensor as SE
    from commonroad_dc import pycrcc

    px, py, th = vc.real("x"), vc.real("y"), vc.real("theta", typ=(-3, 3))
    rng, ratio, res = vc.real("range", lo=0, typ=(4.0, 30.0)), vc.real("field over resolution", lo=0, typ=(0.5, 15.0)), vc.real("res", lo=0, typ=(0.1, 0.5))
    fov = ratio * res
    vc.assume(vc.And(rng > 0, res > 0, fov <= 2 * math.pi))
    ob = M.Names(vc, "obstacle")
    sens = VisRangeSensor(SE2Transform([0, 0], 0), range=1.0)
    sens.pose, sens.range, sens.field_of_view = NS(p=[px, py], theta=th), rng, fov
    sens.angle_resolution = res
    now = {}
    obstacles = L.SSeq(L.I(ob.n), lambda j: Shape("obstacle", j), list) if vc.symbolic else [Shape("obstacle", j) for j in range(int(ob.n))]
    if vc.symbolic:
        obstacles.space = "obstacles"
        Z, R = z3.IntSort(), z3.RealSort()
        cnt = z3.Function("hits", Z, Z)
        co = [z3.Function("hit." + c, Z, Z, R) for c in ("ix", "iy", "ox", "oy")]
        hit = lambda k, j: tuple(Sym(f(L.I(k), L.I(j))) for f in co)
        L.uni().add(L.All(0, 1 << 60, lambda k: cnt(k) >= 0, "rays"))
    else:
        table = {}

        def cnt(k):
            if k not in table:
                m = vc.rng.choice([0, 0, 1, 2, 3])
                u = lambda: (lambda a, d: (px + d * math.cos(a), py + d * math.sin(a)))(vc.rng.uniform(-3.1, 3.1), vc.rng.uniform(0, 1.2 * rng))
                table[k] = [u() + u() for _ in range(m)]
            return len(table[k])

        def hit(k, j):
            cnt(k)
            return table[k][j]

    # the points at which the k-th ray may end: its own end, then where it enters and leaves one object after the other
    def end(k):
        n = now["n"]
        if vc.symbolic:
            if "one" not in now:
                now["one"] = bool(n == 1)
            a = th - fov / 2 + (0 if now["one"] else fov * Sym(L.I(k), "int") / (n - 1))
        else:
            a = th - fov / 2 + (0 if n == 1 else fov * k / (n - 1))
        return px + rng * vc.cos(a), py + rng * vc.sin(a)

    d2 = lambda p: (p[0] - px) ** 2 + (p[1] - py) ** 2

    class Checker:
        def __init__(self):
            self.objs = L.SSeq(0, None, list) if vc.symbolic else []
            if vc.symbolic:
                self.objs.space = "obstacles"

        def add_collision_object(self, o):
            self.objs.append(o)

        def raytrace(self, x0, y0, x1, y1, closest):
            vc.prove("rays start at the sensor", _same_pt(vc, (x0, y0), (px, py)))
            if vc.symbolic:
                if "k" not in now or now["k"] is None:
                    raise Undecided("traced in another way")
                k = now["k"]
            else:
                k = now["k"] = now.get("k", -1) + 1
                now["n"] = max(now.get("n", 0), k + 1)
                now.setdefault("ends", []).append((x1, y1))
            if vc.symbolic:
                vc.prove("rays reach as far as the sensor, spread over the field of view", _same_pt(vc, (x1, y1), end(k)))
            vc.prove("everything is in the way", L.SBool(L.conj([c for c in L.equal(self.objs, obstacles) if type(c) is not L.All])) if vc.symbolic else [o.i for o in self.objs] == list(range(int(ob.n))))
            if vc.symbolic:
                i = L.any_index(0, ob.n, space="obstacles")
                vc.prove("every obstacle is in the way", L.SBool(L.conj(L.equal(L.as_seq(self.objs).get(i), obstacles.get(i)))))
            if closest:
                raise Undecided("traced in another way")
            if vc.symbolic:
                s = L.SSeq(cnt(L.I(k)), lambda j: hit(k, j), list)
                s.space = "hits"
                return s
            return [hit(k, j) for j in range(cnt(k))]

    vc.patch(pycrcc.CollisionChecker, Checker)
    vc.patch_attr(pycrcc, "CollisionChecker", Checker)
    vc.patch(SE.Polygon, lambda v: v)
    if vc.symbolic:
        VX, VY = z3.Function("view.x", Z, R), z3.Function("view.y", Z, R)
        view = lambda k: [Sym(VX(L.I(k))), Sym(VY(L.I(k)))]
        st = {}

        def spec_objects(l, e):
            ck = [v for v in e.values() if type(v) is Checker][0]
            part = lambda k: L.SSeq(k, lambda j: Shape("obstacle", j), list)

            def objs(k):
                s = part(k)
                s.space = "obstacles"
                return s
            return L.LoopSpec(attrs={(ck, "objs"): objs})

        def spec_rays(l, e):
            now["n"] = Sym(z3.simplify(L.I(l.n)), "int")
            st["omni"] = sens.is_omnidirectional()

            def vertices(k):
                first = 0 if st["omni"] else 1
                return L.SSeq(k + first, (lambda j: view(j)) if st["omni"] else (lambda j: L.pick(j == 0, lambda: [px, py], lambda: view(j - 1))), list)

            def inv(k, env):
                now["k"] = l.k if l.case == "step" else None
                if l.case == "step" and "best" not in st:
                    ray(l.k)
                return []

            return L.LoopSpec(vals={"vertices": vertices}, inv=inv)

        def ray(k):
            """the points of one ray, the first of those closest to the sensor, which is what is seen of it"""
            m, E = cnt(k), end(k)
            X, Y, D = (z3.Function(c, Z, R) for c in ("end.x", "end.y", "end.d2"))
            I_, N_ = z3.IntVal, lambda v: L.as_real(L.num(v))
            cx = L.ctx()
            cx.fact(z3.And(X(I_(0)) == N_(E[0]), Y(I_(0)) == N_(E[1]), D(I_(0)) == N_(rng * rng)))

            def points(j):
                a = hit(k, j)
                return z3.And(*[f(2 * j + 1 + o // 2) == N_(v) for o in (0, 2) for f, v in ((X, a[o]), (Y, a[o + 1]), (D, d2(a[o : o + 2])))])

            L.uni().add(L.All(0, m, L.quiet(points), "hits"))
            point = lambda q: [Sym(X(L.I(q))), Sym(Y(L.I(q)))]
            best = U.Best(vc, "closest", 2 * m + 1, lambda q: L.SBool(z3.BoolVal(True)), lambda q: -Sym(D(L.I(q))), "ends")

            def at(j):
                for q in (2 * L.I(j) + 1, 2 * L.I(j), 2 * L.I(j) - 1):
                    L.uni().touch(z3.simplify(q), "ends")
                return best.at(2 * L.I(j) + 1)

            w = at(m)
            at(I_(0))
            cx.fact(z3.And(VX(k) == X(L.I(w)), VY(k) == Y(L.I(w))))
            q = L.any_index(0, 2 * m + 1, space="ends")
            vc.prove("what is seen of a ray ends at one of its points, none of which is closer", vc.And(0 <= w, w <= 2 * Sym(m, "int"), Sym(D(L.I(w))) <= Sym(D(q))))
            st.update(best=at, point=point, D=D)

        def spec_hits(l, e):
            at, point, D = st["best"], st["point"], st["D"]
            return L.LoopSpec(vals={"closest_hit": lambda k: point(at(k)), "closest_hit_distance": lambda k: Sym(D(L.I(at(k))))})

        vc.loops(S + "VisRangeSensor.fov_as_polygon", {0: spec_objects, 1: spec_rays, 2: spec_hits})
    r = sens.fov_as_polygon(obstacles)
    if vc.symbolic:
        v = L.as_seq(r)
        n, first = now["n"], 0 if st["omni"] else 1
        vc.prove("as many corners as rays, closed", L.SBool(v.n == L.I(n) + first + 1))
        vc.prove("closed", _same_pt(vc, v.get(L.I(n) + first), v.get(z3.IntVal(0))))
        if first:
            vc.prove("starts at the sensor unless it looks all around", _same_pt(vc, v.get(z3.IntVal(0)), (px, py)))
        k = L.any_index(0, L.I(n), "ray")
        vc.prove("what is seen of the rays, in their order", _same_pt(vc, v.get(z3.simplify(k + first)), view(k)))
    else:
        now["n"] = len(now["ends"])
        first = 0 if sens.is_omnidirectional() else 1
        vc.prove("as many corners as rays, closed", len(r) == now["n"] + first + 1 and _same_pt(vc, r[0], r[-1]))
        vc.prove("starts at the sensor unless it looks all around", first == 0 or _same_pt(vc, r[0], (px, py)))
        for k in range(now["n"]):
            v = r[first + k]
            vc.prove("rays reach as far as the sensor, spread over the field of view", _same_pt(vc, now["ends"][k], end(k)))
            pts = [end(k)] + [p for j in range(cnt(k)) for p in (hit(k, j)[:2], hit(k, j)[2:])]
            vc.prove("ends somewhere on the ray", any(_same_pt(vc, v, p) for p in pts))
            for p in pts:
                vc.prove("and nothing is closer", d2(v) <= d2(p) + 1e-9 * (1 + d2(p)))
