"""P15 collisions with the environment"""
import math
from types import SimpleNamespace as NS
import numpy as np
from shapely.geometry import Polygon, LineString, LinearRing, Point
from pyvc.vc import target, Undecided, Discard
from dg_commons.sim import collision as col, collision_utils as cu
from dg_commons.sim.collision_structures import IMPACT_EVERYWHERE
from dg_commons.sim.models.obstacles import StaticObstacle, ObstacleGeometry
from .p14_impulse import Body, Shape, _geometry, _model, dot, cross, at, arm, K, U
from . import common as C

SQ = Polygon([(0, 0), (0, 1), (1, 1), (1, 0)])


@target("P15", "impulse against the environment", [K + "resolve_collision_with_environment", U + "compute_impulse_response", U + "velocity_after_collision",
                                                     U + "rot_velocity_after_collision"], samples=200, prove_ms=20000)
def h(vc):
    a = Body(vc, "a")
    n, p, calls = _geometry(vc, (a,))
    shape = vc.choice("shape", [SQ, LineString([(0, 0), (1, 1), (2, 0)]), LinearRing([(0, 0), (1, 1), (2, 0)])])
    obs = StaticObstacle(shape=shape, geometry=ObstacleGeometry(m=math.inf, Iz=math.inf, e=vc.real("b.e", 0, 1)))
    va, wa, ra = list(a.v), a.w, arm(p, a)
    g = a.model_geometry
    rel = at(va, wa, ra)
    t = vc.real("time")
    vc.use(U + "kinetic_energy", lambda v, m: m * dot(v, v) / 2)
    got = []
    # the touched parts enter through the contract of impact_locations_from_polygons (P14)
    if not vc.patch(col.impact_locations_from_polygons, lambda m, s: (got.append((m, s)), [("front", m.parts["front"])])[1]):
        raise Undecided("impact locations computed elsewhere")
    vc.margin((dot(rel, n), 0))
    rep = col.resolve_collision_with_environment("a", a, obs, t)
    if not calls:
        raise Undecided("impact geometry not requested")
    if rep is None:
        vc.prove("ignored only if separating", vc.lt(dot(rel, n), 0))
        vc.prove("body is left alone", not (a.has_collided or a.sets))
        return
    if not got:
        raise Undecided("impact locations computed elsewhere")
    vc.prove("resolved only if approaching", vc.le(0, dot(rel, n)))
    vc.prove("has collided", a.has_collided is True)
    e = vc.min(g.e, obs.geometry.e)
    dv = [a.v[i] - va[i] for i in (0, 1)]
    vc.prove("the impulse acts along the normal", vc.eq(cross(dv, n), 0))
    j = g.m * dot(dv, n)
    vc.prove("impulse against an immovable body", vc.eq(j * (1 / g.m + cross(ra, n) * cross(ra, n) / g.Iz), -(1 + e) * dot(rel, n), 1e-6))
    vc.prove("angular impulse at the impact point", vc.eq(g.Iz * (a.w - wa), g.m * cross(ra, dv), 1e-6))
    A, B = rep.players["a"], [r for q, r in rep.players.items() if q != "a"]
    vc.prove("report: the environment takes part", len(B) == 1 and rep.players.get(col.EnvPlayer) is B[0])
    vc.prove("report: velocities", vc.And(vc.eq(A.velocity, (va, wa)), vc.eq(A.velocity_after, (list(a.v), a.w))))
    vc.prove("report: change of kinetic energy", vc.eq(A.energy_delta, g.m * (dot(a.v, a.v) - dot(va, va)) / 2, 1e-6))
    vc.prove("report: impact and time", vc.And(vc.eq(list(rep.impact_normal), list(n)), vc.eq((rep.impact_point.x, rep.impact_point.y), tuple(p)), vc.eq(rep.at_time, t)))
    vc.prove("report: only the player is at fault", A.at_fault is True and B[0].at_fault is False)
    vc.prove("report: the environment does not move", vc.And(vc.eq(B[0].velocity, ([0, 0], 0)), vc.eq(B[0].velocity_after, ([0, 0], 0)), vc.eq(B[0].energy_delta, 0)))
    vc.prove("report: everywhere on the obstacle", [l for l, _ in B[0].locations] == [IMPACT_EVERYWHERE] and list(B[0].footprint.exterior.coords) == list(Polygon(shape).exterior.coords))
    vc.prove("report: footprint and location", A.footprint is a.footprint and A.locations == [("front", a.parts["front"])])
    vc.prove("geometry of footprint and obstacle", calls == [(a.footprint, shape)] and got == [(a, shape)])


@target("P15", "real models against obstacles", [K + "resolve_collision_with_environment"], kind="runtime", samples=400, bound="seeded models touching polygons and lines")
def h(vc):
    a = _model(vc, "a")
    d, th, s = vc.real("dist", 0.1, 2.5), vc.real("bearing", -3, 3), vc.real("size", 0.2, 3)
    c = np.array([a._state.x + d * math.cos(th), a._state.y + d * math.sin(th)])
    tilt = vc.real("tilt", -3, 3)
    u, w = s * np.array([math.cos(tilt), math.sin(tilt)]), s * np.array([-math.sin(tilt), math.cos(tilt)])
    kind = vc.choice("kind", ["box", "wall", "ring"])
    shape = {"box": Polygon([c - u - w, c + u - w, c + u + w, c - u + w]), "wall": LineString([c - 5 * u, c + 5 * u]),
             "ring": LinearRing([c - 5 * u, c + 5 * u, c + 20 * w])}[kind]
    A = a.get_footprint()
    if not A.intersects(shape) or A.touches(shape) or (kind == "box" and shape.contains(A)):
        raise Discard()
    obs = StaticObstacle(shape=shape)
    try:
        n, p = cu.compute_impact_geometry(A, shape)
    except cu.CollisionException:
        raise Discard()
    g = a.model_geometry
    va, wa = a.get_velocity(False)
    va = va.copy()
    ra = [p.x - a._state.x, p.y - a._state.y]
    sn = dot(at(va, wa, ra), n)
    if abs(sn) < 1e-6:
        raise Discard()
    pose = a.get_pose()
    rep = col.resolve_collision_with_environment("a", a, obs, 3)
    va2, wa2 = a.get_velocity(False)
    if sn < 0:
        vc.prove("separating bodies are left alone", rep is None and np.allclose(va2, va) and wa == wa2 and not a.has_collided)
        return
    s2 = dot(at(va2, wa2, ra), n)
    vc.prove("bounces with the smaller restitution", abs(s2 + min(g.e, obs.geometry.e) * sn) < 1e-5 * (1 + abs(sn)))
    E = lambda v, w: g.m * dot(v, v) / 2 + g.Iz * w * w / 2
    vc.prove("energy never grows", E(va2, wa2) <= E(va, wa) * (1 + 1e-6) + 1e-6)
    vc.prove("pose is kept", np.array_equal(pose, a.get_pose()))
    vc.prove("at fault, has collided", a.has_collided and rep.players["a"].at_fault)
