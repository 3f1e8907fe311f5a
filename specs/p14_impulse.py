"""P14 collisions between players, P15 collisions with the environment"""
from types import SimpleNamespace as NS
import math
import numpy as np
from shapely.geometry import Point, Polygon, LineString
from shapely.affinity import rotate, translate
from pyvc.vc import target, Undecided
from dg_commons.sim import collision as col, collision_utils as cu
from dg_commons.sim.collision_structures import IMPACT_EVERYWHERE
from dg_commons.sim.models.obstacles import StaticObstacle, ObstacleGeometry
from . import common as C

K = "dg_commons.sim.collision."
U = "dg_commons.sim.collision_utils."


class Shape:
    """a footprint or mesh part that knows what it intersects"""

    def __init__(self, name, hits=()):
        self.name, self.hits = name, hits

    def intersects(self, other):
        return getattr(other, "name", other) in self.hits or self.name in getattr(other, "hits", ())


class Body:
    """the SimModel interface (its frames are P13): velocity at the centre of gravity in the global frame"""

    def __init__(self, vc, name, vel=None):
        self.name = name
        self.x = [vc.real(f"{name}.x"), vc.real(f"{name}.y"), vc.angle(f"{name}.psi")]
        self.v = np.array([vc.real(f"{name}.vx"), vc.real(f"{name}.vy")])
        self.w = vc.real(f"{name}.omega")
        self.model_geometry = NS(m=vc.pos(f"{name}.m", typ=(0.5, 50.0)), Iz=vc.pos(f"{name}.Iz", typ=(0.5, 50.0)), e=vc.real(f"{name}.e", 0, 1))
        self.has_collided = False
        self.sets = 0
        self.footprint = Shape(name)
        self.parts = {k: Shape(f"{name}-{k}") for k in ("front", "back", "left")}

    def get_pose(self):
        from geometry import SE2_from_xytheta

        return SE2_from_xytheta(self.x)

    def get_footprint(self):
        return self.footprint

    def get_mesh(self):
        return self.parts

    def get_velocity(self, in_model_frame):
        if in_model_frame:
            raise Undecided("collisions read body velocities")
        return self.v, self.w

    def set_velocity(self, vel, omega, in_model_frame):
        if in_model_frame:
            raise Undecided("collisions write body velocities")
        self.v, self.w = vel, omega
        self.sets += 1


def _geometry(vc, ab):
    """the impact geometry enters through its contract (P16): a unit normal and a point"""
    th = vc.angle("normal")
    n = np.array([vc.cos(th), vc.sin(th)])
    p = [vc.real("p.x"), vc.real("p.y")]
    calls = []

    def impact(a, b):
        calls.append((a, b))
        return n.copy(), NS(coords=[(p[0], p[1])], x=p[0], y=p[1])

    if not vc.patch(cu.compute_impact_geometry, impact):
        raise Undecided("impact geometry computed elsewhere")
    return n, p, calls


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def at(v, w, r):
    """velocity of a point of a rigid body"""
    return [v[0] - w * r[1], v[1] + w * r[0]]


def arm(p, b):
    return [p[0] - b.x[0], p[1] - b.x[1]]


def _contracts(vc):
    """impulse and kinetic energy through their contracts (proved below)"""
    seen, J = [], vc.real("J") if vc.symbolic else None

    def impulse(n, vel_ab, r_ap, r_bp, a_geom, b_geom):
        seen.append((n, vel_ab, r_ap, r_bp, a_geom, b_geom))
        return J

    vc.use(U + "compute_impulse_response", impulse)
    vc.use(U + "kinetic_energy", lambda v, m: m * dot(v, v) / 2)
    return seen, J


@target("P14", "kinetic energy", [U + "kinetic_energy"], samples=60)
def h(vc):
    v, m = [vc.real("vx"), vc.real("vy")], vc.pos("m")
    vc.prove("half m v squared", vc.eq(cu.kinetic_energy(np.array(v), m), m * dot(v, v) / 2))


@target("P14", "impulse between two players", [K + "resolve_collision", U + "compute_impulse_response", U + "velocity_after_collision",
                                                 U + "rot_velocity_after_collision", U + "velocity_of_P_given_A"], samples=200, prove_ms=20000, budget=110)
def h(vc):
    a, b = Body(vc, "a"), Body(vc, "b")
    n, p, calls = _geometry(vc, (a, b))
    hit = [("front", "back")]
    a.parts["front"].hits, b.parts["back"].hits = ("b",), ("a",)
    va, wa, vb, wb = list(a.v), a.w, list(b.v), b.w
    ra, rb = arm(p, a), arm(p, b)
    g, k = a.model_geometry, b.model_geometry
    rel = [x - y for x, y in zip(at(va, wa, ra), at(vb, wb, rb))]
    sim = NS(models={"a": a, "b": b}, dg_scenario=NS(scenario=None), time=vc.real("time"))
    seen, J = _contracts(vc)
    vc.margin((dot(rel, n), 0))
    rep = col.resolve_collision("a", "b", sim)
    if not calls:
        raise Undecided("impact geometry not requested")
    if rep is None:
        vc.prove("ignored only if separating", vc.lt(dot(rel, n), 0))
        vc.prove("bodies are left alone", not (a.has_collided or b.has_collided or a.sets or b.sets))
        return
    vc.prove("resolved only if approaching", vc.le(0, dot(rel, n)))
    vc.prove("both have collided", a.has_collided is True and b.has_collided is True)
    vc.prove("linear momentum is conserved", vc.eq([g.m * (a.v[i] - va[i]) + k.m * (b.v[i] - vb[i]) for i in (0, 1)], [0, 0]))
    vc.prove("angular momentum about the impact point is conserved", vc.And(
        vc.eq(g.Iz * (a.w - wa), g.m * cross(ra, [a.v[i] - va[i] for i in (0, 1)])),
        vc.eq(k.Iz * (b.w - wb), k.m * cross(rb, [b.v[i] - vb[i] for i in (0, 1)]))))
    vc.prove("the impulse acts along the normal", vc.eq(cross([a.v[i] - va[i] for i in (0, 1)], n), 0))
    e = vc.min(g.e, k.e)
    den = 1 / g.m + 1 / k.m + cross(ra, n) * cross(ra, n) / g.Iz + cross(rb, n) * cross(rb, n) / k.Iz
    j = J if seen else -(1 + e) * dot(rel, n) / den
    if seen:
        q = seen[0]
        vc.prove("arguments of the impulse", vc.And(vc.eq([list(x) for x in q[:4]], [list(n), rel, ra, rb]), q[4] is g and q[5] is k))
    vc.prove("impulse of the first body", vc.eq([g.m * (a.v[i] - va[i]) for i in (0, 1)], [j * n[0], j * n[1]]))
    vc.prove("report: players", set(rep.players) == {"a", "b"})
    A, B = rep.players["a"], rep.players["b"]
    vc.prove("report: velocities before", vc.And(vc.eq(A.velocity, (va, wa)), vc.eq(B.velocity, (vb, wb))))
    vc.prove("report: velocities after", vc.And(vc.eq(A.velocity_after, (list(a.v), a.w)), vc.eq(B.velocity_after, (list(b.v), b.w))))
    vc.prove("report: change of kinetic energy", vc.And(
        vc.eq(A.energy_delta, g.m * (dot(a.v, a.v) - dot(va, va)) / 2, 1e-6), vc.eq(B.energy_delta, k.m * (dot(b.v, b.v) - dot(vb, vb)) / 2, 1e-6)))
    vc.prove("report: impact and time", vc.And(vc.eq(list(rep.impact_normal), list(n)), vc.eq((rep.impact_point.x, rep.impact_point.y), tuple(p)),
                                               vc.eq(rep.at_time, sim.time)))
    vc.prove("report: footprints and locations", A.footprint is a.footprint and B.footprint is b.footprint
             and [l for l, _ in A.locations] == ["front"] and [l for l, _ in B.locations] == ["back"])
    vc.prove("report: nobody at fault without a map", A.at_fault is False and B.at_fault is False)
    vc.prove("geometry of the two footprints", calls == [(a.footprint, b.footprint)])


@target("P14", "restitution and energy", [K + "resolve_collision", U + "compute_impulse_response"], kind="full", samples=150, prove_ms=20000)
def h(vc):
    """lemma over the impulse formula proved above"""
    n = vc.angle("normal")
    n = [vc.cos(n), vc.sin(n)]
    ra, rb = [vc.real("ra.x"), vc.real("ra.y")], [vc.real("rb.x"), vc.real("rb.y")]
    va, vb = [vc.real("a.vx"), vc.real("a.vy")], [vc.real("b.vx"), vc.real("b.vy")]
    wa, wb = vc.real("a.w"), vc.real("b.w")
    ga = NS(m=vc.pos("a.m", typ=(0.5, 50.0)), Iz=vc.pos("a.Iz", typ=(0.5, 50.0)), e=vc.real("a.e", 0, 1))
    gb = NS(m=vc.pos("b.m", typ=(0.5, 50.0)), Iz=vc.pos("b.Iz", typ=(0.5, 50.0)), e=vc.real("b.e", 0, 1))
    rel = [x - y for x, y in zip(at(va, wa, ra), at(vb, wb, rb))]
    N = np.array
    j = cu.compute_impulse_response(N(n), N(rel), N(ra), N(rb), ga, gb)
    den = 1 / ga.m + 1 / gb.m + cross(ra, n) * cross(ra, n) / ga.Iz + cross(rb, n) * cross(rb, n) / gb.Iz
    e = vc.min(ga.e, gb.e)
    vc.prove("impulse", vc.eq(j * den, -(1 + e) * dot(rel, n), 1e-6))
    va2, vb2 = cu.velocity_after_collision(N(n), N(va), ga.m, j), cu.velocity_after_collision(-N(n), N(vb), gb.m, j)
    wa2, wb2 = cu.rot_velocity_after_collision(N(ra), N(n), wa, ga.Iz, j), cu.rot_velocity_after_collision(N(rb), -N(n), wb, gb.Iz, j)
    vc.prove("velocities after", vc.And(vc.eq(list(va2), [va[i] + j * n[i] / ga.m for i in (0, 1)]), vc.eq(list(vb2), [vb[i] - j * n[i] / gb.m for i in (0, 1)])))
    vc.prove("rotation after", vc.And(vc.eq(wa2, wa + j * cross(ra, n) / ga.Iz), vc.eq(wb2, wb - j * cross(rb, n) / gb.Iz)))
    if not vc.symbolic:
        after = [x - y for x, y in zip(at(va2, wa2, ra), at(vb2, wb2, rb))]
        scale = 1e-6 * (1 + abs(dot(rel, n)) + abs(wa) * 100 + abs(wb) * 100)
        vc.prove("bodies separate with the restitution of the less bouncy one", abs(dot(after, n) + e * dot(rel, n)) <= scale)
        E = lambda g, v, w: g.m * dot(v, v) / 2 + g.Iz * w * w / 2
        e0, e1 = E(ga, va, wa) + E(gb, vb, wb), E(ga, va2, wa2) + E(gb, vb2, wb2)
        vc.prove("energy never grows", e1 <= e0 + 1e-6 * (1 + e0))


@target("P14", "algebra of restitution and energy", ["lemma"], samples=0)
def h(vc):
    """over the postconditions above: with I = sum of the mobilities and s = rel.n, the impulse j = -(1+e)s/I gives
    s' = s + jI = -e s, and the energy changes by j s + j^2 I/2 = -(1-e^2)s^2/(2I) <= 0"""
    s, I, e = vc.real("s"), vc.pos("I"), vc.real("e", 0, 1)
    j = vc.real("j")
    vc.assume(vc.eq(j * I, -(1 + e) * s))
    vc.prove("separation speed", vc.eq(s + j * I, -e * s))
    vc.prove("energy", vc.le((j * s + j * j * I / 2) * I * 2, 0))


@target("P14", "at fault with a map", [K + "resolve_collision"], samples=40)
def h(vc):
    a, b = Body(vc, "a"), Body(vc, "b")
    n, p, calls = _geometry(vc, (a, b))
    a.parts["front"].hits, b.parts["back"].hits = ("b",), ("a",)
    fa, fb = vc.flag("a_fault"), vc.flag("b_fault")
    seen = []

    def fault(p_poses, impact_point, lanelet_network):
        seen.append((p_poses, impact_point, lanelet_network))
        return {"a": fa, "b": fb}

    if not vc.patch(cu.check_who_is_at_fault, fault):
        raise Undecided("fault computed elsewhere")
    sim = NS(models={"a": a, "b": b}, dg_scenario=NS(scenario=NS(lanelet_network="net")), time=1)
    rep = col.resolve_collision("a", "b", sim)
    if rep is not None:
        if not seen:
            raise Undecided("fault computed elsewhere")
        vc.prove("fault of each", rep.players["a"].at_fault == fa and rep.players["b"].at_fault == fb)
        q = seen[0]
        vc.prove("judged at the impact point", vc.And(vc.eq((q[1].x, q[1].y), tuple(p)), q[2] == "net", set(q[0]) == {"a", "b"}))


@target("P14", "impact locations", [K + "impact_locations_from_polygons"], samples=60)
def h(vc):
    m = Body(vc, "a")
    b = Shape("b")
    f = {k: vc.flag(k) for k in m.parts}
    for k, s in m.parts.items():
        s.hits = ("b",) if f[k] else ()
    ex = [k for k in m.parts if f[k]]
    if not ex:
        vc.prove("contact without location is an error", vc.raises(cu.CollisionException, lambda: col.impact_locations_from_polygons(m, b)))
        return
    r = col.impact_locations_from_polygons(m, b)
    vc.prove("every touched part", [l for l, _ in r] == ex and all(s is m.parts[l] for l, s in r))


# ------------------------------------------------------------------------------------------------ real shapes and models
def _model(vc, name):
    kind = vc.choice(f"{name}.model", ["spacecraft", "rocket", "spaceship", "pedestrian", "dynobstacle"])
    from .p11_update import DEFAULT

    build, X, U_, spec, path = C.MODELS[kind]
    R = {"m": (2.2, 4), "phi": (-0.3, 0.3), "delta": (-0.3, 0.3), "psi": (-3, 3), "x": (-1, 1), "y": (-1, 1), "dpsi": (-2, 2)}
    x = X(**{k: vc.real(f"{name}.{k}", *R.get(k, (-8, 8))) for k in C.state_names(X)})
    return DEFAULT[kind](x)


@target("P14", "collisions of real models", [K + "resolve_collision"], kind="runtime", samples=400, bound="seeded pairs of overlapping models with full velocity states")
def h(vc):
    from pyvc.vc import Discard

    a, b = _model(vc, "a"), _model(vc, "b")
    d = vc.real("dist", 0.3, 3)
    th = vc.real("bearing", -3, 3)
    b._state.x, b._state.y = a._state.x + d * math.cos(th), a._state.y + d * math.sin(th)
    A, B = a.get_footprint(), b.get_footprint()
    if not A.intersects(B) or A.touches(B) or B.contains(A):
        raise Discard()
    try:
        n, p = cu.compute_impact_geometry(A, B)
    except cu.CollisionException:
        raise Discard()
    ga, gb = a.model_geometry, b.model_geometry
    (va, wa), (vb, wb) = a.get_velocity(False), b.get_velocity(False)
    va, vb = va.copy(), vb.copy()
    ra, rb = [p.x - a._state.x, p.y - a._state.y], [p.x - b._state.x, p.y - b._state.y]
    s = dot([x - y for x, y in zip(at(va, wa, ra), at(vb, wb, rb))], n)
    if abs(s) < 1e-6:
        raise Discard()
    pose = (a.get_pose(), b.get_pose())
    rep = col.resolve_collision("a", "b", NS(models={"a": a, "b": b}, dg_scenario=NS(scenario=None), time=1))
    (va2, wa2), (vb2, wb2) = a.get_velocity(False), b.get_velocity(False)
    if s < 0:
        vc.prove("separating bodies are left alone", rep is None and np.allclose(va2, va) and np.allclose(vb2, vb) and wa == wa2 and wb == wb2 and not a.has_collided and not b.has_collided)
        return
    vc.prove("approaching bodies collide", rep is not None and a.has_collided and b.has_collided)
    tol = 1e-6 * (1 + ga.m * np.abs(va).max() + gb.m * np.abs(vb).max() + ga.Iz * abs(wa) + gb.Iz * abs(wb))
    vc.prove("momentum", bool(np.all(np.abs(ga.m * (va2 - va) + gb.m * (vb2 - vb)) <= tol)))
    s2 = dot([x - y for x, y in zip(at(va2, wa2, ra), at(vb2, wb2, rb))], n)
    vc.prove("restitution", abs(s2 + min(ga.e, gb.e) * s) < 1e-5 * (1 + abs(s)))
    L = lambda g, r, v, w: g.Iz * w + g.m * -cross(r, v)
    vc.prove("angular momentum about the impact point", abs(L(ga, ra, va2, wa2) - L(ga, ra, va, wa)) <= 10 * tol and abs(L(gb, rb, vb2, wb2) - L(gb, rb, vb, wb)) <= 10 * tol)
    vc.prove("poses are kept", np.array_equal(pose[0], a.get_pose()) and np.array_equal(pose[1], b.get_pose()))
    vc.prove("locations are touched parts", all(B.intersects(x) for _, x in rep.players["a"].locations) and all(A.intersects(x) for _, x in rep.players["b"].locations))


@target("P14", "who is at fault, any number of lanes", ["dg_commons.sim.collision_utils.check_who_is_at_fault", "dg_commons.sim.collision_utils._is_illegal_lanepose"], kind="loop", samples=200)
def h(vc):
    """a player is at fault exactly if it drives legally, inside and in its direction, in none of the lanes at the point of impact"""
    from dg_commons.maps.lanes import DgLanelet
    from shapely.geometry import Point as ShPoint
    from . import many as M
    from pyvc import loops as L

    w = M.Names(vc, "lane")
    x, y = vc.real("x"), vc.real("y")
    tag = {"a": "pose a", "b": "pose b", "c": "pose c"}
    who = ["a", "b"][: vc.choice("players", [1, 2])]
    flags = {(p, k): w.flags(f"{p} {k}") for p in who for k in ("direction", "inside")}
    asked = []

    class Lane:
        def __init__(self, i):
            self.i = i

        def lane_pose_from_SE2_generic(self, q):
            p = [k for k in who if tag[k] is q]
            if not p:
                raise Undecided("judged by other poses")
            return NS(correct_direction=flags[p[0], "direction"](self.i), inside=flags[p[0], "inside"](self.i))

    class Net:
        def find_lanelet_by_position(self, pts):
            asked.append(pts)
            return [L.SSeq(L.I(w.n), lambda j: NS(id=L.Sym(j, "int")), list).map(lambda v: v.id) if vc.symbolic else list(range(int(w.n)))]

        def find_lanelet_by_id(self, i):
            return ("lanelet", i)

    vc.patch_attr(DgLanelet, "from_commonroad_lanelet", staticmethod(lambda l: Lane(l[1])))
    f = getattr(cu, "check_who_is_at_fault", None)
    if f is None:
        raise Undecided("fault computed elsewhere")
    vc.loops("dg_commons.sim.collision_utils.check_who_is_at_fault")
    r = f({p: tag[p] for p in who}, NS(x=x, y=y) if vc.symbolic else ShPoint(x, y), Net())
    vc.prove("lanes at the point of impact", len(asked) == 1 and len(asked[0]) == 1 and vc.eq(list(asked[0][0]), [x, y]))
    vc.prove("everybody is judged", set(r) == set(who))
    legal = lambda p, i: vc.And(flags[p, "direction"](i), flags[p, "inside"](i))
    for p in who:
        if vc.symbolic:
            if r[p]:
                i = L.Sym(L.any_index(0, w.n), "int")
                vc.prove("at fault only without a legal lane", vc.Not(legal(p, i)))
            else:
                L.prove("not at fault only with one", [L.Ex(0, L.I(w.n), lambda j: L.bterm(legal(p, L.Sym(j, "int"))))])
        else:
            vc.prove("at fault exactly without a legal lane", bool(r[p]) == (not any(legal(p, i) for i in w.indices())))
