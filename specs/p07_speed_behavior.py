"""P07 speed behaviour: yielding, emergency and safe following"""
import math
from math import pi
from types import SimpleNamespace as NS
import numpy as np
from pyvc.vc import target, Discard
from dg_commons.controllers.speed import SpeedBehavior
from dg_commons.sim.simulator_structures import PlayerObservations
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.models.utils import kmh2ms
from . import common as C

K = "dg_commons.controllers.speed.SpeedBehavior."


class Rel:
    """relative pose of another agent"""

    def __init__(self, x, y, th):
        self.p, self.theta = np.array([x, y]), th


def setup(vc, n, anywhere=True):
    b = vc.again("behaviour", lambda: SpeedBehavior("me"))
    q = b.params
    q.nominal_speed = vc.real("nominal", lo=0, typ=(1.0, 20.0))
    q.yield_distance = vc.real("yield_d", lo=0, typ=(1.0, 12.0))
    q.minimum_yield_vel = vc.real("yield_v", lo=0, typ=(0.0, 4.0))
    q.safety_time_braking = vc.real("t_brake", lo=0, typ=(0.2, 3.0))
    names = ["me"] + [f"o{i}" for i in range(n)]
    k = vc.choice("mypos", range(n + 1)) if anywhere else n // 2  # the ego may come anywhere in the mapping
    order = names[1:][:k] + ["me"] + names[1:][k:]
    obs, rel = {}, {}
    for a in order:
        v = vc.real(f"{a}.vx", typ=(-2.0, 15.0))
        obs[a] = NS(state=VehicleState(x=0.0, y=0.0, psi=0.0, vx=v, delta=0.0))
        if a == "me":
            rel[a] = Rel(0.0, 0.0, 0.0)
        else:
            rel[a] = Rel(vc.real(f"{a}.x", typ=(-3.0, 14.0)), vc.real(f"{a}.y", typ=(-4.0, 4.0)), vc.real(f"{a}.theta", -pi, pi))
    b.update_observations(obs)
    if not vc.symbolic:
        # the ego's own entry is the identity: it must be skipped by name
        pass
    return b, q, obs, rel, names[1:]


def near(vc, r, d):
    """distance below d (no square root needed)"""
    return vc.And(d > 0, r.p[0] * r.p[0] + r.p[1] * r.p[1] < d * d)


def right(vc, q, r, v):
    return vc.And(pi / 4 <= r.theta, r.theta <= 3 * pi / 4, v > q.minimum_yield_vel, near(vc, r, q.yield_distance))


def emergency(vc, q, r, v, mine):
    left = vc.And(-3 * pi / 4 <= r.theta, r.theta <= -pi / 4, v > q.minimum_yield_vel, near(vc, r, q.yield_distance))
    front = vc.And(vc.Or(r.theta >= 3 * pi / 4, r.theta <= -3 * pi / 4), r.p[0] > 0, -1.2 <= r.p[1], r.p[1] <= 1.2,
                   near(vc, r, q.safety_time_braking * (mine + v)))
    return vc.Or(left, front)


def cruise(vc, q, obs, rel, others):
    mine = obs["me"].state.vx
    best = q.nominal_speed
    for a in others:
        r, v = rel[a], obs[a].state.vx
        gap = mine * q.safety_time_braking + vc.max(mine - v, 0)
        follow = vc.And(r.p[0] > 0.5, r.p[1] <= 1.2, -1.2 <= r.p[1], r.theta < pi / 6, -pi / 6 < r.theta, near(vc, r, gap))
        ref = vc.clip(v - vc.max(mine - v, 0), 0, 130 / 3.6)
        best = vc.If(follow, vc.min(best, ref), best)
    return best


def _margins(vc, q, obs, rel, others):
    if vc.symbolic:
        return
    mine = obs["me"].state.vx
    for a in others:
        r, v = rel[a], obs[a].state.vx
        d = math.hypot(r.p[0], r.p[1])
        vc.margin((d, q.yield_distance), (d, q.safety_time_braking * (mine + v)), (d, mine * q.safety_time_braking + max(mine - v, 0)))


for _n in (1,):

    @target("P07", f"yielding to the right, one other agent", [K + "is_there_anyone_to_yield_to"], feas_ms=200)
    def h(vc, n=_n):
        b, q, obs, rel, others = setup(vc, n)
        _margins(vc, q, obs, rel, others)
        r = b.is_there_anyone_to_yield_to(rel)
        vc.prove("yield iff someone close comes from the right", vc.Iff(r, vc.Or(*[right(vc, q, rel[a], obs[a].state.vx) for a in others])))

    @target("P07", f"emergency, one other agent", [K + "is_emergency_subroutine_needed"], feas_ms=200)
    def h(vc, n=_n):
        b, q, obs, rel, others = setup(vc, n, n == 1)
        _margins(vc, q, obs, rel, others)
        r = b.is_emergency_subroutine_needed(rel)
        mine = obs["me"].state.vx
        vc.prove("emergency iff someone close comes from the left or head-on",
                 vc.Iff(r, vc.Or(*[emergency(vc, q, rel[a], obs[a].state.vx, mine) for a in others])))

    @target("P07", f"following, one other agent", [K + "cruise_control"], feas_ms=200, samples=400)
    def h(vc, n=_n):
        b, q, obs, rel, others = setup(vc, n, n == 1)
        _margins(vc, q, obs, rel, others)
        r = b.cruise_control(rel)
        vc.prove("slowest of the leaders that are too close, at most nominal", vc.eq(r, cruise(vc, q, obs, rel, others)))
        vc.prove("never above nominal", vc.le(r, q.nominal_speed))
        vc.prove("never backwards", vc.le(0, r))


@target("P07", "alone on the road", [K + "get_speed_ref"], samples=60)
def h(vc):
    b, q, obs, rel, others = setup(vc, 0)
    vc.prove("nobody to yield to", vc.Not(b.is_there_anyone_to_yield_to(rel)))
    vc.prove("no emergency", vc.Not(b.is_emergency_subroutine_needed(rel)))
    ref, em = b.get_speed_ref(0.0)
    vc.prove("nominal speed", vc.And(vc.eq(ref, q.nominal_speed), vc.Not(em)))


@target("P07", "reference speed from poses", [K + "get_speed_ref"], kind="runtime", samples=1500,
        bound="seeded scenes of up to 4 other agents in arbitrary global poses")
def h(vc):
    n = vc.choice("n", range(5))
    x, y, th = vc.real("x"), vc.real("y"), vc.angle("psi")
    b, q, obs, rel, others = setup(vc, n)
    full, relf = {}, {}
    for a, o in obs.items():
        r = rel[a]
        t = (r.theta + math.pi) % (2 * math.pi) - math.pi
        relf[a] = Rel(r.p[0], r.p[1], t)
        vc.margin((abs(t), math.pi))
        c, s = math.cos(th), math.sin(th)
        full[a] = NS(state=VehicleState(x=x + c * r.p[0] - s * r.p[1], y=y + s * r.p[0] + c * r.p[1], psi=th + r.theta,
                                        vx=o.state.vx, delta=0.0))
        # the pose is recovered with rounding: stay clear of every threshold
        d, mine, v = math.hypot(r.p[0], r.p[1]), obs["me"].state.vx, o.state.vx
        edge = [(t, k * math.pi / 12) for k in (-9, -3, -2, 2, 3, 9)] + [(r.p[0], 0), (r.p[0], 0.5), (abs(r.p[1]), 1.2)]
        edge += [(d, q.yield_distance), (d, q.safety_time_braking * (mine + v)), (d, mine * q.safety_time_braking + max(mine - v, 0))]
        if a != "me" and any(abs(p - w) < 1e-6 * (1 + abs(w)) for p, w in edge):
            raise Discard("edge")
    _margins(vc, q, obs, relf, others)
    b.update_observations(full)
    ref, em = b.get_speed_ref(vc.real("t", 0, 10))
    mine = obs["me"].state.vx
    e = any(emergency(vc, q, relf[a], obs[a].state.vx, mine) for a in others)
    yl = any(right(vc, q, relf[a], obs[a].state.vx) for a in others)
    vc.prove("emergency flag", bool(em) == e)
    vc.prove("stop when yielding or in an emergency, else follow", vc.eq(ref, 0 if e or yl else cruise(vc, q, obs, relf, others)))
    vc.prove("the reference is kept", vc.eq(b.speed_ref, ref))


@target("P07", "who stops", [K + "get_speed_ref"], samples=100)
def h(vc):
    """glue: any of yield/emergency stops, otherwise cruise control; the flag is the emergency"""
    b = SpeedBehavior("me")
    b.update_observations({"me": NS(state=VehicleState(x=vc.real("x"), y=vc.real("y"), psi=0.0, vx=vc.real("v"), delta=0.0))})
    yl, em, cr = vc.flag("yield"), vc.flag("emergency"), vc.real("cruise")
    n = {}
    vc.patch_attr(SpeedBehavior, "is_there_anyone_to_yield_to", lambda self, r: (n.update(y=1), yl)[1])
    vc.patch_attr(SpeedBehavior, "is_emergency_subroutine_needed", lambda self, r: (n.update(e=1), em)[1])
    vc.patch_attr(SpeedBehavior, "cruise_control", lambda self, r: (n.update(c=1), cr)[1])
    ref, flag = b.get_speed_ref(0.0)
    if not n:
        from pyvc.vc import Undecided

        raise Undecided("rules are evaluated elsewhere")
    vc.prove("reference speed", vc.eq(ref, 0 if yl or em else cr))
    vc.prove("emergency flag", bool(flag) == em)


# ------------------------------------------------------------------------------------------------ any number of agents
from . import many as M


def crowd(vc):
    """any number of agents in any configuration around the ego, which may be any of them"""
    w = M.Names(vc, "agent", 1)
    m = w.any("me")
    b = SpeedBehavior(w.key(m))
    q = b.params
    q.nominal_speed = vc.real("nominal", lo=0, typ=(1.0, 20.0))
    q.yield_distance = vc.real("yield_d", lo=0, typ=(1.0, 12.0))
    q.minimum_yield_vel = vc.real("yield_v", lo=0, typ=(0.0, 4.0))
    q.safety_time_braking = vc.real("t_brake", lo=0, typ=(0.2, 3.0))
    v = w.numbers("vx", typ=(-2.0, 15.0))
    x, y, th = w.numbers("x", typ=(-3.0, 14.0)), w.numbers("y", typ=(-4.0, 4.0)), w.numbers("theta", typ=(-pi, pi))
    vc.suppose(0, w.n, lambda i: vc.And(th(i) >= -pi, th(i) <= pi))
    b.update_observations(w.dict(lambda i: NS(state=VehicleState(x=0.0, y=0.0, psi=0.0, vx=v(i), delta=0.0))))
    rel = w.dict(lambda i: Rel(x(i), y(i), th(i)))
    r = lambda i: Rel(x(i), y(i), th(i))
    if not vc.symbolic:
        for i in w.indices():
            d, mine = math.hypot(x(i), y(i)), v(m)
            vc.margin((d, q.yield_distance), (d, q.safety_time_braking * (mine + v(i))), (d, mine * q.safety_time_braking + max(mine - v(i), 0)))
    return NS(w=w, m=m, b=b, q=q, v=v, r=r, rel=rel)


def _decides(vc, c, got, cond, label):
    """the answer is yes iff the condition holds for some other agent"""
    other = lambda i: vc.And(i != c.m, cond(i))
    if got:
        vc.exists(label, 0, c.w.n, other)
    else:
        vc.forall(label, 0, c.w.n, lambda i: vc.Not(other(i)))


def _none_yet(vc, c, cond):
    """loop invariant: none of the agents seen so far"""
    return {0: lambda l, env: M.L.LoopSpec(inv=lambda k, e: [M.L.All(0, k, lambda i: M.L.bterm(vc.Not(vc.And(M.Sym(i, "int") != c.m, cond(M.Sym(i, "int"))))))])}


@target("P07", "yielding, any number of agents", [K + "is_there_anyone_to_yield_to"], kind="loop", feas_ms=200, samples=300)
def h(vc):
    c = crowd(vc)
    cond = lambda i: right(vc, c.q, c.r(i), c.v(i))
    vc.loops(K + "is_there_anyone_to_yield_to", _none_yet(vc, c, cond))
    _decides(vc, c, bool(c.b.is_there_anyone_to_yield_to(c.rel)), cond, "yield iff someone close comes from the right")


@target("P07", "emergency, any number of agents", [K + "is_emergency_subroutine_needed"], kind="loop", feas_ms=200, samples=300)
def h(vc):
    c = crowd(vc)
    cond = lambda i: emergency(vc, c.q, c.r(i), c.v(i), c.v(c.m))
    vc.loops(K + "is_emergency_subroutine_needed", _none_yet(vc, c, cond))
    _decides(vc, c, bool(c.b.is_emergency_subroutine_needed(c.rel)), cond, "emergency iff someone close comes from the left or head-on")


@target("P07", "following, any number of agents", [K + "cruise_control"], kind="loop", feas_ms=200, samples=300)
def h(vc):
    c = crowd(vc)
    mine, q, n = c.v(c.m), c.q, c.w.n

    def cand(i):
        r, v = c.r(i), c.v(i)
        gap = mine * q.safety_time_braking + vc.max(mine - v, 0)
        follow = vc.And(r.p[0] > 0.5, r.p[1] <= 1.2, -1.2 <= r.p[1], r.theta < pi / 6, -pi / 6 < r.theta, near(vc, r, gap))
        return vc.If(follow, vc.clip(v - vc.max(mine - v, 0), 0, 130 / 3.6), q.nominal_speed)

    if vc.symbolic:
        L, z3 = M.L, M.z3
        m = L.I(c.m)

        def seen(k):
            """the nominal speed, then one candidate per other agent seen so far"""
            k = L.I(k)
            which = lambda j: z3.simplify(z3.If(j - 1 < m, j - 1, j))
            return L.SSeq(z3.simplify(1 + k - z3.If(m < k, 1, 0)), lambda j: L.pick(z3.simplify(j == 0), lambda: q.nominal_speed, lambda: cand(M.Sym(which(j), "int"))), list)

        vc.loops(K + "cruise_control", {0: lambda l, env: L.LoopSpec(vals={"candidate_speed_ref": seen})})
    r = c.b.cruise_control(c.rel)

    def bound(i):
        if vc.symbolic:  # (where the candidate of agent i stands in the list)
            L.uni().touch(z3.simplify(z3.If(L.I(i) < m, L.I(i) + 1, L.I(i))))
        return vc.Implies(i != c.m, vc.le(r, cand(i)))

    if vc.symbolic:
        L.uni().touch(z3.IntVal(0))
    vc.prove("never above nominal", vc.le(r, q.nominal_speed))
    vc.prove("never backwards", vc.le(0, r))
    vc.forall("no faster than any leader that is too close allows", 0, n, bound)
    vc.exists("as fast as the slowest of them allows", 0, n, lambda i: vc.And(i != c.m, vc.eq(r, cand(i))), alt=vc.eq(r, q.nominal_speed))


def _relative(b, q):
    """contract of relative_pose (P22), for poses"""
    (c, s, x, y), (c2, s2, x2, y2) = ((m[0, 0], m[1, 0], m[0, 2], m[1, 2]) for m in (b, q))
    dx, dy = x2 - x, y2 - y
    co, si = c * c2 + s * s2, c * s2 - s * c2
    return np.array([[co, -si, c * dx + s * dy], [si, co, -s * dx + c * dy], [0, 0, 1]], dtype=object)


@target("P07", "who stops, any number of agents", [K + "get_speed_ref"], kind="loop", samples=100)
def h(vc):
    """glue: the rules are evaluated on the poses of all agents relative to the ego"""
    w = M.Names(vc, "agent", 1)
    m = w.any("me")
    me = w.key(m)
    b = SpeedBehavior(me)
    x, y, th, v = (w.numbers(k) for k in ("x", "y", "theta", "v"))
    b.update_observations(w.dict(lambda i: NS(state=VehicleState(x=x(i), y=y(i), psi=th(i), vx=v(i), delta=0.0))))
    yl, em, cr = vc.flag("yield"), vc.flag("emergency"), vc.real("cruise")
    got = {}
    vc.patch_attr(SpeedBehavior, "is_there_anyone_to_yield_to", lambda self, r: (got.update(y=r), yl)[1])
    vc.patch_attr(SpeedBehavior, "is_emergency_subroutine_needed", lambda self, r: (got.update(e=r), em)[1])
    vc.patch_attr(SpeedBehavior, "cruise_control", lambda self, r: (got.update(c=r), cr)[1])
    vc.use("dg_commons.geo.relative_pose", _relative)
    vc.use("dg_commons.geo.SE2Transform.from_SE2", lambda q: Rel(q[0, 2], q[1, 2], vc.atan2(q[1, 0], q[0, 0])))
    vc.loops(K + "get_speed_ref")
    ref, flag = b.get_speed_ref(0.0)
    if not got:
        from pyvc.vc import Undecided

        raise Undecided("rules are evaluated elsewhere")
    vc.prove("reference speed", vc.eq(ref, 0 if yl or em else cr))
    vc.prove("emergency flag", bool(flag) == em)
    c, s = vc.cos(th(m)), vc.sin(th(m))

    def pose(a, i):
        dx, dy = x(i) - x(m), y(i) - y(m)
        return vc.And(vc.eq(a.p[0], c * dx + s * dy), vc.eq(a.p[1], -s * dx + c * dy), vc.same_angle(a.theta, th(i) - th(m)))

    for k, r in got.items():
        if vc.symbolic:
            r = M.D.as_dict(r, w.dom)
            vc.prove("everybody is there", r.total())
            vc.forall("poses relative to the ego", 0, w.n, lambda i: pose(r.value(M.L.I(i)), i))
        else:
            vc.prove("everybody is there", set(r) == {w.key(i) for i in w.indices()})
            vc.prove("poses relative to the ego", all(pose(r[w.key(i)], i) for i in w.indices()))
