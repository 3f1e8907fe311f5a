"""P28 agents: non-playing characters, policies and the lane follower"""
import math
from decimal import Decimal
from types import SimpleNamespace as NS
import numpy as np
from pyvc.vc import target, Undecided, Discard
from dg_commons import DgSampledSequence, SE2Transform
from dg_commons.controllers.pure_pursuit import PurePursuit
from dg_commons.controllers.speed import SpeedBehavior, SpeedController
from dg_commons.controllers.steer import SteerController
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons.seq.sequence import UndefinedAtTime
from dg_commons.sim import SimTime
from dg_commons.sim.agents.agent import NPAgent, PolicyAgent
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState, VehicleModel
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from dg_commons.sim.simulator_structures import SimObservations, InitSimObservations, PlayerObservations
from . import common as C
from . import useqs as U

A = "dg_commons.sim.agents."


def init(name, seed=0):
    return InitSimObservations(my_name=name, seed=seed)


def obs(t, **states):
    return SimObservations(players={k: PlayerObservations(state=s, occupancy=None) for k, s in states.items()}, time=t)


@target("P28", "commands planned in time", [A + "agent.NPAgent.get_commands"], kind="bounded", bound="plans of 1..3 commands, all times and values", samples=200)
def h(vc):
    n = vc.choice("n", [1, 2, 3])
    ts, t = [], vc.real("t0", typ=(0, 5))
    for i in range(n):
        ts.append(t)
        t = t + vc.pos(f"d{i}", typ=(0.05, 2))
    cmds = [VehicleCommands(acc=vc.real(f"a{i}"), ddelta=vc.real(f"s{i}")) for i in range(n)]
    plan = DgSampledSequence[VehicleCommands](timestamps=ts, values=cmds)
    a = NPAgent(plan)
    a.on_episode_init(init("Ego"))
    now = vc.real("now", typ=(-1, 8))
    if not vc.symbolic and vc.flag("exact"):
        now = ts[vc.choice("which", list(range(n)))]
    o = obs(now, Ego=VehicleState(x=0, y=0, psi=0, vx=vc.real("v"), delta=0))
    try:
        u = a.get_commands(o)
    except UndefinedAtTime:
        vc.prove("only before the plan starts", now < ts[0])
        return
    i = max([k for k in range(n) if ts[k] <= now], default=None)
    vc.prove("the latest planned command", i is not None and vc.eq([u.acc, u.ddelta], [cmds[i].acc, cmds[i].ddelta]))


@target("P28", "commands planned in time, any number", [A + "agent.NPAgent.get_commands"], kind="loop", samples=200)
def h(vc):
    kind = vc.choice("kind", ["float", "Decimal"])
    n = U.length(vc, "n", 1, 6)
    ts = U.numbers(vc, "t", n, kind, True, tuple)
    acc, dd = U.numbers(vc, "acc", n), U.numbers(vc, "dd", n)
    get = (lambda q, j: q.get(U.L.I(j))) if vc.symbolic else (lambda q, j: q[int(j)])
    cmd = lambda j: VehicleCommands(acc=get(acc, j), ddelta=get(dd, j))
    vs = U.L.SSeq(U.L.I(n), cmd, tuple) if vc.symbolic else tuple(cmd(j) for j in range(int(n)))
    plan = U.Seq(n, ts, vs)
    a = NPAgent(U.make(ts, vs, VehicleCommands))
    a.on_episode_init(init("Ego"))
    now = U.query(vc, "now", plan, kind)
    o = obs(now, Ego=VehicleState(x=0, y=0, psi=0, vx=vc.real("v"), delta=0))
    try:
        u = a.get_commands(o)
    except UndefinedAtTime:
        vc.prove("only before the plan starts", now < plan.t(0))
        return
    vc.prove("only once the plan has started", now >= plan.t(0))
    is_ = lambda j: vc.And(vc.eq(u.acc, get(acc, j)), vc.eq(u.ddelta, get(dd, j)))
    vc.exists("the latest planned command", 0, n, lambda j: vc.And(plan.t(j) <= now, U.before_next(vc, plan, j, now), is_(j)))


@target("P28", "policy on the own state", [A + "agent.PolicyAgent.get_commands", A + "agent.PolicyAgent.on_episode_init"], samples=100)
def h(vc):
    me = vc.choice("me", ["A", "B"])
    seen = []
    out = VehicleCommands(acc=vc.real("acc"), ddelta=vc.real("dd"))

    def policy(x):
        seen.append(x)
        return out

    a = PolicyAgent(policy)
    a.on_episode_init(init(me))
    states = {n: C.mk(vc, VehicleState, n) for n in ("A", "B")}
    u = a.get_commands(obs(SimTime("0.3"), **states))
    vc.prove("its policy is asked about its own state", len(seen) == 1 and seen[0] is states[me])
    vc.prove("its answer is the command", u is out)
    other = "A" if me == "B" else "B"
    a.on_episode_init(init(other))
    a.get_commands(obs(SimTime("0.4"), **states))
    vc.prove("of the current episode", seen[-1] is states[other])


class Lane:
    def __init__(self, along):
        self.along, self.asked = along, []

    def lane_pose_from_SE2_generic(self, q, tol=None):
        self.asked.append(q)
        return NS(along_lane=self.along)


class Behavior:
    def __init__(self, refs):
        self.refs, self.my_name, self.seen, self.asked = list(refs), None, None, []

    def update_observations(self, players):
        self.seen = players

    def get_speed_ref(self, t):
        self.asked.append(t)
        return self.refs[len(self.asked) - 1]


class Pursuit:
    def __init__(self, outs):
        self.outs, self.path, self.pose, self.along, self.speeds, self.n = list(outs), None, None, None, [], 0

    def update_path(self, p):
        self.path = p

    def update_pose(self, pose, along_path):
        self.pose, self.along = pose, along_path

    def update_speed(self, speed):
        self.speeds.append(speed)

    def get_desired_steering(self):
        self.n += 1
        return self.outs[self.n - 1]


class Controller:
    """contract of a controller (P05): any output within its bounds, a function of what it was told and when"""

    def __init__(self, vc, name, lo, hi):
        self.vc, self.name, self.lo, self.hi, self.y, self.r, self.told = vc, name, lo, hi, None, None, []

    def reset(self):
        self.fresh = len(self.told)

    def update_measurement(self, measurement):
        self.y = measurement

    def update_reference(self, reference):
        self.r = reference

    def get_control(self, at):
        self.told.append((self.y, self.r, at))
        self.out = self.vc.real(f"{self.name}{len(self.told)}")
        self.vc.assume(self.vc.And(self.lo <= self.out, self.out <= self.hi))
        return self.out


@target("P28", "lane following step", [A + "lane_follower.LFAgent.get_commands", A + "lane_follower.LFAgent.on_episode_init"], samples=200, budget=120)
def h(vc):
    params = C.veh_par(vc)
    along = vc.real("along", 0, 100)
    refs = [(vc.real(f"ref{i}", 0, 20), vc.flag(f"emergency{i}") if i < 2 else False) for i in range(4)]
    outs = [vc.real(f"steer{i}", -1, 1) for i in range(4)]
    lane, beh, pur = Lane(along), Behavior(refs), Pursuit(outs)
    g = VehicleGeometry.default_car()
    pur.path = Lane(along)  # a controller may have served on another lane
    a = LFAgent(lane, model_params=params, model_geo=g, speed_behavior=beh, pure_pursuit=pur)
    me = "Ego"
    a.on_episode_init(init(me))
    vc.prove("the given lane is pursued", pur.path is lane)
    vc.prove("speed behaviour knows its player", beh.my_name == "Ego")
    if vc.symbolic:
        if not (isinstance(getattr(a, "speed_controller", None), SpeedController) and isinstance(getattr(a, "steer_controller", None), SteerController)):
            raise Undecided("controllers are kept in another way")
        sc, st = Controller(vc, "acc", *params.acc_limits), Controller(vc, "ddelta", -params.ddelta_max, params.ddelta_max)
        a.speed_controller, a.steer_controller = sc, st
    else:
        sc, st = SpeedController.from_vehicle_params(params), SteerController.from_vehicle_params(params)
    latched = False
    for i, t in enumerate((SimTime("0.1"), SimTime("0.2"), SimTime("0.3"), SimTime("0.0"))):
        if i == 3:
            # another episode, under another name
            me, pur.path = "Rival", Lane(along)
            a.on_episode_init(init(me))
            latched = False
            vc.prove("the given lane is pursued", pur.path is lane)
            vc.prove("speed behaviour knows its player", beh.my_name == me)
            if vc.symbolic:
                vc.prove("the controllers start afresh in every episode", getattr(sc, "fresh", None) == 3 and getattr(st, "fresh", None) == 3)
            else:
                sc.reset(), st.reset()
        x, other = C.mk(vc, VehicleState, f"x{i}"), C.mk(vc, VehicleState, f"o{i}")
        o = obs(t, **{me: x, "Other": other})
        u = a.get_commands(o)
        latched = latched or refs[i][1]
        want = 0 if latched else refs[i][0]
        vc.prove("the behaviour sees everybody", beh.seen is o.players or set(beh.seen) == {me, "Other"})
        vc.prove("pursuit from the own pose", vc.eq([[pur.pose[r, c] for c in range(3)] for r in (0, 1)],
                                                    [[vc.cos(x.psi), -vc.sin(x.psi), x.x], [vc.sin(x.psi), vc.cos(x.psi), x.y]]))
        vc.prove("and from the progress along the lane", vc.eq(pur.along, along))
        vc.prove("pursuit at the wanted speed, zero for good after an emergency", vc.eq(pur.speeds[-1], want))
        for c, r, y, v, label in ((sc, want, x.vx, u.acc, "acceleration from the speed controller"), (st, outs[i], x.delta, u.ddelta, "steering rate from the steering controller")):
            if vc.symbolic:
                vc.prove(label, len(c.told) == i + 1 and vc.And(vc.eq(v, c.out), vc.eq(c.told[i][0], y), vc.eq(c.told[i][1], r), abs(c.told[i][2] - float(t)) < 1e-12))
            else:
                c.update_measurement(y)
                c.update_reference(r)
                vc.prove(label, vc.eq(v, c.get_control(float(t))))
        vc.prove("within the limits of the vehicle", vc.And(vc.le(params.acc_limits[0], u.acc), vc.le(u.acc, params.acc_limits[1]),
                                                          vc.le(-params.ddelta_max, u.ddelta), vc.le(u.ddelta, params.ddelta_max)))


@target("P28", "an emergency lasts for the rest of the episode", [A + "lane_follower.LFAgent.get_commands"], samples=60)
def h(vc):
    """by induction over the steps: once an emergency has been seen, a step brings the agent's own memory back to what it was"""
    params = VehicleParameters.default_car()
    n = 2 if vc.symbolic else 12
    first = vc.real("ref0", 0, 20)
    refs = [(first, True)] + [(vc.real(f"ref{i}", 0, 20), vc.flag(f"emergency{i}")) for i in range(1, n + 1)]
    lane, beh, pur = Lane(vc.real("along", 0, 100)), Behavior(refs), Pursuit([vc.real(f"steer{i}", -1, 1) for i in range(n + 1)])
    a = LFAgent(lane, model_params=params, model_geo=VehicleGeometry.default_car(), speed_behavior=beh, pure_pursuit=pur)
    a.on_episode_init(init("Ego"))
    if vc.symbolic:
        if not (isinstance(getattr(a, "speed_controller", None), SpeedController) and isinstance(getattr(a, "steer_controller", None), SteerController)):
            raise Undecided("controllers are kept in another way")
        a.speed_controller = Controller(vc, "acc", *params.acc_limits)
        a.steer_controller = Controller(vc, "ddelta", -params.ddelta_max, params.ddelta_max)
    memory = None
    for i in range(n + 1):
        x = C.mk(vc, VehicleState, f"x{i}")
        a.get_commands(obs(SimTime(i) / 10, Ego=x))
        vc.prove("the wanted speed is zero", vc.eq(pur.speeds[-1], 0))
        # what was handed in at this step may be kept, anything else has to be what it was: then no step differs from these
        now = {k: "this step's" if v is x else v for k, v in vars(a).items()}
        if vc.symbolic:
            if memory is not None and (set(now) != set(memory) or any(now[k] is not v and not (type(v) in (bool, int, float, str, type(None)) and type(now[k]) is type(v) and now[k] == v) for k, v in memory.items())):
                raise Undecided("the agent remembers more")
            memory = now


def straight(vc, L=120):
    th, n = vc.angle("th"), 7
    u = np.array([math.cos(th), math.sin(th)])
    p = np.array([vc.real("lx"), vc.real("ly")])
    return DgLanelet([LaneCtrPoint(SE2Transform(p=p + u * (L * i / (n - 1)), theta=th), 2.0) for i in range(n)]), p, th, u


@target("P28", "every episode starts afresh", [A + "lane_follower.LFAgent.on_episode_init"], kind="runtime", samples=100, bound="seeded episodes of a few steps")
def h(vc):
    lane, p, th, u = straight(vc)
    params, g = VehicleParameters.default_car(), VehicleGeometry.default_car()
    used = PurePursuit.from_model_geometry(g)
    if vc.flag("used elsewhere"):  # an agent driving another lane had this controller before
        elsewhere = DgLanelet([LaneCtrPoint(SE2Transform(p=p + [0.0, 30.0 + 20 * i], theta=1.5), 2.0) for i in range(3)])
        LFAgent(elsewhere, model_params=params, model_geo=g, pure_pursuit=used).on_episode_init(init("Ego"))
    a, b = LFAgent(lane, model_params=params, model_geo=g, pure_pursuit=used), LFAgent(lane, model_params=params, model_geo=g)

    def step(ag, t, s, gap):
        st = [VehicleState(x=q[0], y=q[1], psi=th, vx=v, delta=0.0) for q, v in ((p + u * s, 8.0), (p + u * (s + gap), 0.0))]
        fp = [VehicleModel.default_car(x).get_footprint() for x in st]
        o = SimObservations(players={k: PlayerObservations(state=x, occupancy=f) for k, x, f in zip(("Ego", "Other"), st, fp)}, time=t)
        c = ag.get_commands(o)
        return c.acc, c.ddelta

    a.on_episode_init(init("Ego"))
    for i in range(vc.int("steps", 1, 4)):
        step(a, SimTime(i) / 10, 5 + i, vc.choice("gap", [6, 60]))
    for ag in (a, b):
        ag.on_episode_init(init("Ego"))
    for i in range(3):
        t, s, gap = SimTime(i) / 10, vc.real(f"s{i}", 2, 20), vc.real(f"gap{i}", 5, 60)
        ra, rb = step(a, t, s, gap), step(b, t, s, gap)
        vc.prove("commands do not depend on earlier episodes", max(abs(v - w) for v, w in zip(ra, rb)) < 1e-9)


@target("P28", "lane following in closed loop", [A + "lane_follower.LFAgent.get_commands"], kind="runtime", samples=10, bound="seeded straight lanes and starts, 12 s of driving")
def h(vc):
    lane, p, th, u = straight(vc, 300)
    q = p + u * vc.real("s", 5, 30) + np.array([-u[1], u[0]]) * vc.real("lat", -1.5, 1.5)
    m = VehicleModel.default_car(VehicleState(x=q[0], y=q[1], psi=th + vc.real("dpsi", -0.3, 0.3), vx=vc.real("v", 3, 8), delta=0.0))
    a = LFAgent(lane, model_params=m.model_params, model_geo=m.model_geometry)
    a.on_episode_init(init("Ego"))
    for i in range(120):
        x = m.get_state()
        o = SimObservations(players={"Ego": PlayerObservations(state=x, occupancy=m.get_footprint())}, time=SimTime(i) / 10)
        m.update(a.get_commands(o), SimTime("0.1"))
    d = np.array([m._state.x, m._state.y]) - p
    vc.prove("it ends up on the centre line", abs(d @ np.array([-u[1], u[0]])) < 0.3)
    vc.prove("driving along the lane", math.cos(m._state.psi - th) > 0.99 and m._state.vx > 1)
