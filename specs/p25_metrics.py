"""P25 comfort, efficiency and safety metrics"""
import math
import numpy as np
from shapely.geometry import Polygon, box
from shapely.affinity import translate
from pyvc.vc import target, Undecided, Discard
from dg_commons import DgSampledSequence
from dg_commons.eval import comfort, efficiency, safety
from dg_commons.eval.comfort import get_max_jerk, get_acc_rms, acc_freq_filter
from dg_commons.eval.efficiency import distance_traveled, time_goal_lane_reached, desired_lane_reached
from dg_commons.eval.safety import has_collision, get_min_dist, get_min_ttc_max_drac, get_min_dist_at_t, get_ttc_drac_at_t
from dg_commons.sim.models.vehicle import VehicleModel, VehicleState, VehicleCommands
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.simulator_structures import SimLog, PlayerLog
from . import common as C
from .seqs import increasing

E = "dg_commons.eval."
B = "up to 4 samples, all times and values"


def rng_of(vc, ts):
    """an optional time range"""
    lo = vc.real("lo", typ=(-6.0, 8.0)) if vc.flag("has_lo") else None
    hi = vc.real("hi", typ=(-2.0, 14.0)) if vc.flag("has_hi") else None
    if not vc.symbolic and ts:
        if lo is not None and vc.choice("lo.on", [0, 0, 1]):
            lo = vc.choice("lo.at", list(ts))
        if hi is not None and vc.choice("hi.on", [0, 0, 1]):
            hi = vc.choice("hi.at", list(ts))
    return lo, hi


def within(vc, t, r):
    return vc.And(True if r[0] is None else t >= r[0], True if r[1] is None else t <= r[1])


@target("P25", "jerk", [E + "comfort.get_max_jerk"], kind="bounded", bound=B, samples=300, budget=90)
def h(vc):
    n = vc.choice("n", range(1, 5))
    ts = increasing(vc, "t", n)
    acc = [vc.real(f"a{i}") for i in range(n)]
    r = rng_of(vc, ts)
    vc.margin(*[(t, b) for t in ts for b in r if b is not None])
    seq = DgSampledSequence[VehicleCommands](ts, [VehicleCommands(acc=a, ddelta=0) for a in acc])
    j = get_max_jerk(seq, r) if vc.flag("range") or r != (None, None) else get_max_jerk(seq)
    js = [vc.abs((acc[i + 1] - acc[i]) / (ts[i + 1] - ts[i])) for i in range(n - 1)]
    inn = [within(vc, ts[i + 1], r) for i in range(n - 1)]
    vc.prove("no jerk in range exceeds it", vc.And(*[vc.Implies(q, vc.le(x, j)) for x, q in zip(js, inn)], j >= 0))
    vc.prove("it is one of those in range, or zero", vc.Or(vc.eq(j, 0), *[vc.And(q, vc.eq(x, j)) for x, q in zip(js, inn)]))


@target("P25", "distance travelled", [E + "efficiency.distance_traveled"], kind="bounded", bound=B, samples=200)
def h(vc):
    n = vc.choice("n", range(1, 5) if vc.symbolic else range(1, 12))
    ts = increasing(vc, "t", n)
    xs = [C.mk(vc, VehicleState, f"x{i}") for i in range(n)]
    d = distance_traveled(DgSampledSequence[VehicleState](ts, xs))
    s = 0
    for a, b in zip(xs, xs[1:]):
        s = s + vc.sqrt((b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y))
    vc.prove("the sum of the steps", vc.eq(d, s))
    vc.prove("at least the straight distance" if not vc.symbolic else "never negative", d >= 0)


@target("P25", "frequency weights", [E + "comfort.acc_freq_filter"], samples=100)
def h(vc):
    f = vc.real("f", lo=0, hi=100)
    w = acc_freq_filter(f)
    den = f * f * f + 15.02 * f * f + 51.63 * f + 47.61
    vc.prove("ISO 2631-1 approximation", vc.eq(w * den, 14.55 * f * f + 6.026 * f + 7.725))
    vc.prove("positive and at most 1", vc.And(w > 0, w <= 1))


@target("P25", "weighted acceleration", [E + "comfort.get_acc_rms"], kind="runtime", samples=300, bound="seeded sequences of up to 24 commands")
def h(vc):
    n = vc.choice("n", range(1, 25))
    ts = [round(0.1 * i, 10) for i in range(n)]
    shape = vc.choice("shape", ["constant", "any"])
    a0 = vc.real("a0", -5, 5)
    acc = [a0] * n if shape == "constant" else [vc.real(f"a{i}", -5, 5) for i in range(n)]
    r = (None, None)
    if vc.flag("range"):
        r = (vc.choice("lo", [None] + ts), vc.choice("hi", [None] + ts))
    keep = [a for a, t in zip(acc, ts) if (r[0] is None or t >= r[0]) and (r[1] is None or t <= r[1])]
    if not keep:
        raise Discard("empty range")
    seq = DgSampledSequence[VehicleCommands](ts, [VehicleCommands(acc=a, ddelta=0) for a in acc])
    got = get_acc_rms(seq, r)
    N = len(keep)
    tot = 0.0
    for k in range(N):
        X = sum(a * complex(math.cos(2 * math.pi * k * i / N), -math.sin(2 * math.pi * k * i / N)) for i, a in enumerate(keep))
        f = min(k, N - k) / (N * 0.1)
        w = (14.55 * f**2 + 6.026 * f + 7.725) / (f**3 + 15.02 * f**2 + 51.63 * f + 47.61)
        tot += abs(X) ** 2 * w * w
    vc.prove("root mean square of the weighted accelerations in range", vc.close(got, math.sqrt(tot) / N, 1e-6 * (1 + math.sqrt(tot))))


# ------------------------------------------------------------------------------------------------ lanes
def road(vc):
    """three straight lanes one after the other"""
    from commonroad.scenario.lanelet import Lanelet, LaneletNetwork

    L, w, th = vc.real("L", 12, 40), vc.real("w", 2.5, 4.5), vc.real("th", -3, 3)
    c, s = math.cos(th), math.sin(th)
    R = np.array([[c, -s], [s, c]])
    ls = []
    for k in range(3):
        along = np.linspace(k * L, (k + 1) * L, 6)
        mk = lambda y: (R @ np.vstack([along, np.full(6, y)])).T
        ls.append(Lanelet(mk(w / 2), mk(0), mk(-w / 2), k + 1, predecessor=[k] if k else [], successor=[k + 2] if k < 2 else []))
    net = LaneletNetwork.create_from_lanelet_list(ls)
    return net, ls, L, w, th, R


@target("P25", "reaching the goal lane", [E + "efficiency.desired_lane_reached", E + "efficiency.time_goal_lane_reached",
                                          E + "efficiency.get_successor_dglane", E + "efficiency.get_predecessor_dglane"],
        kind="runtime", samples=150, bound="seeded poses on a road of three lanes, up to 5 states")
def h(vc):
    from dg_commons.maps.lanes import DgLanelet
    from dg_commons.sim.goals import RefLaneGoal

    net, ls, L, w, th, R = road(vc)
    k = vc.choice("goal lane", range(3))
    goal = RefLaneGoal(DgLanelet.from_commonroad_lanelet(ls[k]), goal_progress=L * vc.real("prog", 0.6, 0.9))
    pos_tol, h_tol = vc.real("pos_tol", 0.2, 1.5), vc.real("h_tol", 0.05, 0.5)
    ts = increasing(vc, "t", vc.choice("n", [1, 2, 5]))
    xs, want = [], []
    for i in range(len(ts)):
        d, lat, dh = vc.real(f"d{i}", 1.5, 3 * L - 1.5), vc.real(f"lat{i}", -1.5 * w, 1.5 * w), vc.real(f"h{i}", -1.0, 1.0)
        if vc.flag(f"near{i}"):
            lat, dh = lat / 6, dh / 10
        if min(abs(d - L), abs(d - 2 * L)) < 0.3:
            raise Discard("between two lanes")
        p = R @ np.array([d, lat])
        xs.append(VehicleState(x=p[0], y=p[1], psi=th + dh, vx=0, delta=0))
        vc.margin((abs(lat), pos_tol), (abs(dh), h_tol), (abs(lat), w / 2))
        gate = goal.is_fulfilled(xs[-1])
        want.append(gate or (abs(lat) < min(pos_tol, w / 2) and abs(dh) < h_tol))
        for a, b in ((pos_tol, abs(lat)), (h_tol, abs(dh)), (w / 2, abs(lat))):
            if abs(a - b) < 2e-2:
                raise Discard("borderline")
    for x, q in zip(xs, want):
        vc.prove("reached iff at the goal, or centred and aligned in the lane or one it continues",
                 bool(desired_lane_reached(net, goal, x, pos_tol, h_tol)) == bool(q))
    t = time_goal_lane_reached(net, goal, DgSampledSequence[VehicleState](ts, xs), pos_tol, h_tol)
    first = [u for u, q in zip(ts, want) if q]
    vc.prove("the earliest state that reached it", t is None if not first else (t is not None and vc.eq(t, first[0])))
    vc.prove("neighbours", efficiency.get_successor_dglane(net, ls[2]) is None and efficiency.get_predecessor_dglane(net, ls[0]) is None
             and vc.eq(list(efficiency.get_successor_dglane(net, ls[0]).control_points[0].q.p), list(R @ np.array([L, 0])))
             and vc.eq(list(efficiency.get_predecessor_dglane(net, ls[2]).control_points[0].q.p), list(R @ np.array([L, 0]))))


# ------------------------------------------------------------------------------------------------ safety
class Goal:
    """fulfilled right of a line"""

    def __init__(self, x):
        self.x = x

    def is_fulfilled(self, state, at=0):
        return bool(state.x > self.x)


def scene(vc, nmax=4):
    n = vc.choice("n", range(1, nmax + 1))
    names = ["Ego", "b", "c", "d"][:n]
    if vc.flag("ego last"):
        names = names[::-1]
    models, log, missions, states = {}, SimLog(), {}, {}
    T = vc.choice("samples", [1, 3, 6])
    t0 = vc.real("t0", 0, 1)
    for i, a in enumerate(names):
        st = VehicleState(x=vc.real(f"{a}.x", -20, 20), y=vc.real(f"{a}.y", -12, 12), psi=vc.angle(f"{a}.psi"), vx=vc.real(f"{a}.vx", 0, 12), delta=0)
        models[a] = VehicleModel.default_car(st) if vc.flag(f"{a}.car") else VehicleModel.default_bicycle(st)
        m = T if not vc.flag(f"{a}.short") else max(1, T - 1)
        ts = [t0 + 0.5 * k for k in range(m)]
        xs = [VehicleState(x=st.x + 0.5 * k * st.vx * math.cos(st.psi), y=st.y + 0.5 * k * st.vx * math.sin(st.psi), psi=st.psi, vx=st.vx, delta=0) for k in range(m)]
        states[a] = (ts, xs)
        log[a] = PlayerLog(states=DgSampledSequence[VehicleState](ts, xs),
                           commands=DgSampledSequence[VehicleCommands]([t0], [VehicleCommands(0, 0)]),
                           extra=DgSampledSequence([], []), info=DgSampledSequence[float]([t0], [0.0]))
        if vc.flag(f"{a}.mission"):
            missions[a] = Goal(vc.real(f"{a}.goal", -5, 40))
    r = (vc.choice("lo", [None, t0, t0 + 0.5, t0 + 0.7]), vc.choice("hi", [None, t0 + 0.5, t0 + 1.2, t0 + 9]))
    return names, models, log, missions, states, r


def at(states, a, t):
    ts, xs = states[a]
    if t >= ts[-1]:
        return xs[-1]
    for k in range(len(ts) - 1):
        if ts[k] <= t < ts[k + 1]:
            u = (t - ts[k]) / (ts[k + 1] - ts[k])
            return xs[k] * (1 - u) + xs[k + 1] * u
    return xs[0]


def body(m, x):
    c, s = math.cos(x.psi), math.sin(x.psi)
    return Polygon([(x.x + c * p - s * q, x.y + s * p + c * q) for p, q in m.vg.outline])


def active(names, missions, states, t):
    return {a: at(states, a, t) for a in names if a not in missions or not missions[a].is_fulfilled(at(states, a, t))}


@target("P25", "closest distance", [E + "safety.get_min_dist", E + "safety.get_min_dist_at_t"], kind="runtime", samples=300, bound="seeded logs of up to 4 players")
def h(vc):
    names, models, log, missions, states, r = scene(vc)
    best, who, when = math.inf, None, None
    ties = []
    for t in states["Ego"][0]:
        if (r[0] is not None and t < r[0]) or (r[1] is not None and t > r[1]):
            continue
        act = active(names, missions, states, t)
        ds = {a: body(models["Ego"], act["Ego"]).distance(body(models[a], act[a])) for a in act if a != "Ego"} if "Ego" in act else {}
        d, w = get_min_dist_at_t(log, models, missions, t, "Ego")
        if not ds:
            vc.prove("nobody else, or ego done: no distance", d == math.inf and w is None)
            continue
        m = min(ds.values())
        vc.prove("the smallest distance of the footprints", vc.eq(d, m) and w in ds and vc.eq(ds[w], m))
        ties += [(x, a, t) for a, x in ds.items()]
        if m < best:
            best = m
    d, w, t = get_min_dist(log, models, missions, "Ego", r)
    if not ties:
        vc.prove("nothing in range", d == math.inf and w is None and t is None)
    else:
        vc.prove("smallest over all times in range", vc.eq(d, best))
        vc.prove("with its agent and time", any(a == w and u == t and vc.eq(x, best) for x, a, u in ties))


@target("P25", "time to collision", [E + "safety.get_min_ttc_max_drac", E + "safety.get_ttc_drac_at_t"], kind="runtime", samples=400,
        bound="seeded logs of up to 4 players moving forward")
def h(vc):
    names, models, log, missions, states, r = scene(vc)
    for a in names:
        if vc.flag(f"{a}.towards"):
            ts, xs = states[a]
            dx, dy = -xs[0].x, -xs[0].y
            psi = math.atan2(dy, dx)
            for k, x in enumerate(xs):
                x.psi, x.x, x.y = psi, xs[0].x if not k else xs[0].x + 0.5 * k * x.vx * math.cos(psi), xs[0].y if not k else xs[0].y + 0.5 * k * x.vx * math.sin(psi)
    cand = []
    seen = False
    for t in states["Ego"][0]:
        if (r[0] is not None and t < r[0]) or (r[1] is not None and t > r[1]):
            continue
        act = active(names, missions, states, t)
        here = []
        if "Ego" in act:
            e = act["Ego"]
            ve = e.vx * np.array([math.cos(e.psi), math.sin(e.psi)])
            for a in act:
                if a == "Ego":
                    continue
                x = act[a]
                va = x.vx * np.array([math.cos(x.psi), math.sin(x.psi)])
                dp = np.array([x.x - e.x, x.y - e.y])
                D = math.hypot(*dp)
                if D < 1e-6:
                    raise Discard("same place")
                rate = float(np.dot(va - ve, dp) / D)
                if abs(rate) < 1e-9:
                    raise Discard("neither approaching nor leaving")
                if abs(D / abs(rate) - 5.0) < 1e-6:
                    raise Discard("borderline")
                if rate > 0 or D / abs(rate) > 5.0:
                    continue
                pe, pa = body(models["Ego"], e), body(models[a], x)
                ttc = math.inf
                for k in range(0, 32):
                    q = translate(pa, *(((va - ve) * 0.1 * k).tolist()))
                    gap = pe.distance(q)
                    if gap < 1e-7 and (not pe.intersects(q) or pe.intersection(q).area < 1e-7):
                        raise Discard("touching")
                    if pe.intersects(q):
                        ttc = 0.1 * k
                        break
                if ttc > 2.95 and ttc < math.inf:
                    raise Discard("at the horizon")
                drac = 0.0 if ttc == math.inf else (e.vx ** 2 / (2 * e.vx * ttc) if e.vx * ttc > 0 else math.inf)
                here.append((a, ttc, drac))
        d = get_ttc_drac_at_t(log, models, missions, t, "Ego")
        m = min([c[1] for c in here], default=math.inf)
        vc.prove("first contact at constant velocity, in tenths of a second", vc.eq(d[0], m) and (
            d[1] is None if m == math.inf else any(c[0] == d[1] and vc.eq(c[1], m) for c in here)))
        M = max([c[2] for c in here], default=-math.inf)
        vc.prove("deceleration to stop before the worst contact", vc.eq(d[2], M) and (
            d[3] is None if not here else any(c[0] == d[3] and vc.eq(c[2], M) for c in here)))
        cand += [(t,) + c for c in here]
    g = get_min_ttc_max_drac(log, models, missions, "Ego", r)
    m, M = min([c[2] for c in cand], default=math.inf), max([c[3] for c in cand], default=-math.inf)
    vc.prove("smallest time over all times in range", vc.eq(g[0], m) and (
        (g[1] is None and g[2] is None) if m == math.inf else any(c[0] == g[2] and c[1] == g[1] and vc.eq(c[2], m) for c in cand)))
    vc.prove("largest deceleration over all times in range", vc.eq(g[3], M) and (
        (g[4] is None and g[5] is None) if not cand else any(c[0] == g[5] and c[1] == g[4] and vc.eq(c[3], M) for c in cand)))


@target("P25", "collided ego", [E + "safety.has_collision"], samples=40)
def h(vc):
    class R:
        def __init__(self, ps):
            self.players = {p: None for p in ps}

    rs = []
    for i in range(vc.choice("n", [0, 1, 2])):
        rs.append(R([["Ego", "b"], ["b", "c"], ["ego", "c"], ["Ego"]][vc.choice(f"who{i}", range(4))]))
    vc.prove("iff the ego is in a report", bool(has_collision(rs)) == any("Ego" in r.players for r in rs))


# ------------------------------------------------------------------------------------------------ any length
import z3
from pyvc.core import Sym
from . import useqs as U


def _range(vc, q=None):
    lo = vc.real("lo", typ=(-6.0, 8.0)) if vc.flag("has_lo") else None
    hi = vc.real("hi", typ=(-2.0, 14.0)) if vc.flag("has_hi") else None
    return lo, hi


@target("P25", "jerk, any length", [E + "comfort.get_max_jerk"], kind="loop", samples=200)
def h(vc):
    U.constructor(vc)
    U.iterated(vc)
    q = U.state_seq(vc, "u", VehicleCommands, ["acc"], nmin=1, fixed={"ddelta": 0.0})
    r = _range(vc)
    vc.margin(*([] if vc.symbolic else [(t, b) for t in q.ts for b in r if b is not None]))
    jerk = lambda i: vc.abs(vc.ratio(q.f(i + 1, "acc") - q.f(i, "acc"), q.t(i + 1) - q.t(i)))
    inn = lambda i: within(vc, q.t(i + 1), r)
    best = U.Best(vc, "largest", q.n - 1, inn, jerk)
    if vc.symbolic:
        def top(k):
            w = best.at(k)
            return vc.If(w < 0, 0, jerk(w))

        def spec(l, env):
            return U.L.LoopSpec(vals={"max_jerk": top})

        vc.loops(E + "comfort.get_max_jerk", {0: spec})
    j = get_max_jerk(q.s, r)
    vc.prove("never negative", j >= 0)
    vc.forall("no jerk in range exceeds it", 0, q.n - 1, lambda i: vc.Implies(inn(i), vc.le(jerk(i), j)))
    vc.exists("it is one of those in range, or zero", 0, q.n - 1, lambda i: vc.And(inn(i), vc.eq(jerk(i), j)), alt=vc.eq(j, 0))
    U.left_alone(vc, q, VehicleCommands)


@target("P25", "distance travelled, any length", [E + "efficiency.distance_traveled"], kind="loop", samples=200)
def h(vc):
    U.constructor(vc)
    U.iterated(vc)
    q = U.state_seq(vc, "x", VehicleState, ["x", "y"], nmin=1, fixed={"psi": 0.0, "vx": 0.0, "delta": 0.0})
    d2 = lambda i: (q.f(i + 1, "x") - q.f(i, "x")) * (q.f(i + 1, "x") - q.f(i, "x")) + (q.f(i + 1, "y") - q.f(i, "y")) * (q.f(i + 1, "y") - q.f(i, "y"))
    tot = U.Running(vc, q.n - 1, lambda i: vc.sqrt(d2(i)))
    vc.loops(E + "efficiency.distance_traveled", {0: lambda l, env: U.L.LoopSpec(vals={"dist": lambda k: tot.upto(k)})})
    vc.prove("the sum of the steps", vc.eq(distance_traveled(q.s), tot.upto(q.n - 1)))
    U.left_alone(vc, q, VehicleState)


@target("P25", "first time in the goal lane, any length", [E + "efficiency.time_goal_lane_reached"], kind="loop", samples=100)
def h(vc):
    """the decision for one state is the contract of desired_lane_reached; here: the first state for which it holds"""
    U.constructor(vc)
    kind = vc.choice("kind", ["float", "Decimal"])
    q = U.state_seq(vc, "x", VehicleState, ["x"], kind, nmin=0, fixed={"y": 0.0, "psi": 0.0, "vx": 0.0, "delta": 0.0})
    net, goal = object(), object()
    tp, th = vc.real("pos_tol", 0.1, 2), vc.real("heading_tol", 0.01, 1)
    seen = []
    if vc.symbolic:
        hit_f = z3.Function("reached", z3.RealSort(), z3.BoolSort())
        hit = lambda i: U.L.SBool(hit_f(q.f(i, "x").t))

        def reached(lanelet_network, goal_lane, state, pos_tol, heading_tol):
            vc.prove("asked about the states, with these tolerances", vc.And(lanelet_network is net, goal_lane is goal, vc.eq(pos_tol, tp), vc.eq(heading_tol, th)))
            return U.L.SBool(hit_f(state.x.t))
    else:
        c = vc.real("c", typ=(-20.0, 20.0))
        hit = lambda i: q.f(i, "x") > c

        def reached(lanelet_network, goal_lane, state, pos_tol, heading_tol):
            return state.x > c

    if vc.patch(efficiency.desired_lane_reached, reached) == 0:
        raise Undecided("no desired_lane_reached to specify")

    def spec(l, env):
        return U.L.LoopSpec(vals={"reached_time": lambda k: None}, inv=lambda k, e: [U.L.All(0, k, lambda i: z3.Not(U.L.bterm(hit(Sym(i, "int")))))])

    vc.loops(E + "efficiency.time_goal_lane_reached", {0: spec})
    t = time_goal_lane_reached(net, goal, q.s, tp, th)
    if t is None:
        vc.forall("no time only if no state is there", 0, q.n, lambda i: vc.Not(hit(i)))
    else:
        F = lambda x: U.flt(vc, x)
        vc.exists("the time of a state that is there", 0, q.n, lambda i: vc.And(hit(i), vc.eq(t, F(q.t(i)))))
        vc.forall("no earlier state is there", 0, q.n, lambda i: vc.Implies(hit(i), F(q.t(i)) >= t))
    U.left_alone(vc, q, VehicleState)


class _Table:
    """an arbitrary function of time, possibly infinite (the contract of the metric at one time)"""

    def __init__(self, vc, name, q, sign=1):
        self.vc, self.sign = vc, sign
        if vc.symbolic:
            R = z3.RealSort()
            self.fn, self.ff, self.fa = z3.Function(name, R, R), z3.Function(name + ".finite", R, z3.BoolSort()), z3.Function(name + ".agent", R, z3.IntSort())
        else:
            self.d = {t: (vc.real(f"{name}@{i}", typ=(0.0, 9.0)) if vc.choice(f"{name}?{i}", [1, 1, 0]) else sign * math.inf, f"P{vc.choice(name + f'a{i}', range(3))}")
                      for i, t in enumerate(q.ts)}

    def finite(self, t):
        return U.L.SBool(self.ff(t.t)) if self.vc.symbolic else math.isfinite(self.d[t][0])

    def value(self, t):
        return Sym(self.fn(t.t)) if self.vc.symbolic else self.d[t][0]

    def agent(self, t):
        return Sym(self.fa(t.t), "int") if self.vc.symbolic else self.d[t][1]

    def at(self, t):
        """what the code gets"""
        if self.finite(t):
            return self.value(t), self.agent(t)
        return self.sign * np.inf, None


def _extreme_over_time(vc, q, r, tab, name):
    """(value, agent, time) of the first extreme among the first k samples in range"""
    inn = lambda i: vc.And(within(vc, q.t(i), r), tab.finite(q.t(i)))
    best = U.Best(vc, name, q.n, inn, lambda i: tab.value(q.t(i)) * -tab.sign)

    def at(k):
        w = best.at(k)
        if w < 0:
            return tab.sign * np.inf, None, None
        return tab.value(q.t(w)), tab.agent(q.t(w)), q.t(w)

    return at


def _judge(vc, what, q, r, tab, got):
    v, a, t = got
    s = tab.sign
    if a is None:
        vc.prove(what + ": nobody at no time", vc.And(t is None, not U.L.is_sym(v) if hasattr(U.L, "is_sym") else True, v == s * np.inf))
        vc.forall(what + ": nobody only if there is nobody in range", 0, q.n, lambda i: vc.Not(vc.And(within(vc, q.t(i), r), tab.finite(q.t(i)))))
        return
    vc.exists(what + ": the value at that time in range", 0, q.n, lambda i: vc.And(
        within(vc, q.t(i), r), tab.finite(q.t(i)), vc.eq(t, q.t(i)), vc.eq(v, tab.value(q.t(i))), a == tab.agent(q.t(i))))
    vc.forall(what + ": the extreme one", 0, q.n, lambda i: vc.Implies(
        vc.And(within(vc, q.t(i), r), tab.finite(q.t(i))), vc.le(v * s, tab.value(q.t(i)) * s)))


def _logs_over_time(vc, kinds=("float", "Decimal")):
    U.constructor(vc)
    q = U.seq(vc, "s", vc.choice("kind", kinds))
    r = _range(vc)
    vc.margin(*([] if vc.symbolic else [(float(t), b) for t in q.ts for b in r if b is not None]))
    if not vc.symbolic and q.n and type(q.ts[0]) is not float:
        r = tuple(None if b is None else type(q.ts[0])(repr(b)) for b in r)

    class Log:
        states = q.s

    return q, r, {"Ego": Log}, {"Ego": object()}, {}


@target("P25", "closest in time, any length", [E + "safety.get_min_dist"], kind="loop", samples=200)
def h(vc):
    q, r, logs, models, missions = _logs_over_time(vc)
    tab = _Table(vc, "dist", q)

    def at_t(lg, md, ms, t, ego):
        vc.prove("asked about the log of the ego", vc.And(lg is logs, md is models, ms is missions, ego == "Ego"))
        return tab.at(t)

    if vc.patch(safety.get_min_dist_at_t, at_t) == 0:
        raise Undecided("no get_min_dist_at_t to specify")
    best = _extreme_over_time(vc, q, r, tab, "closest") if vc.symbolic else None
    vc.loops(E + "safety.get_min_dist", {0: lambda l, env: U.L.LoopSpec(vals={
        "min_dist": lambda k: best(k)[0], "min_dist_agent": lambda k: best(k)[1], "min_dist_t": lambda k: best(k)[2]})})
    _judge(vc, "closest", q, r, tab, safety.get_min_dist(logs, models, missions, "Ego", r))
    U.unchanged(vc, q)


@target("P25", "most critical in time, any length", [E + "safety.get_min_ttc_max_drac"], kind="loop", samples=200)
def h(vc):
    q, r, logs, models, missions = _logs_over_time(vc, ("float",) if vc.symbolic else ("float", "Decimal"))
    ttc, drac = _Table(vc, "ttc", q), _Table(vc, "drac", q, -1)

    def at_t(lg, md, ms, t, ego):
        vc.prove("asked about the log of the ego", vc.And(lg is logs, md is models, ms is missions, ego == "Ego"))
        return ttc.at(t) + drac.at(t)

    if vc.patch(safety.get_ttc_drac_at_t, at_t) == 0:
        raise Undecided("no get_ttc_drac_at_t to specify")
    if vc.symbolic:
        b, c = _extreme_over_time(vc, q, r, ttc, "ttc"), _extreme_over_time(vc, q, r, drac, "drac")
        vc.loops(E + "safety.get_min_ttc_max_drac", {0: lambda l, env: U.L.LoopSpec(vals={
            "min_ttc": lambda k: b(k)[0], "min_ttc_agent": lambda k: b(k)[1], "min_ttc_t": lambda k: b(k)[2],
            "max_drac": lambda k: c(k)[0], "max_drac_agent": lambda k: c(k)[1], "max_drac_t": lambda k: c(k)[2]})})
    got = safety.get_min_ttc_max_drac(logs, models, missions, "Ego", r)
    _judge(vc, "time to collision", q, r, ttc, got[:3])
    _judge(vc, "deceleration", q, r, drac, got[3:])
    U.unchanged(vc, q)


# ------------------------------------------------------------------------------------------------ any number of players
from types import SimpleNamespace as NS
from . import many as MM

L = U.L


class Verdict:
    """a mission that is fulfilled or not"""

    def __init__(self, done, i):
        self.done, self.i = done, i

    def is_fulfilled(self, state, at=0):
        return bool(self.done(self.i)) if state.i is self.i else MM.eqv(None, state.i, self.i)


class Mobile:
    """the state of a player: where it is and how it moves"""

    def __init__(self, i, c):
        self.i = i
        for k, f in c.items():
            setattr(self, k, f(i))


class Chassis:
    def __init__(self, i):
        self.i = i


def _traffic(vc, comps):
    """logs of any number of players at a time; any of them may have a mission, fulfilled or not"""
    w = MM.Names(vc, "p", 1)
    if vc.symbolic:
        w.dom.ranked = True
    has, done = w.flags("mission"), w.flags("done")
    cs = {c: w.numbers(c) for c in comps}
    t = vc.real("t")
    entry = lambda i: NS(state=Mobile(i, cs), commands=None, extra=None, info=None)

    class Goal_:
        def __init__(self, i):
            self.i = i

        def is_fulfilled(self, state, at=0):
            vc.prove("a mission is judged on the state of its player", vc.eq(state.i, self.i))
            return done(self.i)

    class Logs:
        def at_interp(self, at):
            vc.prove("the logs at that time", vc.eq(at, t))
            return w.dict(entry)

    models, missions = w.dict(Chassis), w.dict(Goal_, has)
    left = lambda i: vc.Not(vc.And(has(i), done(i)))
    if vc.symbolic:

        def rest(l, e):
            return L.LoopSpec(vals={"log_new": lambda k: w.dict(entry, lambda i: z3.And(I(i) < k, L.bterm(left(i))))})

        I = L.I
        vc.loops(E + "safety._remove_finished_players", {0: rest})
    logs = Logs()
    logs.state = lambda i: entry(i).state
    return w, logs, models, missions, t, left


def _least(vc, l, w, name, cand, value, sign=1):
    """(value, name) of the first least candidate among the names visited so far"""
    S = lambda q: Sym(l.where(L.I(q)), "int")
    best = U.Best(vc, name, l.n, lambda q: cand(S(q)), lambda q: value(S(q)) * -sign, l.space)

    def at(k):
        b = best.at(k)
        if b < 0:
            return sign * np.inf, None
        i = S(b)
        return value(i), w.key(i)

    return at


def _judge_names(vc, what, w, cand, value, v, who, sign=1):
    """v is the least value of a candidate, who has it"""
    if vc.symbolic:
        if who is None:
            vc.prove(what + ": nobody", vc.And(not isinstance(v, Sym), v == sign * np.inf))
            i = L.any_index(0, w.n)
            src = cand.order(i) if hasattr(cand, "order") else None
            vc.prove(what + ": nobody only if there is nobody", vc.Not(cand(Sym(i, "int"))))
            return
        vc.prove(what + ": a name", type(who) is MM.D.Key)
        i = Sym(who.i, "int")
        vc.prove(what + ": the value of that player", vc.And(i >= 0, i < w.n, cand(i), vc.eq(v, value(i))))
        j = Sym(L.any_index(0, w.n), "int")
        vc.prove(what + ": the extreme one", vc.Implies(cand(j), vc.le(v * sign, value(j) * sign)))
        return
    c = [i for i in w.indices() if cand(i)]
    m = min((value(i) * sign for i in c), default=math.inf) * sign
    vc.prove(what + ": the extreme one", vc.eq(v, m))
    vc.prove(what + ": of that player", who is None if not c else any(w.key(i) == who and vc.eq(value(i), m) for i in c))


@target("P25", "players without a fulfilled mission, any number", [E + "safety._remove_finished_players"], kind="loop", samples=100)
def h(vc):
    w, logs, models, missions, t, left = _traffic(vc, ())
    f = getattr(safety, "_remove_finished_players", None)
    if f is None:
        raise Undecided("no _remove_finished_players")
    r = f(logs.at_interp(t), missions)
    MM.holds_dict(vc, "exactly the players still on their way", r, w, lambda i: i, left, eq=lambda a, b: vc.eq(a.state.i, b))


@target("P25", "closest player, any number", [E + "safety.get_min_dist_at_t", E + "safety._remove_finished_players"], kind="loop", samples=200, budget=90)
def h(vc):
    w, logs, models, missions, t, left = _traffic(vc, ())
    dist = w.numbers("dist", typ=(0.0, 9.0))
    e = w.any("ego")

    def get_dist(a, b, ma, mb):
        vc.prove("between the ego and somebody else, each with its model", vc.And(vc.eq(a.i, e), vc.Not(vc.eq(b.i, e)), vc.eq(ma.i, e), vc.eq(mb.i, b.i)))
        return dist(b.i), None

    if vc.patch(safety._get_dist, get_dist) == 0:
        raise Undecided("no _get_dist to specify")
    cand = lambda i: vc.And(left(i), left(e), vc.Not(vc.eq(i, e)))
    if vc.symbolic:
        last = []

        def spec(l, env):
            best = _least(vc, l, w, "closest", cand, dist)
            last.append(l)
            return L.LoopSpec(vals={"min_dist": lambda k: best(k)[0], "min_dist_agent": lambda k: best(k)[1]})

        vc.loops(E + "safety.get_min_dist_at_t", {0: spec})
    d, who = safety.get_min_dist_at_t(logs, models, missions, t, w.key(e))
    if vc.symbolic and last:
        cand = _ranked(cand, last[0])
    _judge_names(vc, "closest", w, cand, dist, d, who)


def _ranked(cand, l):
    """where a candidate is visited (its facts are used)"""

    def c(i):
        L.uni().touch(z3.simplify(l.order(L.I(i))[1]), l.space)
        return cand(i)

    return c


@target("P25", "most critical player, any number", [E + "safety.get_ttc_drac_at_t", E + "safety._remove_finished_players"], kind="loop", samples=300, budget=250, prove_ms=10000, feas_ms=60, norm=True, free_trig=True)
def h(vc):
    w, logs, models, missions, t, left = _traffic(vc, ("x", "y", "psi", "vx"))
    ttc, contact = w.numbers("ttc", typ=(0.0, 3.0)), w.flags("contact")
    e = w.any("ego")
    ego = logs.state(e)
    vc.assume(ego.vx >= 0)
    seen = {}

    def parts(i):
        """relative velocity along the line of centres, times the distance; the distance squared"""
        k = L.I(i).get_id() if vc.symbolic else int(i)
        if k not in seen:
            x = logs.state(i)
            dx, dy = x.x - ego.x, x.y - ego.y
            dv = [x.vx * f(x.psi) - ego.vx * f(ego.psi) for f in (vc.cos, vc.sin)]
            seen[k] = (dv[0] * dx + dv[1] * dy, dx * dx + dy * dy, i)
        return seen[k][:2]

    def apart(i):
        """nobody is at the same place, or neither approaching nor leaving"""
        r, d2 = parts(i)
        vc.assume(vc.And(d2 > 0, vc.Not(vc.eq(r, 0)), ttc(i) >= 0))
        vc.margin((d2, 5 * abs(r)), (ttc(i), 0), (ego.vx, 0))

    def get_ttc(a, b, ma, mb):
        vc.prove("of the ego and somebody else, each with its model", vc.And(vc.eq(a.i, e), vc.Not(vc.eq(b.i, e)), vc.eq(ma.i, e), vc.eq(mb.i, b.i)))
        if contact(b.i):
            return ttc(b.i), a.vx * ttc(b.i), b.vx * ttc(b.i)
        return np.inf, np.inf, np.inf

    if vc.patch(safety._get_ttc, get_ttc) == 0:
        raise Undecided("no _get_ttc to specify")
    if not vc.symbolic:
        for i in w.indices():
            if i != e:
                apart(i)

    def critical(i):
        r, d2 = parts(i)
        return vc.And(left(i), left(e), vc.Not(vc.eq(i, e)), r < 0, d2 <= -5 * r)

    def dtc(i):
        return ego.vx * ttc(i)

    soon = lambda i: vc.And(critical(i), contact(i))
    hard = lambda i: vc.And(critical(i), contact(i), dtc(i) <= 0)
    some = lambda i: vc.And(critical(i), vc.Or(vc.Not(contact(i)), dtc(i) > 0))
    dec = lambda i: vc.If(contact(i), vc.ratio(ego.vx * ego.vx, 2 * dtc(i)) if vc.symbolic or dtc(i) > 0 else math.inf, 0.0)
    if vc.symbolic:
        last = []

        def spec(l, env):
            if l.case is None and not last:
                last.append(l)
            a = _least(vc, l, w, "ttc", soon, ttc)
            b = _least(vc, l, w, "stop", some, dec, -1)
            c = _least(vc, l, w, "never", hard, lambda i: 0)

            def worst(k):
                v, who = c(k)
                return (np.inf, who) if who is not None else b(k)

            def assume(k, env):
                if l.case == "step":
                    i = Sym(l.where(l.k), "int")
                    if bool(vc.Not(vc.eq(i, e))):
                        apart(i)
                return []

            return L.LoopSpec(inv=assume, vals={"min_time": lambda k: a(k)[0], "min_ttc_agent": lambda k: a(k)[1],
                                                "max_drac": lambda k: worst(k)[0], "max_drac_agent": lambda k: worst(k)[1]})

        vc.loops(E + "safety.get_ttc_drac_at_t", {0: spec})
    r = safety.get_ttc_drac_at_t(logs, models, missions, t, w.key(e))
    rk = (lambda c: _ranked(c, last[0])) if vc.symbolic and last else (lambda c: c)
    _judge_names(vc, "time to collision", w, rk(soon), ttc, r[0], r[1])
    if r[2] == np.inf:
        if vc.symbolic:
            vc.prove("cannot stop: a name", type(r[3]) is MM.D.Key)
            i = Sym(r[3].i, "int")
            vc.prove("cannot stop before that contact", hard(i))
        else:
            vc.prove("cannot stop before that contact", any(w.key(i) == r[3] and hard(i) for i in w.indices()))
    else:
        vc.forall("there is always a way to stop", 0, w.n, lambda i: vc.Not(rk(hard)(i)))
        _judge_names(vc, "deceleration", w, rk(some), dec, r[2], r[3], -1)


# ------------------------------------------------------------------------------------------------ two bodies
class Outline:
    """a body somewhere: its shape and how far it was moved"""

    def __init__(self, shape, x=0.0, y=0.0):
        self.shape, self.x, self.y = shape, x, y


def _moved(vc, hit):
    import shapely.affinity

    class Body(Outline):
        def intersects(self, o):
            a, b = (self, o) if self.shape == "first" else (o, self)
            return hit(a, b)

    if vc.patch(shapely.affinity.translate, lambda p, xoff=0.0, yoff=0.0, zoff=0.0: Body(p.shape, p.x + xoff, p.y + yoff)) == 0:
        raise Undecided("moved in another way")
    return Body


@target("P25", "first contact at constant velocity", [E + "safety._get_ttc_of_poly_and_state"], samples=200, budget=90, norm=True, free_trig=True)
def h(vc):
    """contact is looked for after every step of 0.1 s up to 3 s: which steps have contact is arbitrary"""
    sa, sb = (NS(vx=vc.real(n + ".vx"), psi=vc.real(n + ".psi"), x=0.0, y=0.0) for n in "ab")
    V = [[s.vx * vc.cos(s.psi), s.vx * vc.sin(s.psi)] for s in (sa, sb)]
    step, hits = [0], []

    def hit(a, b):
        k = step[0]
        vc.prove("the bodies after k steps of 0.1 s", vc.And(a.shape == "first", b.shape == "second", vc.eq(b.x - a.x, (V[1][0] - V[0][0]) * 0.1 * k, 1e-6), vc.eq(b.y - a.y, (V[1][1] - V[0][1]) * 0.1 * k, 1e-6)))
        h = vc.flag(f"contact{k}")
        hits.append(h)
        step[0] += 1
        return h

    B = _moved(vc, hit)
    t, da, db = safety._get_ttc_of_poly_and_state(B("first"), B("second"), sa, sb)
    k = len(hits) - 1
    if hits[-1]:
        vc.prove("the time of the first contact", abs(t - 0.1 * k) <= 1e-6)
        vc.prove("the way to it", vc.eq([da, db], [sa.vx * t, sb.vx * t], 1e-6))
        vc.prove("within 3 s, give or take a step", k <= 31)
    else:
        vc.prove("no contact", t == np.inf and da == np.inf and db == np.inf)
        vc.prove("only if there is none for 3 s", k >= 30)


@target("P25", "bodies of two players", [E + "safety._get_ttc", E + "safety._get_dist"], samples=100, norm=True, free_trig=True)
def h(vc):
    import dg_commons.geo as G
    import shapely, shapely.ops

    states = [NS(x=vc.real(f"{n}.x"), y=vc.real(f"{n}.y"), psi=vc.real(f"{n}.psi"), vx=vc.real(f"{n}.vx")) for n in "ab"]
    models = [NS(vg=NS(outline_as_polygon=f"outline {n}")) for n in "ab"]

    def placed(geo, m):
        return NS(geo=geo, m=m)

    if vc.patch(G.apply_SE2_to_shapely_geo, placed) == 0:
        raise Undecided("placed in another way")

    def where(p, q):
        for g, s, n in ((p, states[0], "a"), (q, states[1], "b")):
            vc.prove("its own outline", g.geo == f"outline {n}")
            vc.prove("at its own pose", vc.eq([float(x) if not vc.symbolic else x for x in np.asarray(g.m)[:2, :].ravel().tolist()],
                                              [vc.cos(s.psi), -vc.sin(s.psi), s.x, vc.sin(s.psi), vc.cos(s.psi), s.y], 1e-6))

    if vc.choice("which", ["ttc", "dist"]) == "ttc":
        ttc = vc.real("ttc", lo=0)

        def contact(p, q, s, r):
            where(p, q)
            vc.prove("moving as they do", s is states[0] and r is states[1])
            return ttc, 1.0, 2.0

        if vc.patch(safety._get_ttc_of_poly_and_state, contact) == 0:
            raise Undecided("contact computed in another way")
        vc.prove("the first contact of the bodies", vc.eq(list(safety._get_ttc(*states, *models)), [ttc, 1.0, 2.0]))
    else:
        d = vc.real("d", lo=0)

        def nearest(p, q):
            where(p, q)
            return ("point", 1), ("point", 2)

        def dist(p, q):
            vc.prove("between the nearest points", {p, q} == {("point", 1), ("point", 2)})
            return d

        if vc.patch(shapely.ops.nearest_points, nearest) == 0 or vc.patch(shapely.distance, dist) == 0:
            raise Undecided("distance computed in another way")
        vc.prove("the distance of the bodies", vc.eq(safety._get_dist(*states, *models)[0], d))


# ------------------------------------------------------------------------------------------------ the lane it is in
@target("P25", "the lane it is in, any number of lanes", [E + "efficiency.desired_lane_reached"], kind="loop", samples=300, budget=90)
def h(vc):
    """lanes in a row, the goal lane is number 0; poses relative to lanes (P21) and neighbours of lanes behind contracts"""
    M = 9
    st = dict(x=vc.real("x"), y=vc.real("y"), psi=vc.real("psi", -3, 3))
    state = NS(**st, vx=0.0)
    tp, th = vc.real("pos_tol", 0.1, 2), vc.real("heading_tol", 0.01, 1)
    length = vc.real("length", 3, 50)
    done = vc.flag("fulfilled")
    if vc.symbolic:
        Z, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
        num = {k: z3.Function("lane." + k, Z, R) for k in ("along_lane", "distance_from_center", "relative_heading")}
        boo = {k: z3.Function("lane." + k, Z, B) for k in ("lateral_inside", "more+", "more-")}
        N = lambda k, m: Sym(num[k](L.I(m)), "float")
        F = lambda k, m: L.SBool(boo[k](L.I(m)))
    else:
        pos = [vc.real(f"along{m}", -4.5 * length, 5.5 * length) for m in range(1)][0]
        tab = {(k, m): vc.real(f"{k}{m}", -2, 2) for m in range(-M, M + 1) for k in ("distance_from_center", "relative_heading")}
        flags = {(k, m): vc.bool(f"{k}{m}") for m in range(-M, M + 1) for k in ("lateral_inside", "more+", "more-")}
        N = lambda k, m: pos - m * length if k == "along_lane" else abs(tab[k, m]) if k == "distance_from_center" else tab[k, m]
        F = lambda k, m: flags[k, m]
    along = lambda m: N("along_lane", m)
    inside, after, before = (lambda m: vc.And(0 <= along(m), along(m) < length)), (lambda m: along(m) > length), (lambda m: along(m) < 0)
    close = lambda m: vc.Or(abs(along(m)) < 1.0, abs(along(m) - length) < 1.0)
    judged = []

    class Pose:
        def __init__(self, m):
            self.m = m

        along_lane, distance_from_center, relative_heading = (property(lambda s, k=k: N(k, s.m)) for k in ("along_lane", "distance_from_center", "relative_heading"))
        along_inside, along_after, along_before = (property(lambda s, f=f: f(s.m)) for f in (inside, after, before))

        @property
        def lateral_inside(self):
            judged.append(self.m)
            return F("lateral_inside", self.m)

        def __vc_equal__(self, o):
            return [L.SBool(L.I(self.m) == L.I(o.m))] if type(o) is type(self) else [False]

    class Lane(Pose):
        def lane_pose_from_SE2Transform(self, q, *a, **k):
            vc.prove("of the state's own pose", vc.eq([*q.p, q.theta], [st["x"], st["y"], st["psi"]]))
            return Pose(self.m)

        def get_lane_length(self):
            return length

    net = object()

    def neighbour(sign):
        def g(network, lane):
            vc.prove("neighbours in that network", network is net)
            return Lane(lane.m + sign) if F("more+" if sign > 0 else "more-", lane.m) else None

        return g

    for nm, sign in (("get_successor_dglane", 1), ("get_predecessor_dglane", -1)):
        if not hasattr(efficiency, nm) or vc.patch(getattr(efficiency, nm), neighbour(sign)) == 0:
            raise Undecided(nm)
    if not vc.symbolic:
        vc.margin(*[(abs(along(m)), 1.0) for m in range(-M, M + 1)], *[(abs(along(m) - length), 1.0) for m in range(-M, M + 1)], *[(along(m), 0) for m in range(-M, M + 1)])
        if any(abs(a) < 1e-6 for m in range(-M, M + 1) for a in (along(m), along(m) - length, N("distance_from_center", m) - tp, abs(N("relative_heading", m)) - th)):
            raise Discard()
    first = 1 if after(0) else -1
    sign = lambda m: m * first
    passed = lambda m: vc.And(vc.Not(inside(m)), vc.Not(close(m)), vc.And(after(m), F("more+", m)) if first > 0 else vc.And(before(m), F("more-", m)))

    def spec(l, e):
        def inv(k, env):
            # lanes follow one another: whoever is past the end of one is not before the start of the next
            for j in (L.I(k), z3.simplify(L.I(k) + 1)):
                j = Sym(j, "int")
                vc.assume(vc.Implies(vc.And(j > 0), vc.Not((before if first > 0 else after)(sign(j)))))
            return [L.All(0, k, lambda j: L.bterm(passed(sign(Sym(j, "int")))))]

        return L.LoopSpec(vals={"ref_lane": lambda k: Lane(sign(Sym(L.I(k), "int"))), "lane_pose": lambda k: Pose(sign(Sym(L.I(k), "int")))}, inv=inv)

    vc.loops(E + "efficiency.desired_lane_reached", {("while", 0): spec})
    goal = NS(ref_lane=Lane(0), is_fulfilled=lambda s, *a: (vc.prove("the goal is judged on that state", s is state), done)[1])
    r = efficiency.desired_lane_reached(net, goal, state, tp, th)
    if done:
        vc.prove("there when the goal is fulfilled", vc.Iff(r, True))
        return
    if not judged:
        raise Undecided("decided in another way")
    m = judged[-1]
    k = sign(m)
    vc.prove("a lane in the direction in which it left the goal lane", k >= 0)
    vc.forall("past all lanes in between", 0, k, lambda j: passed(sign(j)))
    vc.prove("as far as there are lanes", vc.Not(passed(m)))
    vc.prove("reached iff centred and aligned in that lane", vc.Iff(r, vc.And(F("lateral_inside", m), N("distance_from_center", m) < tp, abs(N("relative_heading", m)) < th)))


@target("P25", "weighted acceleration, any length", [E + "comfort.get_acc_rms"], kind="loop", samples=100, budget=60)
def h(vc):
    """the transform, its inverse and its frequencies (numpy) behind contracts"""
    q = U.state_seq(vc, "u", VehicleCommands, ["acc"], "float", 1, fixed={"ddelta": 0.0})
    r = rng_of(vc, [] if vc.symbolic else list(q.ts))
    keep = lambda i: within(vc, q.t(i), r)
    acc = lambda i: q.f(i, "acc")
    if not vc.symbolic:
        got = [acc(i) for i in range(int(q.n)) if keep(i)]
        if not got:
            raise Discard("empty range")
        # by Parseval's theorem, with the frequencies of 0.1 s sampling
        N, X = len(got), np.fft.fft(got)
        w = [acc_freq_filter(min(k, N - k) / (N * 0.1)) for k in range(N)]
        want = math.sqrt(sum(abs(x) ** 2 * v * v for x, v in zip(X, w))) / N
        vc.prove("root mean square of the weighted accelerations in range", vc.close(get_acc_rms(q.s, r), want, 1e-6 * (1 + want)))
        return
    R, Z = z3.RealSort(), z3.IntSort()
    X, Y, FR, W = z3.Function("transformed", Z, R), z3.Function("weighted", Z, R), z3.Function("frequency", Z, R), z3.Function("weight", R, R)
    fl = L.Filtered(L.I(q.n), lambda i: L.bterm(keep(Sym(i, "int"))), "in range")
    count = n = fl.count(fl.n)
    m = z3.If(n > 0, n / 2 + 1, 0)
    calls = []

    def vec(x):
        return L.SVec(x.n, x.get)

    def rfft(x, *a, **k):
        if a or k or not L.symbolic(x):
            raise L.Unsupported("another transform")
        calls.append("rfft")
        L.prove("the accelerations in range are transformed", L.equal(x, fl.seq(lambda i: acc(Sym(i, "int")))))
        return L.SVec(m, lambda k: Sym(X(k), "float"))

    def rfftfreq(n, d=1.0):
        calls.append("rfftfreq")
        vc.prove("frequencies of so many samples of 0.1 s", vc.And(vc.eq(n, Sym(count, "int")), vc.eq(d, 0.1)))
        return L.SVec(m, lambda k: Sym(FR(k), "float"))

    def irfft(x, n=None):
        if not L.symbolic(x) or n is None:
            raise L.Unsupported("another transform back")
        calls.append("irfft")
        vc.prove("transformed back to so many samples", vc.eq(n, Sym(fl.count(fl.n), "int")))
        L.prove("weighted by frequency", L.equal(x, L.SSeq(m, lambda k: Sym(X(k) * W(FR(k)), "float"), list)))
        return L.SVec(fl.count(fl.n), lambda k: Sym(Y(k), "float"))

    for nm, f in (("rfft", rfft), ("rfftfreq", rfftfreq), ("irfft", irfft)):
        vc.patch_attr(np.fft, nm, f)
    vc.use(E + "comfort.acc_freq_filter", lambda f: Sym(W(L.as_real(L.num(f))), "float"))
    vc.assume(Sym(n, "int") > 0)
    total = U.Running(vc, Sym(n, "int"), lambda k: Sym(Y(L.I(k)) * Y(L.I(k)), "float"))
    vc.loops(E + "comfort.get_acc_rms", {0: lambda l, e: L.LoopSpec(vals={"acc_rms": lambda k: total.upto(k)}, inv=lambda k, e: [total.upto(k) >= 0])})
    x = get_acc_rms(q.s, r)
    vc.prove("transformed, weighted and transformed back once", calls and sorted(calls) == ["irfft", "rfft", "rfftfreq"])
    s = total.upto(Sym(n, "int"))
    vc.prove("root mean square", vc.And(x >= 0, vc.eq(x * x * Sym(n, "int"), s)))


@target("P25", "neighbouring lanes", [E + "efficiency." + n for n in ("get_lanelet_from_dglanelet", "get_successor_lane", "get_successor_dglane", "get_predecessor_lane", "get_predecessor_dglane")], samples=60)
def h(vc):
    """in any network, known by the queries by position and id"""
    from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
    from dg_commons import SE2Transform

    n = vc.choice("points", [2, 3, 5])
    typ = object if vc.symbolic else float
    pts = [np.array([vc.real(f"x{i}"), vc.real(f"y{i}")], dtype=typ) for i in range(n)]
    lane = DgLanelet([LaneCtrPoint(SE2Transform(p, vc.angle(f"th{i}")), 1.5) for i, p in enumerate(pts)])
    ahead, back = vc.choice("ahead", [0, 1, 2]), vc.choice("back", [0, 1, 2])

    class Let:
        def __init__(self, i):
            self.lanelet_id = i

        successor = property(lambda s: [("+", s.lanelet_id, k) for k in range(ahead)])
        predecessor = property(lambda s: [("-", s.lanelet_id, k) for k in range(back)])

        def __getattr__(self, n):
            raise Undecided(f"lanelets are read by {n}")

    asked, built = [], []

    class Net:
        def find_lanelet_by_position(self, ps):
            asked.extend(ps)
            return [[("at", i)] for i in range(len(ps))]

        def find_lanelet_by_id(self, i):
            return Let(i)

        def __getattr__(self, n):
            raise Undecided(f"networks are read by {n}")

    vc.patch_attr(DgLanelet, "from_commonroad_lanelet", staticmethod(lambda l: (built.append(l), ("lane of", l))[1]))
    given = vc.flag("given as a lanelet")
    cur = Let("own") if given else lane
    own = "own" if given else ("at", 0)
    for f, fl, sign, k in ((efficiency.get_successor_dglane, efficiency.get_successor_lane, "+", ahead), (efficiency.get_predecessor_dglane, efficiency.get_predecessor_lane, "-", back)):
        asked.clear()
        r, rl = f(Net(), cur), fl(Net(), cur)
        vc.prove("none at the end of the road", (r is None) == (rl is None) == (k == 0))
        if k:
            if not (isinstance(r, tuple) and r[0] == "lane of"):
                raise Undecided("lanes are built in another way")
            vc.prove("the lanelet next to the one it lies in", r[1].lanelet_id in [(sign, own, j) for j in range(k)] and rl.lanelet_id == r[1].lanelet_id)
        for p in asked:
            vc.prove("found by a point of its own", not given and vc.Or(*[vc.eq(list(p), list(q)) for q in pts]))
