"""P23 trajectories and trajectory graphs"""
import numpy as np
from types import SimpleNamespace as NS
from pyvc.vc import target, Undecided, Discard
from dg_commons import SE2Transform
from dg_commons.planning.trajectory import Trajectory, TrajectoryGraph, commands_plan_from_trajectory
from dg_commons.sim.models.vehicle import VehicleState, VehicleCommands
from . import common as C
from . import seqs as Q
from .seqs import increasing, REJECT

T = "dg_commons.planning.trajectory."
B = "trajectories of up to 4 states, all times and states"
NAMES = ["x", "y", "psi", "vx", "delta"]


def traj(vc, name, n, kind="float", lo=None):
    ts = increasing(vc, name + ".t", n, kind, lo)
    vs = [C.mk(vc, VehicleState, f"{name}{i}") for i in range(n)]
    return Trajectory(timestamps=ts, values=vs), ts, vs


def state_eq(vc, a, b, names=NAMES):
    return vc.And(type(a) is type(b), vc.eq(C.get(a, names), C.get(b, names)))


def holds(vc, r, ts, vs):
    return vc.And(len(r.timestamps) == len(ts) and len(r.values) == len(vs), vc.eq(list(r.timestamps), list(ts)),
                  *[state_eq(vc, a, b) for a, b in zip(r.values, vs)])


@target("P23", "path and emptiness", [T + "Trajectory.as_path", T + "Trajectory.is_empty"], kind="bounded", bound=B, samples=100)
def h(vc):
    r, ts, vs = traj(vc, "s", vc.choice("n", range(5)))
    vc.prove("empty iff without samples", r.is_empty() == (not ts))
    path = r.as_path()
    vc.prove("one pose per state, in order", vc.And(len(path) == len(vs), *[
        vc.And(isinstance(p, SE2Transform), vc.eq(list(p.p), [x.x, x.y]), vc.eq(p.theta, x.psi)) for p, x in zip(path, vs)]))
    vc.prove("trajectories of vehicle states", r.XT is VehicleState)


@target("P23", "rigid motion", [T + "Trajectory.apply_SE2transform"], kind="bounded", bound="trajectories of up to 2 states", samples=200)
def h(vc):
    r, ts, vs = traj(vc, "s", vc.choice("n", range(3)))
    q, th = [vc.real("q0"), vc.real("q1")], vc.angle("th")
    old = [C.get(x, NAMES) for x in vs]
    m = r.apply_SE2transform(SE2Transform(p=np.array(q), theta=th))
    vc.prove("times kept", vc.And(len(m.timestamps) == len(ts), vc.eq(list(m.timestamps), ts)))
    for x, y in zip(vs, m.values):
        vc.prove("positions moved rigidly", vc.eq([y.x, y.y], vc.rot(th, (x.x, x.y)) + np.array(q)))
        vc.prove("headings turned", vc.same_angle(y.psi, x.psi + th))
        vc.prove("speed and steering kept", vc.eq([y.vx, y.delta], [x.vx, x.delta]))
    vc.prove("the original is left alone", vc.And(*[vc.eq(C.get(x, NAMES), o) for x, o in zip(vs, old)]))


@target("P23", "connectable", [T + "Trajectory.is_connectable"], kind="bounded", bound=B, samples=300)
def h(vc):
    a, ta, va = traj(vc, "a", vc.choice("na", range(3)))
    b, tb, vb = traj(vc, "b", vc.choice("nb", range(3)))
    tol = None if vc.flag("default") else vc.pos("tol", typ=(0.001, 30.0))
    r = a.is_connectable(b) if tol is None else a.is_connectable(b, tol)
    if not ta or not tb:
        vc.prove("an empty trajectory connects to any", r)
        return
    tol = 0.001 if tol is None else tol
    dv, dd = vc.abs(va[-1].vx - vb[0].vx), vc.abs(va[-1].delta - vb[0].delta)
    vc.margin((dv, tol), (dd, tol))
    vc.prove("iff speed and steering agree within the tolerance", vc.Iff(r, vc.And(dv < tol, dd < tol)))


def seam(vc, na, nb):
    """two trajectories, often agreeing at the seam"""
    a, ta, va = traj(vc, "a", na)
    if vc.flag("joined") and ta:
        tb = [ta[-1]] + (increasing(vc, "b.t", nb - 1, lo=ta[-1]) if nb > 1 else [])
        first = C.mk(vc, VehicleState, "b0", vx=va[-1].vx, delta=va[-1].delta)
        vb = [first] + [C.mk(vc, VehicleState, f"b{i}") for i in range(1, nb)]
        tb, vb = tb[:nb], vb[:nb]
        b = Trajectory(timestamps=tb, values=vb)
    else:
        b, tb, vb = traj(vc, "b", nb)
    return a, ta, va, b, tb, vb


@target("P23", "merge", [T + "Trajectory.merge"], kind="bounded", bound="trajectories of up to 3 states", samples=400, budget=90)
def h(vc):
    na, nb = vc.choice("na", range(3)), vc.choice("nb", range(4))
    a, ta, va, b, tb, vb = seam(vc, na, nb)
    if ta and tb:
        dv, dd = vc.abs(va[-1].vx - vb[0].vx), vc.abs(va[-1].delta - vb[0].delta)
        vc.margin((dv, 0.001), (dd, 0.001))
        fits = vc.And(dv < 0.001, dd < 0.001)
    else:
        fits = True
    late = vc.And(*([tb[1] > ta[-1]] if ta and len(tb) > 1 else []))
    try:
        r = a.merge(b)
    except REJECT:
        vc.prove("refused only at a discontinuous seam or in disorder", vc.Not(vc.And(fits, late)))
        return
    vc.prove("discontinuous seams are refused", fits)
    vc.prove("disorder is refused", late)
    vc.prove("a trajectory", isinstance(r, Trajectory))
    vc.prove("first trajectory, then the second without the shared state",
             holds(vc, r, ta + tb[1:], va + vb[1:]) if ta else holds(vc, r, tb, vb))
    vc.prove("operands left alone", vc.And(holds(vc, a, ta, va), holds(vc, b, tb, vb)))


@target("P23", "merge_unsafe", [T + "Trajectory.merge_unsafe"], kind="bounded", bound="trajectories of up to 3 states", samples=400)
def h(vc):
    na, nb = vc.choice("na", range(3)), vc.choice("nb", range(1, 4))
    a, ta, va, b, tb, vb = seam(vc, na, nb)
    tol = None if vc.flag("default") else vc.pos("tol", typ=(0.001, 3.0))
    gap = vc.abs(ta[-1] - tb[0]) if ta else 0
    lim = 0.001 if tol is None else tol
    vc.margin((gap, lim))
    late = vc.And(*([tb[1] > ta[-1]] if ta and len(tb) > 1 else []))
    try:
        r = a.merge_unsafe(b) if tol is None else a.merge_unsafe(b, tol)
    except REJECT:
        vc.prove("refused only for a gap in time or disorder", vc.Not(vc.And(gap <= lim, late)))
        return
    vc.prove("gaps in time are refused", gap <= lim)
    vc.prove("disorder is refused", late)
    vc.prove("first trajectory, then the second without its first state",
             holds(vc, r, ta + tb[1:], va + vb[1:]) if ta else holds(vc, r, tb, vb))
    vc.prove("operands left alone", vc.And(holds(vc, a, ta, va), holds(vc, b, tb, vb)))


@target("P23", "upsample", [T + "Trajectory.upsample"], kind="bounded", bound="up to 3 states, up to 3 inserted", samples=200, budget=90)
def h(vc):
    n, k = vc.choice("n", [1, 2, 3]), vc.choice("k", [0, 1, 2, 3])
    kind = "Decimal" if vc.symbolic and vc.flag("dec") else "float"
    a, ta, va = traj(vc, "a", n, kind)
    r = a.upsample(k)
    vc.prove("so many samples", len(r.timestamps) == n + (n - 1) * k)
    for i in range(n):
        j = i * (k + 1)
        vc.prove("original samples kept", vc.And(vc.eq(r.timestamps[j], ta[i]), state_eq(vc, r.values[j], va[i])))
        if i + 1 < n:
            for q in range(1, k + 1):
                t = ta[i] + (ta[i + 1] - ta[i]) * q / (k + 1)
                vc.prove("evenly spaced in between", vc.eq(r.timestamps[j + q], t))
                w = [u + (v - u) * q / (k + 1) for u, v in zip(C.get(va[i], NAMES), C.get(va[i + 1], NAMES))]
                vc.prove("interpolated in between", vc.eq(C.get(r.values[j + q], NAMES), w))
    vc.prove("original left alone", holds(vc, a, ta, va))


@target("P23", "command plan", [T + "commands_plan_from_trajectory"], kind="bounded", bound=B, samples=200)
def h(vc):
    n = vc.choice("n", range(5))
    a, ta, va = traj(vc, "a", n, "Decimal" if vc.flag("dec") else "float")
    plan = commands_plan_from_trajectory(a)
    vc.prove("a command per interval, at its start", vc.And(len(plan.timestamps) == max(0, n - 1), vc.all_eq(list(zip(plan.timestamps, ta)))))
    for i, u in enumerate(plan.values):
        f = vc.raises  # noqa
        dt = ta[i + 1] - ta[i]
        dt = float(dt) if not vc.symbolic else __import__("pyvc.shims").shims.s_float_cls(dt)
        vc.prove("executing it reaches the next speed and steering", vc.And(
            isinstance(u, VehicleCommands), vc.eq(va[i].vx + u.acc * dt, va[i + 1].vx), vc.eq(va[i].delta + u.ddelta * dt, va[i + 1].delta)))


# ------------------------------------------------------------------------------------------------ graphs
def asked(vc, name, g, nodes, a, b):
    """questions asked before the graph grows on must not stick"""
    if vc.symbolic or not vc.flag(name):
        return
    for f in (lambda: g.commands_on_trajectory(g.get_trajectory(a, b)), lambda: g.get_transition(a, b), g.get_all_trajectories, g.get_all_transitions):
        try:
            f()
        except ValueError:
            pass


def grow(vc, n):
    """a tree of n nodes; nodes[i] = (time, state, parent, transition, commands)"""
    g = TrajectoryGraph()
    nodes = []
    for i in range(n):
        par = None if i == 0 else vc.choice(f"parent{i}", range(i))
        if i == 0:
            t, x = vc.real("t0", 0, 5), C.mk(vc, VehicleState, "x0")
            g.add_node(timed_state=(t, x), gen=0)
            nodes.append((t, x, None, None, None, 0))
            continue
        pt, px = nodes[par][0], nodes[par][1]
        if vc.symbolic:
            t = pt + i
        else:
            t = pt + vc.real(f"dt{i}", lo=0.05, hi=3.0)
            if any(t == m[0] for m in nodes):
                raise Discard("same time")
        x = C.mk(vc, VehicleState, f"x{i}")
        mid = C.mk(vc, VehicleState, f"m{i}")
        tr = Trajectory(timestamps=[pt, (pt + t) / 2, t], values=[C.mk(vc, VehicleState, f"s{i}"), mid, x])
        u = VehicleCommands(acc=vc.real(f"acc{i}"), ddelta=vc.real(f"dd{i}"))
        g.add_edge(states=Trajectory(timestamps=[pt, t], values=[px, x]), transition=tr, commands=u)
        nodes.append((t, x, par, tr, u, nodes[par][5] + 1))
        asked(vc, f"asked{i}", g, nodes, nodes[vc.choice(f"from{i}", range(i + 1))][:2], nodes[vc.choice(f"to{i}", range(i + 1))][:2])
    return g, nodes


def route(nodes, a, b):
    """from a down to b, or None"""
    p = [b]
    while p[0] != a:
        par = nodes[p[0]][2]
        if par is None:
            return None
        p.insert(0, par)
    return p


FS = [T + "TrajectoryGraph." + m for m in ("add_node", "add_edge", "check_node", "get_transition", "get_trajectory", "commands_on_trajectory",
                                           "get_all_transitions", "get_all_trajectories")]


@target("P23", "graph of trajectories", FS, kind="runtime", samples=300, bound="seeded trees of up to 7 nodes")
def h(vc):
    n = vc.choice("n", range(1, 8))
    g, nodes = grow(vc, n)
    key = lambda i: (nodes[i][0], nodes[i][1])
    vc.prove("all nodes are there", vc.And(len(g.nodes) == n, *[key(i) in g.nodes for i in range(n)]))
    vc.prove("generations count from the root", vc.And(*[g.nodes[key(i)]["gen"] == nodes[i][5] for i in range(n)]))
    a, b = vc.choice("a", range(n)), vc.choice("b", range(n))
    p = route(nodes, a, b)
    if p is None:
        for f in (g.get_trajectory, g.get_transition):
            vc.prove("no path is an error", vc.raises(ValueError, lambda: f(key(a), key(b))))
        return
    tr = g.get_trajectory(key(a), key(b))
    vc.prove("the states of the nodes on the path", holds(vc, tr, [nodes[i][0] for i in p], [nodes[i][1] for i in p]))
    tt, tv = [], []
    for i in p[1:]:
        k = 1 if tt else 0
        tt += list(nodes[i][3].timestamps)[k:]
        tv += list(nodes[i][3].values)[k:]
    vc.prove("the stored transitions joined along the path", holds(vc, g.get_transition(key(a), key(b)), tt, tv))
    cs = g.commands_on_trajectory(tr)
    vc.prove("the stored commands at the departure times", vc.And(
        len(cs.timestamps) == len(p) - 1, *[vc.And(vc.eq(t, nodes[i][0]), u is nodes[j][4]) for t, u, i, j in zip(cs.timestamps, cs.values, p, p[1:])]))
    leaves = [i for i in range(n) if all(m[2] != i for m in nodes)]
    allt = g.get_all_trajectories()
    vc.prove("one trajectory from the root to every leaf", vc.And(len(allt) == len(leaves), *[
        any(holds(vc, r, [nodes[i][0] for i in route(nodes, 0, l)], [nodes[i][1] for i in route(nodes, 0, l)]) for r in allt) for l in leaves]))
    if n > 1:
        want = [(g.get_transition(key(0), key(l))) for l in leaves]
        got = g.get_all_transitions()
        vc.prove("one transition from the root to every leaf", vc.And(len(got) == len(want), *[
            any(holds(vc, r, list(w.timestamps), list(w.values)) for r in got) for w in want]))
    other = (nodes[0][0] - 1, nodes[0][1])
    for f in (g.get_trajectory, g.get_transition):
        vc.prove("unknown nodes are an error", vc.raises(ValueError, lambda: f(other, key(0))) and vc.raises(ValueError, lambda: f(key(0), other)))
    vc.prove("edges start at known nodes", vc.raises(ValueError, lambda: g.add_edge(
        states=Trajectory(timestamps=[other[0], other[0] + 9], values=[other[1], other[1]]), transition=None)))


@target("P23", "reaching a node again", [T + "TrajectoryGraph.add_edge"], kind="runtime", samples=100, bound="seeded diamonds")
def h(vc):
    xs = [C.mk(vc, VehicleState, f"x{i}") for i in range(3)]
    t1, t2 = vc.real("t1", 0.1, 2), vc.real("t2", 2.5, 4)
    g = TrajectoryGraph()
    g.add_node(timed_state=(0.0, xs[0]), gen=0)
    mk = lambda i, j: Trajectory(timestamps=[(0.0, t1, t2)[i], (0.0, t1, t2)[j]], values=[xs[i], xs[j]])
    late = vc.flag("shortcut last")
    for i, j in (((0, 1), (1, 2), (0, 2)) if late else ((0, 1), (0, 2), (1, 2))):
        g.add_edge(states=mk(i, j), transition=mk(i, j), commands=VehicleCommands(0, 0))
        asked(vc, f"asked{i}{j}", g, None, (0.0, xs[0]), ((t1, t2)[j - 1], xs[j]))
    vc.prove("a node keeps its generation", g.nodes[(t2, xs[2])]["gen"] == (2 if late else 1) and g.nodes[(t1, xs[1])]["gen"] == 1)
    r = g.get_trajectory((0.0, xs[0]), (t2, xs[2]))
    vc.prove("the fewest transitions are taken", holds(vc, r, [0.0, t2], [xs[0], xs[2]]))


# ------------------------------------------------------------------------------------------------ any length
import z3
from pyvc.core import Sym, ctx
from . import useqs as U


def utraj(vc, name, kind="float", nmin=0):
    return U.state_seq(vc, name, VehicleState, NAMES, kind, nmin, Trajectory)


def same(vc, r, label, n, t, f):
    """r is a trajectory of n states with times t(j) and components f(j, name)"""
    U.holds(vc, label, r, n, t, lambda j: j, lambda x, j: U.same_state(vc, x, VehicleState, NAMES, lambda k: f(j, k)))


@target("P23", "path, any length", [T + "Trajectory.as_path", T + "Trajectory.is_empty"], kind="loop", samples=100)
def h(vc):
    q = utraj(vc, "s")
    vc.loops(T + "Trajectory.as_path")
    vc.prove("empty iff without samples", vc.Iff(q.s.is_empty(), q.n == 0))
    path = q.s.as_path()
    get = (lambda j: path.get(U.L.I(j))) if vc.symbolic else (lambda j: path[int(j)])
    vc.prove("one pose per state", (path.__vc_len__() if U.L.symbolic(path) else len(path)) == q.n)
    vc.forall("the pose of each state, in order", 0, q.n, lambda j: vc.And(
        isinstance(get(j), SE2Transform), vc.eq(list(get(j).p), [q.f(j, "x"), q.f(j, "y")]), vc.eq(get(j).theta, q.f(j, "psi"))))
    U.left_alone(vc, q, VehicleState)


@target("P23", "connectable, any length", [T + "Trajectory.is_connectable"], kind="loop", samples=200)
def h(vc):
    U.constructor(vc)
    a, b = utraj(vc, "a"), utraj(vc, "b")
    tol = None if vc.flag("default") else vc.pos("tol", typ=(0.001, 30.0))
    r = a.s.is_connectable(b.s) if tol is None else a.s.is_connectable(b.s, tol)
    if a.n == 0 or b.n == 0:
        vc.prove("an empty trajectory connects to any", r)
        return
    tol = 0.001 if tol is None else tol
    dv, dd = vc.abs(a.f(a.n - 1, "vx") - b.f(0, "vx")), vc.abs(a.f(a.n - 1, "delta") - b.f(0, "delta"))
    vc.margin((dv, tol), (dd, tol))
    vc.prove("iff speed and steering agree within the tolerance", vc.Iff(r, vc.And(dv < tol, dd < tol)))
    U.left_alone(vc, a, VehicleState)
    U.left_alone(vc, b, VehicleState)


def _merged(vc, a, b, r):
    """first trajectory, then the second without its first state (all of it if the first is empty)"""
    if a.n == 0:
        same(vc, r, "the second trajectory", b.n, b.t, b.f)
        return
    pick = lambda j, x, y: (U.L.pick(z3.simplify(U.L.I(j) < U.L.I(a.n)), x, y) if vc.symbolic else (x() if j < a.n else y()))
    m = vc.If(b.n > 0, a.n + b.n - 1, a.n) if vc.symbolic else a.n + max(0, b.n - 1)
    same(vc, r, "first trajectory, then the second without its first state", m,
         lambda j: pick(j, lambda: a.t(j), lambda: b.t(j - a.n + 1)), lambda j, k: pick(j, lambda: a.f(j, k), lambda: b.f(j - a.n + 1, k)))


def _late(vc, a, b):
    """the second trajectory goes on after the end of the first"""
    return vc.Or(a.n == 0, b.n <= 1, vc.And(b.n > 1, a.n > 0, b.t(1) > a.t(a.n - 1))) if vc.symbolic else a.n == 0 or b.n <= 1 or b.t(1) > a.t(a.n - 1)


def _seam(vc, q):
    if not vc.symbolic and q.n and vc.flag("joined"):
        d = vc.choice("seam", [0.0, 0.0, 0.0005, 0.5])
        n = U.length(vc, "b.n", 0)
        ts = [q.ts[-1]]
        for i in range(1, n):
            ts.append(ts[-1] + vc.real(f"b.dt{i}", 0.01, 2.0))
        xs = list(U.objects(vc, "b", n, VehicleState, NAMES))
        if n:
            xs[0].vx, xs[0].delta = q.vs[-1].vx + d, q.vs[-1].delta
        b = U.Seq(n, tuple(ts[:n]), tuple(xs))
        b.names = NAMES
        b.s = Trajectory(timestamps=b.ts, values=b.vs)
        b.f = lambda j, k: {k: getattr(x, k) for k in NAMES}[k] if (x := b.vs[int(j)]) else None
        return b
    return utraj(vc, "b")


@target("P23", "merge, any length", [T + "Trajectory.merge"], kind="loop", samples=300)
def h(vc):
    U.constructor(vc, may_reject=True)
    vc.loops(T + "Trajectory.merge")
    a = utraj(vc, "a")
    b = _seam(vc, a)
    some = vc.And(a.n > 0, b.n > 0)
    if some:
        dv, dd = vc.abs(a.f(a.n - 1, "vx") - b.f(0, "vx")), vc.abs(a.f(a.n - 1, "delta") - b.f(0, "delta"))
        vc.margin((dv, 0.001), (dd, 0.001))
        fits = vc.And(dv < 0.001, dd < 0.001)
    else:
        fits = True
    try:
        r = a.s.merge(b.s)
    except REJECT:
        vc.prove("refused only at a discontinuous seam or in disorder", vc.Not(vc.And(fits, _late(vc, a, b))))
        return
    vc.prove("discontinuous seams are refused", fits)
    vc.prove("disorder is refused", _late(vc, a, b))
    vc.prove("a trajectory", isinstance(r, Trajectory))
    _merged(vc, a, b, r)
    U.left_alone(vc, a, VehicleState)
    U.left_alone(vc, b, VehicleState)


@target("P23", "merge_unsafe, any length", [T + "Trajectory.merge_unsafe"], kind="loop", samples=300)
def h(vc):
    U.constructor(vc, may_reject=True)
    vc.loops(T + "Trajectory.merge_unsafe")
    a = utraj(vc, "a")
    b = _seam(vc, a)
    vc.assume(b.n > 0)
    tol = None if vc.flag("default") else vc.pos("tol", typ=(0.001, 3.0))
    lim = 0.001 if tol is None else tol
    gap = vc.abs(a.t(a.n - 1) - b.t(0)) if a.n > 0 else 0
    vc.margin((gap, lim))
    try:
        r = a.s.merge_unsafe(b.s) if tol is None else a.s.merge_unsafe(b.s, tol)
    except REJECT:
        vc.prove("refused only for a gap in time or disorder", vc.Not(vc.And(gap <= lim, _late(vc, a, b))))
        return
    vc.prove("gaps in time are refused", gap <= lim)
    vc.prove("disorder is refused", _late(vc, a, b))
    _merged(vc, a, b, r)
    U.left_alone(vc, a, VehicleState)
    U.left_alone(vc, b, VehicleState)


@target("P23", "command plan, any length", [T + "commands_plan_from_trajectory"], kind="loop", samples=200)
def h(vc):
    U.constructor(vc)
    U.iterated(vc)
    a = utraj(vc, "a", vc.choice("kind", ["float", "Decimal"]))
    F = lambda x: U.flt(vc, x)
    if not vc.symbolic:
        vc.assume(all(F(a.t(j + 1)) - F(a.t(j)) > 1e-3 for j in range(a.n - 1)))
    rate = lambda j, k: vc.ratio(a.f(j + 1, k) - a.f(j, k), F(a.t(j + 1)) - F(a.t(j)))

    def spec(l, env):
        mk = lambda j: VehicleCommands(acc=rate(j, "vx"), ddelta=rate(j, "delta"))
        s = lambda k, f: U.L.SSeq(U.L.I(k), lambda j: f(Sym(z3.simplify(j), "int")), list)
        return U.L.LoopSpec(vals={"timestamps": lambda k: s(k, lambda j: F(a.t(j))), "commands": lambda k: s(k, mk)})

    vc.loops(T + "commands_plan_from_trajectory", {0: spec})
    plan = commands_plan_from_trajectory(a.s)

    def reaches(u, j):
        dt = F(a.t(j + 1)) - F(a.t(j))
        return vc.And(type(u) is VehicleCommands, vc.eq(a.f(j, "vx") + u.acc * dt, a.f(j + 1, "vx")), vc.eq(a.f(j, "delta") + u.ddelta * dt, a.f(j + 1, "delta")))

    m = vc.If(a.n > 0, a.n - 1, 0) if vc.symbolic else max(0, a.n - 1)
    U.holds(vc, "a command per interval, reaching the next speed and steering", plan, m, lambda j: F(a.t(j)), lambda j: j, reaches)
    U.left_alone(vc, a, VehicleState)


@target("P23", "rigid motion, any length", [T + "Trajectory.apply_SE2transform"], kind="loop", samples=200)
def h(vc):
    U.transformed(vc)
    q = utraj(vc, "s")
    p, th = [vc.real("q0"), vc.real("q1")], vc.angle("th")
    m = q.s.apply_SE2transform(SE2Transform(p=np.array(p), theta=th))

    def moved(y, j):
        pos = vc.rot(th, (q.f(j, "x"), q.f(j, "y"))) + np.array(p)
        return vc.And(type(y) is VehicleState, vc.eq([y.x, y.y], pos), vc.same_angle(y.psi, q.f(j, "psi") + th), vc.eq([y.vx, y.delta], [q.f(j, "vx"), q.f(j, "delta")]))

    U.holds(vc, "every state moved rigidly", m, q.n, q.t, lambda j: j, moved)
    U.left_alone(vc, q, VehicleState)


def upsampled(vc, k):
    U.constructor(vc)
    q = utraj(vc, "a", vc.choice("kind", ["float", "Decimal"]) if vc.symbolic else "float", nmin=1)
    m = k + 1
    if vc.symbolic:
        div = lambda j: (Sym(z3.simplify(U.L.I(j) / m), "int"), Sym(z3.simplify(U.L.I(j) % m), "int")) if m > 1 else (j, 0)
    else:
        div = lambda j: divmod(int(j), m)

    def parts(j):
        i, r = div(j)
        return i, r, (i < q.n - 1)

    def lin(a, b, r):
        return a + (b - a) * r / m

    def at(j, g):
        i, r = div(j)
        if not vc.symbolic:
            return g(i) if r == 0 else lin(g(i), g(i + 1), r)
        return U.L.pick(z3.simplify(U.L.I(r) == 0), lambda: g(i), lambda: lin(g(i), g(i + 1), r))

    t = lambda j: at(j, q.t)
    f = lambda j, c: at(j, lambda i: q.f(i, c))
    mk = lambda j: VehicleState(**{c: f(j, c) for c in NAMES})

    def spec(l, env):
        s = lambda n, g: U.L.SSeq(n, lambda j: g(Sym(z3.simplify(j), "int")), list)
        return U.L.LoopSpec(vals={"up_timestamps": lambda n: s(z3.simplify(n * m), t), "up_values": lambda n: s(z3.simplify(n * m), mk)})

    vc.loops(T + "Trajectory.upsample", {0: spec})
    r = q.s.upsample(k)
    same(vc, r, "original samples kept, evenly spaced interpolations in between", q.n + (q.n - 1) * k, t, f)
    U.left_alone(vc, q, VehicleState)


for _k in (0, 1, 2, 3):
    target("P23", f"upsample by {_k}, any length", [T + "Trajectory.upsample"], kind="bounded", bound="trajectories of any length, up to 3 states inserted",
           samples=60, budget=90)(lambda vc, k=_k: upsampled(vc, k))


@target("P23", "upsample, any length", [T + "Trajectory.upsample"], kind="loop", samples=200, budget=120)
def h(vc):
    """interpolation behind its contract (P02)"""
    U.constructor(vc)
    kind = vc.choice("kind", ["float", "Decimal"])
    a = utraj(vc, "a", kind, nmin=1)
    k = vc.int("k", 0, None, most=4)
    if not vc.symbolic:
        vc.assume(all(a.t(j + 1) - a.t(j) > type(a.t(j))("1e-3") for j in range(int(a.n) - 1)))
        r = a.s.upsample(k)
        n = int(a.n)
        vc.prove("so many samples", len(r.timestamps) == n + (n - 1) * k)
        F = float
        for j in range(len(r.timestamps)):
            i, q = divmod(j, k + 1)
            if q == 0:
                vc.prove("original samples kept", r.timestamps[j] == a.t(i) and U.same_state(vc, r.values[j], VehicleState, NAMES, lambda c: a.f(i, c)))
                continue
            vc.prove("evenly spaced in between", vc.eq(F(r.timestamps[j]), F(a.t(i)) + (F(a.t(i + 1)) - F(a.t(i))) * q / (k + 1)))
            vc.prove("interpolated in between", U.same_state(vc, r.values[j], VehicleState, NAMES, lambda c: a.f(i, c) + (a.f(i + 1, c) - a.f(i, c)) * q / (k + 1)))
        U.left_alone(vc, a, VehicleState)
        return
    L, R, I_ = U.L, z3.RealSort(), z3.IntSort()
    tau = z3.Function("sample.t", I_, I_, R)
    comp = {c: z3.Function("sample." + c, I_, I_, R) for c in NAMES}
    real = lambda x: L.as_real(L.num(x))
    K = z3.simplify(L.I(k) + 1)
    # times t(i) + r (t(i+1) - t(i)) / (k+1) rise with r and end at t(i+1)
    p, d, r_ = vc.real("p"), vc.real("d", 0), vc.int("r", 0, None)
    vc.assume(vc.And(d > 0, r_ <= k))
    vc.prove("times in between rise", vc.And(p + d * r_ / (k + 1) < p + d * (r_ + 1) / (k + 1), vc.eq(p + d * (k + 1) / (k + 1), p + d)))

    def known(i, r):
        """what sample r after sample i is"""
        cx = ctx()
        inside = z3.And(0 <= i, i < L.I(a.n) - 1, 0 <= r, r < K)
        ti, tn = real(a.t(Sym(i, "int"))), real(a.t(Sym(z3.simplify(i + 1), "int")))
        at = lambda q: tau(i, q)
        cx.fact(z3.Implies(inside, z3.And(at(z3.IntVal(0)) == ti, at(K) == tn, ti < tn, ti <= at(r), at(r) < tn, at(r) < at(z3.simplify(r + 1)))))
        for c in NAMES:
            cx.fact(z3.Implies(inside, comp[c](i, z3.IntVal(0)) == real(a.f(Sym(i, "int"), c))))
        return i, r

    def exactly(i, r):
        """by definition"""
        ti, tn = a.t(Sym(i, "int")), a.t(Sym(z3.simplify(i + 1), "int"))
        x = Sym(r, "int")
        vc.assume(vc.eq(Sym(tau(i, r), kind), ti + (tn - ti) * x / (k + 1)))
        for c in NAMES:
            u, v = a.f(Sym(i, "int"), c), a.f(Sym(z3.simplify(i + 1), "int"), c)
            vc.assume(vc.eq(Sym(comp[c](i, r)), u + (v - u) * x / (k + 1)))

    state = lambda i, r: VehicleState(**{c: Sym(comp[c](i, r)) for c in NAMES})
    st = {}

    def at(self, t):
        j = st["i"]
        vc.prove("the sample at its own time", vc.And(0 <= j, j < a.n, vc.eq(t, a.t(j))))
        return a.s.values[j]

    def at_interp(self, t):
        i, r = st["i"].t, st["r"]
        known(i, r)
        exactly(i, r)
        ti, tn = a.t(st["i"]), a.t(st["i"] + 1)
        vc.prove("evenly spaced in between", vc.And(vc.eq(t, Sym(tau(i, r), kind)), ti <= t, t <= tn))
        return state(i, r)

    vc.patch_attr(Trajectory, "at", at)
    vc.patch_attr(Trajectory, "at_interp", at_interp)

    def times(n):
        return L.SSeq(n, lambda g: Sym(tau(*known(st["cat"].part(g), st["cat"].within(g))), kind), list)

    def states(n):
        return L.SSeq(n, lambda g: state(*known(st["cat"].part(g), st["cat"].within(g))), list)

    def both(n):
        return {"up_timestamps": lambda q: times(n(q)), "up_values": lambda q: states(n(q))}

    def outer(l, env):
        c = st["cat"] = L.Concat(z3.simplify(L.I(a.n) - 1), lambda i: K, "samples")

        def inv(q, env):
            st["i"] = Sym(l.k, "int") if l.case == "step" else a.n - 1
            return []

        return L.LoopSpec(vals=both(lambda q: c.off(q)), inv=inv)

    def inner(l, env):
        i = st["i"]

        def inv(q, env):
            st["r"] = z3.simplify(l.k + 1) if l.case == "step" else None
            return []

        return L.LoopSpec(vals=both(lambda q: z3.simplify(st["cat"].at(i, q) + 1)), inv=inv)

    vc.loops(T + "Trajectory.upsample", {0: outer, 1: inner})
    st["i"] = a.n - 1
    r = a.s.upsample(k)
    rt, rv = L.as_seq(r.timestamps), L.as_seq(r.values)
    if "cat" not in st:
        vc.prove("one sample stays one sample", vc.And(a.n == 1, L.SBool(rt.n == 1), L.SBool(rv.n == 1), vc.eq(rt.get(z3.IntVal(0)), a.t(0)), U.same_state(vc, rv.get(z3.IntVal(0)), VehicleState, NAMES, lambda c: a.f(0, c))))
        return
    c = st["cat"]
    N = c.total
    L.prove("so many samples", [L.SBool(rt.n == N + 1), L.SBool(rv.n == N + 1)])
    vc.prove("ends with the last", vc.And(vc.eq(rt.get(N), a.t(a.n - 1)), U.same_state(vc, rv.get(N), VehicleState, NAMES, lambda q: a.f(a.n - 1, q))))
    i, q = vc.int("i", 0, None), vc.int("q", 0, None)
    vc.assume(vc.And(i < a.n - 1, q <= k))
    g = c.at(i.t, q.t)
    known(i.t, q.t)
    exactly(i.t, q.t)
    x = rv.get(g)
    F = lambda z: U.flt(vc, z)
    vc.prove("the sample at that place", vc.And(vc.eq(rt.get(g), a.t(i) + (a.t(i + 1) - a.t(i)) * q / (k + 1)),
                                               U.same_state(vc, x, VehicleState, NAMES, lambda c: Sym(comp[c](i.t, q.t)))))


class _Path:
    """a path of any length through a graph (contract of networkx.shortest_path: consecutive nodes joined by edges): nodes (t(i), x(i)),
    the edge from node i carries command(i) and transition(i)"""

    def __init__(self, vc):
        self.vc, self.n = vc, U.length(vc, "n", 1, 6)
        self.q = U.state_seq(vc, "node", VehicleState, NAMES, "float", 1)
        vc.assume(self.q.n == self.n) if vc.symbolic else None
        self.n = self.q.n
        self.m = self.n - 1
        self.acc, self.dd = U.numbers(vc, "acc", self.m), U.numbers(vc, "dd", self.m)
        get = (lambda s, i: s.get(U.L.I(i))) if vc.symbolic else (lambda s, i: s[int(i)])
        self.command = lambda i: VehicleCommands(acc=get(self.acc, i), ddelta=get(self.dd, i))
        self.node = lambda i: (self.q.t(i), self.q.v(i))
        self.nodes = U.L.SSeq(U.L.I(self.n), lambda i: (self.q.t(i), self.q.v(i)), list) if vc.symbolic else [self.node(i) for i in range(int(self.n))]

    def is_node(self, p, i):
        return self.vc.And(self.vc.eq(p[0], self.q.t(i)), U.same_state(self.vc, p[1], VehicleState, NAMES, lambda c: self.q.f(i, c)))

    def graph(self, transition, here):
        """a graph in which the path lies between its ends; here: the edge that may be asked for"""
        import dg_commons.planning.trajectory as MM

        vc, g, asked = self.vc, TrajectoryGraph(), []
        connected = vc.flag("connected")
        ends = lambda a, b: vc.prove("from the start to the end", vc.And(self.is_node(a, 0), self.is_node(b, self.n - 1)))

        def path(G, source=None, target=None, **k):
            if G is not g or k:
                raise Undecided("another graph")
            ends(source, target)

        def has(G, source=None, target=None, **k):
            path(G, source, target, **k)
            return connected

        def shortest(G, source=None, target=None, **k):
            path(G, source, target, **k)
            if not connected:
                raise MM.ValueError("no path") if hasattr(MM, "ValueError") else ValueError("no path")
            return self.nodes.copy_() if vc.symbolic else list(self.nodes)

        def edge(u=None, v=None, default=None):
            i = here()
            vc.prove("edges of the path in order", vc.And(self.is_node(u, i), self.is_node(v, i + 1)))
            return {"commands": self.command(i), "transition": transition(i)}

        if vc.patch(MM.has_path, has) == 0 or vc.patch(MM.shortest_path, shortest) == 0 or not hasattr(TrajectoryGraph, "check_node"):
            raise Undecided("paths are searched in another way")
        g.check_node = lambda node: asked.append(node)
        g.get_edge_data = edge
        return g, connected, asked




@target("P23", "commands and states along a path, any length", [T + "TrajectoryGraph.commands_on_trajectory", T + "TrajectoryGraph.get_trajectory",
                                                               T + "TrajectoryGraph.get_transition"], kind="loop", samples=200)
def h(vc):
    U.constructor(vc)
    p, now = _Path(vc), []
    L = U.L
    which = vc.choice("which", ["commands", "states", "transitions"])
    if vc.symbolic:
        here = lambda: now[-1]
    else:
        calls = []
        here = lambda: (calls.append(1), len(calls) - 1)[1]

    class Joined:
        def __init__(self, k):
            self.k = k

    class Transition:
        def __init__(self, i):
            self.i = i

    g, connected, asked = p.graph(Transition, here)
    joined = []

    def merge(self, other, tol=None):
        """contract of merge_unsafe: the fold over the transitions joined so far"""
        k = now[-1] if vc.symbolic else len(joined)
        if type(other) is not Transition or tol is not None:
            raise Undecided("joined in another way")
        if type(self) is Joined:
            vc.prove("joined in order", vc.eq(self.k, k))
        else:
            vc.prove("starting from nothing", vc.And(k == 0, len(self.timestamps) == 0))
        vc.prove("the transition of that edge", vc.eq(other.i, k))
        joined.append(k)
        return Joined(k + 1)

    Joined.merge_unsafe = merge
    if which == "transitions":
        vc.patch_attr(Trajectory, "merge_unsafe", merge)
    if vc.symbolic:
        S = lambda q: Sym(z3.simplify(q), "int")

        def at(l):
            if l.case == "step":
                now.append(Sym(l.k, "int"))
            return []

        seq = lambda k, f: L.SSeq(L.I(k), lambda j: f(S(j)), list)
        if which == "commands":
            spec = lambda l, e: L.LoopSpec(vals={"commands": lambda k: seq(k, p.command), "timestamps": lambda k: seq(k, p.q.t)}, inv=lambda k, env: at(l))
            fn = "commands_on_trajectory"
        elif which == "states":
            spec = lambda l, e: L.LoopSpec(vals={"states": lambda k: seq(k, p.q.v), "timestamps": lambda k: seq(k, p.q.t)}, inv=lambda k, env: at(l))
            fn = "get_trajectory"
        else:
            def start(k):
                if z3.is_int_value(z3.simplify(k)) and z3.simplify(k).as_long() == 0:
                    return Trajectory(values=[], timestamps=[])
                if ctx().branch(L.SBool(k == 0)):
                    return Trajectory(values=[], timestamps=[])
                return Joined(S(k))

            spec = lambda l, e: L.LoopSpec(vals={"traj": start}, inv=lambda k, env: at(l))
            fn = "get_transition"
        vc.loops(T + "TrajectoryGraph." + fn, {0: spec})
    a, b = p.node(0), p.node(p.n - 1)
    try:
        if which == "commands":
            r = g.commands_on_trajectory(NS(timestamps=[a[0], b[0]], values=[a[1], b[1]]))
        elif which == "states":
            r = g.get_trajectory(source=a, target=b)
        else:
            r = g.get_transition(source=a, target=b)
    except ValueError:
        vc.prove("an error only without a path", not connected)
        return
    vc.prove("without a path an error", connected)
    vc.prove("both ends are looked up", vc.And(len(asked) == 2, *[vc.Or(p.is_node(x, 0), p.is_node(x, p.n - 1)) for x in asked]))
    if which == "commands":
        same_cmd = lambda u, i: vc.And(type(u) is VehicleCommands, vc.eq(u.acc, p.command(i).acc), vc.eq(u.ddelta, p.command(i).ddelta))
        U.holds(vc, "the stored commands at the departure times", r, p.m, p.q.t, lambda i: i, same_cmd)
    elif which == "states":
        vc.prove("a trajectory", type(r) is Trajectory)
        same(vc, r, "the states of the nodes on the path", p.n, p.q.t, p.q.f)
    elif vc.symbolic:
        if p.m == 0:
            vc.prove("no edge, nothing joined", type(r) is Trajectory and L.SBool(L.as_seq(r.timestamps).n == 0))
        else:
            vc.prove("all transitions joined along the path", type(r) is Joined and vc.eq(r.k, p.m))
    else:
        vc.prove("all transitions joined along the path", joined == list(range(int(p.m))) and (p.m == 0 or r.k == p.m))


@target("P23", "from the root to every leaf, any number of nodes", [T + "TrajectoryGraph.get_all_trajectories", T + "TrajectoryGraph.get_all_transitions"], kind="loop", samples=200)
def h(vc):
    """the single trajectories and transitions behind their contracts"""
    import dg_commons.planning.trajectory as MM
    from pyvc import dicts as DD

    L = U.L
    n = U.length(vc, "n", 1, 6)
    which = vc.choice("which", ["trajectory", "transition"])

    class Node:
        def __init__(self, j):
            self.j = j

    class Found:
        """what lies between two nodes"""

        def __init__(self, a, b):
            self.a, self.b = a, b

    g = TrajectoryGraph()
    acyclic = vc.flag("acyclic")
    if vc.patch(MM.is_directed_acyclic_graph, lambda G: acyclic) == 0:
        raise Undecided("cycles are looked for elsewhere")
    if vc.symbolic:
        Z = z3.IntSort()
        ins, outs = z3.Function("in", Z, Z), z3.Function("out", Z, Z)
        L.uni().add(L.All(0, n, lambda j: z3.And(ins(j) >= 0, outs(j) >= 0)))
        view = lambda f: L.SSeq(L.I(n), lambda j: (Node(Sym(j, "int")), Sym(f(j), "int")), list)
    else:
        ds = [[vc.int(f"{k}{j}", 0, 2) for j in range(int(n))] for k in "io"]
        nodes = [Node(j) for j in range(int(n))]
        view = lambda f: [(x, f[x.j]) for x in nodes]
        ins, outs = ds
    g.__dict__["in_degree"], g.__dict__["out_degree"] = (lambda: view(ins)), (lambda: view(outs))
    between = lambda source=None, target=None: Found(source, target)
    for nm in ("get_trajectory", "get_transition"):
        if not hasattr(TrajectoryGraph, nm):
            raise Undecided(nm)
    setattr(g, f"get_{which}", between)
    name = {"trajectory": "get_all_trajectories", "transition": "get_all_transitions"}[which]
    st = {}
    if vc.symbolic:
        leaf = lambda: st.setdefault("f", L.Filtered(L.I(n), lambda j: outs(j) == 0, "leaves"))

        def spec(l, e):
            f, root = leaf(), Sym(L.Filtered(L.I(n), lambda j: ins(j) == 0, "roots").nth(z3.IntVal(0)), "int")
            st["root"] = root
            st["bag"] = lambda k: DD.Bag(lambda k, q: z3.BoolVal(True), lambda k, q: Found(Node(root), Node(Sym(f.nth(k), "int"))), 1, k)
            return L.LoopSpec(vals={"trajectories": lambda k: st["bag"](k)})

        vc.loops(T + "TrajectoryGraph." + name, {0: spec})
    try:
        r = getattr(g, name)()
    except AssertionError:
        if vc.symbolic:
            if acyclic:
                # exactly one root would not have been refused
                q = vc.int("q", 0, None)
                vc.assume(q < n)
                L.uni().touch(q.t)
                L.uni().add(L.All(0, n, lambda j: (ins(j) == 0) == (j == q.t)))
                f = L.Filtered(L.I(n), lambda j: ins(j) == 0, "roots")
                for m in (0, 1):
                    L.uni().touch(f.nth(z3.IntVal(m)))
                L.alive()
                vc.prove("one root and no cycle are not refused", False)
            return
        vc.prove("one root and no cycle are not refused", not (acyclic and sum(d == 0 for d in ins) == 1))
        return
    vc.prove("cycles are refused", acyclic)
    if vc.symbolic:
        if type(r) is DD.Bag:
            q, i = st["root"], vc.int("i", 0, None)
            vc.assume(i < n)
            L.uni().touch(i.t)
            vc.prove("from the only root", vc.And(0 <= q, q < n, vc.Iff(L.SBool(ins(i.t) == 0), i == q)))
            L.prove("to every leaf", r.__vc_equal__(st["bag"](leaf().count(L.I(n)))))
        else:
            raise Undecided("collected in another way")
    else:
        roots, leaves = [j for j in range(int(n)) if ins[j] == 0], {j for j in range(int(n)) if outs[j] == 0}
        vc.prove("several roots are refused", len(roots) == 1)
        vc.prove("from the only root to every leaf", len(r) == len(leaves) and all(type(x) is Found and x.a.j == roots[0] for x in r) and {x.b.j for x in r} == leaves)


@target("P23", "an edge of any graph", [T + "TrajectoryGraph.add_edge", T + "TrajectoryGraph.add_node", T + "TrajectoryGraph.check_node"], samples=100)
def h(vc):
    """the graph behind the contract of networkx: known nodes with their attributes, one edge with attributes per call"""
    from networkx import DiGraph

    t0 = vc.real("t0", 0, 5)
    t1 = t0 + vc.pos("d", typ=(0.1, 2))
    xs = [C.mk(vc, VehicleState, f"x{i}") for i in range(2)]
    start, end, gen = vc.flag("start is known"), vc.flag("end is known"), vc.int("gen", 0, None, most=9)
    other = vc.int("other gen", 0, None, most=9)
    u, tr = VehicleCommands(0, 0), Trajectory([], [])

    class States:
        """a trajectory between two states (contract of its lookups, P02)"""

        def get_start(self):
            return t0

        def get_end(self):
            return t1

        def at(self, t):
            for a, x in ((t0, xs[0]), (t1, xs[1])):
                if t is a or not vc.symbolic and t == a:
                    return x
            raise Undecided("another time")

        def __getattr__(self, n):
            raise Undecided(f"states are read by {n}")

    which = lambda k: [i for i, (t, x) in enumerate(((t0, xs[0]), (t1, xs[1]))) if k[1] is x and (k[0] is t or not vc.symbolic and k[0] == t)]

    class Known:
        def __contains__(self, k):
            w = which(k)
            if not w:
                raise Undecided("another node")
            return (start, end)[w[0]] or any(n == w[0] for n, a in added)

        def get(self, k, default=None):
            return self[k] if k in self else default

        def __getitem__(self, k):
            w = which(k)
            if not w:
                raise Undecided("another node")
            for n, a in added:
                if n == w[0]:
                    return a
            return {"gen": (gen, other)[w[0]]}

        def __getattr__(self, n):
            raise Undecided(f"nodes are read by {n}")

    added, edges = [], []

    def add_node(self, node_for_adding, **attr):
        w = which(node_for_adding)
        if not w:
            raise Undecided("another node")
        added.append((w[0], attr))

    def add_edge(self, u_of_edge, v_of_edge, **attr):
        w = which(u_of_edge), which(v_of_edge)
        if not (w[0] and w[1]):
            raise Undecided("another node")
        edges.append((w[0][0], w[1][0], attr))

    g = TrajectoryGraph()
    vc.patch_attr(DiGraph, "add_node", add_node)
    vc.patch_attr(DiGraph, "add_edge", add_edge)
    vars(g)["nodes"] = Known()
    if not start:
        vc.prove("edges start at known nodes", vc.raises(ValueError, lambda: g.add_edge(states=States(), transition=tr, commands=u)))
        vc.prove("nothing is added", not added and not edges)
        return
    g.add_edge(states=States(), transition=tr, commands=u)
    vc.prove("one edge from the first to the last state", [e[:2] for e in edges] == [(0, 1)])
    a = edges[0][2]
    vc.prove("with the transition and the commands", set(a) == {"transition", "commands"} and a["transition"] is tr and a["commands"] is u)
    if end:
        vc.prove("known nodes stay as they are", not added)
    else:
        vc.prove("a new node for the last state", [n for n, _ in added] == [1] and set(added[0][1]) == {"gen"})
        vc.prove("one generation on", vc.eq(added[0][1]["gen"], gen + 1))
