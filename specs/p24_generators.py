"""P24 motion primitives, command samplers and the planning dynamics"""
import math
from decimal import Decimal
import numpy as np
from pyvc.vc import target, Undecided, Discard
from dg_commons.planning.motion_primitives import MotionPrimitivesGenerator, MPGParam
from dg_commons.planning.commands_sampler import CommandsSampler, CommandsSamplerParam
from dg_commons.planning.trajectory import Trajectory
from dg_commons.dynamics.bicycle_dynamic import BicycleDynamics
from dg_commons.sim.models.vehicle import VehicleState, VehicleCommands
from . import common as C

M = "dg_commons.planning.motion_primitives."
K = "dg_commons.planning.commands_sampler."
D = "dg_commons.dynamics.bicycle_dynamic.BicycleDynamics."
NAMES = ["x", "y", "psi", "vx", "delta"]


def vals(x):
    return C.get(x, NAMES)


def dyn(x, u, dt):
    """some dynamics: remembers start, command and duration in the state"""
    return VehicleState(x=x.x + u.acc * dt, y=x.y + u.ddelta * dt, psi=x.psi + dt, vx=x.vx + u.acc * dt, delta=x.delta + u.ddelta * dt)


def lin(a, b, n):
    return [a] if n == 1 else [a + (b - a) * i / (n - 1) for i in range(n)]


def same_sets(vc, got, want):
    """got: trajectories; want: list of (timestamps, states)"""
    def eq(r, w):
        return vc.And(len(r.timestamps) == len(w[0]), len(r.values) == len(w[1]), vc.eq(list(r.timestamps), list(w[0])),
                      *[vc.eq(vals(a), vals(b)) for a, b in zip(r.values, w[1])])

    got = list(got)
    return vc.And(*[vc.Or(*[eq(r, w) for r in got], False) for w in want], *[vc.Or(*[eq(r, w) for w in want], False) for r in got],
                  all(isinstance(r, Trajectory) for r in got))


def mpg(vc, nv, ns, steps):
    vp = C.veh_par(vc)
    dt = vc.real("dt", lo=0.05, hi=1.0, kind="Decimal")
    v = [vc.real("v0", -5, 20)]
    v.append(v[0] if nv == 1 else v[0] + vc.real("dv", 0.1, 8))
    s = [vc.real("s0", -1, 1)]
    s.append(s[0] if ns == 1 else s[0] + vc.real("ds", 0.05, 1))
    p = MPGParam(dt=dt, n_steps=steps, velocity=(v[0], v[1], nv), steering=(s[0], s[1], ns))
    return vp, dt, lin(v[0], v[1], nv), lin(s[0], s[1], ns), p


@target("P24", "feasible inputs", [M + "MotionPrimitivesGenerator.check_input_constraints"], samples=300)
def h(vc):
    vp = C.veh_par(vc)
    steps = vc.int("steps", 1, None, most=8)
    dt = vc.real("dt", lo=0.05, hi=1.0, kind="Decimal")
    g = MotionPrimitivesGenerator(MPGParam(dt, steps, (0, 1, 2), (0, 1, 2)), dyn, vp)
    v0, v1, s0, s1 = vc.real("v0"), vc.real("v1"), vc.real("s0", -1, 1), vc.real("s1", -1, 1)
    ok, acc, rate = g.check_input_constraints(v0, v1, s0, s1)
    from pyvc.shims import s_float_cls

    H = s_float_cls(dt * steps)
    a, r = (v1 - v0) / H, (s1 - s0) / H
    vc.margin((a, vp.acc_limits[0]), (a, vp.acc_limits[1]), (r, vp.ddelta_max), (r, -vp.ddelta_max))
    inside = vc.And(vp.acc_limits[0] <= a, a <= vp.acc_limits[1], -vp.ddelta_max <= r, r <= vp.ddelta_max)
    vc.prove("valid iff the constant inputs respect the limits", vc.Iff(ok, inside))
    vc.prove("the inputs lead from start to end over the horizon", vc.Implies(inside, vc.eq([v0 + acc * H, s0 + rate * H], [v1, s1])))


@target("P24", "motion primitives", [M + "MotionPrimitivesGenerator.generate", M + "MotionPrimitivesGenerator.generate_samples"], kind="bounded",
        bound="two sampled speeds or steering angles, up to two steps, all ranges and limits", samples=150, budget=90)
def h(vc):
    if vc.symbolic:
        nv, ns, steps = vc.choice("grid", [(1, 1, 1), (2, 1, 1), (1, 2, 2)])
    else:
        nv, ns, steps = vc.choice("nv", [1, 2, 4]), vc.choice("ns", [1, 3]), vc.choice("steps", [1, 3, 5])
    vp, dt, V, S, p = mpg(vc, nv, ns, steps)
    from pyvc.shims import s_float_cls

    fdt = s_float_cls(dt)
    x0 = C.mk(vc, VehicleState, "x0") if vc.flag("given") else None
    if x0 is not None and not vc.symbolic:
        x0.vx, x0.delta = vc.choice("near", V) + vc.real("off", -1, 1), vc.choice("nears", S)
    old = vals(x0) if x0 is not None else None
    g = vc.again("g", lambda: MotionPrimitivesGenerator(p, dyn, vp), (repr(p), repr(vp)))
    got = g.generate(x0) if x0 is not None else g.generate()
    H = fdt * steps
    want = []
    for v0 in ([x0.vx] if x0 is not None else V):
        for s0 in ([x0.delta] if x0 is not None else S):
            for v1 in V:
                for s1 in S:
                    a, r = (v1 - v0) / H, (s1 - s0) / H
                    vc.margin((a, vp.acc_limits[0]), (a, vp.acc_limits[1]), (r, vp.ddelta_max), (r, -vp.ddelta_max))
                    if not vc.And(vp.acc_limits[0] <= a, a <= vp.acc_limits[1], -vp.ddelta_max <= r, r <= vp.ddelta_max):
                        continue
                    x = x0 if x0 is not None else VehicleState(0, 0, 0, v0, s0)
                    xs = [x]
                    for _ in range(steps):
                        xs.append(dyn(xs[-1], VehicleCommands(a, r), fdt))
                    want.append(([i * dt for i in range(steps + 1)], xs))
    vc.prove("one primitive for each reachable sample, following the dynamics under constant inputs", same_sets(vc, got, want))
    if old is not None:
        vc.prove("the given state is left alone", vc.eq(vals(x0), old))


@target("P24", "sampled grids", [M + "MotionPrimitivesGenerator.generate_samples", K + "CommandsSampler.generate_samples",
                                 M + "MPGParam.from_vehicle_parameters", K + "CommandsSamplerParam.from_vehicle_parameters"], kind="bounded",
        bound="grids of up to 4 samples", samples=100)
def h(vc):
    vp = C.veh_par(vc)
    dt = vc.real("dt", lo=0.05, hi=1.0, kind="Decimal")
    n, k, steps = vc.choice("n", [1, 2, 3, 4]), vc.choice("k", [1, 2, 3]), vc.choice("steps", [1, 7])
    p = MPGParam.from_vehicle_parameters(dt=dt, n_steps=steps, n_vel=n, n_steer=k, vp=vp)
    vc.prove("step and horizon kept", vc.And(vc.eq(p.dt, dt), p.n_steps == steps))
    v, s = MotionPrimitivesGenerator(p, dyn, vp).generate_samples()
    vc.prove("speeds evenly cover the limits", vc.eq(list(v), lin(vp.vx_limits[0], vp.vx_limits[1], n)))
    vc.prove("steering evenly covers the limits", vc.eq(list(s), lin(-vp.delta_max, vp.delta_max, k)))
    q = CommandsSamplerParam.from_vehicle_parameters(dt=dt, n_steps=1, n_acc=n, n_steer_rate=k, vp=vp)
    a, r = CommandsSampler(q, dyn, vp).generate_samples()
    vc.prove("step kept", vc.And(vc.eq(q.dt, dt), q.n_steps == 1))
    vc.prove("accelerations evenly cover the limits", vc.eq(list(a), lin(vp.acc_limits[0], vp.acc_limits[1], n)))
    vc.prove("steering rates evenly cover the limits", vc.eq(list(r), lin(-vp.ddelta_max, vp.ddelta_max, k)))


@target("P24", "sampler limits", [K + "CommandsSampler.__init__", K + "CommandsSampler.update_params", K + "CommandsSamplerParam.__post_init__"], samples=300)
def h(vc):
    vp = C.veh_par(vc)
    a = [vc.real("a0", -15, 15), vc.real("a1", -15, 15)]
    r = [vc.real("r0", -3, 3), vc.real("r1", -3, 3)]
    ok = vc.And(vp.acc_limits[0] <= a[0], a[0] <= a[1], a[1] <= vp.acc_limits[1], -vp.ddelta_max <= r[0], r[0] <= r[1], r[1] <= vp.ddelta_max)
    p = CommandsSamplerParam(dt=Decimal("0.1"), n_steps=1, acc=(a[0], a[1], 2), steer_rate=(r[0], r[1], 2))
    try:
        s = CommandsSampler(p, dyn, vp)
    except (AssertionError, ValueError):
        vc.prove("only ranges outside the vehicle's limits are rejected", vc.Not(ok))
        return
    vc.prove("ranges outside the vehicle's limits are rejected", ok)
    good = CommandsSamplerParam(dt=Decimal("0.1"), n_steps=1, acc=(*vp.acc_limits, 2), steer_rate=(-vp.ddelta_max, vp.ddelta_max, 2))
    if vc.flag("sampled before"):
        s.generate_samples()
        s.generate(VehicleState(0, 0, 0, 0, 0))
    s.update_params(good)
    vc.prove("new parameters are used", vc.eq(list(s.generate_samples()[0]), list(vp.acc_limits)))
    bad = CommandsSamplerParam(dt=Decimal("0.1"), n_steps=1, acc=(vp.acc_limits[0] - 1, vp.acc_limits[1], 2), steer_rate=(0, 0, 2))
    vc.prove("bad new parameters are rejected", vc.raises((AssertionError, ValueError), lambda: s.update_params(bad)))


@target("P24", "command sampler", [K + "CommandsSampler.generate"], kind="bounded", bound="grids of up to 2 x 2 commands", samples=150)
def h(vc):
    vp = C.veh_par(vc)
    dt = vc.real("dt", lo=0.05, hi=1.0, kind="Decimal")
    n, k = vc.choice("n", [1, 2] if vc.symbolic else [1, 2, 5]), vc.choice("k", [1, 2] if vc.symbolic else [1, 3])
    x0 = C.mk(vc, VehicleState, "x0")
    old = vals(x0)
    q = CommandsSamplerParam.from_vehicle_parameters(dt=dt, n_steps=1, n_acc=n, n_steer_rate=k, vp=vp)
    if not vc.symbolic and vc.flag("sampled before"):  # the grid follows the parameters
        s = CommandsSampler(CommandsSamplerParam.from_vehicle_parameters(dt=Decimal("0.3"), n_steps=1, n_acc=3, n_steer_rate=2, vp=vp), dyn, vp)
        s.generate(C.mk(vc, VehicleState, "x0"))
        s.update_params(q)
    else:
        s = CommandsSampler(q, dyn, vp)
    got = s.generate(x0)
    from pyvc.shims import s_float_cls

    fdt = s_float_cls(dt)
    want = [([0, dt], [x0, dyn(x0, VehicleCommands(a, r), fdt)]) for a in lin(vp.acc_limits[0], vp.acc_limits[1], n)
            for r in lin(-vp.ddelta_max, vp.ddelta_max, k)]
    vc.prove("one step for each sampled command, following the dynamics", same_sets(vc, got, want))
    vc.prove("the given state is left alone", vc.eq(vals(x0), old))


# ------------------------------------------------------------------------------------------------ dynamics
def bike(vc):
    return BicycleDynamics(C.veh_geo(vc), C.veh_par(vc))


def rates(vc, b, x, acc, dd):
    L = b.vg.lf + b.vg.lr
    w = x.vx * vc.tan(x.delta) / L
    v = vc.rot(x.psi, (x.vx, w * b.vg.lr))
    return [v[0], v[1], w, acc, dd]


@target("P24", "rates of the bicycle", [D + "dynamics"], samples=200)
def h(vc):
    b, x = bike(vc), C.mk(vc, VehicleState, "x")
    u = VehicleCommands(vc.real("acc"), vc.real("dd"))
    vc.assume(vc.abs(x.delta) < 1.5)
    old = vals(x)
    r = b.dynamics(x, u)
    vc.prove("kinematic bicycle about the centre of gravity", vc.eq(vals(r), rates(vc, b, x, u.acc, u.ddelta)))
    vc.prove("arguments left alone", vc.eq(vals(x), old))


@target("P24", "Euler step", [D + "successor"], samples=300)
def h(vc):
    b, x = bike(vc), C.mk(vc, VehicleState, "x")
    u = VehicleCommands(vc.real("acc"), vc.real("dd"))
    dt = vc.pos("dt", typ=(0.01, 0.5), kind="Decimal" if vc.flag("dec") else "float")
    vc.assume(vc.abs(x.delta) < 1.5)
    old, oldu = vals(x), [u.acc, u.ddelta]
    r = b.successor(x, u, dt)
    from pyvc.shims import s_float_cls

    d = s_float_cls(dt)
    xx = VehicleState(*old)
    vp = b.vp
    e = [o + q * d for o, q in zip(old, rates(vc, b, xx, vc.clip(u.acc, *vp.acc_limits), vc.clip(u.ddelta, -vp.ddelta_max, vp.ddelta_max)))]
    vc.prove("pose one Euler step ahead", vc.eq(vals(r)[:3], e[:3]))
    vc.prove("speed one step of limited acceleration ahead, within its limits", vc.eq(r.vx, vc.clip(e[3], *vp.vx_limits)))
    vc.prove("steering one step of limited rate ahead, within its limits", vc.eq(r.delta, vc.clip(e[4], -vp.delta_max, vp.delta_max)))
    vc.prove("arguments left alone", vc.And(vc.eq(vals(x), old), vc.eq([u.acc, u.ddelta], oldu)))


@target("P24", "integrated step", [D + "successor_ivp"], kind="runtime", samples=120, bound="seeded states against fine Runge-Kutta steps")
def h(vc):
    b = bike(vc)
    x = VehicleState(x=vc.real("x"), y=vc.real("y"), psi=vc.angle("psi"), vx=vc.real("vx", -5, 15), delta=vc.real("delta", -0.7, 0.7))
    u = VehicleCommands(vc.real("acc", -4, 4), vc.real("dd", -0.5, 0.5))
    dt = vc.real("dt", 0.01, 0.3)
    old = vals(x)
    r = b.successor_ivp(x, u, Decimal(repr(dt)) if vc.flag("dec") else dt)
    y = np.array(old, float)
    f = lambda y: np.array(rates(vc, b, VehicleState(*[float(q) for q in y]), u.acc, u.ddelta), float)
    n = 20
    for _ in range(n):
        h_ = dt / n
        k1 = f(y); k2 = f(y + h_ / 2 * k1); k3 = f(y + h_ / 2 * k2); k4 = f(y + h_ * k3)
        y = y + h_ / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    vc.prove("the equations integrated over dt", vc.And(*[vc.close(a, c, 1e-3 * (1 + abs(c))) for a, c in zip(vals(r), y)]))
    vc.prove("arguments left alone", vc.eq(vals(x), old))


# ---------------------------------------------------------------------------- grids of any size, any number of steps
import z3
from . import useqs as U
from .useqs import L as W
from pyvc import dicts as DD


def _samples(vc, a, b, n):
    """sample j of n evenly spaced ones from a to b"""
    if vc.symbolic:
        one = bool(n == 1)
        return lambda j: a if one else a + (b - a) * W.Sym(W.I(j), "int") / (n - 1)
    return lambda j: a if n == 1 else a + (b - a) * j / (n - 1)


def _count(vc, name, most):
    return vc.int(name, 1, None, most=most)


@target("P24", "sampled grids, any size", [M + "MotionPrimitivesGenerator.generate_samples", K + "CommandsSampler.generate_samples",
                                           M + "MPGParam.from_vehicle_parameters", K + "CommandsSamplerParam.from_vehicle_parameters"], kind="loop", samples=100)
def h(vc):
    vp = C.veh_par(vc)
    dt = vc.real("dt", lo=0.05, hi=1.0, kind="Decimal")
    if vc.symbolic:
        import sys

        for m in (MotionPrimitivesGenerator, CommandsSampler):
            W.install(sys.modules[m.__module__])
    n, k, steps = _count(vc, "n", 6), _count(vc, "k", 6), _count(vc, "steps", 6)
    p = MPGParam.from_vehicle_parameters(dt=dt, n_steps=steps, n_vel=n, n_steer=k, vp=vp)
    vc.prove("step and horizon kept", vc.And(vc.eq(p.dt, dt), p.n_steps == steps))

    def covers(label, xs, a, b, n):
        if vc.symbolic:
            xs = W.as_seq(xs)
            W.prove(label + ": so many", [W.SBool(xs.n == W.I(n))])
        else:
            vc.prove(label + ": so many", len(xs) == n)
        want = _samples(vc, a, b, n)
        vc.forall(label, 0, n, lambda j: vc.eq(xs.get(W.I(j)) if vc.symbolic else xs[j], want(j)))

    if vc.flag("primitives"):
        v, s = MotionPrimitivesGenerator(p, dyn, vp).generate_samples()
        if vc.flag("first"):
            covers("speeds evenly cover the limits", v, vp.vx_limits[0], vp.vx_limits[1], n)
        else:
            covers("steering evenly covers the limits", s, -vp.delta_max, vp.delta_max, k)
    else:
        q = CommandsSamplerParam.from_vehicle_parameters(dt=dt, n_steps=1, n_acc=n, n_steer_rate=k, vp=vp)
        vc.prove("step kept", vc.And(vc.eq(q.dt, dt), q.n_steps == 1))
        a, r = CommandsSampler(q, dyn, vp).generate_samples()
        if vc.flag("first"):
            covers("accelerations evenly cover the limits", a, vp.acc_limits[0], vp.acc_limits[1], n)
        else:
            covers("steering rates evenly cover the limits", r, -vp.ddelta_max, vp.ddelta_max, k)


class _Sampled:
    """sampled speeds and steering angles (target "sampled grids"): any finite lists"""

    def __init__(self, vc, cls, names, most):
        self.n, self.m = _count(vc, "n", most), _count(vc, "k", 2)
        self.v, self.s = U.numbers(vc, names[0], self.n, typ=(-4.0, 4.0), pytype=list), U.numbers(vc, names[1], self.m, typ=(-0.5, 0.5), pytype=list)
        get = (lambda q, j: q.get(W.I(j))) if vc.symbolic else (lambda q, j: q[int(j)])
        self.V, self.S = (lambda j: get(self.v, j)), (lambda j: get(self.s, j))
        vc.patch_attr(cls, "generate_samples", lambda g: (self.v.copy_(), self.s.copy_()) if vc.symbolic else (np.array(self.v), np.array(self.s)))


def _flow(vc, names):
    """contract of the dynamics: some function of state, command and duration. f(..)(s): the state after s steps"""
    fs = [z3.Function(nm, *[z3.IntSort()] * 3, z3.RealSort()) for nm in names]
    return lambda k, l, s: VehicleState(*[W.Sym(f(W.I(k), W.I(l), W.I(s))) for f in fs])


def _same_state(vc, a, b):
    return vc.And(type(a) is VehicleState, type(b) is VehicleState, *[vc.eq(x, y) for x, y in zip(vals(a), vals(b))])


@target("P24", "motion primitives, any number of samples and steps", [M + "MotionPrimitivesGenerator.generate"], kind="loop", samples=100, budget=120)
def h(vc):
    """samples, feasibility of inputs and the dynamics behind their contracts"""
    vp = C.veh_par(vc)
    dt = vc.real("dt", lo=0.05, hi=1.0, kind="Decimal")
    steps = _count(vc, "steps", 4)
    g = MotionPrimitivesGenerator(MPGParam(dt, steps, (0, 1, 2), (0, 1, 2)), None, vp)
    sm = _Sampled(vc, MotionPrimitivesGenerator, "vs", 3)
    V, S = sm.V, sm.S
    given = vc.flag("given")
    x0 = C.mk(vc, VehicleState, "x0") if given else None
    old = vals(x0) if given else None
    from pyvc.shims import s_float_cls

    fdt = s_float_cls(dt)
    H = fdt * steps
    if not vc.symbolic:
        g.vehicle_dynamics = dyn
        got = g.generate(x0) if given else g.generate()
        want = []
        for v0 in ([x0.vx] if given else sm.v):
            for s0 in ([x0.delta] if given else sm.s):
                for v1 in sm.v:
                    for s1 in sm.s:
                        a, r = (v1 - v0) / H, (s1 - s0) / H
                        vc.margin((a, vp.acc_limits[0]), (a, vp.acc_limits[1]), (r, vp.ddelta_max), (r, -vp.ddelta_max))
                        if vp.acc_limits[0] <= a <= vp.acc_limits[1] and abs(r) <= vp.ddelta_max:
                            xs = [x0 if given else VehicleState(0, 0, 0, v0, s0)]
                            for _ in range(steps):
                                xs.append(dyn(xs[-1], VehicleCommands(a, r), fdt))
                            want.append(([i * dt for i in range(steps + 1)], xs))
        vc.prove("one primitive for each reachable sample, following the dynamics under constant inputs", same_sets(vc, got, want))
        return
    # the pairs of samples, in whatever order they are enumerated
    grid = DD.Grid(W.I(sm.n), W.I(sm.m))
    start = (lambda k: (x0.vx, x0.delta)) if given else (lambda k: (V(grid.a(k)), S(grid.b(k))))
    end = lambda l: (V(grid.a(l)), S(grid.b(l)))
    feas, fa, fr = [z3.Function(q, z3.IntSort(), z3.IntSort(), t) for q, t in (("feasible", z3.BoolSort()), ("acc", z3.RealSort()), ("rate", z3.RealSort()))]
    now = {}

    def check(self, v0, v1, s0, s1):
        k, l = now["k"], now["l"]
        a, b = start(k), end(l)
        vc.prove("from the start to the sampled end", vc.And(vc.eq(v0, a[0]), vc.eq(s0, a[1]), vc.eq(v1, b[0]), vc.eq(s1, b[1])))
        return (W.SBool(feas(k, l)), W.Sym(fa(k, l)), W.Sym(fr(k, l)))

    if "check_input_constraints" not in vars(MotionPrimitivesGenerator):
        raise Undecided("inputs are checked elsewhere")
    vc.patch_attr(MotionPrimitivesGenerator, "check_input_constraints", check)
    f = _flow(vc, ["fx", "fy", "fpsi", "fvx", "fdelta"])

    def state(k, l, s):
        """the state after s steps"""
        if given and z3.is_int_value(z3.simplify(W.I(s))) and z3.simplify(W.I(s)).as_long() == 0:
            return x0
        return f(k, l, s)

    def dynamics(x, u, d):
        k, l, s = now["k"], now["l"], now["s"]
        vc.prove("from the state before", _same_state(vc, x, f(k, l, s)))
        vc.prove("constant inputs over the step", vc.And(vc.eq(u.acc, W.Sym(fa(k, l))), vc.eq(u.ddelta, W.Sym(fr(k, l))), vc.eq(d, fdt)))
        return f(k, l, z3.simplify(W.I(s) + 1))

    g.vehicle_dynamics = dynamics
    # state 0: the given one, or standing at the origin with the sampled speed and steering angle
    def starts(k, l):
        a = start(k)
        want = [x0.x, x0.y, x0.psi, *a] if given else [0, 0, 0, *a]
        for p, q in zip(vals(f(k, l, 0)), want):
            vc.assume(vc.eq(p, q))

    times = lambda n: W.SSeq(n, lambda j: dt * W.Sym(W.I(j), "int"), list)
    states = lambda k, l, n: W.SSeq(n, lambda j: f(k, l, j), list)
    horizon = z3.simplify(W.I(steps) + 1)
    value = lambda k, l: U.make(times(horizon), states(k, l, horizon), VehicleState, cls=Trajectory)
    bag = lambda k, l=0: DD.Bag(lambda k, l: feas(k, l), value, grid.n, k, l)

    def outer(l, env):
        def inv(k, env):
            now["k"] = l.k if l.case == "step" else None
            return []
        return W.LoopSpec(vals={"motion_primitives": lambda k: bag(k)}, inv=inv)

    def inner(l, env):
        k = z3.IntVal(0) if given else now["k"]
        now["k"] = k

        def inv(q, env):
            if l.case == "step":
                now["l"] = l.k
                starts(k, l.k)
            return []
        return W.LoopSpec(vals={"motion_primitives": lambda q: bag(k, q)}, inv=inv)

    def along(l, env):
        k, q = now["k"], now["l"]

        def inv(s, env):
            now["s"] = l.k if l.case == "step" else None
            return []
        one = lambda s: z3.simplify(s + 1)
        return W.LoopSpec(vals={"timestamps": lambda s: times(one(s)), "states": lambda s: states(k, q, one(s)), "next_state": lambda s: f(k, q, s)}, inv=inv)

    U.constructor(vc)
    vc.loops(M + "MotionPrimitivesGenerator.generate", {0: outer, 1: inner, 2: along})
    got = g.generate(x0) if given else g.generate()
    if not isinstance(got, DD.Bag):
        raise Undecided("primitives are collected in another way")
    W.prove("one primitive for each reachable sample, following the dynamics under constant inputs", got.__vc_equal__(bag(1 if given else grid.n)))
    if given:
        vc.prove("the given state is left alone", vc.eq(vals(x0), old))


@target("P24", "command sampler, any number of samples", [K + "CommandsSampler.generate"], kind="loop", samples=100)
def h(vc):
    """samples and dynamics behind their contracts"""
    vp = C.veh_par(vc)
    dt = vc.real("dt", lo=0.05, hi=1.0, kind="Decimal")
    g = CommandsSampler(CommandsSamplerParam.from_vehicle_parameters(dt=dt, n_steps=1, n_acc=2, n_steer_rate=2, vp=vp), None, vp)
    sm = _Sampled(vc, CommandsSampler, "ar", 4)
    from pyvc.shims import s_float_cls

    fdt = s_float_cls(dt)
    x0 = C.mk(vc, VehicleState, "x0")
    old = vals(x0)
    if not vc.symbolic:
        g.vehicle_dynamics = dyn
        want = [([0, dt], [x0, dyn(x0, VehicleCommands(a, r), fdt)]) for a in sm.v for r in sm.s]
        vc.prove("one step for each sampled command, following the dynamics", same_sets(vc, g.generate(x0), want))
        vc.prove("the given state is left alone", vc.eq(vals(x0), old))
        return
    grid = DD.Grid(W.I(sm.n), W.I(sm.m))
    f = _flow(vc, ["fx", "fy", "fpsi", "fvx", "fdelta"])
    now = {}

    def dynamics(x, u, d):
        k = now["k"]
        vc.prove("from the given state", vc.And(type(x) is VehicleState, vc.eq(vals(x), old)))
        vc.prove("under the sampled command", vc.And(vc.eq(u.acc, sm.V(grid.a(k))), vc.eq(u.ddelta, sm.S(grid.b(k))), vc.eq(d, fdt)))
        return f(k, 0, 1)

    g.vehicle_dynamics = dynamics
    value = lambda k, l: U.make(W.as_seq([0 * dt, dt]), W.as_seq([x0, f(k, 0, 1)]), VehicleState, cls=Trajectory)
    bag = lambda k: DD.Bag(lambda k, l: z3.BoolVal(True), value, 1, k)

    def outer(l, env):
        def inv(k, env):
            now["k"] = l.k if l.case == "step" else None
            return []
        return W.LoopSpec(vals={"trajectories": lambda k: bag(k)}, inv=inv)

    U.constructor(vc)
    vc.loops(K + "CommandsSampler.generate", {0: outer})
    got = g.generate(x0)
    if not isinstance(got, DD.Bag):
        raise Undecided("trajectories are collected in another way")
    W.prove("one step for each sampled command, following the dynamics", got.__vc_equal__(bag(grid.n)))
    vc.prove("the given state is left alone", vc.eq(vals(x0), old))


@target("P24", "integrated step of the equations", [D + "successor_ivp"], samples=120)
def h(vc):
    """one call of the ODE solver (behind its contract: the solution of the given equations from the given start over the given time)"""
    from .p11_update import _probe

    b, x0 = bike(vc), C.mk(vc, VehicleState, "x0")
    u = VehicleCommands(vc.real("acc"), vc.real("dd"))
    dt = vc.pos("dt", typ=(0.01, 0.5), kind="Decimal" if vc.flag("dec") else "float")
    old, oldu = vals(x0), [u.acc, u.ddelta]
    ok = vc.flag("solved")
    rec = _probe(vc, b, 5, ok=ok)
    if not ok:
        vc.prove("a failed integration is reported", vc.raises(RuntimeError, lambda: b.successor_ivp(x0, u, dt)))
        return
    r = b.successor_ivp(x0, u, dt)
    if not rec:
        raise Undecided("integrated in another way")
    from pyvc.shims import s_float_cls

    t0, t1 = rec["t_span"]
    vc.prove("over the given time", vc.eq(t1 - t0, s_float_cls(dt) if vc.symbolic else float(dt)))
    vc.prove("from the given state", vc.eq(list(rec["y0"])[:5], old))
    vc.prove("to the solution", vc.eq(vals(r), rec["end"]))
    y = C.mk(vc, VehicleState, "y")
    vc.assume(vc.abs(y.delta) < 1.5)
    n = len(rec["y0"])
    # the command at any time on the way is the given one: it is either held in the solver's state or captured
    d = rec["fun"](vc.real("t", 0, 1), np.array(vals(y) + list(rec["y0"])[5:]))
    vc.prove("the equations of the bicycle with the given command", vc.eq(list(d)[:5], rates(vc, b, y, oldu[0], oldu[1])))
    vc.prove("the command is held", vc.eq(list(d)[5:], [0] * (n - 5)))
    vc.prove("arguments left alone", vc.And(vc.eq(vals(x0), old), vc.eq([u.acc, u.ddelta], oldu)))
