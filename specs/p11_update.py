"""P11 update: one simulation step of a model integrates its equations of motion with the commands held"""
from decimal import Decimal
from types import SimpleNamespace as NS
import copy
import numpy as np
from pyvc.vc import target, Undecided
from dg_commons.sim.models.model_structures import CAR, TRUCK, BICYCLE, MOTORCYCLE
from dg_commons.dynamics.bicycle_dynamic import BicycleDynamics
from . import common as C
from .common import *

MODULE = {"vehicle_dyn": "vehicle"}


def _probe(vc, m, n, ok=True):
    """the solver's contract: y(t_end) is some vector whose constant components stay"""
    import importlib

    rec = {}
    end = [vc.real(f"end{i}", typ=(-5.0, 5.0)) for i in range(n)]

    def solve(fun, t_span, y0, *a, **k):
        if rec:
            raise Undecided("several integrations")
        rec.update(fun=fun, t_span=t_span, y0=y0, end=end)
        y = np.array([[y0[i], end[i] if i < n else y0[i]] for i in range(len(y0))])
        return NS(success=ok, y=y, t=np.array([t_span[0], t_span[1]]), status=0 if ok else -1, message="", nfev=1)

    from scipy.integrate import solve_ivp

    if not vc.patch(solve_ivp, solve):
        raise Undecided("solve_ivp is not used")
    return rec


def _expected(m, u, zero):
    if m.has_collided and not getattr(m, "_plain", False):
        return zero
    return u


def _coasts(name, m):
    """who ignores commands after a collision"""
    if name in ("vehicle", "vehicle_dyn"):
        return m.vg.vehicle_type != CAR
    return name != "dynobstacle"


for _name in C.MODELS:
    build, X, U, spec, path = C.MODELS[_name]

    @target("P11", f"one step: {_name}", [path + ".update"], feas_ms=300, samples=150)
    def h(vc, name=_name, build=build, X=X, U=U):
        C.use_limits(vc)
        names, unames = C.state_names(X), C.state_names(U)
        if name.startswith("vehicle"):
            m = build(vc, vtype=vc.choice("type", [CAR, TRUCK, BICYCLE, MOTORCYCLE]))
        else:
            m = build(vc)
        m.has_collided = vc.flag("collided")
        x0, u0 = m._state, C.mk(vc, U, "u")
        v0, w0 = C.get(x0, names), C.get(u0, unames)
        n = len(names)
        dt = vc.pos("dt", typ=(0.001, 0.5), kind="Decimal")
        calls = []
        if name == "vehicle_dyn":  # the dynamics enter as an arbitrary function of state and commands (its contract is P09)
            d = C.mk(vc, X, "d")

            def dyn(self, x0, u):
                calls.append((C.get(x0, names), C.get(u, unames)))
                return copy.copy(d)

            vc.patch_attr(type(m), "dynamics", dyn)
        rec = _probe(vc, m, n)
        m.update(u0, dt)
        if not rec:
            raise Undecided("solve_ivp is not used")
        vc.prove("from now over exactly dt", vc.eq(tuple(rec["t_span"]), (0.0, _f(vc, dt))))
        vc.prove("starts at the current state", vc.eq(list(rec["y0"][:n]), v0))
        vc.prove("ends at the solution", vc.eq(C.get(m._state, names), rec["end"]))
        vc.prove("keeps the state type", type(m._state) is X)
        vc.prove("commands are left alone", vc.eq(C.get(u0, unames), w0))
        # the right-hand side at any state on the way
        y = C.mk(vc, X, "y")
        yv = C.get(y, names)
        col = bool(m.has_collided)
        r = rec["fun"](vc.real("t", 0, 1), np.array(yv + list(rec["y0"][n:])))
        hold = U(**{k: 0 if col and _coasts(name, m) else getattr(u0, k) for k in unames})
        vc.prove("commands are held", vc.eq(list(r[n:]), [0] * (len(r) - n)))
        if name == "vehicle_dyn":
            if not calls:
                raise Undecided("dynamics evaluated elsewhere")
            vc.prove("state and commands seen by the dynamics", vc.eq(calls[-1], (yv, C.get(hold, unames))))
            vc.prove("right-hand side is the dynamics", vc.eq(list(r[:n]), C.get(d, names)))
        else:
            d = m.dynamics(X(**dict(zip(names, yv))), hold)
            vc.prove("right-hand side is the dynamics", vc.eq(list(r[:n]), C.get(d, names)))
        vc.prove("collision flag is kept", bool(m.has_collided) == col)

    @target("P11", f"failed integration: {_name}", [path + ".update"], samples=20, feas_ms=300)
    def h(vc, name=_name, build=build, X=X, U=U):
        C.use_limits(vc)
        m = build(vc)
        names = C.state_names(X)
        v0 = C.get(m._state, names)
        rec = _probe(vc, m, len(names), ok=False)
        vc.prove("reported", vc.raises(RuntimeError, lambda: m.update(C.mk(vc, U, "u"), Decimal("0.1"))))
        vc.prove("state is kept", vc.eq(C.get(m._state, names), v0))


def _f(vc, dt):
    if vc.symbolic:
        from pyvc.shims import s_float_cls

        return s_float_cls(dt)
    return float(dt)


DEFAULT = {
    "vehicle": lambda x: VehicleModel.default_car(x), "vehicle_dyn": lambda x: VehicleModelDyn.default_car(x),
    "pedestrian": lambda x: PedestrianModel.default(x), "diffdrive": lambda x: DiffDriveModel.default(x),
    "spacecraft": lambda x: SpacecraftModel.default(x), "rocket": lambda x: RocketModel.default(x),
    "spaceship": lambda x: SpaceshipModel.default(x),
    "dynobstacle": lambda x: DynObstacleModel(x, C.SQUARE, C.ObstacleGeometry(m=5, Iz=4, e=0.3),
                                              C.DynObstacleParameters(vx_limits=(-20, 20), acc_limits=(-10, 10))),
}


@target("P11", "step against tight integration", ["dg_commons.sim.models.*.update"], kind="runtime", samples=250,
        bound="seeded states, commands, steps up to 0.2 s; all models")
def h(vc):
    from scipy.integrate import solve_ivp

    name = vc.choice("model", sorted(C.MODELS))
    build, X, U, spec, path = C.MODELS[name]
    names, unames = C.state_names(X), C.state_names(U)
    R = {"vx": (-8, 12), "vy": (-2, 2), "dpsi": (-1, 1), "delta": (-0.3, 0.3), "phi": (-0.5, 0.5), "m": (2.2, 4), "psi": (-3, 3)}
    if name == "vehicle_dyn":
        R.update(vx=(3, 15), vy=(-0.3, 0.3), dpsi=(-0.3, 0.3), delta=(-0.05, 0.05))
    x = X(**{k: vc.real("x." + k, *R.get(k, (-50, 50))) for k in names})
    m = DEFAULT[name](x)
    m.has_collided = vc.flag("collided")
    u = U(**{k: vc.real("u." + k, -4, 4) for k in unames})
    hold = U(**{k: 0.0 if m.has_collided and _coasts(name, m) else getattr(u, k) for k in unames})
    v0, w0 = np.array(C.get(m._state, names), float), C.get(u, unames)
    tiny = vc.choice("step", ["usual", "usual", "usual", "tiny"]) == "tiny"
    dt = Decimal(vc.choice("tiny dt", ["0.0005", "0.0002", "0.00001"])) if tiny else Decimal(str(round(vc.real("dt", 0.005, 0.2), 3)))
    vc.assume(dt > 0)
    m2 = copy.deepcopy(m)

    def rhs(t, y):
        return np.array(C.get(m2.dynamics(X(**dict(zip(names, y))), hold), names), float)

    ref = solve_ivp(rhs, (0, float(dt)), v0, max_step=float(dt) / 60)
    vc.assume(ref.success)
    keep = m._state
    m.update(u, dt)
    end = np.array(C.get(m._state, names), float)
    if tiny:  # the first order says it all
        vc.prove("the step follows the equations of motion", bool(np.all(np.abs(end - ref.y[:, -1]) <= 0.3 * np.abs(ref.y[:, -1] - v0) + 1e-8 * (1 + np.abs(v0)))))
    tol = 3e-2 * (1 + np.abs(ref.y[:, -1] - v0)) + 2e-3 * np.abs(v0)
    vc.prove("the step follows the equations of motion", bool(np.all(np.abs(end - ref.y[:, -1]) <= tol)))
    vc.prove("the previous state object is not written", vc.eq(C.get(keep, names), list(v0)))
    vc.prove("commands are left alone", vc.eq(C.get(u, unames), w0))


@target("P11", "states handed out are copies", ["dg_commons.sim.simulator_structures.SimModel.get_state", "dg_commons.sim.simulator_structures.SimModel.set_state"], samples=60)
def h(vc):
    name = vc.choice("model", sorted(C.MODELS))
    build, X, U, spec, path = C.MODELS[name]
    names = C.state_names(X)
    m = build(vc)
    v0 = C.get(m._state, names)
    s = m.get_state()
    vc.prove("the state of the model", vc.And(type(s) is X, vc.eq(C.get(s, names), v0)))
    for k in names:
        setattr(s, k, getattr(s, k) + 1)
    vc.prove("writing to it does not reach the model", vc.eq(C.get(m.get_state(), names), v0))
    y = C.mk(vc, X, "y")
    m.set_state(y)
    vc.prove("set state is the state", vc.eq(C.get(m.get_state(), names), C.get(y, names)))
