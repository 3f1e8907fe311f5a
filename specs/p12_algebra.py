"""P12 state and command algebra"""
import numpy as np
from dataclasses import fields
from pyvc.vc import target
from . import common as C
from dg_commons.sim.models.vehicle_ligths import LightsCmd

CLASSES = [C.VehicleState, C.VehicleStateDyn, C.PedestrianState, C.DiffDriveState, C.SpacecraftState, C.RocketState,
           C.SpaceshipState, C.DynObstacleState, C.VehicleCommands, C.PedestrianCommands, C.DiffDriveCommands,
           C.SpacecraftCommands, C.RocketCommands, C.SpaceshipCommands, C.DynObstacleCommands]


def _t(cls):
    q = f"{cls.__module__}.{cls.__name__}."
    names = C.state_names(cls)
    n = len(names)
    numeric = [f.name for f in fields(cls) if f.name not in ("lights", "idx")]

    @target("P12", f"algebra of {cls.__name__}", [q + m for m in ("__add__", "__sub__", "__mul__", "__truediv__")], samples=120)
    def h(vc):
        a, b = C.mk(vc, cls, "a"), C.mk(vc, cls, "b")
        k = vc.real("k")
        va, vb = C.get(a, names), C.get(b, names)
        vc.prove("every numeric field is indexed", sorted(numeric) == sorted(names))
        for label, r, spec in (
            ("sum", a + b, [x + y for x, y in zip(va, vb)]),
            ("difference", a - b, [x - y for x, y in zip(va, vb)]),
            ("product", a * k, [x * k for x in va]),
            ("product from the left", k * a, [x * k for x in va]),
        ):
            vc.prove(label, vc.eq(C.get(r, names), spec))
            vc.prove(label + ": type", type(r) is cls)
        vc.prove("operands are left alone", vc.And(vc.eq(C.get(a, names), va), vc.eq(C.get(b, names), vb)))
        if cls is C.VehicleCommands:
            a = C.VehicleCommands(a.acc, a.ddelta, lights=LightsCmd("turn_left"))
            vc.prove("lights survive", (a + b).lights == (a * k).lights == a.lights)
        vc.assume(vc.Or(k > 0.001, k < -0.001))
        vc.prove("quotient", vc.eq([x * k for x in C.get(a / k, names)], va))

    @target("P12", f"arrays of {cls.__name__}", [q + "as_ndarray", q + "from_array"], samples=120)
    def h(vc):
        a = C.mk(vc, cls, "a")
        va = C.get(a, names)
        z = a.as_ndarray()
        vc.prove("shape", tuple(z.shape) == (n,))
        vc.prove("array layout follows the index", vc.And(*[vc.eq(z[cls.idx[m]], getattr(a, m)) for m in names]))
        vc.prove("index is a bijection onto positions", sorted(cls.idx.values()) == list(range(n)))
        b = cls.from_array(z)
        vc.prove("from_array inverts as_ndarray", vc.And(type(b) is cls, vc.eq(C.get(b, names), va)))
        w = vc.vec("w", n=n)
        vc.prove("as_ndarray inverts from_array", vc.eq(list(cls.from_array(w).as_ndarray()), list(w)))
        cnt = cls.get_n_states() if hasattr(cls, "get_n_states") else cls.get_n_commands()
        vc.prove("declared size", cnt == n)
        bad = vc.choice("size", [n - 1, n + 1, 0])
        vc.prove("wrong size is rejected", vc.raises((AssertionError, ValueError), lambda: cls.from_array(np.zeros(bad))))

    other = C.DiffDriveState(1.0, 2.0, 3.0) if cls is not C.DiffDriveState else C.DiffDriveCommands(1.0, 2.0)

    @target("P12", f"adding another type to {cls.__name__}", [q + "__add__"], samples=10)
    def h(vc):
        a = C.mk(vc, cls, "a")
        vc.prove("no silent mixing", vc.raises((NotImplementedError, TypeError), lambda: a + other))
        vc.prove("no silent mixing with numbers", vc.raises((NotImplementedError, TypeError), lambda: a + 1.0))


for _c in CLASSES:
    _t(_c)


@target("P12", "projection of the dynamic vehicle state", ["dg_commons.sim.models.vehicle_dynamic.VehicleStateDyn.to_vehicle_state"])
def h(vc):
    a = C.mk(vc, C.VehicleStateDyn, "a")
    r = a.to_vehicle_state()
    vc.prove("projection", vc.And(type(r) is C.VehicleState, vc.eq((r.x, r.y, r.psi, r.vx, r.delta), (a.x, a.y, a.psi, a.vx, a.delta))))


@target("P12", "linearity used by interpolation", ["dg_commons.sim.models.vehicle.VehicleState.__mul__"])
def h(vc):
    cls = vc.choice("cls", [c for c in CLASSES if c is not C.VehicleCommands])
    a, s = C.mk(vc, cls, "a"), vc.real("s", 0, 1)
    r = a * (1 - s) + a * s
    vc.prove("convex combination of equal states", vc.eq(C.get(r, C.state_names(cls)), C.get(a, C.state_names(cls))))
