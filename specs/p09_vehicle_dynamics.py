"""P09 wheeled vehicle dynamics (kinematic bicycle, dynamic single track, tyres, differential drive)"""
import math
from pyvc.vc import target
from dg_commons.sim.models import Pacejka, Pacejka4p
from dg_commons.sim.models.model_structures import TwoWheelsTypes
from dg_commons.sim.models.utils import G
from . import common as C

P = "dg_commons.sim.models."


def same(vc, d, spec, label):
    for k, v in spec.items():
        vc.prove(f"{label}: d{k}/dt", vc.eq(getattr(d, k), v))


@target("P09", "kinematic bicycle", [P + "vehicle.VehicleModel.dynamics"])
def h(vc):
    C.use_limits(vc)
    m = C.vehicle(vc)
    x, u = m._state, C.mk(vc, C.VehicleCommands, "u")
    before = C.get(x, C.state_names(type(x)))
    d = m.dynamics(x, u)
    same(vc, d, C.d_vehicle(vc, m, x, u), "bicycle")
    vc.prove("frame: the state is left alone", vc.eq(before, C.get(m._state, C.state_names(type(x)))))
    vc.prove("type", type(d) is C.VehicleState)
    # the rear axle does not slip sideways
    vc.prove("no lateral slip of the rear axle",
             vc.eq(-vc.sin(x.psi) * d.x + vc.cos(x.psi) * d.y, m.vg.lr * d.psi))


@target("P09", "differential drive", [P + "diff_drive.DiffDriveModel.dynamics", P + "diff_drive.DiffDriveState.__mul__"])
def h(vc):
    m = C.diffdrive(vc)
    x, u = m._state, C.mk(vc, C.DiffDriveCommands, "u")
    d = m.dynamics(x, u)
    same(vc, d, C.d_diffdrive(vc, m, x, u), "unicycle")
    vc.prove("rolls along its heading", vc.eq(-vc.sin(x.psi) * d.x + vc.cos(x.psi) * d.y, 0))


@target("P09", "Pacejka tyre curves", [P + "tires.Pacejka.evaluate", P + "tires.Pacejka4p.evaluate"])
def h(vc):
    B, Cc, D, E = vc.pos("B"), vc.pos("C", typ=(1.0, 2.5)), vc.pos("D", typ=(0.5, 1.2)), vc.real("E", 0, 1)
    s = vc.real("slip", typ=(-1.5, 1.5))
    r = Pacejka(B, Cc, D).evaluate(s)
    vc.prove("magic formula", vc.eq(r, D * vc.sin(Cc * vc.atan(B * s))))
    vc.prove("friction bounded by the peak", vc.And(vc.le(r, D), vc.le(-D, r)))
    r4 = Pacejka4p(B, Cc, D, E).evaluate(s)
    vc.prove("magic formula with curvature",
             vc.eq(r4, D * vc.sin(Cc * vc.atan(B * s - E * (B * s - E * vc.atan(B * s))))))
    vc.prove("friction bounded by the peak (4p)", vc.And(vc.le(r4, D), vc.le(-D, r4)))


@target("P09", "acceleration split", [P + "vehicle_dynamic.VehicleModelDyn.get_acceleration_split"])
def h(vc):
    m = C.vehicle_dyn(vc, vtype=vc.choice("type", [C.CAR, C.BICYCLE]))
    F = vc.real("F", typ=(-5000.0, 5000.0))
    a, b = m.get_acceleration_split(F)
    vc.prove("the split conserves the force", vc.eq(a + b, F))
    vc.prove("each axle has the sign of the force", vc.And(vc.le(0, a * F), vc.le(0, b * F)))
    vc.prove("braking puts 60% on the front axle", vc.Implies(F < 0, vc.eq(a, F * 0.6)))
    vc.prove("driving is split evenly", vc.Implies(F > 0, vc.eq(a, F * 0.5)))


@target("P09", "friction after a collision", [P + "vehicle_dynamic.VehicleModelDyn.get_extra_collision_friction_acc",
                                               P + "pedestrian.PedestrianModel.get_extra_collision_friction_acc"])
def h(vc):
    two = vc.flag("two_wheels")
    m = C.vehicle_dyn(vc, vtype=C.BICYCLE if two else C.CAR)
    m.has_collided = vc.flag("collided")
    f = m.get_extra_collision_friction_acc()
    s = m._state
    k = (3.0 if two else 1.0) if m.has_collided else 0
    vc.prove("viscous friction after a collision only", vc.eq(list(f), [-k * s.vx, -k * s.vy, -k * s.dpsi]))
    p = C.pedestrian(vc)
    p.has_collided = m.has_collided
    f, s = p.get_extra_collision_friction_acc(), p._state
    k = 2.0 if p.has_collided else 0
    vc.prove("pedestrian: viscous friction after a collision only", vc.eq(list(f), [-k * s.vx, -k * s.vy, -k * s.dpsi]))


@target("P09", "single track at low speed", [P + "vehicle_dynamic.VehicleModelDyn.dynamics"])
def h(vc):
    C.use_limits(vc)
    m = C.vehicle_dyn(vc, C.mk(vc, C.VehicleStateDyn, "x", vx=vc.real("vx", hi=0.1, hi_open=True, typ=(-5.0, 0.0999))))
    m.has_collided = vc.flag("collided")
    x, u = m._state, C.mk(vc, C.VehicleCommands, "u")
    d = m.dynamics(x, u)
    s = C.d_vehicle(vc, m, x, u)
    fx, fy, fp = (-x.vx, -x.vy, -x.dpsi) if m.has_collided else (0, 0, 0)
    s.update(vx=s["vx"] + fx, vy=fy, dpsi=fp)
    same(vc, d, s, "kinematic model plus friction")


@target("P09", "single track dynamics", [P + "vehicle_dynamic.VehicleModelDyn.dynamics"], prove_ms=10000, budget=110,
        ctime=30)
def h(vc):
    m = C.vehicle_dyn(vc, C.mk(vc, C.VehicleStateDyn, "x", vx=vc.real("vx", lo=0.1, typ=(0.1, 30.0)), delta=vc.real("delta", -1, 1)),
                      vtype=C.BICYCLE if vc.flag("two") else C.CAR)
    m.has_collided = vc.flag("collided")
    vg, x, u = m.vg, m._state, C.mk(vc, C.VehicleCommands, "u")
    # callee contracts: proved in P08 / in the other targets of P09
    acc = vc.real("applied_acc", typ=(-9.0, 9.0))
    dd = vc.real("applied_ddelta", typ=(-1.0, 1.0))
    import dg_commons.sim.models.vehicle_dynamic as VD

    seen = {}
    n1 = vc.patch(VD.apply_full_acceleration_limits, lambda speed, acceleration, p: (seen.update(a=(speed, acceleration, p)), acc)[1])
    n2 = vc.patch(VD.steering_constraint, lambda a, b, p: (seen.update(s=(a, b, p)), dd)[1])
    # both axles are loaded and the front tyre moves forward
    vc.assume(vc.And(vg.h_cog * acc < G * vg.lr, -vg.h_cog * acc < G * vg.lf))
    sd, cd = vc.sin(x.delta), vc.cos(x.delta)
    v1x = cd * x.vx + sd * (x.vy + vg.lf * x.dpsi)
    v1y = -sd * x.vx + cd * (x.vy + vg.lf * x.dpsi)
    vc.assume(v1x > 0.01)
    d = m.dynamics(x, u)
    ft, rt = m.pacejka_front, m.pacejka_rear
    if "a" not in seen or "s" not in seen or ft.slip is None or rt.slip is None:
        from pyvc.vc import Undecided

        raise Undecided("limit functions or tyre curves are reached another way")
    vc.prove("limits asked at the current speed and angle",
             vc.And(vc.eq(seen["a"][:2], (x.vx, u.acc)), vc.eq(seen["s"][:2], (x.delta, u.ddelta))))
    vc.prove("front slip angle", vc.eq(vc.tan(ft.slip) * v1x, v1y))
    vc.prove("rear slip angle", vc.eq(vc.tan(rt.slip) * x.vx, x.vy - vg.lr * x.dpsi))
    L = vg.lf + vg.lr
    # vertical loads (downwards negative): static distribution plus longitudinal load transfer
    N1 = -vg.m * (G * vg.lr - vg.h_cog * acc) / L
    N2 = -vg.m * (G * vg.lf + vg.h_cog * acc) / L
    vc.prove("the axles carry the weight", vc.eq(N1 + N2, -vg.m * G))
    A1, A2 = m.get_acceleration_split(vg.m * acc)
    Y1, Y2 = ft.D * ft.s * N1, rt.D * rt.s * N2  # lateral tyre forces
    X1 = (A1 + vg.c_rr_f * N1) * vc.sqrt(1 - ft.s * ft.s)  # what the friction circle leaves for the longitudinal ones
    X2 = (A2 + vg.c_rr_r * N2) * vc.sqrt(1 - rt.s * rt.s)
    Fx1, Fy1 = cd * X1 - sd * Y1, sd * X1 + cd * Y1
    k = (3.0 if m.model_type in TwoWheelsTypes else 1.0) if m.has_collided else 0
    v = C.planar(vc, x)
    vc.prove("position", vc.eq((d.x, d.y, d.psi), (v[0], v[1], x.dpsi)))
    vc.prove("steering", vc.eq(d.delta, dd))
    vc.prove("yaw: moments of the lateral forces", vc.eq((d.dpsi + k * x.dpsi) * vg.Iz, Fy1 * vg.lf - Y2 * vg.lr))
    vc.prove("lateral acceleration", vc.eq((d.vy + k * x.vy + x.dpsi * x.vx) * vg.m, Fy1 + Y2))
    drag = (d.vx + k * x.vx - x.dpsi * x.vy) * vg.m - (Fx1 + X2)
    vc.prove("drag opposes the motion", vc.le(drag, 0))
    vc.prove("drag of the documented size", vc.eq(drag, -0.5 * x.vx * vg.a_drag * vg.c_drag * 1.249512**2))


@target("P09", "single track dynamics with its tyres", [P + "vehicle_dynamic.VehicleModelDyn.dynamics"], kind="runtime", samples=400,
        bound="seeded samples of default cars, trucks and bicycles with their Pacejka tyres")
def h(vc):
    kind = vc.choice("kind", ["default_car", "default_truck", "default_bicycle"])
    x = C.mk(vc, C.VehicleStateDyn, "x", vx=vc.real("vx", 0.1, 25), vy=vc.real("vy", -2, 2), dpsi=vc.real("dpsi", -1, 1),
             delta=vc.real("delta", -0.8, 0.8))
    m = getattr(C.VehicleModelDyn, kind)(x)
    vg = m.vg
    u = C.VehicleCommands(acc=vc.real("acc", -10, 10), ddelta=vc.real("ddelta", -1, 1))
    v1 = (x.vx, x.vy + vg.lf * x.dpsi)
    v1x, v1y = math.cos(x.delta) * v1[0] + math.sin(x.delta) * v1[1], -math.sin(x.delta) * v1[0] + math.cos(x.delta) * v1[1]
    vc.assume(v1x > 0.05)
    d = m.dynamics(x, u)
    acc = C.limited(vc, x.vx, u.acc, m.vp)
    L = vg.lf + vg.lr
    N1 = -vg.m * (G * vg.lr - vg.h_cog * acc) / L
    N2 = -vg.m * (G * vg.lf + vg.h_cog * acc) / L

    def mf(t, a):
        if not hasattr(t, "E"):
            return t.D * math.sin(t.C * math.atan(t.B * a))
        return t.D * math.sin(t.C * math.atan(t.B * a - t.E * (t.B * a - t.E * math.atan(t.B * a))))

    mu1 = mf(m.pacejka_front, math.atan(v1y / v1x))
    mu2 = mf(m.pacejka_rear, math.atan((x.vy - vg.lr * x.dpsi) / x.vx))
    Y1, Y2 = mu1 * N1, mu2 * N2
    w = 0.6 if acc <= 0 else 0.5
    X1 = (vg.m * acc * w + vg.c_rr_f * N1) * math.sqrt(max(0, 1 - (mu1 / m.pacejka_front.D) ** 2))
    X2 = (vg.m * acc * (1 - w) + vg.c_rr_r * N2) * math.sqrt(max(0, 1 - (mu2 / m.pacejka_rear.D) ** 2))
    Fx1 = math.cos(x.delta) * X1 - math.sin(x.delta) * Y1
    Fy1 = math.sin(x.delta) * X1 + math.cos(x.delta) * Y1
    drag = 0.5 * x.vx * vg.a_drag * vg.c_drag * 1.249512**2
    vc.prove("longitudinal", vc.eq(d.vx, (Fx1 + X2 - drag) / vg.m + x.dpsi * x.vy, 1e-5))
    vc.prove("lateral", vc.eq(d.vy, (Fy1 + Y2) / vg.m - x.dpsi * x.vx, 1e-5))
    vc.prove("yaw", vc.eq(d.dpsi, (Fy1 * vg.lf - Y2 * vg.lr) / vg.Iz, 1e-5))
