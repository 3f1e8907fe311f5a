"""P08 actuation limits"""
from types import SimpleNamespace as NS
from pyvc.vc import target
from dg_commons.sim.models import model_utils as MU, vehicle_utils as VU, pedestrian_utils as PU
from . import common as C

M = "dg_commons.sim.models.model_utils."


@target("P08", "apply_acceleration_limits", [M + "apply_acceleration_limits"])
def h(vc):
    p = NS(acc_limits=vc.limits("acc"), vx_limits=(-1.0, 1.0))
    a = vc.real("a")
    r = MU.apply_acceleration_limits(a, p)
    vc.prove("the applied value is the command clipped to the limits", vc.eq(r, vc.clip(a, *p.acc_limits)))


@target("P08", "apply_speed_constraint", [M + "apply_speed_constraint"])
def h(vc):
    p = NS(acc_limits=(-1.0, 1.0), vx_limits=vc.limits("vx"))
    v, a = vc.real("v"), vc.real("a")
    r = MU.apply_speed_constraint(v, a, p)
    push = vc.Or(vc.And(v <= p.vx_limits[0], a < 0), vc.And(v >= p.vx_limits[1], a > 0))
    vc.prove("a saturated speed is not pushed further", vc.Implies(push, vc.eq(r, 0)))
    vc.prove("otherwise unchanged", vc.Implies(vc.Not(push), vc.eq(r, a)))


@target("P08", "apply_full_acceleration_limits", [M + "apply_full_acceleration_limits"])
def h(vc):
    p = NS(acc_limits=vc.limits("acc"), vx_limits=vc.limits("vx"))
    v, a = vc.real("v"), vc.real("a")
    r = MU.apply_full_acceleration_limits(v, a, p)
    vc.prove("clip then speed constraint", vc.eq(r, C.limited(vc, v, a, p)))
    vc.prove("never above the upper bound of the speed", vc.Implies(v >= p.vx_limits[1], vc.le(r, 0)))
    vc.prove("never below the lower bound of the speed", vc.Implies(v <= p.vx_limits[0], vc.le(0, r)))
    vc.prove("within limits, or zero", vc.Or(vc.eq(r, 0), vc.And(vc.le(p.acc_limits[0], r), vc.le(r, p.acc_limits[1]))))


@target("P08", "apply_rot_speed_constraint", [M + "apply_rot_speed_constraint"])
def h(vc):
    p = NS(dpsi_limits=vc.limits("dpsi"))
    w, dw = vc.real("w"), vc.real("dw")
    r = MU.apply_rot_speed_constraint(w, dw, p)
    vc.prove("rotation saturation", vc.eq(r, C.rot_acc(vc, w, dw, p.dpsi_limits)))


@target("P08", "apply_force_limits", [M + "apply_force_limits"])
def h(vc):
    lim = vc.limits("F")
    f = vc.real("f")
    r = MU.apply_force_limits(f, lim)
    vc.prove("clipped force", vc.eq(r, vc.clip(f, *lim)))


@target("P08", "apply_ang_vel_limits", [M + "apply_ang_vel_limits", M + "apply_ang_constraint", M + "apply_full_ang_vel_limits"])
def h(vc):
    p = NS(ddelta_limits=vc.limits("ddelta"), delta_limits=vc.limits("delta"))
    a, d = vc.real("a"), vc.real("d")
    vc.prove("rate clipped", vc.eq(MU.apply_ang_vel_limits(d, p), vc.clip(d, *p.ddelta_limits)))
    vc.prove("saturated angle", vc.eq(MU.apply_ang_constraint(a, d, p), C.rot_acc(vc, a, d, p.delta_limits)))
    vc.prove("rate clipped and saturated", vc.eq(MU.apply_full_ang_vel_limits(a, d, p), C.nozzle_rate(vc, a, d, p)))


@target("P08", "steering_constraint", ["dg_commons.sim.models.vehicle_utils.steering_constraint"])
def h(vc):
    p = C.veh_par(vc)
    a, d = vc.real("a", typ=(-1.5, 1.5)), vc.real("d", typ=(-2.0, 2.0))
    r = VU.steering_constraint(a, d, p)
    vc.prove("steering rate", vc.eq(r, C.steer_rate(vc, a, d, p)))
    vc.prove("rate bound", vc.And(vc.le(-p.ddelta_max, r), vc.le(r, p.ddelta_max)))


@target("P08", "rotation_constraint", ["dg_commons.sim.models.pedestrian_utils.rotation_constraint"])
def h(vc):
    p = C.ped_par(vc)
    d = vc.real("d")
    vc.prove("turning rate clipped", vc.eq(PU.rotation_constraint(d, p), vc.clip(d, -p.dtheta_max, p.dtheta_max)))


def _dyn_limits(name):
    build, X, U, _, path = C.MODELS[name]

    @target("P08", f"limits in the dynamics of {name}", [path + ".dynamics"], feas_ms=500)
    def h(vc):
        m = build(vc)
        x, u = m._state, C.mk(vc, U, "u")
        d = m.dynamics(x, u)
        if name == "vehicle":
            vc.prove("acceleration", vc.eq(d.vx, C.limited(vc, x.vx, u.acc, m.vp)))
            vc.prove("steering rate", vc.eq(d.delta, C.steer_rate(vc, x.delta, u.ddelta, m.vp)))
        elif name == "pedestrian":
            vc.prove("acceleration", vc.eq(d.vx, C.limited(vc, x.vx, u.acc, m.pp)))
            vc.prove("turning rate", vc.eq(d.psi, vc.clip(u.dpsi, -m.pp.dtheta_max, m.pp.dtheta_max)))
        elif name == "diffdrive":
            top = m.vg.wheelradius * vc.max(vc.abs(m.vp.omega_limits[0]), vc.abs(m.vp.omega_limits[1]))
            vc.prove("wheel rates bound the speed", vc.le(d.x * d.x + d.y * d.y, top * top))
            vc.prove("in-limit commands act unchanged", vc.Implies(
                vc.And(m.vp.omega_limits[0] <= u.omega_l, u.omega_l <= m.vp.omega_limits[1],
                       m.vp.omega_limits[0] <= u.omega_r, u.omega_r <= m.vp.omega_limits[1]),
                vc.eq(d.psi * m.vg.wheelbase, m.vg.wheelradius * (u.omega_r - u.omega_l))))
        elif name == "spacecraft":
            l, r = [vc.clip(a, *m.sp.acc_limits) for a in (u.acc_left, u.acc_right)]
            vc.prove("thrusters clipped", vc.eq(d.vx - x.vy * x.dpsi, l + r))
            vc.prove("rotation saturation", vc.eq(d.dpsi, C.rot_acc(vc, x.dpsi, m.sg.w_half * m.sg.m * (r - l) / m.sg.Iz, m.sp.dpsi_limits)))
        elif name == "rocket":
            l, r = [vc.clip(a, *m.rp.F_limits) for a in (u.F_left, u.F_right)]
            e = x.m <= m.rp.m_v
            vc.prove("forces clipped, none without fuel", vc.eq(d.m, vc.If(e, 0, -m.rp.C_T * (l + r))))
            vc.prove("nozzle rate", vc.eq(d.phi, C.nozzle_rate(vc, x.phi, u.dphi, m.rp)))
        elif name == "spaceship":
            F = vc.clip(u.thrust, *m.sp.thrust_limits)
            vc.prove("thrust clipped, none without fuel", vc.eq(d.m, vc.If(x.m <= m.sp.m_v, 0, -m.sp.C_T * F)))
            vc.prove("nozzle rate", vc.eq(d.delta, C.nozzle_rate(vc, x.delta, u.ddelta, m.sp)))
        elif name == "dynobstacle":
            vc.prove("acceleration x", vc.eq(d.vx, C.limited(vc, x.vx, u.acc_x + x.dpsi * x.vy, m.op)))
            vc.prove("acceleration y", vc.eq(d.vy, C.limited(vc, x.vy, u.acc_y - x.dpsi * x.vx, m.op)))
            vc.prove("rotation", vc.eq(d.dpsi, C.rot_acc(vc, x.dpsi, u.acc_psi, m.op.dpsi_limits)))


for _n in C.MODELS:
    if _n != "vehicle_dyn":
        _dyn_limits(_n)


@target("P08", "parameters are validated", ["dg_commons.sim.models.model_structures.ModelParameters.__post_init__",
                                            "dg_commons.sim.models.vehicle_utils.VehicleParameters.__post_init__"])
def h(vc):
    a, b, c, d, e, f = [vc.real(n) for n in "abcdef"]
    ok = vc.And(a < b, c < d, e > 0, f > 0)
    bad = vc.raises((AssertionError, ValueError), lambda: VU.VehicleParameters((a, b), (c, d), e, f))
    vc.prove("rejected iff ill-formed", vc.Iff(ok, not bad))
