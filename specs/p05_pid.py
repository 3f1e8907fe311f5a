"""P05 PID controllers stay within their bounds and follow the PID law"""
import math
from pyvc.vc import target, Undecided
from dg_commons.controllers.pid import PID, PIDParam
from dg_commons.controllers import pid as PM
from dg_commons.controllers.speed import SpeedController, SpeedControllerParam
from dg_commons.controllers.steer import SteerController, SteerControllerParam
from . import common as C

K = "dg_commons.controllers."


def params(vc, cls=PIDParam):
    return cls(kP=vc.real("kP", typ=(-5.0, 5.0)), kI=vc.real("kI", typ=(-2.0, 2.0)), kD=vc.real("kD", typ=(-2.0, 2.0)),
               antiwindup=vc.limits("aw", typ=(-5.0, 0.0)), setpoint_minmax=vc.limits("sp", typ=(-10.0, 0.0)),
               output_minmax=vc.limits("out", typ=(-10.0, 0.0)))


def law(vc, p, ref, meas, integral, last_p, dt):
    """one step of the documented controller: (output, new integral, error)"""
    e = ref - meas
    i = vc.clip(integral + p.kI * e * dt, *p.antiwindup)
    d = vc.If(vc.eq(dt, 0) if vc.symbolic else dt == 0, 0, (e - last_p) / (vc.If(vc.eq(dt, 0), 1, dt) if vc.symbolic else (dt or 1)))
    return vc.clip(p.kP * e + i + p.kD * d, *p.output_minmax), i, e


def check_step(vc, c, p, ref, meas, at, integral, last_p, dt):
    c.update_measurement(meas)
    c.update_reference(ref)
    sp = vc.clip(ref, *p.setpoint_minmax)
    u = c.get_control(at)
    exp, i, e = law(vc, p, sp, meas, integral, last_p, dt)
    vc.prove("the output respects its bounds", vc.And(vc.le(p.output_minmax[0], u), vc.le(u, p.output_minmax[1])))
    vc.prove("PID law on the clipped set point", vc.eq(u, exp, 1e-5))
    return i, e


@target("P05", "one step from any state", [K + "pid.PID.get_control", K + "pid.PID.update_reference", K + "pid.PID.update_measurement"],
        prove_ms=8000, budget=90)
def h(vc):
    p = params(vc)
    c = PID(p)
    integral, last = vc.real("integral"), vc.real("last_error")
    if not all(hasattr(c, a) for a in ("last_integral_error", "last_proportional_error", "last_request_at")):
        raise Undecided("controller state has other names")
    first = vc.flag("first")
    at = vc.real("at", typ=(0.0, 50.0))
    if first:
        dt = 0
        # the state a new controller starts from
        i0, l0 = c.last_integral_error, c.last_proportional_error
        vc.prove("a new controller has no history", vc.And(vc.eq(i0, 0), vc.eq(l0, 0)))
    else:
        dt = vc.real("dt", lo=0, typ=(0.0, 2.0))
        vc.assume(vc.And(p.antiwindup[0] <= integral, integral <= p.antiwindup[1]))
        c.last_integral_error, c.last_proportional_error, c.last_request_at = integral, last, at - dt
        i0, l0 = integral, last
        if not vc.symbolic:
            dt = at - (at - dt)
            vc.assume(dt == 0 or dt > 1e-3)
    i, e = check_step(vc, c, p, vc.real("ref"), vc.real("meas"), at, i0, l0, dt)
    vc.prove("invariant: the integral stays within the anti-windup bounds",
             vc.And(vc.le(p.antiwindup[0], c.last_integral_error), vc.le(c.last_integral_error, p.antiwindup[1])))
    vc.prove("next state", vc.eq((c.last_integral_error, c.last_proportional_error, c.last_request_at), (i, e, at), 1e-5))


@target("P05", "histories of three requests", [K + "pid.PID.get_control"], kind="runtime", bound="seeded histories of 4 requests (the induction step above covers all)", samples=400)
def h(vc):
    p = params(vc)
    c = PID(p)
    i, e, t, prev = 0, 0, vc.real("t0", 0, typ=(0.0, 5.0)), None
    for k in range(4):
        dt = 0 if prev is None else t - prev
        i, e = check_step(vc, c, p, vc.real(f"ref{k}"), vc.real(f"meas{k}"), t, i, e, dt)
        prev = t
        t = t + (0 if vc.flag(f"again{k}") else vc.real(f"dt{k}", 0.01, 3))


def _veh(name, cls, pcls, mk, sp, out, par):
    @target("P05", f"{name} built from model parameters", [K + f"{name.split('_')[0]}.{cls.__name__}.from_vehicle_params", K + f"{name.split('_')[0]}.{pcls.__name__}.from_vehicle_params"],
            samples=200, feas_ms=400)
    def h(vc):
        vp = par(vc)
        c = cls.from_vehicle_params(vp)
        vc.prove("limits are those of the vehicle", vc.And(vc.eq(c.params.setpoint_minmax, sp(vp)), vc.eq(c.params.output_minmax, out(vp))))
        q = pcls.from_vehicle_params(vp)
        vc.prove("limits are those of the vehicle (parameters)", vc.And(vc.eq(q.setpoint_minmax, sp(vp)), vc.eq(q.output_minmax, out(vp))))
        vc.prove("types", type(c) is cls and type(q) is pcls and type(c.params) is pcls)
        c.update_reference(vc.real("ref"))
        c.update_measurement(vc.real("meas"))
        u = c.get_control(vc.real("t", 0))
        lo, hi = out(vp)
        vc.prove("never commands beyond what the vehicle can do", vc.And(vc.le(lo, u), vc.le(u, hi)))
        d = cls(params=None)
        vc.prove("default parameters", type(d.params) is pcls)
        e = cls(q)
        vc.prove("given parameters are used", e.params is q)


_veh("speed", SpeedController, SpeedControllerParam, None, lambda p: p.vx_limits, lambda p: p.acc_limits, C.veh_par)
_veh("speed_pedestrian", SpeedController, SpeedControllerParam, None, lambda p: p.vx_limits, lambda p: p.acc_limits, C.ped_par)
_veh("steer", SteerController, SteerControllerParam, None, lambda p: (-p.delta_max, p.delta_max), lambda p: (-p.ddelta_max, p.ddelta_max), C.veh_par)


@target("P05", "inverted bounds are rejected", [K + "pid.PIDParam.__post_init__"])
def h(vc):
    b = [(vc.real(f"lo{i}"), vc.real(f"hi{i}")) for i in range(3)]
    ok = vc.And(*[x < y for x, y in b])
    bad = vc.raises((AssertionError, ValueError), lambda: PIDParam(1.0, 1.0, 1.0, antiwindup=b[0], setpoint_minmax=b[1], output_minmax=b[2]))
    vc.prove("rejected iff inverted or empty", vc.Iff(ok, not bad))
