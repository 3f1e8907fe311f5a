"""Symbolic construction of the models, and their specification functions (written from the documentation)."""
from dataclasses import fields
from shapely.geometry import Polygon
import numpy as np
from dg_commons.sim.models.vehicle import VehicleModel, VehicleState, VehicleCommands
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn, VehicleStateDyn
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from dg_commons.sim.models.pedestrian import PedestrianModel, PedestrianState, PedestrianCommands, PedestrianGeometry
from dg_commons.sim.models.pedestrian_utils import PedestrianParameters
from dg_commons.sim.models.diff_drive import DiffDriveModel, DiffDriveState, DiffDriveCommands
from dg_commons.sim.models.diff_drive_structures import DiffDriveGeometry, DiffDriveParameters
from dg_commons.sim.models.spacecraft import SpacecraftModel, SpacecraftState, SpacecraftCommands
from dg_commons.sim.models.spacecraft_structures import SpacecraftGeometry, SpacecraftParameters
from dg_commons.sim.models.rocket import RocketModel, RocketState, RocketCommands
from dg_commons.sim.models.rocket_structures import RocketGeometry, RocketParameters
from dg_commons.sim.models.spaceship import SpaceshipModel, SpaceshipState, SpaceshipCommands
from dg_commons.sim.models.spaceship_structures import SpaceshipGeometry, SpaceshipParameters
from dg_commons.sim.models.obstacles_dyn import DynObstacleModel, DynObstacleState, DynObstacleCommands
from dg_commons.sim.models.obstacles import ObstacleGeometry, DynObstacleParameters
from dg_commons.sim.models.model_structures import CAR, TRUCK, BICYCLE, MOTORCYCLE

ANGLES = {"psi", "delta", "phi"}
SQUARE = Polygon([(-1, -1), (-1, 1), (1, 1), (1, -1)])


def state_names(cls):
    return sorted(cls.idx, key=lambda k: cls.idx[k])


def mk(vc, cls, prefix, **fixed):
    """an arbitrary state/commands object"""
    kw = {}
    for n in state_names(cls):
        if n in fixed:
            kw[n] = fixed[n]
        elif n in ANGLES:
            kw[n] = vc.angle(f"{prefix}.{n}")
        elif n == "m":
            kw[n] = vc.pos(f"{prefix}.m", typ=(0.5, 6.0))
        else:
            kw[n] = vc.real(f"{prefix}.{n}", typ=(-20.0, 20.0))
    return cls(**kw)


def get(s, names):
    return [getattr(s, n) for n in names]


def limited(vc, speed, acc, p):
    """specification of the acceleration actually applied at a given speed"""
    a = vc.clip(acc, p.acc_limits[0], p.acc_limits[1])
    push = vc.Or(vc.And(speed <= p.vx_limits[0], a < 0), vc.And(speed >= p.vx_limits[1], a > 0))
    return vc.If(push, 0, a)


def steer_rate(vc, delta, ddelta, p):
    push = vc.Or(vc.And(delta <= -p.delta_max, ddelta < 0), vc.And(delta >= p.delta_max, ddelta > 0))
    return vc.If(push, 0, vc.clip(ddelta, -p.ddelta_max, p.ddelta_max))


def nozzle_rate(vc, ang, dang, p):
    d = vc.clip(dang, p.ddelta_limits[0], p.ddelta_limits[1])
    push = vc.Or(vc.And(ang <= p.delta_limits[0], d < 0), vc.And(ang >= p.delta_limits[1], d > 0))
    return vc.If(push, 0, d)


def rot_acc(vc, w, dw, lim):
    push = vc.Or(vc.And(w <= lim[0], dw < 0), vc.And(w >= lim[1], dw > 0))
    return vc.If(push, 0, dw)


def planar(vc, x):
    """body velocity (vx, vy) expressed in the global frame"""
    return vc.rot(x.psi, (x.vx, x.vy))


# ------------------------------------------------------------------------------------------ builders
def model(vc, cls, x, *args):
    """a model in state x, often one that has been used before"""
    m = vc.again(cls.__name__, lambda: cls(x, *args), args)
    if not vc.symbolic:
        if m.get_state() != x:
            m.set_state(x)
        m.has_collided = False
    return m


def veh_geo(vc, vtype=CAR, prefix="vg"):
    return VehicleGeometry(
        m=vc.pos(prefix + ".m", typ=(50.0, 3000.0)), Iz=vc.pos(prefix + ".Iz", typ=(50.0, 3000.0)), e=0.5, color="red",
        vehicle_type=vtype, w_half=vc.pos(prefix + ".w_half", typ=(0.2, 2.0)), lf=vc.pos(prefix + ".lf", typ=(0.5, 4.0)),
        lr=vc.pos(prefix + ".lr", typ=(0.5, 4.0)), c_drag=vc.pos(prefix + ".c_drag", typ=(0.01, 1.0)),
        a_drag=vc.pos(prefix + ".a_drag", typ=(0.1, 5.0)), c_rr_f=vc.pos(prefix + ".c_rr_f", typ=(0.001, 0.01)),
        c_rr_r=vc.pos(prefix + ".c_rr_r", typ=(0.001, 0.01)), h_cog=vc.pos(prefix + ".h_cog", typ=(0.1, 0.5)))


def veh_par(vc, prefix="vp"):
    return VehicleParameters(vx_limits=vc.limits(prefix + ".vx"), acc_limits=vc.limits(prefix + ".acc", typ=(-9.0, 0.0)),
                             delta_max=vc.pos(prefix + ".delta_max", typ=(0.1, 1.2)),
                             ddelta_max=vc.pos(prefix + ".ddelta_max", typ=(0.1, 2.0)))


def vehicle(vc, x=None, vtype=CAR):
    x = x or mk(vc, VehicleState, "x")
    return model(vc, VehicleModel, x, veh_geo(vc, vtype), veh_par(vc))


def ped_par(vc):
    return PedestrianParameters(vx_limits=vc.limits("pp.vx"), acc_limits=vc.limits("pp.acc"),
                                dtheta_max=vc.pos("pp.dtheta_max", typ=(0.1, 4.0)))


def pedestrian(vc, x=None):
    x = x or mk(vc, PedestrianState, "x")
    return model(vc, PedestrianModel, x, PedestrianGeometry.default(), ped_par(vc))


def diffdrive(vc, x=None):
    x = x or mk(vc, DiffDriveState, "x")
    g = DiffDriveGeometry.default(wheelbase=vc.pos("g.wheelbase", typ=(0.2, 3.0)),
                                  wheelradius=vc.pos("g.wheelradius", typ=(0.05, 1.0)))
    return model(vc, DiffDriveModel, x, g, DiffDriveParameters.default(omega_limits=vc.limits("omega")))


def spacecraft(vc, x=None):
    x = x or mk(vc, SpacecraftState, "x")
    g = SpacecraftGeometry.default(m=vc.pos("g.m"), Iz=vc.pos("g.Iz"), w_half=vc.pos("g.w_half", typ=(0.2, 3.0)))
    p = SpacecraftParameters(vx_limits=vc.limits("sp.vx"), acc_limits=vc.limits("sp.acc"), dpsi_limits=vc.limits("sp.dpsi"))
    return model(vc, SpacecraftModel, x, g, p)


def rocket(vc, x=None):
    x = x or mk(vc, RocketState, "x")
    g = RocketGeometry.default(Iz=vc.pos("g.Iz", typ=(0.2, 5.0)), l_m=vc.pos("g.l_m", typ=(0.1, 2.0)))
    p = RocketParameters.default(m_v=vc.pos("p.m_v", typ=(0.5, 4.0)), C_T=vc.pos("p.C_T", typ=(0.001, 0.1)),
                                 F_limits=vc.limits("p.F", typ=(0.0, 2.0)), delta_limits=vc.limits("p.delta", typ=(-1.5, -0.1)),
                                 ddelta_limits=vc.limits("p.ddelta", typ=(-1.0, -0.1)))
    return model(vc, RocketModel, x, g, p)


def spaceship(vc, x=None):
    x = x or mk(vc, SpaceshipState, "x")
    g = SpaceshipGeometry.default(Iz=vc.pos("g.Iz", typ=(0.2, 5.0)), l_r=vc.pos("g.l_r", typ=(0.1, 2.0)))
    p = SpaceshipParameters.default(m_v=vc.pos("p.m_v", typ=(0.5, 4.0)), C_T=vc.pos("p.C_T", typ=(0.001, 0.1)),
                                    thrust_limits=vc.limits("p.F", typ=(-2.0, 1.0)),
                                    delta_limits=vc.limits("p.delta", typ=(-1.5, -0.1)),
                                    ddelta_limits=vc.limits("p.ddelta", typ=(-1.0, -0.1)))
    return model(vc, SpaceshipModel, x, g, p)


def dynobs(vc, x=None):
    x = x or mk(vc, DynObstacleState, "x")
    p = DynObstacleParameters(vx_limits=vc.limits("op.vx"), acc_limits=vc.limits("op.acc"), dpsi_limits=vc.limits("op.dpsi"))
    return model(vc, DynObstacleModel, x, SQUARE, ObstacleGeometry(m=vc.pos("og.m"), Iz=vc.pos("og.Iz"), e=0.3), p)


class Tyre:
    """contract of a tyre curve: the friction used never exceeds its peak D (Pacejka.evaluate's own contract, P09)"""

    def __init__(self, vc, name):
        self.D = vc.pos(name + ".D", typ=(0.5, 1.5))
        self.s = vc.real(name + ".s", -1, 1)
        self.slip = None

    def __eq__(self, o):
        return type(o) is Tyre and (self.D, self.s) == (o.D, o.s)

    __hash__ = None

    def evaluate(self, slip):
        self.slip = slip
        return self.D * self.s


def vehicle_dyn(vc, x=None, vtype=CAR, tyres=True):
    x = x or mk(vc, VehicleStateDyn, "x")
    f, r = Tyre(vc, "front"), Tyre(vc, "rear")
    return model(vc, VehicleModelDyn, x, veh_geo(vc, vtype), veh_par(vc), f, r)


# ------------------------------------------------------------------------------------------ derivative specifications
def d_vehicle(vc, m, x, u):
    g = m.vg
    dpsi = x.vx * vc.tan(x.delta) / (g.lf + g.lr)
    v = vc.rot(x.psi, (x.vx, dpsi * g.lr))
    return dict(x=v[0], y=v[1], psi=dpsi, vx=limited(vc, x.vx, u.acc, m.vp), delta=steer_rate(vc, x.delta, u.ddelta, m.vp))


def d_pedestrian(vc, m, x, u):
    v = planar(vc, x)
    k = -2.0 if m.has_collided else 0
    return dict(x=v[0], y=v[1], psi=vc.clip(u.dpsi, -m.pp.dtheta_max, m.pp.dtheta_max),
                vx=limited(vc, x.vx, u.acc, m.pp) + k * x.vx, vy=k * x.vy, dpsi=k * x.dpsi)


def d_diffdrive(vc, m, x, u):
    l = vc.clip(u.omega_l, *m.vp.omega_limits)
    r = vc.clip(u.omega_r, *m.vp.omega_limits)
    R = m.vg.wheelradius
    v = R * (l + r) / 2
    return dict(x=v * vc.cos(x.psi), y=v * vc.sin(x.psi), psi=R * (r - l) / m.vg.wheelbase)


def d_spacecraft(vc, m, x, u):
    l = vc.clip(u.acc_left, *m.sp.acc_limits)
    r = vc.clip(u.acc_right, *m.sp.acc_limits)
    v = planar(vc, x)
    dd = m.sg.w_half * m.sg.m * (r - l) / m.sg.Iz
    return dict(x=v[0], y=v[1], psi=x.dpsi, vx=l + r + x.vy * x.dpsi, vy=-x.vx * x.dpsi,
                dpsi=rot_acc(vc, x.dpsi, dd, m.sp.dpsi_limits))


def d_rocket(vc, m, x, u):
    p = m.rp
    empty = x.m <= p.m_v
    l = vc.If(empty, 0, vc.clip(u.F_left, *p.F_limits))
    r = vc.If(empty, 0, vc.clip(u.F_right, *p.F_limits))
    s, c = vc.sin, vc.cos
    return dict(x=x.vx, y=x.vy, psi=x.dpsi,
                vx=(s(x.phi + x.psi) * l + s(x.phi - x.psi) * r) / x.m,
                vy=(-c(x.phi + x.psi) * l + c(x.phi - x.psi) * r) / x.m,
                dpsi=m.rg.l_m * c(x.phi) * (r - l) / m.rg.Iz, phi=nozzle_rate(vc, x.phi, u.dphi, p), m=-p.C_T * (l + r))


def d_spaceship(vc, m, x, u):
    p = m.sp
    F = vc.If(x.m <= p.m_v, 0, vc.clip(u.thrust, *p.thrust_limits))
    v = planar(vc, x)
    s, c = vc.sin(x.delta), vc.cos(x.delta)
    return dict(x=v[0], y=v[1], psi=x.dpsi, vx=c * F / x.m + x.dpsi * x.vy, vy=s * F / x.m - x.dpsi * x.vx,
                dpsi=-m.rg.l_r * s * F / m.rg.Iz, delta=nozzle_rate(vc, x.delta, u.ddelta, p), m=-p.C_T * F)


def d_dynobs(vc, m, x, u):
    v = planar(vc, x)
    return dict(x=v[0], y=v[1], psi=x.dpsi, vx=limited(vc, x.vx, u.acc_x + x.dpsi * x.vy, m.op),
                vy=limited(vc, x.vy, u.acc_y - x.dpsi * x.vx, m.op), dpsi=rot_acc(vc, x.dpsi, u.acc_psi, m.op.dpsi_limits))


B = "dg_commons.sim.models."
MODELS = {
    "vehicle": (vehicle, VehicleState, VehicleCommands, d_vehicle, B + "vehicle.VehicleModel"),
    "pedestrian": (pedestrian, PedestrianState, PedestrianCommands, d_pedestrian, B + "pedestrian.PedestrianModel"),
    "diffdrive": (diffdrive, DiffDriveState, DiffDriveCommands, d_diffdrive, B + "diff_drive.DiffDriveModel"),
    "spacecraft": (spacecraft, SpacecraftState, SpacecraftCommands, d_spacecraft, B + "spacecraft.SpacecraftModel"),
    "rocket": (rocket, RocketState, RocketCommands, d_rocket, B + "rocket.RocketModel"),
    "spaceship": (spaceship, SpaceshipState, SpaceshipCommands, d_spaceship, B + "spaceship.SpaceshipModel"),
    "dynobstacle": (dynobs, DynObstacleState, DynObstacleCommands, d_dynobs, B + "obstacles_dyn.DynObstacleModel"),
    "vehicle_dyn": (vehicle_dyn, VehicleStateDyn, VehicleCommands, None, B + "vehicle_dynamic.VehicleModelDyn"),
}


def use_limits(vc):
    """the limit functions through their contracts (proved in P08)"""
    U = B + "model_utils."
    vc.use(U + "apply_full_acceleration_limits", lambda v, a, p: limited(vc, v, a, p))
    vc.use(U + "apply_acceleration_limits", lambda a, p: vc.clip(a, *p.acc_limits))
    vc.use(U + "apply_rot_speed_constraint", lambda w, dw, p: rot_acc(vc, w, dw, p.dpsi_limits))
    vc.use(U + "apply_force_limits", lambda f, lim: vc.clip(f, *lim))
    vc.use(U + "apply_full_ang_vel_limits", lambda a, d, p: nozzle_rate(vc, a, d, p))
    vc.use(B + "vehicle_utils.steering_constraint", lambda a, d, p: steer_rate(vc, a, d, p))
    vc.use(B + "pedestrian_utils.rotation_constraint", lambda d, p: vc.clip(d, -p.dtheta_max, p.dtheta_max))
