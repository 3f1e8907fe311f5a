"""P13 velocities and poses of the models"""
import numpy as np
from pyvc.vc import target
from . import common as C

DYN = ["vehicle_dyn", "pedestrian", "spacecraft", "rocket", "spaceship", "dynobstacle"]
POSE = ("x", "y", "psi")


def _t(name):
    build, X, U, spec, path = C.MODELS[name]
    names = C.state_names(X)

    @target("P13", f"set then get velocity: {name}", [path + ".set_velocity", path + ".get_velocity"])
    def h(vc):
        m = build(vc)
        before = C.get(m._state, names)
        v, w = vc.vec("v"), vc.real("w")
        f1 = vc.flag("set_in_body")
        v0 = list(v)
        m.set_velocity(v, w, f1)
        for f2 in (True, False):
            r, wr = m.get_velocity(f2)
            psi = m._state.psi
            exp = v0 if f1 == f2 else (vc.rot(-psi, v0) if f2 else vc.rot(psi, v0))
            vc.prove(f"velocity read back in the {'body' if f2 else 'global'} frame", vc.eq(list(r), list(exp)))
            vc.prove("rotation read back", vc.eq(wr, w))
        for n, b in zip(names, before):
            if n not in ("vx", "vy", "dpsi"):
                vc.prove(f"frame: {n} unchanged", vc.eq(getattr(m._state, n), b))
        vc.prove("argument left alone", vc.eq(list(v), v0))

    @target("P13", f"velocity is the rate of change of the pose: {name}", [path + ".get_velocity", path + ".dynamics"])
    def h(vc):
        m = build(vc)
        x = m._state
        if name == "vehicle_dyn":
            vb, w = m.get_velocity(True)
            vc.prove("body components", vc.eq((vb[0], vb[1], w), (x.vx, x.vy, x.dpsi)))
            return
        before = C.get(x, names)
        vg, w = m.get_velocity(False)
        vb, w2 = m.get_velocity(True)
        vc.prove("reading does not write", vc.eq(before, C.get(m._state, names)))
        d = m.dynamics(x, C.mk(vc, U, "u"))
        vc.prove("global velocity is the time derivative of the position", vc.eq(list(vg), (d.x, d.y)))
        vc.prove("body and global agree", vc.And(vc.eq(list(vc.rot(x.psi, vb)), list(vg)), vc.eq(w, w2)))
        if name != "pedestrian":
            vc.prove("rotation is the time derivative of the heading", vc.eq(w, d.psi))

    @target("P13", f"pose: {name}", [path + ".get_pose"])
    def h(vc):
        m = build(vc)
        x = m._state
        q = m.get_pose()
        s, c = vc.sin(x.psi), vc.cos(x.psi)
        vc.prove("pose matrix", vc.eq(q, np.array([[c, -s, x.x], [s, c, x.y], [0, 0, 1]])))


for _n in DYN:
    _t(_n)


@target("P13", "kinematic bicycle velocity", [C.B + "vehicle.VehicleModel.get_velocity", C.B + "vehicle.VehicleModel.set_velocity"])
def h(vc):
    m = C.vehicle(vc)
    x = m._state
    names = C.state_names(C.VehicleState)
    vb, w = m.get_velocity(True)
    vg, w2 = m.get_velocity(False)
    d = m.dynamics(x, C.mk(vc, C.VehicleCommands, "u"))
    vc.prove("global velocity is the time derivative of the position", vc.eq(list(vg), (d.x, d.y)))
    vc.prove("rotation is the time derivative of the heading", vc.And(vc.eq(w, d.psi), vc.eq(w2, d.psi)))
    vc.prove("body and global agree", vc.eq(list(vc.rot(x.psi, vb)), list(vg)))
    before = C.get(x, names)
    f = vc.flag("body")
    v = vc.vec("v")
    v0 = list(v)
    m.set_velocity(v, vc.real("w"), f)
    along = v0[0] if f else vc.cos(x.psi) * v0[0] + vc.sin(x.psi) * v0[1]
    vc.prove("the longitudinal component is set", vc.eq(m._state.vx, along))
    for n, b in zip(names, before):
        if n != "vx":
            vc.prove(f"frame: {n} unchanged", vc.eq(getattr(m._state, n), b))


@target("P13", "poses of the kinematic models", [C.B + "vehicle.VehicleModel.get_pose", C.B + "diff_drive.DiffDriveModel.get_pose",
                                                  "dg_commons.sim.models.utils.extract_pose_from_state"])
def h(vc):
    from dg_commons.sim.models.utils import extract_pose_from_state, extract_2d_position_from_state, extract_vel_from_state

    m = vc.choice("m", [C.vehicle, C.diffdrive])(vc)
    x = m._state
    s, c = vc.sin(x.psi), vc.cos(x.psi)
    M = np.array([[c, -s, x.x], [s, c, x.y], [0, 0, 1]])
    vc.prove("pose matrix", vc.eq(m.get_pose(), M))
    vc.prove("pose from state", vc.eq(extract_pose_from_state(x), M))
    vc.prove("position from state", vc.eq(list(extract_2d_position_from_state(x)), (x.x, x.y)))
    if hasattr(x, "vx"):
        vc.prove("speed from state", vc.eq(extract_vel_from_state(x), x.vx))
