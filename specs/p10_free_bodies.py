"""P10 dynamics of pedestrians, spacecraft, rockets, spaceships and dynamic obstacles"""
from pyvc.vc import target
from . import common as C


def _t(name):
    build, X, U, spec, path = C.MODELS[name]

    @target("P10", f"dynamics of {name}", [path + ".dynamics"], budget=90)
    def h(vc):
        C.use_limits(vc)
        m = build(vc)
        if name == "pedestrian":
            m.has_collided = vc.flag("collided")
        x, u = m._state, C.mk(vc, U, "u")
        names = C.state_names(X)
        before = C.get(x, names)
        ub = C.get(u, C.state_names(U))
        d = m.dynamics(x, u)
        vc.prove("type", type(d) is X)
        for k, v in spec(vc, m, x, u).items():
            vc.prove(f"d{k}/dt", vc.eq(getattr(d, k), v))
        vc.prove("frame: state and commands are left alone",
                 vc.And(vc.eq(before, C.get(m._state, names)), vc.eq(ub, C.get(u, C.state_names(U)))))

    if name in ("rocket", "spaceship"):

        @target("P10", f"no thrust without fuel: {name}", [path + ".dynamics"])
        def h(vc):
            C.use_limits(vc)
            m = build(vc)
            x, u = m._state, C.mk(vc, U, "u")
            p = m.rp if name == "rocket" else m.sp
            vc.assume(x.m <= p.m_v)
            d = m.dynamics(x, u)
            vc.prove("no fuel is burnt", vc.eq(d.m, 0))
            vc.prove("no angular acceleration", vc.eq(d.dpsi, 0))
            if name == "rocket":
                vc.prove("no linear acceleration", vc.eq((d.vx, d.vy), (0, 0)))
            else:
                # body-frame velocity: the inertial acceleration vanishes
                vc.prove("no linear acceleration", vc.eq((d.vx - x.dpsi * x.vy, d.vy + x.dpsi * x.vx), (0, 0)))

        @target("P10", f"fuel never grows: {name}", [path + ".dynamics"])
        def h(vc):
            C.use_limits(vc)
            m = build(vc)
            x, u = m._state, C.mk(vc, U, "u")
            p = m.rp if name == "rocket" else m.sp
            vc.assume((p.F_limits if name == "rocket" else p.thrust_limits)[0] >= 0)
            d = m.dynamics(x, u)
            vc.prove("mass does not increase", vc.le(d.m, 0))


for _n in ("pedestrian", "spacecraft", "rocket", "spaceship", "dynobstacle"):
    _t(_n)
