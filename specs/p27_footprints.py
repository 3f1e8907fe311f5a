"""P27 bodies in the plane: outlines, footprints, meshes, wheels, thrusters and lights"""
import math
from types import SimpleNamespace as NS
import numpy as np
from shapely.geometry import Polygon, Point
from shapely.ops import unary_union
from pyvc.vc import target, Undecided
from dg_commons import geo
from dg_commons.geo import apply_SE2_to_shapely_geo
from dg_commons.sim import IMPACT_EVERYWHERE, IMPACT_FRONT, IMPACT_BACK, IMPACT_LEFT, IMPACT_RIGHT
from dg_commons.sim.models.vehicle_ligths import *
from dg_commons.sim.models import vehicle_ligths as vl
from dg_commons.sim.models.model_structures import CAR, TRUCK, BICYCLE, MOTORCYCLE
from . import common as C

B = "dg_commons.sim.models."
TYPES = {CAR: (0.1, 0.3), TRUCK: (0.2, 0.4), BICYCLE: (0.05, 0.3), MOTORCYCLE: (0.05, 0.3)}


def geometry_of(m):
    g = m.model_geometry
    return m.shape if hasattr(m, "shape") else g.outline_as_polygon


def at(vc, pose, p):
    r = vc.rot(pose[2], p)
    return [pose[0] + r[0], pose[1] + r[1]]


def fresh(vc, kind):
    """the model with plain default geometry and an arbitrary state"""
    make, scls = C.MODELS[kind][:2]
    x, y, psi = vc.real("px"), vc.real("py"), vc.angle("ppsi")
    st = C.mk(vc, scls, "x", x=x, y=y, psi=psi)
    cls = type(make(vc))
    if kind == "dynobstacle":
        m = make(vc, st)
    else:
        m = getattr(cls, "default_car" if kind.startswith("vehicle") else "default")(st)
    return m, (x, y, psi)


def footprint(kind):
    @target("P27", f"footprint follows the pose: {kind}", [C.MODELS[kind][4] + ".get_footprint", C.MODELS[kind][4] + ".get_pose"], samples=40)
    def h(vc):
        m, pose = fresh(vc, kind)
        base = geometry_of(m)
        if vc.symbolic:
            seen = []

            def place(g, q):
                seen.append((g, q))
                return g

            if not vc.patch(apply_SE2_to_shapely_geo, place):
                raise Undecided("footprints are placed in another way")
            m.get_footprint()
            if len(seen) != 1:
                raise Undecided("footprints are placed in another way")
            g, q = seen[0]
            vc.prove("its own outline", g.equals(base))
            vc.prove("placed at the pose", vc.eq([[q[i, j] for j in range(3)] for i in (0, 1)],
                                                 [[vc.cos(pose[2]), -vc.sin(pose[2]), pose[0]], [vc.sin(pose[2]), vc.cos(pose[2]), pose[1]]]))
            return
        for again in range(2):
            f = m.get_footprint()
            want = Polygon([at(vc, pose, p) for p in base.exterior.coords])
            vc.prove("the outline at the pose", f.symmetric_difference(want).area <= 1e-9 * max(1, want.area))
            vc.prove("of the same shape", abs(f.area - base.area) < 1e-7)
            # moving on moves the footprint along
            pose = (pose[0] + 1.5, pose[1] - 0.5, pose[2] + 1.0)
            s = m._state
            s.x, s.y, s.psi = pose


def mesh(kind):
    @target("P27", f"impact mesh: {kind}", [C.MODELS[kind][4] + ".get_mesh"], kind="runtime", samples=40, bound="seeded states and geometries")
    def h(vc):
        if kind in ("vehicle", "vehicle_dyn"):
            m = C.MODELS[kind][0](vc, vtype=vc.choice("type", list(TYPES)))
            pose = (m._state.x, m._state.y, m._state.psi)
        else:
            m, pose = fresh(vc, kind)
        f = m.get_footprint()
        parts = m.get_mesh()
        vc.prove("parts are shapes", len(parts) > 0 and all(p.is_valid and p.area > 0 for p in parts.values()))
        cover = unary_union([p.buffer(1e-6) for p in parts.values()])
        vc.prove("they cover the footprint", f.difference(cover).area < 1e-6 * max(f.area, 1))
        vc.prove("and nothing else", all(p.difference(f.buffer(1e-6)).area < 1e-6 for p in parts.values()))
        if set(parts) == {IMPACT_EVERYWHERE}:
            return
        ctr = f.centroid
        for k, p in parts.items():
            d = vc.rot(-pose[2], (p.centroid.x - ctr.x, p.centroid.y - ctr.y))
            side = {IMPACT_FRONT: d[0] > abs(d[1]), IMPACT_BACK: -d[0] > abs(d[1]), IMPACT_LEFT: d[1] > abs(d[0]), IMPACT_RIGHT: -d[1] > abs(d[0])}
            vc.prove("every part lies on the side it is named after", bool(side[k]))
            c0 = [vc.rot(-pose[2], (q[0] - ctr.x, q[1] - ctr.y)) for q in p.exterior.coords]
            g = m.vg
            lo, hi = (-g.length / 2, g.length / 2), (-g.width / 2, g.width / 2)
            reach = {IMPACT_FRONT: max(q[0] for q in c0) > lo[1] - 1e-6, IMPACT_BACK: min(q[0] for q in c0) < lo[0] + 1e-6,
                     IMPACT_LEFT: max(q[1] for q in c0) > hi[1] - 1e-6, IMPACT_RIGHT: min(q[1] for q in c0) < hi[0] + 1e-6}
            vc.prove("and reaches out to it", bool(reach[k]))


for _k in C.MODELS:
    footprint(_k)
    mesh(_k)


def body(vtype):
    @target("P27", f"vehicle body: {vtype}", [B + "vehicle_structures.VehicleGeometry." + n for n in
                                            ("outline", "bumpers_length", "wheel_shape", "wheelbase", "length", "width", "wheels_position", "wheel_outline", "lights_position")], samples=40)
    def h(vc):
        g = C.veh_geo(vc, vtype)
        hw, r = TYPES[vtype]
        vc.prove("tyres", tuple(g.wheel_shape) == (hw, r))
        front = g.lf / 2 if vtype in (CAR, TRUCK) else r
        back = 2 * r
        vc.prove("wheelbase and width", vc.eq([g.wheelbase, g.width], [g.lf + g.lr, 2 * g.w_half]))
        vc.prove("overhangs", vc.eq(list(g.bumpers_length), [front, back]))
        vc.prove("length", vc.close(g.length, g.lf + g.lr + front + back, 1e-9))
        o = g.outline
        vc.prove("closed", len(o) == 5 and vc.eq(list(o[0]), list(o[4])))
        x0, x1, w = -g.lr - back, g.lf + front, g.w_half + hw
        want = [(x0, -w), (x0, w), (x1, w), (x1, -w)]
        for p in want:
            vc.prove("a rectangle around axles, bumpers and tyres", vc.Or(*[vc.eq(list(p), list(q)) for q in o]))
        for p, q in zip(o, o[1:]):
            vc.prove("with straight sides", vc.Or(vc.eq(p[0], q[0]), vc.eq(p[1], q[1])))
        wp = g.wheels_position
        expect = [(g.lf, g.w_half), (g.lf, -g.w_half), (-g.lr, g.w_half), (-g.lr, -g.w_half)] if vtype in (CAR, TRUCK) else [(g.lf, 0), (-g.lr, 0)]
        vc.prove("wheels", g.n_wheels == len(expect) and vc.eq([[wp[0, i], wp[1, i]] for i in range(len(expect))], [list(e) for e in expect]))
        ol = g.wheel_outline
        vc.prove("tyre outline", vc.And(vc.eq([max(ol[0]), min(ol[0]), max(ol[1]), min(ol[1])], [r, -r, hw, -hw])))
        lp = g.lights_position
        vc.prove("lights at the corners", vc.eq([list(lp[k]) for k in ("back_left", "back_right", "front_left", "front_right")],
                                                [[x0, g.w_half - hw], [x0, -g.w_half + hw], [x1, g.w_half - hw], [x1, -g.w_half + hw]]))


def wheels(vtype):
    @target("P27", f"steered wheels: {vtype}", [B + "vehicle_structures.VehicleGeometry.get_rotated_wheels_outlines"], samples=40)
    def h(vc):
        g = C.veh_geo(vc, vtype)
        hw, r = TYPES[vtype]
        d = vc.angle("delta")
        out = g.get_rotated_wheels_outlines(d)
        pos = [(g.lf, g.w_half), (g.lf, -g.w_half), (-g.lr, g.w_half), (-g.lr, -g.w_half)] if vtype in (CAR, TRUCK) else [(g.lf, 0), (-g.lr, 0)]
        vc.prove("one outline per wheel", len(out) == len(pos))
        base = [(r, -hw), (-r, -hw), (-r, hw), (r, hw), (r, -hw)]
        for i, (o, p) in enumerate(zip(out, pos)):
            for k, b in enumerate(base):
                q = vc.rot(d, b) if i < len(pos) / 2 else b
                vc.prove("front wheels turn about their centre, rear wheels stay straight", vc.eq([o[0, k], o[1, k]], [p[0] + q[0], p[1] + q[1]]))


for _t in TYPES:
    body(_t)
    wheels(_t)


@target("P27", "differential drive body", [B + "diff_drive_structures.DiffDriveGeometry." + n for n in ("wheels_outlines", "wheels_position", "wheel_shape", "width", "length")], samples=40)
def h(vc):
    from dg_commons.sim.models.diff_drive_structures import DiffDriveGeometry
    base, r, R = vc.pos("base", typ=(0.2, 2.0)), vc.pos("r", typ=(0.05, 0.5)), vc.pos("R", typ=(0.2, 2.0))
    g = DiffDriveGeometry.default(wheelbase=base, wheelradius=r, radius=R)
    vc.prove("as wide and long as its circle", vc.eq([g.width, g.length], [2 * R, 2 * R]))
    out = g.wheels_outlines
    vc.prove("two wheels", len(out) == 2 == g.n_wheels)
    for o, y in zip(out, (-base / 2, base / 2)):
        xs, ys = list(o[0]), list(o[1])
        vc.prove("wheels on the axle ends", vc.eq([max(xs), min(xs), max(ys), min(ys)], [r, -r, y + r / 3, y - r / 3]))
        vc.prove("wheels are rectangles, closed", vc.And(len(xs) == 5, vc.eq([xs[0], ys[0]], [xs[4], ys[4]]), *[vc.Or(*[vc.eq([a, b], [sx * r, y + sy * r / 3]) for a, b in zip(xs, ys)]) for sx in (-1, 1) for sy in (-1, 1)]))
    if not vc.symbolic:
        o = np.array(g.outline)
        vc.prove("a disc of the given radius", bool(np.all(np.abs(np.hypot(o[:, 0], o[:, 1]) - R) < 1e-9) and abs(g.outline_as_polygon.area - math.pi * R * R) < 0.02 * R * R))


def along(vc, o, mount, th, l0, l1, w):
    """o is the rectangle from l0 to l1 along direction th from the mount, of half width w"""
    pts = [(l0, -w), (l0, w), (l1, w), (l1, -w)]
    ok = [len(o) == 5]
    for p in pts:
        q = vc.rot(th, p)
        ok.append(vc.Or(*[vc.eq(list(c), [mount[0] + q[0], mount[1] + q[1]]) for c in o]))
    return vc.And(*ok)


class Ring:
    """the contract of shapely's Polygon of a few corners: its exterior is the ring of the given corners, closed"""

    def __init__(self, coords):
        c = list(coords)
        self.exterior = NS(coords=c if len(c) > 1 and c[0] is c[-1] or all(u is v or type(u) is type(v) is int and u == v or _same(u, v) for u, v in zip(c[0], c[-1])) else c + c[:1])


def _same(u, v):
    return hasattr(u, "t") and hasattr(v, "t") and u.t.eq(v.t)


def flying(vc, module):
    if vc.symbolic and vc.patch_attr(module, "Polygon", Ring) == 0:
        raise Undecided("outlines are built in another way")


def spurt(vc, o, mount, th, l0, l1, w):
    """o is the triangle of half width w at l0 to a tip at l1 along direction th from the mount"""
    pts = [(l0, -w), (l1, 0), (l0, w)]
    ok = [len(o) == 4]
    for p in pts:
        q = vc.rot(th, p)
        ok.append(vc.Or(*[vc.eq(list(c), [mount[0] + q[0], mount[1] + q[1]]) for c in o]))
    return vc.And(*ok)


def against(vc, label, push, u, d):
    """the push of an engine and the direction of its flame"""
    vc.prove(label, vc.And(vc.eq((push[0] * u[1] - push[1] * u[0]) / d, 0, 1e-9), (push[0] * u[0] + push[1] * u[1]) / d < 0))


@target("P27", "rocket nozzles", [B + "rocket_structures.RocketGeometry." + n for n in ("thrusters_position", "thrusters_outline_in_body_frame", "flames_outline_in_body_frame", "flame_outline")], samples=100, norm=True)
def h(vc):
    from dg_commons.sim.models import rocket_structures as rs
    phi = vc.angle("phi")
    g = rs.RocketGeometry.default(w_half=vc.pos("w", typ=(0.1, 1)), l_m=vc.pos("l_m", typ=(0.1, 1)), l_t_half=vc.pos("lt", typ=(0.1, 1)), w_t_half=vc.pos("wt", typ=(0.01, 0.2)), F_max=vc.pos("Fm", typ=(1, 5)))
    cmd = [vc.pos("Fl", typ=(0.1, 2)), vc.pos("Fr", typ=(0.1, 2))]
    flying(vc, rs)
    noz, fl = g.thrusters_outline_in_body_frame(phi), g.flames_outline_in_body_frame(phi, cmd)
    vc.prove("two nozzles and flames", len(noz) == len(fl) == g.n_thrusters == 2)
    for i, (side, psi_dir) in enumerate(((-1, phi + math.pi / 2), (1, -phi - math.pi / 2))):
        mount = (g.l_m, side * g.w_half / 10)
        vc.prove("nozzle turned by its angle about its mount", along(vc, noz[i], mount, psi_dir, 0, g.l_t_half, g.w_t_half))
        vc.prove("the flame grows with the force of its own nozzle, straight out of it", spurt(vc, fl[i], mount, psi_dir, g.l_t_half, g.l_t_half + cmd[i] / g.F_max / 2, g.w_t_half))


@target("P27", "rocket flames oppose the push", [B + "rocket_structures.RocketGeometry.thrusters_position", B + "rocket.RocketModel.dynamics"], samples=60, norm=True)
def h(vc):
    from dg_commons.sim.models.rocket import RocketState, RocketCommands, RocketModel
    from dg_commons.sim.models.rocket_structures import RocketGeometry, RocketParameters
    phi = vc.angle("phi")
    m = RocketModel(RocketState(x=0, y=0, psi=0.0, vx=0, vy=0, dpsi=0, m=10.0, phi=phi), RocketGeometry.default(), RocketParameters.default())
    i = vc.choice("engine", [0, 1])
    F = vc.real("force", typ=(0.5, 1.5))
    vc.assume(vc.And(F >= 0.5, F <= 1.5))
    f = [0.0, 0.0]
    f[i] = F
    d = m.dynamics(m.get_state(), RocketCommands(F_left=f[0], F_right=f[1], dphi=0.0))
    th = (phi + math.pi / 2, -phi - math.pi / 2)[i]
    against(vc, "opposite to the acceleration it produces", (d.vx, d.vy), (vc.cos(th), vc.sin(th)), F)


@target("P27", "spaceship nozzle", [B + "spaceship_structures.SpaceshipGeometry." + n for n in ("thrusters_position", "thrusters_outline_in_body_frame", "flames_outline_in_body_frame", "flame_outline", "l", "width")], samples=100, norm=True)
def h(vc):
    from dg_commons.sim.models import spaceship_structures as ss
    phi, F = vc.angle("phi"), vc.pos("F", typ=(0.1, 3))
    g = ss.SpaceshipGeometry.default(w_half=vc.pos("w", typ=(0.1, 1)), l_r=vc.pos("l_r", typ=(0.1, 2)), l_f=vc.pos("l_f", typ=(0.1, 2)), l_c=vc.pos("l_c", typ=(0.1, 1)), l_t_half=vc.pos("lt", typ=(0.1, 1)),
                                     w_t_half=vc.pos("wt", typ=(0.01, 0.2)), F_max=vc.pos("Fm", typ=(1, 5)))
    vc.prove("length and width", vc.eq([g.l, g.width], [g.l_f + g.l_r + g.l_c, 2 * g.w_half]))
    flying(vc, ss)
    noz, fl = g.thrusters_outline_in_body_frame(phi), g.flames_outline_in_body_frame(phi, F)
    vc.prove("one nozzle and flame", len(noz) == len(fl) == g.n_thrusters == 1)
    th = phi + math.pi
    vc.prove("nozzle turned by its angle at the back", along(vc, noz[0], (-g.l_r, 0), th, 0, g.l_t_half, g.w_t_half))
    vc.prove("the flame grows with the force, straight out of the nozzle", spurt(vc, fl[0], (-g.l_r, 0), th, g.l_t_half, g.l_t_half + F / g.F_max / 2, g.w_t_half))


@target("P27", "spaceship flame opposes the push", [B + "spaceship_structures.SpaceshipGeometry.thrusters_position", B + "spaceship.SpaceshipModel.dynamics"], samples=60, norm=True)
def h(vc):
    from dg_commons.sim.models.spaceship import SpaceshipState, SpaceshipCommands, SpaceshipModel
    from dg_commons.sim.models.spaceship_structures import SpaceshipGeometry, SpaceshipParameters
    phi = vc.angle("phi")
    m = SpaceshipModel(SpaceshipState(x=0, y=0, psi=0.0, vx=0, vy=0, dpsi=0, m=10.0, delta=phi), SpaceshipGeometry.default(), SpaceshipParameters.default())
    F = vc.real("force", typ=(0.5, 1.5))
    vc.assume(vc.And(F >= 0.5, F <= 1.5))
    d = m.dynamics(m.get_state(), SpaceshipCommands(thrust=F, ddelta=0.0))
    th = phi + math.pi
    against(vc, "opposite to the acceleration it produces", (d.vx, d.vy), (vc.cos(th), vc.sin(th)), F)


def hull(vc, poly, w, x0, xs, tip):
    """straight body from x0 to xs of half width w, then a nose to the tip"""
    want = Polygon([(x0, -w), (xs, -w), (tip, 0), (xs, w), (x0, w)])
    return poly.symmetric_difference(want).area < 1e-9


@target("P27", "bodies in flight", [B + "rocket_structures.RocketGeometry.outline", B + "spaceship_structures.SpaceshipGeometry.outline", B + "spacecraft_structures.SpacecraftGeometry.outline",
                                     B + "spacecraft_structures.SpacecraftGeometry.thrusters_outline_in_body_frame", B + "pedestrian.PedestrianGeometry.outline"], kind="runtime", samples=100, bound="seeded geometries")
def h(vc):
    from dg_commons.sim.models.rocket_structures import RocketGeometry
    from dg_commons.sim.models.spaceship_structures import SpaceshipGeometry
    from dg_commons.sim.models.spacecraft_structures import SpacecraftGeometry
    from dg_commons.sim.models.pedestrian import PedestrianGeometry
    w, lc, lf, lm, lr = (vc.real(n, 0.1, 2) for n in ("w", "lc", "lf", "lm", "lr"))
    r = RocketGeometry.default(w_half=w, l_c=lc, l_f=lf, l_m=lm, l_r=lr)
    vc.prove("rocket", hull(vc, r.outline_as_polygon, w, -lr, lf + lm, lf + lm + lc) and abs(r.l - (lr + lm + lf + lc)) < 1e-9 and r.width == 2 * w)
    s = SpaceshipGeometry.default(w_half=w, l_c=lc, l_f=lf, l_r=lr)
    vc.prove("spaceship", hull(vc, s.outline_as_polygon, w, -lr, lf, lf + lc))
    c = SpacecraftGeometry.default(w_half=w, lf=lf, lr=lf + lr)
    p = c.outline_as_polygon
    ell = Polygon([(lf * math.cos(a), w * math.sin(a)) for a in np.linspace(0, 2 * math.pi, 257)[:-1]])
    want = ell.union(Polygon([(-lf - lr, -w), (0, -w), (0, w), (-lf - lr, w)]))
    vc.prove("spacecraft: a box with an elliptic nose", p.symmetric_difference(want).area < 0.01 * want.area + 0.003 * w and c.width == 2 * w)
    vc.prove("spacecraft thrusters at its rear corners", len(c.thrusters_outline_in_body_frame) == c.n_thrusters == 2 and all(
        along(vc, o, (-lf - lr, y), 0, -0.5, 0.5, 0.15) for o, y in zip(c.thrusters_outline_in_body_frame, (-w, w))))
    q = Polygon(PedestrianGeometry.default().outline)
    b = q.bounds
    vc.prove("pedestrian: an ellipse one metre deep and one and a half wide", max(abs(u - v) for u, v in zip(b, (-0.5, -0.75, 0.5, 0.75))) < 1e-9 and abs(q.area - math.pi * 0.375) < 0.01)


@target("P27", "lights", [B + "vehicle_ligths.get_phased_lights"], samples=300, norm=True)
def h(vc):
    """at any time (but the very moments at which indicators switch), with any period"""
    cmd = vc.choice("cmd", [NO_LIGHTS, LIGHTS_HEADLIGHTS, LIGHTS_TURN_LEFT, LIGHTS_TURN_RIGHT, LIGHTS_HAZARD])
    period = vc.pos("period", typ=(0.05, 2))
    k, off = vc.int("steps", 0, None, most=400), vc.real("off", -0.5, 0.5, typ=(-0.45, 0.45))
    vc.assume(vc.And(off > -0.499, off < 0.499))
    t = (k + off) * period
    at = lambda j: get_phased_lights(lightscmd2phases[cmd], (k + j + off) * period, period)
    c, d, e = at(0), at(1), at(2)
    off = get_phased_lights(lightscmd2phases[NO_LIGHTS], t)
    lit = lambda x: tuple(getattr(x, k) != getattr(off, k) for k in ("front_left", "front_right", "back_left", "back_right"))
    vc.prove("every command has its phases", set(lightscmd2phases) == set(LightsValues))
    on = {NO_LIGHTS: (0, 0, 0, 0), LIGHTS_HEADLIGHTS: (1, 1, 0, 0), LIGHTS_TURN_LEFT: (1, 0, 1, 0), LIGHTS_TURN_RIGHT: (0, 1, 0, 1), LIGHTS_HAZARD: (1, 1, 1, 1)}[cmd]
    on = tuple(bool(v) for v in on)
    if cmd in (NO_LIGHTS, LIGHTS_HEADLIGHTS):
        vc.prove("steady lights", lit(c) == lit(d) == on)
    else:
        vc.prove("indicators blink on the commanded side only", {lit(c), lit(d)} == {on, (False,) * 4})
        vc.prove("with the period", lit(c) == lit(e))


class Shape(Ring):
    """the contract of shapely's Polygon of a few corners, valid as drawn: its ring, and as centroid the mean of the corners where that is
    known to be right (triangles and parallelograms)"""

    def __init__(self, vc, coords):
        super().__init__([list(c) for c in coords])
        self.vc = vc
        self.is_valid = True

    @property
    def corners(self):
        return self.exterior.coords[:-1]

    @property
    def centroid(self):
        k = self.corners
        if len(k) == 4:
            if not self.vc.eq([k[0][i] + k[2][i] for i in (0, 1)], [k[1][i] + k[3][i] for i in (0, 1)]):
                raise Undecided("centre of another shape")
        elif len(k) != 3:
            raise Undecided("centre of another shape")
        return NS(x=sum(c[0] for c in k) / len(k), y=sum(c[1] for c in k) / len(k), coords=[(sum(c[0] for c in k) / len(k), sum(c[1] for c in k) / len(k))])

    def __getattr__(self, n):
        raise Undecided(f"shapes are used by {n}")


def drawn(vc, *modules):
    """polygons of the module through their contract"""
    mk = lambda coords: Shape(vc, coords)
    if vc.symbolic:
        for m in modules:
            if vc.patch_attr(m, "Polygon", mk) == 0:
                raise Undecided("shapes are drawn in another way")
        from shapely.affinity import affine_transform

        vc.patch(affine_transform, lambda g, k: mk([[k[0] * p[0] + k[1] * p[1] + k[4], k[2] * p[0] + k[3] * p[1] + k[5]] for p in g.exterior.coords]))


def among(vc, p, pts):
    return vc.Or(*[vc.eq(list(p), list(q)) for q in pts])


def same_corners(vc, pts, want):
    if len(pts) != len(want):
        return False
    return vc.And(*[among(vc, p, pts) for p in want])


SIDES = {IMPACT_FRONT: ((1, 1), (1, -1)), IMPACT_BACK: ((0, 1), (0, -1)), IMPACT_LEFT: ((0, 1), (1, 1)), IMPACT_RIGHT: ((0, -1), (1, -1))}


def vehicle_mesh(kind):
    @target("P27", f"impact mesh of any {kind}", [C.MODELS[kind][4] + ".get_mesh", B + "vehicle_structures.VehicleGeometry.outline_as_polygon"], samples=40, norm=True)
    def h(vc):
        vtype = vc.choice("type", list(TYPES))
        m = C.MODELS[kind][0](vc, vtype=vtype)
        if vc.symbolic:
            import sys

            drawn(vc, *{sys.modules[c.__module__]: 0 for c in type(m).__mro__ if "Polygon" in vars(sys.modules[c.__module__])}, sys.modules[type(m.vg).__module__])
        s = m._state
        pose = (s.x, s.y, s.psi)
        o = m.vg.outline
        parts = m.get_mesh()
        vc.prove("four sides", set(parts) == set(SIDES))
        g, (hw, r) = m.vg, TYPES[vtype]
        x = (-g.lr - 2 * r, g.lf + (g.lf / 2 if vtype in (CAR, TRUCK) else r))
        w = g.w_half + hw
        ctr = at(vc, pose, ((x[0] + x[1]) / 2, 0.0))
        for k, p in parts.items():
            pts = [list(c) for c in p.exterior.coords][:-1]
            want = [ctr] + [at(vc, pose, (x[i], j * w)) for i, j in SIDES[k]]
            vc.prove("every part is spanned by the centre and the side it is named after", same_corners(vc, pts, want))


for _k in ("vehicle", "vehicle_dyn"):
    vehicle_mesh(_k)


@target("P27", "four sides make up a body", [], samples=60)
def h(vc):
    """lemma: every point of a rectangle lies in the triangle of its centre and one of its sides"""
    a, b = vc.pos("a", typ=(0.1, 5)), vc.pos("b", typ=(0.1, 5))
    u, v = vc.real("u", typ=(-5.0, 5.0)), vc.real("v", typ=(-5.0, 5.0))
    inside = vc.And(vc.abs(u) <= a, vc.abs(v) <= b)
    tri = lambda f, s: vc.And(f >= 0, vc.abs(s) <= f)  # in units of half length and half width
    p, q = u / a, v / b
    vc.prove("covered", vc.Implies(inside, vc.Or(tri(p, q), tri(-p, q), tri(q, p), tri(-q, p))))


def whole_mesh(kind):
    @target("P27", f"impact mesh at any pose: {kind}", [C.MODELS[kind][4] + ".get_mesh"], samples=30)
    def h(vc):
        m, pose = fresh(vc, kind)
        if not vc.symbolic:
            f, parts = m.get_footprint(), m.get_mesh()
            vc.prove("the whole footprint", all(p.symmetric_difference(f).area < 1e-9 for p in parts.values()) and set(parts) == {IMPACT_EVERYWHERE})
            return

        class Placed:
            is_valid = True

            def __getattr__(self, n):
                raise Undecided(f"shapes are used by {n}")

        placed = []

        def place(g, q):
            placed.append((Placed(), g, q))
            return placed[-1][0]

        if not vc.patch(apply_SE2_to_shapely_geo, place):
            raise Undecided("footprints are placed in another way")
        parts = m.get_mesh()
        vc.prove("one part, hit from everywhere", set(parts) == {IMPACT_EVERYWHERE})
        mine = [t for t in placed if t[0] is parts[IMPACT_EVERYWHERE]]
        if not mine:
            raise Undecided("parts are built in another way")
        _, g, q = mine[0]
        vc.prove("its own outline", g.equals(geometry_of(m)))
        vc.prove("at the pose", vc.eq([[q[i, j] for j in range(3)] for i in (0, 1)],
                                      [[vc.cos(pose[2]), -vc.sin(pose[2]), pose[0]], [vc.sin(pose[2]), vc.cos(pose[2]), pose[1]]]))


for _k in C.MODELS:
    if not _k.startswith("vehicle"):
        whole_mesh(_k)


class Round:
    """an ellipse around a centre (contract of buffering a point and scaling about the centre)"""

    def __init__(self, centre, rx, ry):
        self.centre, self.rx, self.ry = centre, rx, ry
        self.exterior = self

    @property
    def coords(self):
        return [("on", id(self))]

    def __getattr__(self, n):
        raise Undecided(f"shapes are used by {n}")


class Dot:
    def __init__(self, *a):
        x, y = a if len(a) == 2 else a[0]
        self.p = [x, y]

    def buffer(self, radius, **k):
        if k:
            raise Undecided("round shapes are built in another way")
        return Round(self.p, radius, radius)

    def __getattr__(self, n):
        raise Undecided(f"points are used by {n}")


class Merge:
    def __init__(self, parts):
        self.parts = list(parts)
        self.exterior = self

    @property
    def coords(self):
        return [("around", id(self))]

    def __getattr__(self, n):
        raise Undecided(f"shapes are used by {n}")


def assembled(vc, module):
    """shapes of the module behind the contracts of shapely: unions are known by their parts, round shapes by centre and radii"""
    import shapely
    from shapely import affinity
    from shapely.ops import unary_union as uu

    merged = []

    def union(parts):
        merged.append(Merge(parts))
        return merged[-1]

    def scale(g, xfact=1.0, yfact=1.0, *a, **k):
        if a or k or not isinstance(g, Round):
            raise Undecided("round shapes are built in another way")
        return Round(g.centre, g.rx * xfact, g.ry * yfact)

    drawn(vc, module)
    vc.patch(Point, Dot)
    vc.patch(uu, union)
    vc.patch_attr(affinity, "scale", scale)
    return merged


def parts_of(merged, outline):
    out = [m for m in merged if list(outline) == m.coords]
    if len(out) != 1:
        raise Undecided("bodies are put together in another way")
    return out[0].parts


def flyer(name, module, cls, dims):
    @target("P27", f"body in flight: {name}", [B + f"{module}.{cls}.outline"], samples=40)
    def h(vc):
        import importlib

        mod = importlib.import_module(B + module)
        if not hasattr(mod, cls):
            raise Undecided("bodies are described elsewhere")
        v = {k: vc.pos(k, typ=(0.1, 2)) for k in dims}
        g = getattr(mod, cls).default(**v)
        w = v["w_half"]
        x0, xs, tip = {"rocket": lambda: (-v["l_r"], v["l_f"] + v["l_m"], v["l_f"] + v["l_m"] + v["l_c"]), "spaceship": lambda: (-v["l_r"], v["l_f"], v["l_f"] + v["l_c"])}[name]()
        vc.prove("length and width", vc.And(vc.close(g.l, tip - x0, 1e-9), vc.eq(g.width, 2 * w)))
        if not vc.symbolic:
            vc.prove("a box with a pointed nose", hull(vc, g.outline_as_polygon, w, x0, xs, tip))
            return
        merged = assembled(vc, mod)
        ps = parts_of(merged, g.outline)
        if not all(isinstance(p, Shape) for p in ps):
            raise Undecided("bodies are put together in another way")
        box = [p for p in ps if len(p.corners) == 4]
        nose = [p for p in ps if len(p.corners) == 3]
        if len(box) != 1 or len(nose) != 1 or len(ps) != 2:
            raise Undecided("bodies are put together in another way")
        vc.prove("a box", same_corners(vc, box[0].corners, [(x0, -w), (xs, -w), (xs, w), (x0, w)]))
        straight = [vc.Or(vc.eq(p[0], q[0]), vc.eq(p[1], q[1])) for p, q in zip(box[0].corners, box[0].corners[1:])]
        vc.prove("with straight sides", vc.And(*straight))
        vc.prove("and a pointed nose", same_corners(vc, nose[0].corners, [(xs, -w), (tip, 0), (xs, w)]))


flyer("rocket", "rocket_structures", "RocketGeometry", ("w_half", "l_c", "l_f", "l_m", "l_r"))
flyer("spaceship", "spaceship_structures", "SpaceshipGeometry", ("w_half", "l_c", "l_f", "l_r"))


@target("P27", "round bodies", [B + "spacecraft_structures.SpacecraftGeometry.outline", B + "spacecraft_structures.SpacecraftGeometry.thrusters_outline_in_body_frame",
                                B + "diff_drive_structures.DiffDriveGeometry.outline_as_polygon", B + "pedestrian.PedestrianGeometry.outline"], samples=40)
def h(vc):
    from dg_commons.sim.models import spacecraft_structures as sc, diff_drive_structures as dd, pedestrian as pd
    w, lf, lr = (vc.pos(n, typ=(0.1, 2)) for n in ("w", "lf", "lr"))
    lr = lf + lr
    g = sc.SpacecraftGeometry.default(w_half=w, lf=lf, lr=lr)
    th = g.thrusters_outline_in_body_frame
    vc.prove("spacecraft thrusters at its rear corners", vc.And(len(th) == g.n_thrusters == 2, *[along(vc, o, (-lr, y), 0, -0.5, 0.5, 0.15) for o, y in zip(th, (-w, w))]))
    vc.prove("width", vc.eq(g.width, 2 * w))
    rad = vc.pos("radius", typ=(0.1, 2))
    d = dd.DiffDriveGeometry.default(radius=rad)
    p = pd.PedestrianGeometry.default()
    if not vc.symbolic:
        ell = Polygon([(lf * math.cos(a), w * math.sin(a)) for a in np.linspace(0, 2 * math.pi, 257)[:-1]])
        want = ell.union(Polygon([(-lr, -w), (0, -w), (0, w), (-lr, w)]))
        vc.prove("a box with a rounded nose", g.outline_as_polygon.symmetric_difference(want).area < 0.01 * want.area + 0.003 * w)
        vc.prove("a disc", abs(d.outline_as_polygon.area - math.pi * rad ** 2) < 0.02 * rad ** 2)
        vc.prove("an ellipse", Polygon(p.outline).symmetric_difference(Polygon([(0.5 * math.cos(a), 0.75 * math.sin(a)) for a in np.linspace(0, 2 * math.pi, 257)[:-1]])).area < 0.02)
        return
    merged = assembled(vc, sc)
    ps = parts_of(merged, g.outline)
    rounds, boxes = [q for q in ps if isinstance(q, Round)], [q for q in ps if isinstance(q, Shape)]
    if len(rounds) != 1 or len(boxes) != 1 or len(ps) != 2 or len(boxes[0].corners) != 4:
        raise Undecided("bodies are put together in another way")
    e = rounds[0]
    vc.prove("an elliptic nose", vc.eq([*e.centre, e.rx, e.ry], [0, 0, lf, w]))
    xs = [c[0] for c in boxes[0].corners]
    vc.prove("a box from its back to the middle of the ellipse", vc.And(*[vc.Or(vc.eq(x, -lr), vc.And(0 <= x, x <= 0.01)) for x in xs],
                                                                     *[vc.Or(*[vc.And(vc.eq(c[1], y), vc.eq(c[0], -lr) if k == 0 else c[0] >= 0) for c in boxes[0].corners]) for y in (-w, w) for k in (0, 1)]))
    o = d.outline_as_polygon
    if not isinstance(o, Round):
        raise Undecided("bodies are put together in another way")
    vc.prove("a disc", vc.eq([*o.centre, o.rx, o.ry], [0, 0, rad, rad]))
    seen = []
    vc.patch_attr(Round, "coords", property(lambda self: (seen.append(self), [("on", id(self))])[1]))
    out = p.outline
    if len(seen) != 1 or list(out) != [("on", id(seen[0]))]:
        raise Undecided("bodies are put together in another way")
    e = seen[0]
    vc.prove("pedestrian: an ellipse one metre deep and one and a half wide", vc.eq([*e.centre, e.rx, e.ry], [0, 0, 0.5, 0.75]))
