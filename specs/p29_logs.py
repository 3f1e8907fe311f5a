"""P29 simulation logs"""
import math
from decimal import Decimal
from types import SimpleNamespace as NS
from pyvc.vc import target, Undecided, Discard
from dg_commons import DgSampledSequence
from dg_commons.seq.sequence import UndefinedAtTime
from dg_commons.sim import SimTime
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.simulator_structures import PlayerLog, PlayerLogger, SimLog
from dg_commons.sim.utils import who_collided
from dg_commons.sim.simulator import SimContext

S = "dg_commons.sim.simulator_structures."


def times(vc, name, n):
    ts, t = [], vc.real(name + ".t0", typ=(0, 3))
    for i in range(n):
        ts.append(t)
        t = t + vc.pos(f"{name}.d{i}", typ=(0.05, 2))
    return ts


def state(vc, n):
    return VehicleState(x=vc.real(n + ".x"), y=vc.real(n + ".y"), psi=vc.real(n + ".psi"), vx=vc.real(n + ".vx"), delta=vc.real(n + ".delta"))


def fields(s):
    return [s.x, s.y, s.psi, s.vx, s.delta]


def previous(ts, t):
    return max([k for k in range(len(ts)) if ts[k] <= t], default=None)


def some_log(vc, name, ns, nc, ne):
    tsx, tsc, tse = times(vc, name + ".s", ns), times(vc, name + ".c", nc), times(vc, name + ".e", ne)
    xs = [state(vc, f"{name}.x{i}") for i in range(ns)]
    us = [VehicleCommands(acc=vc.real(f"{name}.a{i}"), ddelta=vc.real(f"{name}.dd{i}")) for i in range(nc)]
    info = [vc.real(f"{name}.i{i}", 0, 1) for i in range(nc)]
    es = [("extra", name, i) for i in range(ne)]
    return tsx, xs, tsc, us, info, tse, es


def as_log(d):
    tsx, xs, tsc, us, info, tse, es = d
    return PlayerLog(states=DgSampledSequence[VehicleState](timestamps=tsx, values=xs), commands=DgSampledSequence[VehicleCommands](timestamps=tsc, values=us),
                     extra=DgSampledSequence(timestamps=tse, values=es), info=DgSampledSequence[float](timestamps=tsc, values=info))


def check_entry(vc, e, d, t):
    tsx, xs, tsc, us, info, tse, es = d
    if t <= tsx[0]:
        want = fields(xs[0])
    elif t >= tsx[-1]:
        want = fields(xs[-1])
    else:
        k = max(i for i in range(len(tsx)) if tsx[i] <= t)
        a, b = fields(xs[k]), fields(xs[k + 1])
        w = (t - tsx[k]) / (tsx[k + 1] - tsx[k])
        want = [p + (q - p) * w for p, q in zip(a, b)]
    vc.prove("state interpolated between its samples", vc.eq(fields(e.state), want, 1e-5))
    k = previous(tsc, t)
    vc.prove("commands of the latest sample", vc.eq([e.commands.acc, e.commands.ddelta], [us[k].acc, us[k].ddelta]))
    vc.prove("info of the latest sample", vc.eq(e.info, info[k]))
    k = previous(tse, t)
    vc.prove("extra of the latest sample, none before", e.extra is None if k is None else e.extra == es[k])


@target("P29", "log of a player", [S + "PlayerLog.at_interp"], kind="bounded", bound="1..2 states, 1..2 commands and 0..2 extras, all times and values", samples=300, budget=150)
def h(vc):
    ne = vc.choice("ne", [0, 1, 2])
    ns, nc = (vc.choice("ns", [1, 2]), vc.choice("nc", [1, 2])) if vc.symbolic else (vc.choice("n1", [1, 2, 3, 6]), vc.choice("n2", [1, 2, 5]))
    d = some_log(vc, "p", ns, nc, ne)
    log = as_log(d)
    t = vc.real("t", typ=(-1, 8))
    try:
        e = log.at_interp(t)
    except UndefinedAtTime:
        vc.prove("undefined only before the first commands", t < d[2][0])
        return
    vc.prove("defined only from the first commands on", t >= d[2][0])
    check_entry(vc, e, d, t)


@target("P29", "log of everybody", [S + "SimLog.at_interp", S + "SimLog.get_init_time", S + "SimLog.get_last_time", S + "SimLog.__setitem__"], kind="runtime", samples=200, bound="seeded logs of 1..3 players")
def h(vc):
    log, ds = SimLog(), {}
    for i in range(vc.choice("players", [1, 2, 3])):
        d = some_log(vc, f"P{i}", vc.choice("ns", [1, 2, 4]), vc.choice("nc", [1, 3]), vc.choice("ne", [0, 2]))
        ds[f"P{i}"] = d
        log[f"P{i}"] = as_log(d)
    t = max(d[2][0] for d in ds.values()) + vc.real("t", 0, 6)
    r = log.at_interp(t)
    vc.prove("an entry for every player", set(r) == set(ds))
    for k, d in ds.items():
        check_entry(vc, r[k], d, t)
    vc.prove("from the earliest state", log.get_init_time() == min(d[0][0] for d in ds.values()))
    vc.prove("to the latest state", log.get_last_time() == max(d[0][-1] for d in ds.values()))
    for bad in (None, d, {"states": d[0]}):
        ok = False
        try:
            log["bad"] = bad
        except Exception:
            ok = True
        vc.prove("only player logs are kept", ok and "bad" not in log)


@target("P29", "logger", [S + "PlayerLogger.as_sequence"], kind="bounded", bound="2 samples, all values and times", samples=200)
def h(vc):
    n = 2 if vc.symbolic else vc.choice("n", [1, 2, 5])
    tsx, xs, tsc, us, info, tse, es = some_log(vc, "p", n, n, n)
    lg, other = PlayerLogger(), PlayerLogger()
    for i in range(n):
        lg.states.add(tsx[i], xs[i])
        lg.commands.add(tsc[i], us[i])
        lg.info.add(tsc[i], info[i])
        if vc.flag(f"extra{i}"):
            lg.extra.add(tse[i], es[i])
        else:
            es[i] = None
    log = lg.as_sequence()
    vc.prove("states as logged", vc.And(vc.eq(list(log.states.timestamps), tsx), len(log.states) == n, *[vc.eq(fields(a), fields(b)) for a, b in zip(log.states.values, xs)]))
    vc.prove("commands as logged", vc.And(vc.eq(list(log.commands.timestamps), tsc), *[vc.eq([a.acc, a.ddelta], [b.acc, b.ddelta]) for a, b in zip(log.commands.values, us)]))
    vc.prove("info as logged", vc.And(vc.eq(list(log.info.timestamps), tsc), vc.eq(list(log.info.values), info)))
    keep = [i for i in range(n) if es[i] is not None]
    vc.prove("extras as logged", len(log.extra) == len(keep) and list(log.extra.values) == [es[i] for i in keep] and vc.eq(list(log.extra.timestamps), [tse[i] for i in keep]))
    e = other.as_sequence()
    vc.prove("every player has a logger of its own", len(e.states) == len(e.commands) == len(e.extra) == len(e.info) == 0)


@target("P29", "who collided", ["dg_commons.sim.utils.who_collided"], kind="runtime", samples=100, bound="seeded reports")
def h(vc):
    reports, want = [], set()
    for i in range(vc.int("n", 0, 4)):
        names = [f"P{vc.int(f'p{i}{k}', 0, 5)}" for k in range(vc.choice(f"k{i}", [1, 2]))]
        want |= set(names)
        reports.append(NS(players={k: object() for k in names}))
    vc.prove("exactly the players in some report", who_collided(NS(collision_reports=reports)) == frozenset(want))

# ------------------------------------------------------------------------------------------------ any length
from . import useqs as U
from pyvc import loops as L

XS, US = ("x", "y", "psi", "vx", "delta"), ("acc", "ddelta")


@target("P29", "log of a player, any length", [S + "PlayerLog.at_interp"], kind="loop", samples=200, budget=150)
def h(vc):
    kind = vc.choice("kind", ["float", "Decimal"]) if not vc.symbolic else "float"
    vc.loops("dg_commons.seq.sequence.DgSampledSequence.at_interp", {})
    x = U.state_seq(vc, "x", VehicleState, XS, kind, 1)
    u = U.state_seq(vc, "u", VehicleCommands, US, kind, 1)
    i, e = U.seq(vc, "i", kind, 1), U.seq(vc, "e", kind)
    log = PlayerLog(states=x.s, commands=u.s, extra=e.s, info=i.s)
    t = vc.real("t", typ=(-1, 8), kind=kind)
    try:
        r = log.at_interp(t)
    except UndefinedAtTime:
        vc.prove("undefined only before the first commands or info", vc.Or(t < u.t(0), t < i.t(0)))
        return
    vc.prove("defined only from the first commands on", vc.And(t >= u.t(0), t >= i.t(0)))
    F = lambda a: U.flt(vc, a)
    last = x.n - 1
    if t <= x.t(0):
        vc.prove("first state before the start", U.same_state(vc, r.state, VehicleState, XS, lambda k: x.f(0, k)))
    elif t >= x.t(last):
        vc.prove("last state after the end", U.same_state(vc, r.state, VehicleState, XS, lambda k: x.f(last, k)))
    else:
        def linear(j, k):
            a, b = F(x.t(j)), F(x.t(j + 1))
            return vc.And(x.t(j) <= t, t <= x.t(j + 1), vc.eq(getattr(r.state, k) * (b - a), x.f(j, k) * (b - F(t)) + x.f(j + 1, k) * (F(t) - a), 1e-5))

        vc.prove("a state of the same type", type(r.state) is VehicleState)
        for k in XS:  # the neighbours are the same for all components: times increase
            vc.exists(f"{k} interpolated between its neighbours", 0, last, lambda j: linear(j, k))
    now = lambda q, j: vc.And(q.t(j) <= t, U.before_next(vc, q, j, t))
    vc.exists("commands of the latest sample", 0, u.n, lambda j: vc.And(now(u, j), U.same_state(vc, r.commands, VehicleCommands, US, lambda k: u.f(j, k))))
    vc.exists("info of the latest sample", 0, i.n, lambda j: vc.And(now(i, j), vc.eq(r.info, i.v(j))))
    if r.extra is None:
        vc.forall("no extra only before the first one", 0, e.n, lambda j: t < e.t(j))
    else:
        vc.exists("extra of the latest sample", 0, e.n, lambda j: vc.And(now(e, j), vc.eq(r.extra, e.v(j))))


# ------------------------------------------------------------------------------------------------ any number of players
from . import many as M


class Entry:
    """what the log of the i-th player says at a time"""

    def __init__(self, i, t):
        self.i, self.t = i, t


class SomeLog(PlayerLog):
    """the log of the i-th player (its contract: one player's log, above)"""

    def __init__(self, i, a, b):
        self.i, self.states = i, NS(get_start=lambda: a, get_end=lambda: b)

    def at_interp(self, t):
        return Entry(self.i, t)

    def __deepcopy__(self, memo):
        return self


@target("P29", "log of everybody, any number of players", [S + "SimLog.at_interp", S + "SimLog.get_init_time", S + "SimLog.get_last_time"], kind="loop", samples=200, budget=60)
def h(vc):
    w = M.Names(vc, "p", 1)
    a, b = w.numbers("start"), w.numbers("end")
    value = lambda i: SomeLog(i, a(i), b(i))
    t = vc.real("t")
    if vc.symbolic:
        log = M.D.SDict(w.dom, lambda j: value(M.Sym(j, "int")), pytype=SimLog)
        entries = lambda k: M.D.SDict(w.dom, lambda i: Entry(M.Sym(i, "int"), t), lambda i: i < k)
        vc.loops(S + "SimLog.at_interp", {0: lambda l, e: L.LoopSpec(vals={"interpolated_entry": entries})})
        vc.loops(S + "SimLog.get_init_time")
        vc.loops(S + "SimLog.get_last_time")
        call = lambda n, *r: (L.raw(S + "SimLog." + n) or _missing(n))(log, *r)
    else:
        log = SimLog()
        for i in w.indices():
            log[w.key(i)] = value(i)
        call = lambda n, *r: getattr(log, n)(*r)
    which = vc.choice("which", ["at_interp", "get_init_time", "get_last_time"])
    if which == "at_interp":
        r = call("at_interp", t)
        M.holds_dict(vc, "an entry for every player", r, w, lambda i: Entry(i, t))
        return
    r = call(which)
    x, best = (a, lambda u, v: u <= v) if which == "get_init_time" else (b, lambda u, v: u >= v)
    vc.forall(f"{which}: no player beyond", 0, w.n, lambda i: best(r, x(i)))
    vc.exists(f"{which}: of some player", 0, w.n, lambda i: vc.eq(r, x(i)))


def _missing(n):
    raise Undecided(f"no {n}")


@target("P29", "logger, any number of samples", [S + "PlayerLogger.as_sequence"], kind="loop", samples=100, budget=60)
def h(vc):
    """builders in any state their additions can produce (P01)"""
    U.constructor(vc)
    lg, other = PlayerLogger(), PlayerLogger()
    parts = ("states", "commands", "extra", "info")
    qs = {}
    for k in parts:
        q = qs[k] = U.samples(vc, k, pytype=list)
        b = getattr(lg, k)
        if vc.symbolic:
            b.timestamps, b.values = q.ts.copy_(list), q.vs.copy_(list)
        else:
            for t, v in zip(q.ts, q.vs):
                b.add(t, v)
    log = lg.as_sequence()
    vc.prove("a player's log", type(log) is PlayerLog)
    for k in parts:
        U.holds(vc, k + " as logged", getattr(log, k), qs[k].n, qs[k].t, qs[k].v)
        vc.prove("every player has a logger of its own", len(getattr(other, k).timestamps) == 0 and len(getattr(other, k).values) == 0)


@target("P29", "who collided, any number of reports and players", ["dg_commons.sim.utils.who_collided"], kind="loop", samples=100, budget=60)
def h(vc):
    w = M.Names(vc, "p", 1)
    n = U.length(vc, "reports", 0, 4)
    if vc.symbolic:
        import z3

        inv = z3.Function("involved", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        reports = L.SSeq(L.I(n), lambda i: NS(players=M.D.SDict(w.dom, lambda j: None, lambda j: inv(i, j))), list)
        vc.loops("dg_commons.sim.utils.who_collided")
        r = (L.raw("dg_commons.sim.utils.who_collided") or who_collided)(NS(collision_reports=reports))
        if type(r) is not M.D.Flat or r.pytype is not frozenset or len(r.parts) != 1 or not L.symbolic(r.parts[0]):
            raise Undecided("collected in another way")
        x = r.parts[0]
        vc.prove("all reports", M.SBool(x.n == L.I(n)))
        i, j = vc.int("i", 0), w.any("j")
        vc.assume(i < n)
        ks = x.get(i.t)
        src = getattr(ks, "source", None)
        if not getattr(ks, "names", False) or not M.D.is_dict(src):
            raise Undecided("collected in another way")
        vc.prove("exactly the players in some report", M.SBool(src.has(j.t) == inv(i.t, j.t)))
    else:
        rs = [[k for k in w.indices() if vc.bool(f"in{i}.{k}")] for i in range(int(n))]
        r = who_collided(NS(collision_reports=[NS(players={w.key(k): None for k in ks}) for ks in rs]))
        vc.prove("exactly the players in some report", r == frozenset(w.key(k) for ks in rs for k in ks))


@target("P29", "only player logs are kept", [S + "SimLog.__setitem__"], samples=20)
def h(vc):
    log = SimLog()
    key = vc.choice("key", ["P0", "P1"])
    mine = as_log(some_log(vc, "P", 1, 1, 0))
    log["P0"] = mine
    bad = vc.choice("bad", [None, 3, "PlayerLog", {"states": 1}, PlayerLog, NS(states=mine.states, commands=mine.commands, extra=mine.extra, info=mine.info), (mine,)])
    ok = False
    try:
        log[key] = bad
    except Exception:
        ok = True
    vc.prove("anything else is refused", ok)
    vc.prove("and changes nothing", dict(log) == {"P0": mine} and log["P0"] is mine)

    other = as_log(some_log(vc, "Q", 1, 1, 0))
    log[key] = other
    vc.prove("player logs are kept", log[key] is other and len(log) == (1 if key == "P0" else 2))
