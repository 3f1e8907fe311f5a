"""P18 episodes end exactly when they should"""
from decimal import Decimal
from pyvc.vc import target, Undecided
from dg_commons.sim.simulator_structures import PlayerLogger
from .simworld import *

K = "dg_commons.sim.simulator.Simulator."


def _sim(names):
    s = ready(Simulator(), ("simlogger", "last_get_commands_ts"))
    for p in names:
        s.simlogger[p] = PlayerLogger()
    return s


def _terminates(vc, t, T, first, after, players, missions):
    """specification: time is over, or the time after the first collision is over, or nobody (with a mission) is left"""
    over = vc.Or(t > T, False if first is None else t > first + after)
    return vc.Or(over, not players, bool(missions) and all(m not in players for m in missions))


for _n in (0, 1, 2, 3):

    @target("P18", f"end of a step, {_n} players", [K + "post_update", K + "_maybe_terminate_simulation", K + "_remove_finished_players"], kind="bounded",
            bound=f"{_n} active players, any times, any subset with missions", samples=150, budget=60)
    def h(vc, n=_n):
        names = ["a", "b", "c"][: max(n, 1)]
        log = []
        D = dict(kind="Decimal")
        t, dt = vc.real("t", lo=0, typ=(0.0, 5.0), **D), vc.real("dt", lo=0, lo_open=True, typ=(0.05, 0.6), **D)
        T, after = vc.real("T", lo=0, typ=(0.5, 6.0), **D), vc.real("after", lo=0, typ=(0.0, 1.0), **D)
        collided = vc.flag("collided")
        first = None
        if collided:
            first = vc.real("first", typ=(0.0, 5.0), **D)
            vc.assume(first <= t)
        models = {p: Model(p, log, vc.real(f"x.{p}"), apart(i)) for i, p in enumerate(names)}
        has = {p: vc.flag(f"mission.{p}") for p in names}
        out, judged = {}, []

        def goal(p):
            def fulfilled(state, at):
                judged.append((p, state.x, at))
                out[p] = vc.flag(f"done.{p}")
                return out[p]

            return Goal(fulfilled)

        active = names[:n]
        sc = SimContext(dg_scenario=DgScenario(), models=models, players={p: Ag(p, log, lambda p, k: 0.0) for p in names}, time=t,
                        missions={p: goal(p) for p in names if has[p]},
                        param=SimParameters(dt=dt, dt_commands=dt, max_sim_time=T, sim_time_after_collision=after))
        if n == 0:
            sc.players.clear()
        if collided:
            sc.first_collision_ts = first
        s = _sim(names)
        s.post_update(sc)
        t2 = t + dt
        ms = [p for p in names if has[p]]
        vc.prove("the clock advances by dt", vc.eq(sc.time, t2))
        vc.prove("every active mission is judged once, on the new state at the new time",
                 vc.And(sorted(j[0] for j in judged) == [p for p in active if has[p]], vc.eq([j[1:] for j in judged], [(models[j[0]]._state.x, t2) for j in judged])))
        left = [p for p in active if not (has[p] and out.get(p))]
        vc.prove("exactly the players that fulfilled their mission leave", list(sc.players) == left)
        vc.prove("their models stay", list(sc.models) == names)
        vc.prove("terminates exactly when it should", vc.Iff(bool(sc.sim_terminated), _terminates(vc, t2, T, first, after, left, ms)))
        for p in names:
            l = s.simlogger[p].states
            fin = p in active and p not in left
            vc.prove("final states are logged", len(l) == (1 if fin else 0) and (not fin or vc.eq((l.timestamps[0], l.values[0].x), (t2, models[p]._state.x))))
        vc.prove("no collision, no report", len(sc.collision_reports) == 0)
        if collided:
            vc.prove("the first collision stays the first", vc.eq(sc.first_collision_ts, first))


@target("P18", "whole episodes end in time", [K + "run"], kind="runtime", samples=200, bound="seeded episodes with missions and collisions")
def h(vc):
    from dg_commons.sim import collision as col
    from dg_commons.sim.collision_structures import CollisionReport

    n = vc.choice("n", [1, 2, 3])
    names = ["a", "b", "c"][:n]
    log = []
    dec = lambda name, lo, hi: Decimal(str(round(vc.real(name, lo, hi), 2)))
    dt, T, after = dec("dt", 0.05, 0.5), dec("T", 0, 3), dec("after", 0, 1)
    vc.assume(dt > 0)
    hit = vc.choice("overlap", [False, True]) and n > 1
    models = {p: Model(p, log, 0, apart(0 if hit else i)) for i, p in enumerate(names)}
    when = {p: dec(f"done.{p}", 0, 4) for p in names}
    has = {p: vc.flag(f"mission.{p}") for p in names}
    k0 = vc.choice("collides_from", [1, 2, 4])
    calls = []

    def resolve(a, b, ctx):
        calls.append(ctx.time)
        return CollisionReport.get_empty({a: None, b: None}, ctx.time) if ctx.time >= k0 * dt else None

    vc.patch_attr(col, "resolve_collision", resolve)
    sc = SimContext(dg_scenario=DgScenario(), models=models, players={p: Ag(p, log, lambda p, k: 1.0) for p in names},
                    missions={p: Goal(lambda s, at, p=p: at >= when[p]) for p in names if has[p]},
                    param=SimParameters(dt=dt, dt_commands=dt, max_sim_time=T, sim_time_after_collision=after))
    Simulator().run(sc)
    t, active, first = Decimal(0), list(names), None
    ms = [p for p in names if has[p]]
    fin = {}
    while True:
        t += dt
        for p in list(active):
            if has[p] and t >= when[p]:
                active.remove(p)
                fin[p] = t
        if t > T or (first is not None and t > first + after) or not active or (ms and all(p not in active for p in ms)):
            break
        if hit and len(active) > 1 and t >= k0 * dt and first is None:
            first = t
    vc.prove("ends at the right time", sc.time == t)
    vc.prove("players left", list(sc.players) == active)
    vc.prove("time of the first collision", sc.first_collision_ts == (first if first is not None else Decimal("Infinity")))
    for p in names:
        steps = [k * dt for k in range(int(t / dt) + 2) if k * dt < fin.get(p, t)]
        vc.prove("every state is logged until the player leaves", list(sc.log[p].states.timestamps) == steps + ([fin[p]] if p in fin else []))
    vc.prove("never beyond the limits by more than a step", sc.time <= T + dt and (first is None or sc.time <= first + after + dt))


# ------------------------------------------------------------------------------------------------ any number of players
from . import simmany as SM


class RGoal:
    """remembers what it judged"""

    def __init__(self, verdict):
        self.verdict, self.judged = verdict, []

    def is_fulfilled(self, state, at=0):
        self.judged.append((state.x, at))
        return self.verdict


@target("P18", "end of a step, any number of players", [K + "post_update", K + "_maybe_terminate_simulation", K + "_remove_finished_players"], kind="loop", samples=300, budget=120)
def h(vc):
    D = dict(kind="Decimal")
    W = SM.World(vc)
    w, M, L = W.w, SM.M, SM.L
    has, done = w.flags("mission"), w.flags("done")
    goals = w.objects(lambda i: RGoal(done(i)), "goal")
    t, dt = vc.real("t", lo=0, typ=(0.0, 5.0), **D), vc.real("dt", lo=0, lo_open=True, typ=(0.05, 0.6), **D)
    T, after = vc.real("T", lo=0, typ=(0.5, 6.0), **D), vc.real("after", lo=0, typ=(0.0, 1.0), **D)
    first = vc.real("first", typ=(0.0, 5.0), **D) if vc.flag("collided") else Decimal("Infinity")
    sc = W.context(time=t, param=SimParameters(dt=dt, dt_commands=dt, max_sim_time=T, sim_time_after_collision=after))
    sc.missions = w.dict(goals.get, has)
    sc.first_collision_ts = first
    s = W.simulator(("simlogger",))
    s.simlogger = w.dict(W.loggers.get)
    t2 = t + dt
    checks = []
    for nm in ("_check_collisions_with_environment", "_check_collisions_among_players"):
        if nm not in vars(Simulator):
            raise Undecided(f"no {nm}")
        vc.patch_attr(Simulator, nm, staticmethod(lambda c, nm=nm: checks.append((nm, c is sc, c.time, c.sim_terminated))))

    left = lambda i: vc.And(W.active(i), vc.Not(vc.And(has(i), done(i))))

    def goal(o, i):
        if W.active(i):
            o.judged.append((W.x(i), t2))

    def logger(o, i):
        if vc.And(W.active(i), done(i)):
            o.states.add(t2, St(W.x(i)))

    if vc.symbolic:
        z3 = L.z3

        def gone(l, k, i):
            ok, rank = l.order(L.I(i))
            return z3.And(ok, rank < k, L.bterm(done(i)))

        vc.loops(K + "_remove_finished_players", {0: lambda l, e: L.LoopSpec(
            attrs={("sim_context", "players"): lambda k: w.dict(W.agents.get, lambda i: z3.And(L.bterm(W.active(i)), z3.Not(gone(l, k, i))))},
            fams={goals: goal, W.loggers: logger})})
        vc.loops(K + "_maybe_terminate_simulation")
    s.post_update(sc)
    vc.prove("the clock advances by dt", vc.eq(sc.time, t2))
    M.holds_dict(vc, "exactly the players that fulfilled their mission leave", sc.players, w, W.agents.get, left, eq=lambda a, b: a is b)
    M.holds_dict(vc, "the models stay", sc.models, w, W.models.get, eq=lambda a, b: a is b)
    somebody, mission = vc.some(0, w.n, left), vc.some(0, w.n, has)
    working = vc.some(0, w.n, lambda i: vc.And(has(i), left(i)))
    over = vc.Or(t2 > T, False if isinstance(first, Decimal) and first.is_infinite() else t2 > first + after)
    end = bool(sc.sim_terminated)
    vc.prove("terminates exactly when it should", vc.Iff(end, vc.Or(over, not somebody, mission and not working)))
    vc.prove("no collisions are looked for after the end, all are before", sorted(c[0] for c in checks) ==
             ([] if end else ["_check_collisions_among_players", "_check_collisions_with_environment"]))
    vc.prove("at the new time", vc.And(*[vc.And(c[1], vc.eq(c[2], t2), not c[3]) for c in checks]))
    vc.prove("the first collision stays the first", vc.eq(sc.first_collision_ts, first) if not isinstance(first, Decimal) or not first.is_infinite() else sc.first_collision_ts == first)

    def check(i):
        g, l = RGoal(done(i)), SM.RLogger()
        if has(i):
            goal(g, i)
            logger(l, i)
        W.same("every active mission is judged once, on the new state at the new time", goals.get(i).judged, g.judged)
        W.same("final states are logged", W.loggers.get(i), l)

    W.each(check)
