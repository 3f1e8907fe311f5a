"""P17 stepping: the simulator advances every player with its own commands, on one clock"""
from decimal import Decimal
import copy
from pyvc.vc import target, Undecided
from .simworld import *

K = "dg_commons.sim.simulator.Simulator."
INF = Decimal("Infinity")
EXTRA = lambda k: [0, (), "", False, ("extra", k)][k % 5]  # also empty ones are information


def _run(vc, names, steps, missions=False):
    log = []
    dt = vc.real("dt", lo=0, lo_open=True, typ=(0.05, 0.6), kind="Decimal")
    dtc = vc.real("dt_commands", lo=0, typ=(0.0, 1.5), kind="Decimal")
    T = vc.real("T", lo=0, typ=(0.1, 1.2), kind="Decimal")
    vc.assume(T < dt * (steps - 1) if vc.symbolic else T < dt * 12)
    x0 = {p: vc.real(f"x0.{p}") for p in names}
    cmd = lambda p, k: vc.real(f"u.{p}.{k}")
    models = {p: Model(p, log, x0[p], apart(i)) for i, p in enumerate(names)}
    ex = {p: vc.flag(f"extra.{p}") for p in names}
    agents = {p: Ag(p, log, cmd, EXTRA if ex[p] else (lambda k: None)) for p in names}
    done = {}

    def fulfilled(state, at):
        done.setdefault("calls", []).append((state.x, at))
        k = done.get("k", 0)
        done["k"] = k + 1
        f = vc.flag(f"goal{k}")
        done.setdefault("flags", []).append(f)
        return f

    ms = {names[0]: Goal(fulfilled)} if missions else {}
    sc = SimContext(dg_scenario=DgScenario(), models=models, players=dict(agents), missions=ms,
                    param=SimParameters(dt=dt, dt_commands=dtc, max_sim_time=T, sim_time_after_collision=Decimal(0)), seed=7)
    s = Simulator()
    s.run(sc)
    return NS(log=log, dt=dt, dtc=dtc, T=T, x0=x0, ex=ex, sc=sc, done=done, s=s, names=names)


def _oracle(vc, w):
    """the documented loop, on the recorded commands"""
    t, last, x = 0, None, dict(w.x0)
    active, cmds, k = list(w.names), {}, {p: 0 for p in w.names}
    ask, upd, states, cl, el = [], [], {p: [] for p in w.names}, {p: [] for p in w.names}, {p: [] for p in w.names}
    g = 0
    while True:
        need = True if last is None else bool(t - last >= w.dtc)
        snap = {p: x[p] for p in active}
        for p in active:
            states[p].append((t, x[p]))
            if need:
                k[p] += 1
                cmds[p] = vc.real(f"u.{p}.{k[p]}")
                ask.append((p, t, snap, cmds[p]))
                cl[p].append((t, cmds[p]))
                if w.ex[p]:
                    el[p].append((t, EXTRA(k[p])))
            upd.append((p, cmds[p], w.dt, x[p]))
            x[p] = x[p] + cmds[p]
        if need:
            last = t
        t = t + w.dt
        if w.sc.missions and w.names[0] in active:
            if g >= len(w.done.get("flags", ())):
                vc.prove("the goal is checked at every step of its player", False)
                break
            vc.prove("the goal is judged on the state after the step, at the new time", vc.eq(tuple(w.done["calls"][g]), (x[w.names[0]], t)))
            if w.done["flags"][g]:
                active.remove(w.names[0])
                states[w.names[0]].append((t, x[w.names[0]]))
            g += 1
        if not active or (w.sc.missions and w.names[0] not in active) or bool(t > w.T):
            break
    return NS(t=t, x=x, ask=ask, upd=upd, states=states, cl=cl, el=el, active=active)


def _compare(vc, w):
    o = _oracle(vc, w)
    asks, upds = by_kind(w.log, "ask"), by_kind(w.log, "update")
    vc.prove("as many requests as due", len(asks) == len(o.ask))
    for a, e in zip(asks, o.ask):
        vc.prove("asked in turn, at the current time", vc.And(a[1] == e[0], vc.eq(a[2], e[1])))
        vc.prove("everybody sees the states of all active players at that time", vc.And(set(a[3]) == set(e[2]), vc.eq([a[3][p] for p in e[2] if p in a[3]], [e[2][p] for p in e[2] if p in a[3]])))
    vc.prove("every player is advanced once per step", len(upds) == len(o.upd))
    for a, e in zip(upds, o.upd):
        vc.prove("with its own latest commands, by dt, from its own state", vc.And(a[1] == e[0], vc.eq(tuple(a[2:5]), tuple(e[1:4]))))
    vc.prove("clock", vc.eq(w.sc.time, o.t))
    vc.prove("terminated", w.sc.sim_terminated is True or bool(w.sc.sim_terminated))
    vc.prove("players left", list(w.sc.players) == o.active)
    vc.prove("log of every player", set(w.sc.log) == set(w.names))
    for p in w.names:
        l = w.sc.log[p]
        vc.prove("states logged", len(l.states) == len(o.states[p]) and vc.eq([(t, s.x) for t, s in l.states], o.states[p]))
        vc.prove("commands logged", len(l.commands) == len(o.cl[p]) and vc.eq([(t, c) for t, c in l.commands], o.cl[p]))
        vc.prove("extra logged", [e for _, e in l.extra] == [e for _, e in o.el[p]] and vc.eq([t for t, _ in l.extra], [t for t, _ in o.el[p]]))
        vc.prove("timing logged with the commands", len(l.info) == len(o.cl[p]) and vc.eq([t for t, _ in l.info], [t for t, _ in o.cl[p]]))
    vc.prove("models end where they should", vc.eq([w.sc.models[p].get_state().x for p in w.names], [o.x[p] for p in w.names]))


for _n, _s in ((1, 4), (2, 3)):

    @target("P17", f"episodes of {_n} players", [K + "run", K + "pre_update", K + "update", K + "post_update"], kind="bounded",
            bound=f"{_n} players, up to {_s} steps, all step sizes and command periods", samples=150, budget=60)
    def h(vc, n=_n, s=_s):
        names = ["a", "b"][:n]
        w = _run(vc, names, s)
        ini = by_kind(w.log, "init")
        vc.prove("every agent is initialised once, first", [e[1] for e in ini] == names and w.log[: len(names)] == ini)
        for e in ini:
            vc.prove("initial observations", e[2].my_name == e[1] and e[2].seed == 7 and e[2].goal is None and isinstance(e[2].dg_scenario, DgScenario) and e[2].dg_scenario is not w.sc.dg_scenario)
        _compare(vc, w)

    @target("P17", f"episodes with a mission, {_n} players", [K + "run", K + "_remove_finished_players"], kind="bounded",
            bound=f"{_n} players, one with a mission, up to {_s} steps", samples=150, budget=60)
    def h(vc, n=_n, s=_s):
        w = _run(vc, ["a", "b"][:n], s, missions=True)
        _compare(vc, w)
        vc.prove("the goal is handed out", by_kind(w.log, "init")[0][2].goal is not None)


@target("P17", "longer episodes", [K + "run"], kind="runtime", samples=150, bound="seeded episodes of up to 4 players and 12 steps")
def h(vc):
    w = _run(vc, ["a", "b", "c", "d"][: vc.choice("n", [1, 3, 4])], 13, missions=vc.flag("mission"))
    _compare(vc, w)


@target("P17", "players leave one after the other", [K + "run", K + "pre_update", K + "update", K + "post_update", K + "_remove_finished_players"], kind="runtime", samples=150,
        bound="seeded episodes of up to 4 players and 8 steps")
def h(vc):
    names = ["a", "b", "c", "d"][: vc.choice("n", [2, 3, 4])]
    log = []
    dt, every = Decimal(vc.choice("dt", ["0.1", "0.25"])), vc.choice("every", [1, 1, 2, 3])
    N = vc.choice("steps", [3, 5, 8])
    leaves = {p: vc.choice(f"leaves.{p}", [None, 1, 2, 3, 5]) for p in names}  # the step after which the goal is reached (no mission: never)
    x0 = {p: vc.real(f"x0.{p}") for p in names}
    cmd = lambda p, k: vc.real(f"u.{p}.{k}")
    extra = {p: vc.flag(f"extra.{p}") for p in names}
    agents = {p: Ag(p, log, cmd, EXTRA if extra[p] else (lambda k: None)) for p in names}
    goal = lambda p: Goal(lambda st, at: at >= dt * leaves[p])
    sc = SimContext(dg_scenario=DgScenario(), models={p: Model(p, log, x0[p], apart(i)) for i, p in enumerate(names)}, players=dict(agents),
                    missions={p: goal(p) for p in names if leaves[p]},
                    param=SimParameters(dt=dt, dt_commands=dt * every, max_sim_time=dt * N))
    s = vc.again("simulator", Simulator)
    s.run(sc)
    active, x, k, cmds, t = list(names), dict(x0), {p: 0 for p in names}, {}, Decimal(0)
    ask, upd, st = [], [], {p: [] for p in names}
    for step in range(N + 1):
        if step % every == 0:
            for p in active:
                k[p] += 1
                cmds[p] = cmd(p, k[p])
                ask.append((p, t, {q: x[q] for q in active}))
        for p in active:
            st[p].append((t, x[p]))
            upd.append((p, cmds[p], x[p]))
            x[p] = x[p] + cmds[p]
        t += dt
        for p in list(active):
            if leaves[p] and t >= dt * leaves[p]:
                active.remove(p)
                st[p].append((t, x[p]))
        if not active or any(leaves.values()) and not any(leaves[p] for p in active):
            break
    vc.prove("everybody sees exactly the players still active, in their states now", [(a[1], a[2], a[3]) for a in by_kind(log, "ask")] == ask)
    vc.prove("only active players are advanced, by their own commands", [(u[1], u[2], u[4]) for u in by_kind(log, "update")] == upd)
    vc.prove("logged until they leave", {p: [(t, v.x) for t, v in l.states] for p, l in sc.log.items()} == st)
    vc.prove("one entry per request", {p: list(l.commands) for p, l in sc.log.items()} == {p: [(a[1], vc.real(f"u.{p}.{i + 1}")) for i, a in enumerate(b for b in ask if b[0] == p)] for p in names})
    vc.prove("clock", sc.time == t and list(sc.players) == active)


for _n in (1, 2, 3):

    @target("P17", f"one step from any state, {_n} players", [K + "pre_update", K + "update", K + "post_update", K + "_need_to_update_commands"], kind="bounded",
            bound=f"{_n} players, any history", samples=60, budget=60)
    def h(vc, n=_n):
        """induction step: whatever happened before, the next step does what it should"""
        names = ["a", "b", "c"][:n]
        log = []
        t = vc.real("t", lo=0, typ=(0.0, 5.0), kind="Decimal")
        last = vc.real("last", typ=(-1.0, 5.0), kind="Decimal")
        vc.assume(last <= t)
        dt = vc.real("dt", lo=0, lo_open=True, typ=(0.05, 0.6), kind="Decimal")
        dtc = vc.real("dt_commands", lo=0, typ=(0.0, 1.5), kind="Decimal")
        x = {p: vc.real(f"x.{p}") for p in names}
        old = {p: vc.real(f"old.{p}") for p in names}
        new = {p: vc.real(f"new.{p}") for p in names}
        models = {p: Model(p, log, x[p], apart(i)) for i, p in enumerate(names)}
        agents = {p: Ag(p, log, lambda p, k: new[p]) for p in names}
        s = ready(Simulator(), ("last_get_commands_ts", "last_commands", "simlogger", "last_observations"))
        sc = SimContext(dg_scenario=DgScenario(), models=models, players=dict(agents), time=t,
                        param=SimParameters(dt=dt, dt_commands=dtc, max_sim_time=Decimal(10**6)))
        s.last_get_commands_ts = last
        s.last_commands.update(old)
        from dg_commons.sim.simulator_structures import PlayerLogger

        for p in names:
            s.simlogger[p] = PlayerLogger()
        vc.margin((t - last, dtc))
        s.pre_update(sc)
        s.update(sc)
        s.post_update(sc)
        need = bool(t - last >= dtc)
        asks, upds = by_kind(log, "ask"), by_kind(log, "update")
        vc.prove("asked exactly when due", [a[1] for a in asks] == (names if need else []))
        for a in asks:
            vc.prove("observation of all at this time", vc.And(vc.eq(a[2], t), set(a[3]) == set(names), vc.eq([a[3][p] for p in names], [x[p] for p in names])))
        vc.prove("each advanced once", [u[1] for u in upds] == names)
        for u in upds:
            p = u[1]
            vc.prove("with its latest commands by dt", vc.And(vc.eq(u[2], new[p] if need else old[p]), vc.eq(u[3], dt), vc.eq(u[4], x[p])))
        vc.prove("clock", vc.eq(sc.time, t + dt))
        vc.prove("last request", vc.eq(s.last_get_commands_ts, t if need else last))
        for p in names:
            l = s.simlogger[p].as_sequence()
            vc.prove("logged", vc.And(len(l.states) == 1 and len(l.commands) == (1 if need else 0), vc.eq((l.states.timestamps[0], l.states.values[0].x), (t, x[p]))))


@target("P17", "sensors filter what agents see", [K + "update"], kind="runtime", samples=100, bound="seeded episodes with recording sensors")
def h(vc):
    from dg_commons.sim.sim_perception import ObsFilter
    from dataclasses import replace
    from dg_commons import fd

    log, seen = [], []

    class F(ObsFilter):
        def __init__(self, tag):
            self.tag = tag

        def sense(self, scenario, full_obs, pov):
            seen.append((self.tag, pov, full_obs.time, scenario))
            return replace(full_obs, players=fd({pov: full_obs.players[pov]}))

    names = ["a", "b", "c"]
    cmd = lambda p, k: vc.real(f"u.{p}.{k}")
    models = {p: Model(p, log, vc.real(f"x.{p}"), apart(i)) for i, p in enumerate(names)}
    agents = {p: Ag(p, log, cmd) for p in names}
    sens = {p: F(p) for p in names}
    dt = Decimal(str(round(vc.real("dt", 0.05, 0.5), 2)))
    sc = SimContext(dg_scenario=DgScenario(), models=models, players=agents, sensors=sens,
                    param=SimParameters(dt=dt, dt_commands=dt, max_sim_time=Decimal(1)))
    Simulator().run(sc)
    asks = by_kind(log, "ask")
    vc.prove("one reading per request, of the player's own sensor", [(s[0], s[1], s[2]) for s in seen] == [(a[1], a[1], a[2]) for a in asks])
    vc.prove("agents see the reading", all(set(a[3]) == {a[1]} for a in asks))
    vc.prove("in the scenario of the simulation", all(s[3] is sc.dg_scenario for s in seen))


@target("P17", "a simulator can run several episodes", [K + "run"], kind="runtime", samples=60, bound="seeded pairs of episodes")
def h(vc):
    def world(k):
        log = []
        names = ["a", "b"][: vc.choice(f"n{k}", [1, 2])]
        models = {p: Model(p, log, vc.real(f"x{k}.{p}"), apart(i)) for i, p in enumerate(names)}
        agents = {p: Ag(p, log, lambda p, j: vc.real(f"u{k}.{p}.{j}")) for p in names}
        return log, lambda: SimContext(dg_scenario=DgScenario(), models=copy.deepcopy(models), players=copy.copy(agents), param=SimParameters(max_sim_time=Decimal("0.4")))

    l1, w1 = world(1)
    l2, w2 = world(2)
    s = Simulator()
    c1, c2 = w1(), w2()
    s.run(c1)
    s.run(c2)
    f = Simulator()
    for a in c2.players.values():
        a.k = 0
    c3 = w2()
    f.run(c3)
    L = lambda c: {p: ([(t, x.x) for t, x in l.states], list(l.commands)) for p, l in c.log.items()}
    vc.prove("the second episode does not depend on the first", L(c2) == L(c3))


# ------------------------------------------------------------------------------------------------ any number of players
from . import simmany as SM


@target("P17", "one step from any state, any number of players", [K + "pre_update", K + "update", K + "_need_to_update_commands"], kind="loop", samples=150, budget=120)
def h(vc):
    """whatever happened before: one step shows every active player the states of all active ones (through its own sensor), advances each
    with its latest commands, and leaves those alone that have finished"""
    D = dict(kind="Decimal")
    W = SM.World(vc)
    w, M, L = W.w, SM.M, SM.L
    t, last = vc.real("t", lo=0, typ=(0.0, 5.0), **D), vc.real("last", typ=(-1.0, 5.0), **D)
    vc.assume(last <= t)
    dt, dtc = vc.real("dt", lo=0, lo_open=True, typ=(0.05, 0.6), **D), vc.real("dt_commands", lo=0, typ=(0.0, 1.5), **D)
    vc.margin((t - last, dtc))
    sc = W.context(time=t, param=SimParameters(dt=dt, dt_commands=dtc, max_sim_time=Decimal(10**6)))
    s = W.simulator()
    s.last_get_commands_ts = last
    s.last_commands, s.simlogger = w.dict(W.old, W.active), w.dict(W.loggers.get)
    need = bool(t - last >= dtc)
    before = s.last_observations
    seen = w.dict(lambda i: SM.PlayerObservations(state=St(W.x(i)), occupancy=W.models.get(i).shape), W.active)
    scene = SM.SimObservations(players=seen, time=t)
    cmd = W.new if need else W.old

    def model(o, i):
        o.calls.append((cmd(i), dt))
        o._state = St(W.x(i) + cmd(i))

    def agent(o, i):
        if need:
            o.seen.append(SM.Reading(i, sc.dg_scenario, scene, w.key(i)))

    def logger(o, i):
        o.states.add(t, St(W.x(i)))
        if need:
            o.commands.add(t, W.new(i))
            o.info.add(t, None)
            if W.gives(i):
                o.extra.add(t, ("extra", i))

    if vc.symbolic:
        upto = lambda l, k, i: (lambda ok, rank: SM.L.z3.And(ok, rank < k))(*l.order(L.I(i)))
        vc.loops(K + "pre_update", {0: lambda l, e: L.LoopSpec(vals={"players_observations": lambda k: w.dict(
            lambda i: SM.PlayerObservations(state=St(W.x(i)), occupancy=SM.Shape(i)), lambda i: upto(l, k, i))})})
        vc.loops(K + "update", {0: lambda l, e: L.LoopSpec(
            attrs={("self", "last_commands"): lambda k: w.dict(lambda i: vc.If(M.SBool(upto(l, k, i)), cmd(i), W.old(i)), W.active)},
            fams={W.models: model, W.agents: agent, W.loggers: logger})})
    s.pre_update(sc)
    if need:
        W.same("everybody is shown the states of all active players now", s.last_observations, SM.SimObservations(
            players=w.dict(lambda i: SM.PlayerObservations(state=St(W.x(i)), occupancy=SM.Shape(i) if vc.symbolic else W.models.get(i).shape), W.active), time=t))
        scene = s.last_observations
    s.update(sc)
    vc.prove("last request", vc.eq(s.last_get_commands_ts, t if need else last))
    vc.prove("the clock is not touched yet", vc.eq(sc.time, t))
    M.holds_dict(vc, "latest commands", s.last_commands, w, cmd, W.active)

    def check(i):
        m, a, l = SM.RModel(i, W.x(i)), SM.RAgent(W.new(i), None), SM.RLogger()
        if W.active(i):
            model(m, i)
            agent(a, i)
            logger(l, i)
        o = W.models.get(i)
        W.same("advanced once, by dt, with its latest commands -- unless it has finished", (o.calls, o._state), (m.calls, m._state))
        W.same("asked exactly when due, with the reading of its own sensor", W.agents.get(i).seen, a.seen)
        W.same("logged", W.loggers.get(i), l)

    W.each(check)


@target("P17", "a whole episode, any number of players and steps", [K + "run"], kind="loop", samples=100)
def h(vc):
    """every agent is initialised once with its own goal and geometry and a copy of the scenario; then observing, advancing and judging
    alternate until the episode is terminated; the log holds what was logged for everybody"""
    W = SM.World(vc)
    w, M, L = W.w, SM.M, SM.L
    goal, ends = w.flags("mission"), vc.int("last_step", 0, None, most=4)
    sc = W.context(seed=vc.int("seed", 0, None, most=9))
    sc.players = w.dict(W.agents.get)
    sc.missions = w.dict(lambda i: _Goal(i), goal)
    sc.dg_scenario = _Scenario("given")
    sc.sim_terminated, sc.log = False, w.dict(lambda i: None, lambda i: False)
    s = W.simulator(("simlogger",))
    s.simlogger = w.dict(lambda i: "stale")
    tr = _Trace()

    def pre(self, ctx):
        vc.prove("observe first", tr.phase == 0 and ctx is sc and self is s)
        tr.phase = 1

    def upd(self, ctx):
        vc.prove("then advance", tr.phase == 1 and ctx is sc and self is s)
        tr.phase = 2

    def post(self, ctx):
        vc.prove("then judge", tr.phase == 2 and ctx is sc and self is s)
        tr.phase = 0
        sc.sim_terminated = tr.steps >= ends
        tr.steps = tr.steps + 1

    for nm, f in (("pre_update", pre), ("update", upd), ("post_update", post)):
        if nm not in vars(Simulator):
            raise Undecided(f"no {nm}")
        vc.patch_attr(Simulator, nm, f)
    vc.patch_attr(SM.RModel, "model_geometry", property(lambda m: ("geometry", m.shape.i)))
    vc.patch_attr(SM.RModel, "model_params", property(lambda m: ("parameters", m.shape.i)))
    import dg_commons.sim.simulator as simulator

    if not hasattr(simulator, "PlayerLogger"):
        raise Undecided("another logger")
    vc.patch(simulator.PlayerLogger, _Logger)

    def init(i):
        return SM_Init(my_name=w.key(i), seed=sc.seed, dg_scenario=_Scenario("copy"), goal=_Goal(i, "copy") if goal(i) else None,
                       model_geometry=("geometry", i), model_params=("parameters", i))

    if vc.symbolic:
        z3, rank = L.z3, lambda l, k, i: (lambda ok, r: z3.And(ok, r < k))(*l.order(L.I(i)))
        vc.loops(K + "run", {
            0: lambda l, e: L.LoopSpec(attrs={("self", "simlogger"): lambda k: w.dict(lambda i: _Logger(), lambda i: rank(l, k, i))},
                                       fams={W.agents: lambda o, i: o.inits.append(init(i))}),
            1: lambda l, e: L.LoopSpec(attrs={("sim_context", "log"): lambda k: w.dict(lambda i: "sequence", lambda i: rank(l, k, i))}),
            ("while", 0): lambda l, e: L.LoopSpec(
                attrs={(tr, "phase"): lambda k: 0, (tr, "steps"): lambda k: M.Sym(k, "int"),
                       ("sim_context", "sim_terminated"): lambda k: M.SBool(z3.And(k > 0, k > L.I(ends)))},
                inv=lambda k, e: [k <= L.I(ends) + 1])})
    s.run(sc)
    vc.prove("exactly as many steps as until termination", vc.And(tr.steps == ends + 1, tr.phase == 0))
    M.holds_dict(vc, "a log for everybody", sc.log, w, lambda i: "sequence")
    M.holds_dict(vc, "a fresh logger for everybody", s.simlogger, w, lambda i: _Logger())
    W.each(lambda i: W.same("initialised once, with what it may know", W.agents.get(i).inits, [init(i)]))


from dg_commons.sim.simulator_structures import InitSimObservations as SM_Init


class _Scenario:
    def __init__(self, tag):
        self.tag = tag

    def __deepcopy__(self, memo):
        return _Scenario("copy")


class _Goal:
    def __init__(self, i, tag="given"):
        self.i, self.tag = i, tag

    def __deepcopy__(self, memo):
        return _Goal(self.i, "copy")


class _Logger:
    """a logger of a player: what it turns into is shown elsewhere (P01, P29)"""

    def as_sequence(self):
        return "sequence"


class _Trace:
    phase, steps = 0, 0

    def __init__(self):
        self.phase, self.steps = 0, 0
