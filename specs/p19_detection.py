"""P19 collisions are detected pairwise at every step"""
from decimal import Decimal
from pyvc.vc import target, Undecided
from .simworld import *
from .p18_termination import _sim, K


def _report(players, t):
    from dg_commons.sim.collision_structures import CollisionReport

    return CollisionReport.get_empty({p: None for p in players}, t)


class Foot:
    """footprints with arbitrary overlaps"""

    def __init__(self, i, table):
        self.i, self.table = i, table

    def intersects(self, o):
        return self.table[min(self.i, o.i), max(self.i, o.i)]


for _n in (1, 2, 3):

    @target("P19", f"pairs among {_n} players", [K + "post_update", K + "_check_collisions_among_players"], kind="bounded", bound=f"{_n} players, all overlaps and outcomes",
            samples=150, budget=80)
    def h(vc, n=_n):
        from dg_commons.sim import collision as col
        from dg_commons.sim.collision_utils import CollisionException

        names = ["a", "b", "c"][:n]
        log, calls = [], []
        table, res = {}, {}
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        for i, j in pairs:
            table[i, j] = vc.flag(f"overlap{i}{j}")
            res[i, j] = vc.choice(f"outcome{i}{j}", ["report", "separating", "unsupported"]) if table[i, j] else None
        t = vc.real("t", lo=0, typ=(0.0, 5.0), kind="Decimal")
        models = {p: Model(p, log, 0.0, Foot(i, table)) for i, p in enumerate(names)}
        sc = SimContext(dg_scenario=DgScenario(), models=models, players={p: Ag(p, log, lambda p, k: 0.0) for p in names}, time=t,
                        param=SimParameters(dt=Decimal(1), max_sim_time=Decimal(10**6), sim_time_after_collision=Decimal(10**6)))
        early = vc.flag("earlier")
        if early:
            first = vc.real("first", typ=(0.0, 5.0), kind="Decimal")
            vc.assume(vc.And(first <= t, t - first < 10**5))
            sc.first_collision_ts = first
        vc.assume(t < 10**5)
        reps = {}

        def resolve(a, b, ctx):
            k = tuple(sorted((names.index(a), names.index(b))))
            calls.append((k, ctx is sc, ctx.time))
            if res[k] == "unsupported":
                raise CollisionException("unsupported")
            if res[k] == "report":
                reps[k] = _report((a, b), ctx.time)
                return reps[k]

        if not vc.patch(col.resolve_collision, resolve):
            raise Undecided("collisions resolved elsewhere")
        _far_env(vc, sc)
        s = _sim(names)
        s.post_update(sc)
        due = [k for k in pairs if table[k]]
        vc.prove("every overlapping pair is resolved exactly once, and no other", sorted(c[0] for c in calls) == due)
        vc.prove("on this context at the new time", all(c[1] for c in calls) and vc.And(*[c[2] == t + 1 for c in calls]))
        rep = [k for k in due if res[k] != "separating"]
        vc.prove("one report per resolved or unsupported collision", len(sc.collision_reports) == len(rep))
        left = list(sc.collision_reports)
        for k in rep:
            want = {names[i] for i in k}
            m = [r for r in left if set(r.players) == want]
            vc.prove("a report on the pair", len(m) == 1)
            for r in m[:1]:
                vc.prove("at the current time", vc.eq(r.at_time, t + 1))
                vc.prove("the report of the resolution", res[k] == "unsupported" or r is reps[k])
                vc.prove("an unsupported collision gives an empty report", res[k] != "unsupported" or (r.impact_point is None and r.impact_normal is None and all(v is None for v in r.players.values())))
        if early:
            vc.prove("the first collision stays the first", vc.eq(sc.first_collision_ts, first))
        elif rep:
            vc.prove("first collision now", vc.eq(sc.first_collision_ts, t + 1))
        else:
            vc.prove("no collision yet", sc.first_collision_ts == Decimal("Infinity"))


def _far_env(vc, sc):
    """no obstacles around (an empty index answers no query)"""

    class Empty:
        def query(self, shape, predicate=None, **k):
            return []

    sc.dg_scenario.strtree_obstacles = Empty()


@target("P19", "collisions with the environment", [K + "post_update", K + "_check_collisions_with_environment"], kind="runtime", samples=600,
        bound="seeded players and obstacles")
def h(vc):
    from dg_commons.sim import collision as col
    from dg_commons.sim.collision_utils import CollisionException
    from dg_commons.sim.models.obstacles import StaticObstacle
    from dg_commons.sim.models.obstacles_dyn import DynObstacleModel
    from shapely.geometry import LineString

    n, m = vc.choice("n", [1, 2, 3]), vc.choice("obstacles", [0, 1, 3, 6])
    names = ["a", "b", "c"][:n]
    log, calls = [], []
    box = lambda x, y, w: Polygon([(x - w, y - w), (x + w, y - w), (x + w, y + w), (x - w, y + w)])
    obs = []
    for i in range(m):
        x, y = vc.real(f"o{i}.x", -5, 5), vc.real(f"o{i}.y", -5, 5)
        obs.append(StaticObstacle(vc.choice(f"o{i}.kind", [box(x, y, 0.8), LineString([(x, y), (x + 3, y - 1)]), Point(x, y).buffer(0.5)])))
    kind = {p: vc.choice(f"kind.{p}", ["model", "model", "dynobs"]) for p in names}
    where = {p: (vc.real(f"{p}.x", -5, 5), vc.real(f"{p}.y", -5, 5)) for p in names}
    models = {}
    for i, p in enumerate(names):
        sh = box(*where[p], 0.7)
        if kind[p] == "dynobs":
            from dg_commons.sim.models.obstacles_dyn import DynObstacleState
            from dg_commons.sim.models.obstacles import ObstacleGeometry, DynObstacleParameters

            models[p] = DynObstacleModel(DynObstacleState(x=where[p][0], y=where[p][1], psi=0, vx=0, vy=0, dpsi=0), box(0, 0, 0.7),
                                         ObstacleGeometry(m=1, Iz=1, e=0.2), DynObstacleParameters(vx_limits=(-9, 9), acc_limits=(-9, 9)))
        else:
            models[p] = Model(p, log, 0.0, sh)
    t = Decimal(str(round(vc.real("t", 0, 5), 2)))
    sc = SimContext(dg_scenario=DgScenario(static_obstacles=obs), models=models, players={p: Ag(p, log, lambda p, k: 0.0) for p in names}, time=t,
                    param=SimParameters(dt=Decimal(1), max_sim_time=Decimal(10**6), sim_time_after_collision=Decimal(10**6)))
    touch = [(p, j) for p in names for j, o in enumerate(obs) if models[p].get_footprint().intersects(o.shape)]
    res = {k: vc.choice(f"outcome.{k[0]}{k[1]}", ["report", "separating", "unsupported"]) for k in touch}
    reps = {}

    def resolve(a, a_model, b_obstacle, time):
        j = next(j for j, o in enumerate(obs) if o is b_obstacle)
        calls.append((a, j, a_model is models[a], time))
        if res.get((a, j)) == "unsupported":
            raise CollisionException("unsupported")
        if res.get((a, j)) == "report":
            reps[a, j] = _report((a, "Env"), time)
            return reps[a, j]

    vc.patch_attr(col, "resolve_collision_with_environment", resolve)
    vc.patch_attr(col, "resolve_collision", lambda a, b, c: None)
    _sim(names).post_update(sc)
    vc.prove("every touched obstacle is resolved exactly once for every player, and no other", sorted(c[:2] for c in calls) == sorted(touch))
    vc.prove("with the model of the player at the new time", all(c[2] and c[3] == t + 1 for c in calls))
    rep = [k for k in touch if res[k] != "separating" and kind[k[0]] != "dynobs"]
    vc.prove("one report per collision of a player (obstacles on the move do not report)", len(sc.collision_reports) == len(rep))
    vc.prove("the reports of the resolutions", all(any(r is reps[k] for r in sc.collision_reports) for k in rep if res[k] == "report"))
    un = [k for k in rep if res[k] == "unsupported"]
    vc.prove("an unsupported collision gives an empty report", sorted(p for r in sc.collision_reports if not any(r is q for q in reps.values()) for p in r.players) == sorted(k[0] for k in un))
    vc.prove("first collision", sc.first_collision_ts == (t + 1 if rep else Decimal("Infinity")))


@target("P19", "every step of an episode is checked", [K + "post_update", K + "_check_collisions_among_players", K + "_check_collisions_with_environment"],
        kind="runtime", samples=200, bound="seeded episodes of up to 4 steps")
def h(vc):
    """what happened in earlier steps (who collided, with whom, what came of it) does not change what is resolved and reported in this one"""
    from dg_commons.sim import collision as col
    from dg_commons.sim.collision_utils import CollisionException
    from dg_commons.sim.models.obstacles import StaticObstacle

    n, m = vc.choice("n", [1, 2, 3]), vc.choice("obstacles", [0, 1, 3])
    names = ["a", "b", "c"][:n]
    log, calls, done = [], [], {}
    box = lambda x, y, w: Polygon([(x - w, y - w), (x + w, y - w), (x + w, y + w), (x - w, y + w)])
    obs = [StaticObstacle(box(4 * j, 3, 1)) for j in range(m)]
    models = {p: Model(p, log, 0.0, None) for p in names}
    dt = Decimal(vc.choice("dt", ["0.1", "1"]))
    t = Decimal(str(round(vc.real("t", 0, 5), 2)))
    sc = SimContext(dg_scenario=DgScenario(static_obstacles=obs), models=models, players={p: Ag(p, log, lambda p, k: 0.0) for p in names}, time=t,
                    param=SimParameters(dt=dt, max_sim_time=Decimal(10**6), sim_time_after_collision=Decimal(10**6)))
    idx = lambda o: next(j for j, x in enumerate(obs) if x is o)

    def resolution(key, players, time):
        calls.append((key, time))
        r = vc.choice(f"{len(steps)}.outcome.{key}", ["report", "report", "separating", "unsupported"])
        if r == "unsupported":
            done[key] = None
            raise CollisionException("unsupported")
        if r == "report":
            done[key] = _report(players, time)
            for p in players:
                if p in models:
                    models[p].has_collided = True
            return done[key]

    vc.patch_attr(col, "resolve_collision", lambda a, b, ctx: resolution(tuple(sorted((a, b))), (a, b), ctx.time))
    vc.patch_attr(col, "resolve_collision_with_environment", lambda a, a_model, b_obstacle, time: resolution((a, idx(b_obstacle)), (a, "Env"), time))
    s = _sim(names)
    steps, first = [], None
    for k in range(vc.choice("steps", [1, 2, 3, 4])):
        steps.append(k)
        at = {p: (vc.choice(f"{k}.x.{p}", [0, 0, 4, 8]), vc.choice(f"{k}.y.{p}", [0, 0, 1.5])) for p in names}
        for i, p in enumerate(names):
            models[p].shape = box(at[p][0] + 0.3 * i, at[p][1], 1)
        calls.clear()
        done.clear()
        before = list(sc.collision_reports)
        s.post_update(sc)
        t = t + dt
        due = sorted([(p, q) for i, p in enumerate(names) for q in names[i + 1:] if models[p].shape.intersects(models[q].shape)], key=str)
        due += sorted([(p, j) for p in names for j, o in enumerate(obs) if models[p].shape.intersects(o.shape)], key=str)
        vc.prove("every contact of this step is resolved exactly once, and no other", sorted([c[0] for c in calls], key=str) == sorted(due, key=str) and all(c[1] == t for c in calls))
        new = sc.collision_reports[len(before):]
        vc.prove("earlier reports stay", len(sc.collision_reports) >= len(before) and all(a is b for a, b in zip(before, sc.collision_reports)))
        vc.prove("one report for each resolved or unsupported one", len(new) == len(done))
        for key, r in done.items():
            if r is None:
                want = {p for p in key if p in names}
                ok = any(set(x.players) in (want, want | {"Env"}) and x.impact_point is None and x.at_time == t for x in new)
            else:
                ok = any(x is r for x in new)
            vc.prove("the report of the resolution", ok)
        if done and first is None:
            first = t
        vc.prove("first collision", sc.first_collision_ts == (first if first is not None else Decimal("Infinity")))


@target("P19", "finished players no longer collide", [K + "post_update"], kind="runtime", samples=60, bound="seeded episodes")
def h(vc):
    from dg_commons.sim import collision as col

    names = ["a", "b", "c"]
    log, calls = [], []
    done = {p: vc.flag(f"done.{p}") for p in names}
    models = {p: Model(p, log, 0.0, apart(0)) for p in names}
    sc = SimContext(dg_scenario=DgScenario(), models=models, players={p: Ag(p, log, lambda p, k: 0.0) for p in names},
                    missions={p: Goal(lambda s, at, p=p: done[p]) for p in names}, param=SimParameters(dt=Decimal(1), max_sim_time=Decimal(5)))
    vc.patch_attr(col, "resolve_collision", lambda a, b, c: calls.append({a, b}))
    _sim(names).post_update(sc)
    left = [p for p in names if not done[p]]
    want = [{p, q} for i, p in enumerate(left) for q in left[i + 1:]]
    vc.prove("only active players collide", calls == want)


# ------------------------------------------------------------------------------------------------ any number of players and obstacles
from . import simmany as SM


class Event:
    """what came of a collision: a report of the resolution"""

    def __init__(self, what, *ids, at_time=None):
        self.what, self.ids, self.at_time = what, ids, at_time
        self.players, self.impact_point, self.impact_normal = {}, None, None


class Old:
    """a report of an earlier step"""

    def __init__(self, i):
        self.i = i


class Ghost:
    """what was resolved"""

    def __init__(self, calls):
        self.calls = calls


class Mob:
    """relations between the players of a world, whatever the footprints are"""

    def __init__(self, vc, W, name="pair"):
        self.vc, self.name = vc, name
        if vc.symbolic:
            z3 = SM.L.z3
            Z, B = z3.IntSort(), z3.BoolSort()
            self.f = {k: z3.Function(f"{name}.{k}", Z, Z, B) for k in ("hit", "unsupported", "report")}

    def rel(self, k, i, j):
        if self.vc.symbolic:
            return SM.M.SBool(self.f[k](SM.L.I(i), SM.L.I(j)))
        return self.vc.bool(f"{self.name}.{k}.{int(i)},{int(j)}")

    def hit(self, i, j):
        return self.rel("hit", i, j)

    def unsupported(self, i, j):
        return self.rel("unsupported", i, j)

    def some(self, i, j):
        """a collision that has to be reported"""
        return self.vc.And(self.hit(i, j), self.vc.Or(self.unsupported(i, j), self.rel("report", i, j)))


def _old(vc):
    """the reports of earlier steps (in proofs none: elsewhere the list supports nothing but appending)"""
    n = 0 if vc.symbolic else SM.M.length(vc, "old.n", 0, 3)
    if vc.symbolic:
        r = SM.L.SSeq(0, None, list)
        r.space = "reports"
        return n, r
    return n, [Old(i) for i in range(int(n))]


def _is_report(vc, r, what, ids, unsupported, players, t):
    """this is the report of the resolution, or an empty one on these players"""
    if bool(unsupported):
        if type(r).__name__ != "CollisionReport":
            return False
        got = list(r.players.items())
        return vc.And(len(got) == len(players), *[vc.Or(*[k == p for k, _ in got]) for p in players],
                      all(v is None for _, v in got) and r.impact_point is None and r.impact_normal is None, vc.eq(r.at_time, t))
    return type(r) is Event and r.what == what and len(r.ids) == len(ids) and vc.And(*[vc.eq(a, b) for a, b in zip(r.ids, ids)])


def _first(vc, t):
    return vc.real("first", typ=(0.0, 5.0), kind="Decimal") if vc.flag("earlier") else Decimal("Infinity")


def _first_after(vc, first, t, any_):
    if not any_:
        return first
    if isinstance(first, Decimal) and first.is_infinite():
        return t
    return first if first <= t else t


class Sink:
    """a list nobody looks at (another target does)"""

    def append(self, x):
        pass


def _pairs(part):
    @target("P19", f"pairs, any number of players: {part}", [K + "post_update", K + "_check_collisions_among_players"], kind="loop", samples=300, budget=120)
    def h(vc):
        _pairs_target(vc, part)


def _pairs_target(vc, part):
    from dg_commons.sim import collision as col
    from dg_commons.sim.collision_utils import CollisionException
    from dg_commons.sim.collision_structures import CollisionReport

    W = SM.World(vc)
    w, M, L = W.w, SM.M, SM.L
    mob = Mob(vc, W)
    t = vc.real("t", lo=0, typ=(0.0, 5.0), kind="Decimal")
    vc.assume(t < 10**5)
    t2 = t + 1

    class Foot:
        def __init__(self, i):
            self.i = i

        def intersects(self, o):
            if vc.symbolic:
                lt = L.ctx().branch(M.SBool(L.I(self.i) < L.I(o.i)))
                return mob.hit(self.i, o.i) if lt else mob.hit(o.i, self.i)
            return mob.hit(*sorted((self.i, o.i)))

        def __deepcopy__(self, memo):
            return self

    W.shape = Foot
    sc = W.context(time=t, param=SimParameters(dt=Decimal(1), max_sim_time=Decimal(10**6), sim_time_after_collision=Decimal(10**7)))
    if part == "time of the first":
        first = _first(vc, t2)
    else:
        first = vc.real("first", typ=(-1.0, 0.0), kind="Decimal")
        vc.assume(first <= t)
    if not (isinstance(first, Decimal) and first.is_infinite()):
        vc.assume(first > -(10**5))
    sc.first_collision_ts = first
    if part == "reports":
        n_old, old = _old(vc)
        sc.collision_reports = old.copy_() if vc.symbolic else list(old)
    elif vc.symbolic:
        sc.collision_reports = Sink()
    ghost = Ghost([])
    if vc.symbolic:
        ghost.calls = L.SSeq(0, None, list) if part == "resolutions" else Sink()
        ghost.calls.space = "calls"

    def resolve(a, b, ctx):
        i, j = M.index(vc, a, w), M.index(vc, b, w)
        if bool(i > j):
            i, j = j, i
        vc.prove("on this context at the new time", ctx is sc and vc.eq(ctx.time, t2))
        ghost.calls.append((i, j))
        if mob.unsupported(i, j):
            raise CollisionException("unsupported")
        if mob.rel("report", i, j):
            return Event("pair", i, j, at_time=ctx.time)

    if not vc.patch(col.resolve_collision, resolve):
        raise Undecided("collisions resolved elsewhere")
    if "_check_collisions_with_environment" not in vars(Simulator):
        raise Undecided("the environment is checked elsewhere")
    vc.patch_attr(Simulator, "_check_collisions_with_environment", staticmethod(lambda c: False))
    st = {}
    if vc.symbolic:
        z3 = L.z3
        S = lambda q: M.Sym(q, "int")

        def seq(of, f, k, space):
            r = of.seq(f, k)
            r.space = space
            return r

        def spec(l, e):
            p = getattr(l.seq, "pairs", None)
            src = getattr(l.seq, "source", None)
            if p is None or src is None:
                raise Undecided("the pairs are enumerated elsewhere")
            idx = lambda q: (src.where_(p.a(q)), src.where_(p.b(q)))
            pred = mob.hit if part == "resolutions" else mob.some
            f = L.Filtered(p.n, lambda q: L.bterm(pred(*map(S, idx(q)))), "hits", p.space)
            st.update(p=p, f=f)

            def report(q):
                i, j = map(S, idx(q))
                if mob.unsupported(i, j):
                    return CollisionReport.get_empty(players={w.key(i): None, w.key(j): None}, at_time=t2)
                return Event("pair", i, j, at_time=t2)

            if part == "resolutions":
                return L.LoopSpec(attrs={(ghost, "calls"): lambda k: seq(f, lambda q: tuple(map(S, idx(q))), k, "calls")})
            if part == "reports":
                return L.LoopSpec(attrs={("sim_context", "collision_reports"): lambda k: seq(f, report, k, "reports")})
            any_ = lambda k: f.count(k) > 0
            return L.LoopSpec(attrs={("sim_context", "first_collision_ts"): lambda k: _first_after(vc, first, t2, L.ctx().branch(M.SBool(any_(k))))})

        vc.loops(K + "_check_collisions_among_players", {0: spec})
    s = W.simulator(("simlogger",))
    s.post_update(sc)
    rl, calls = sc.collision_reports, ghost.calls
    if part != "time of the first":
        vc.prove("the first collision stays the first", vc.eq(sc.first_collision_ts, first))
    if not vc.symbolic:
        act = [i for i in w.indices() if W.active(i)]
        pairs = [(i, j) for i in act for j in act if i < j]
        vc.prove("every overlapping pair is resolved exactly once, and no other", sorted(calls) == [q for q in pairs if mob.hit(*q)])
        due = [q for q in pairs if mob.some(*q)]
        if part == "reports":
            vc.prove("earlier reports stay", rl[: int(n_old)] == old)
            new = rl[int(n_old):]
            vc.prove("no more reports than collisions", len(new) == len(due))
            for q in due:
                vc.prove("the report of the resolution, an empty one where there is none",
                         sum(bool(_is_report(vc, x, "pair", q, mob.unsupported(*q), tuple(map(w.key, q)), t2)) for x in new) ==
                         (sum(mob.unsupported(*r) and tuple(map(w.key, r)) == tuple(map(w.key, q)) for r in due) if mob.unsupported(*q) else 1))
        any_ = bool(due)
    elif not vc.some(0, w.n, W.active):
        if part == "resolutions":
            vc.prove("nobody left, nothing to resolve", M.SBool(calls.n == 0))
        if part == "reports":
            vc.prove("nobody left, nothing to report", M.SBool(rl.n == L.I(n_old)))
        any_ = False
    else:
        if not st:
            raise Undecided("the pairs are enumerated elsewhere")
        p, f = st["p"], st["f"]

        def pair():
            """an arbitrary pair of active players, and where it is enumerated"""
            i, j = L.any_index(0, w.n), L.any_index(0, w.n)
            L.ctx().assume(M.SBool(z3.And(i < j, L.bterm(W.active(S(i))), L.bterm(W.active(S(j))))))
            keys = sc.players.keys()
            return S(i), S(j), f.count(p.at(keys.order(i)[1], keys.order(j)[1]))

        if part == "resolutions" and L.ctx().choose(2) == 0:
            i, j, h = pair()
            L.ctx().assume(mob.hit(i, j))
            vc.prove("every overlapping pair is resolved", vc.And(S(h) >= 0, S(h) < S(calls.n)))
            vc.prove("as that pair", M.same(vc, calls.get(h), (i, j)))
            return
        if part == "resolutions":
            g, h = L.any_index(0, calls.n, space="calls"), L.any_index(0, calls.n, space="calls")
            L.ctx().assume(M.SBool(g < h))
            (i, j), (k, m) = calls.get(g), calls.get(h)
            vc.prove("only overlapping pairs of active players are resolved", vc.And(W.active(i), W.active(j), i < j, mob.hit(i, j)))
            vc.prove("no pair is resolved twice", vc.Not(vc.And(i == k, j == m)))
            return
        if part == "reports" and L.ctx().choose(2) == 0:
            i, j, h = pair()
            L.ctx().assume(M.SBool(L.bterm(mob.some(i, j))))
            vc.prove("one report per resolved or unsupported collision", S(L.I(n_old) + h) < S(rl.n))
            x = rl.get(z3.simplify(L.I(n_old) + h))
            vc.prove("the report of the resolution, an empty one where there is none", _is_report(vc, x, "pair", (i, j), mob.unsupported(i, j), (w.key(i), w.key(j)), t2))
            return
        if part == "reports":
            vc.prove("no more reports than collisions", M.SBool(rl.n == L.I(n_old) + f.count(p.n)))
            return
        any_ = L.ctx().branch(M.SBool(f.count(p.n) > 0))
    if part == "time of the first":
        want = _first_after(vc, first, t2, any_)
        vc.prove("the time of the first collision", sc.first_collision_ts == want if isinstance(want, Decimal) else vc.eq(sc.first_collision_ts, want))


for _p in ("resolutions", "reports", "time of the first"):
    _pairs(_p)


def _env(part):
    @target("P19", f"environment, any number of players and obstacles: {part}", [K + "post_update", K + "_check_collisions_with_environment"], kind="loop",
            samples=300, budget=120)
    def h(vc):
        _env_target(vc, part)


class Obst:
    """the i-th obstacle"""

    def __init__(self, i):
        self.i, self.shape = i, None


def _moving():
    from dg_commons.sim.models.obstacles_dyn import DynObstacleModel

    class Moving(DynObstacleModel):
        """an obstacle on the move"""

        def __init__(self, i, x, shape):
            self._state, self.shape, self.calls = St(x), shape, []

        def get_footprint(self):
            return self.shape

    return Moving


def _env_target(vc, part):
    from dg_commons.sim import collision as col
    from dg_commons.sim.collision_utils import CollisionException
    from dg_commons.sim.collision_structures import CollisionReport

    W = SM.World(vc)
    w, M, L = W.w, SM.M, SM.L
    S = lambda q: M.Sym(q, "int")
    mob = Mob(vc, W, "env")
    moving, Moving = w.flags("moving"), _moving()
    W.models.make = lambda i: (Moving if moving(i) else SM.RModel)(i, W.x(i), SM.Shape(i))
    t = vc.real("t", lo=0, typ=(0.0, 5.0), kind="Decimal")
    vc.assume(t < 10**5)
    t2 = t + 1
    sc = W.context(time=t, param=SimParameters(dt=Decimal(1), max_sim_time=Decimal(10**6), sim_time_after_collision=Decimal(10**7)))
    if part == "time of the first":
        first = _first(vc, t2)
    else:
        first = vc.real("first", typ=(-1.0, 0.0), kind="Decimal")
        vc.assume(first <= t)
    if not (isinstance(first, Decimal) and first.is_infinite()):
        vc.assume(first > -(10**5))
    sc.first_collision_ts = first
    if part == "reports":
        n_old, old = _old(vc)
        sc.collision_reports = old.copy_() if vc.symbolic else list(old)
    elif vc.symbolic:
        sc.collision_reports = Sink()
    ghost = Ghost([])
    if vc.symbolic:
        ghost.calls = L.SSeq(0, None, list) if part == "resolutions" else Sink()
        ghost.calls.space = "calls"
    m = M.length(vc, "m", 0, 4)
    st = {}
    if vc.symbolic:
        z3 = L.z3
        Z = z3.IntSort()
        it, inv, cnt = z3.Function("hit.at", Z, Z, Z), z3.Function("hit.inv", Z, Z, Z), z3.Function("hits", Z, Z)
        sc.dg_scenario.static_obstacles = L.SSeq(m, lambda j: Obst(S(j)), list)
        sc.dg_scenario.static_obstacles.space = "obstacles"
        hit = lambda i, o: L.bterm(mob.hit(S(i), S(o)))

        def size(i):
            L.ctx().fact(cnt(i) >= 0)
            return cnt(i)

        def item(i, r):
            """contract of the index: the obstacles that are touched, each once, in any order"""
            o = it(i, r)
            L.ctx().fact(z3.Implies(z3.And(0 <= r, r < size(i)), z3.And(0 <= o, o < L.I(m), hit(i, o), inv(i, o) == r)))
            return o

        def items(i):
            s = L.SSeq(size(L.I(i)), lambda r: S(item(L.I(i), r)), list)
            s.space = "items"
            return s

        def where(i, o):
            r = inv(i, o)
            L.ctx().fact(z3.Implies(z3.And(0 <= o, o < L.I(m), hit(i, o)), z3.And(0 <= r, r < size(i), it(i, r) == o)))
            return r
    else:
        obs = [Obst(j) for j in range(int(m))]
        sc.dg_scenario.static_obstacles = obs
        flip = vc.bool("reversed")

        def items(i):
            r = [j for j in range(int(m)) if mob.hit(i, j)]
            return r[::-1] if flip else r

    class Index:
        def query(self, shape, predicate=None, **k):
            vc.prove("what touches the footprint is looked up", type(shape) is SM.Shape and predicate == "intersects" and not k)
            return items(shape.i)

    sc.dg_scenario.strtree_obstacles = Index()

    def resolve(a, a_model, b_obstacle, time):
        i, o = M.index(vc, a, w), b_obstacle.i
        vc.prove("the model of the player at the new time", a_model is W.models.get(i) and vc.eq(time, t2))
        ghost.calls.append((i, o))
        if mob.unsupported(i, o):
            raise CollisionException("unsupported")
        if mob.rel("report", i, o):
            return Event("env", i, o, at_time=time)

    if not vc.patch(col.resolve_collision_with_environment, resolve):
        raise Undecided("collisions resolved elsewhere")
    if "_check_collisions_among_players" not in vars(Simulator):
        raise Undecided("the pairs are checked elsewhere")
    vc.patch_attr(Simulator, "_check_collisions_among_players", staticmethod(lambda c: False))
    due = lambda i, o: vc.And(vc.Not(moving(i)), mob.some(i, o))
    if vc.symbolic:

        def seq(k):
            space = {"resolutions": "calls", "reports": "reports"}[part]
            if part == "resolutions":
                r = L.SSeq(k, lambda g: (S(st["who"](g)), S(st["what"](g))), list)
            else:
                r = st["f"].seq(report, k)
            r.space = space
            return r

        def report(g):
            i, o = st["who"](g), st["what"](g)
            if mob.unsupported(S(i), S(o)):
                return CollisionReport.get_empty(players={w.key(i): None}, at_time=t2)
            return Event("env", S(i), S(o), at_time=t2)

        def state(upto):
            """after so many of all the hits"""
            if part == "resolutions":
                return L.LoopSpec(attrs={(ghost, "calls"): lambda k: seq(upto(k))})
            if part == "reports":
                return L.LoopSpec(attrs={("sim_context", "collision_reports"): lambda k: seq(upto(k))})
            return L.LoopSpec(attrs={("sim_context", "first_collision_ts"): lambda k: _first_after(vc, first, t2, L.ctx().branch(M.SBool(st["f"].count(upto(k)) > 0)))})

        def outer(l, e):
            src = getattr(l.seq, "source", None)
            if src is None:
                raise Undecided("the players are enumerated elsewhere")
            c = L.Concat(l.n, lambda q: size(src.where_(q)), "hits")
            who = lambda g: src.where_(c.part(g))
            what = lambda g: item(who(g), c.within(g))
            st.update(outer=l, cat=c, who=who, what=what)
            if part != "resolutions":
                st["f"] = L.Filtered(c.total, lambda g: L.bterm(due(S(who(g)), S(what(g)))), "reports", c.space)
            return state(lambda k: c.off(k))

        def inner(l, e):
            c, q = st["cat"], st["outer"].k

            def upto(k):
                return c.at(q, k)

            return state(upto)

        vc.loops(K + "_check_collisions_with_environment", {0: outer, 1: inner})
    s = W.simulator(("simlogger",))
    s.post_update(sc)
    rl, calls = sc.collision_reports, ghost.calls
    if part != "time of the first":
        vc.prove("the first collision stays the first", vc.eq(sc.first_collision_ts, first))
    if not vc.symbolic:
        act = [i for i in w.indices() if W.active(i)]
        hits = [(i, o) for i in act for o in range(int(m)) if mob.hit(i, o)]
        vc.prove("every touched obstacle is resolved exactly once for every player, and no other", sorted(calls) == hits)
        want = [q for q in hits if due(*q)]
        if part == "reports":
            vc.prove("earlier reports stay", rl[: int(n_old)] == old)
            new = rl[int(n_old):]
            vc.prove("no more reports than collisions", len(new) == len(want))
            for q in want:
                vc.prove("the report of the resolution, an empty one where there is none",
                         sum(bool(_is_report(vc, x, "env", q, mob.unsupported(*q), (w.key(q[0]),), t2)) for x in new) ==
                         (sum(mob.unsupported(*r) and (w.key(r[0]),) == (w.key(q[0]),) for r in want) if mob.unsupported(*q) else 1))
        any_ = bool(want)
    elif not vc.some(0, w.n, W.active):
        if part == "resolutions":
            vc.prove("nobody left, nothing to resolve", M.SBool(calls.n == 0))
        if part == "reports":
            vc.prove("nobody left, nothing to report", M.SBool(rl.n == L.I(n_old)))
        any_ = False
    else:
        if "cat" not in st:
            raise Undecided("the players are enumerated elsewhere")
        c = st["cat"]

        def touched():
            """an arbitrary active player and obstacle it touches, and where that is enumerated"""
            i, o = L.any_index(0, w.n), L.any_index(0, m, space="obstacles")
            L.ctx().assume(M.SBool(z3.And(L.bterm(W.active(S(i))), hit(i, o))))
            return S(i), S(o), c.at(sc.players.keys().order(i)[1], where(i, o))

        if part == "resolutions" and L.ctx().choose(2) == 0:
            i, o, g = touched()
            vc.prove("every touched obstacle is resolved", vc.And(S(g) >= 0, S(g) < S(calls.n)))
            vc.prove("for that player", M.same(vc, calls.get(g), (i, o)))
            return
        if part == "resolutions":
            g, h = L.any_index(0, calls.n, space="calls"), L.any_index(0, calls.n, space="calls")
            L.ctx().assume(M.SBool(g < h))
            (i, o), (k, q) = calls.get(g), calls.get(h)
            vc.prove("only obstacles touched by active players are resolved", vc.And(W.active(i), o >= 0, o < m, mob.hit(i, o)))
            vc.prove("none is resolved twice for a player", vc.Not(vc.And(i == k, o == q)))
            return
        f = st["f"]
        if part == "reports" and L.ctx().choose(2) == 0:
            i, o, g = touched()
            L.ctx().assume(M.SBool(L.bterm(due(i, o))))
            h = f.count(g)
            vc.prove("one report per collision of a player (obstacles on the move do not report)", S(L.I(n_old) + h) < S(rl.n))
            x = rl.get(z3.simplify(L.I(n_old) + h))
            vc.prove("the report of the resolution, an empty one where there is none", _is_report(vc, x, "env", (i, o), mob.unsupported(i, o), (w.key(i),), t2))
            return
        if part == "reports":
            vc.prove("no more reports than collisions", M.SBool(rl.n == L.I(n_old) + f.count(c.total)))
            return
        any_ = L.ctx().branch(M.SBool(f.count(c.total) > 0))
    if part == "time of the first":
        want = _first_after(vc, first, t2, any_)
        vc.prove("the time of the first collision", sc.first_collision_ts == want if isinstance(want, Decimal) else vc.eq(sc.first_collision_ts, want))


for _p in ("resolutions", "reports", "time of the first"):
    _env(_p)
