"""A simulation of an arbitrary number of players: recording models, agents and sensors around the real simulator"""
from decimal import Decimal
from types import SimpleNamespace as NS
from pyvc.vc import Undecided
from dg_commons.sim.simulator import Simulator, SimContext
from dg_commons.sim.simulator_structures import SimModel, SimParameters, PlayerObservations, SimObservations
from dg_commons.sim.agents.agent import Agent
from dg_commons.sim.sim_perception import ObsFilter
from dg_commons.sim.scenarios.structures import DgScenario
from . import many as M
from .many import L
from .simworld import St, ready

K = "dg_commons.sim.simulator.Simulator."


class Shape:
    """the footprint of the i-th player"""

    def __init__(self, i):
        self.i = i

    def __deepcopy__(self, memo):
        return self


class RModel(SimModel):
    """remembers how it was advanced"""

    def __init__(self, i, x, shape=None):
        self._state, self.shape, self.calls = St(x), Shape(i) if shape is None else shape, []

    def update(self, commands, dt):
        self.calls.append((commands, dt))
        self._state = St(self._state.x + commands)

    def get_footprint(self):
        return self.shape

    def get_pose(self):
        raise NotImplementedError

    get_velocity = set_velocity = get_mesh = get_extra_collision_friction_acc = get_pose
    model_geometry = model_params = model_type = None


class RAgent(Agent):
    """remembers what it was shown"""

    def __init__(self, cmd, extra):
        self.cmd, self.extra, self.inits, self.seen = cmd, extra, [], []

    def on_episode_init(self, init_sim_obs):
        self.inits.append(init_sim_obs)

    def get_commands(self, sim_obs):
        self.seen.append(sim_obs)
        return self.cmd

    def on_get_extra(self):
        return self.extra()


class Reading:
    """what a sensor makes of a scene: anything"""

    def __init__(self, sensor, scenario, obs, pov):
        self.sensor, self.scenario, self.obs, self.pov = sensor, scenario, obs, pov


class RSensor(ObsFilter):
    def __init__(self, i):
        self.i = i

    def sense(self, scenario, full_obs, pov):
        return Reading(self.i, scenario, full_obs, pov)


class Rec:
    """a builder that remembers what was added"""

    __vc_record__ = True

    def __init__(self, values=True):
        self.added, self.values = [], values

    def add(self, t, v):
        self.added.append((t, v) if self.values else t)


class RLogger:
    __vc_record__ = True

    def __init__(self):
        self.states, self.commands, self.extra, self.info = Rec(), Rec(), Rec(), Rec(False)


class World:
    shape = Shape

    def __init__(self, vc, nmin=0):
        self.vc = vc
        w = self.w = M.Names(vc, "p", nmin)
        self.x, self.old, self.new = w.numbers("x"), w.numbers("old"), w.numbers("new")
        self.active, self.gives = w.flags("active"), w.flags("extra")
        self.models = w.objects(lambda i: RModel(i, self.x(i), self.shape(i)), "model")
        self.agents = w.objects(lambda i: RAgent(self.new(i), lambda: self.extra(i)), "agent")
        self.loggers = w.objects(lambda i: RLogger(), "logger")

    def extra(self, i):
        return ("extra", i) if self.gives(i) else None

    def context(self, **kw):
        w = self.w
        kw.setdefault("param", SimParameters())
        sc = SimContext(dg_scenario=DgScenario(), models={}, players={}, **kw)
        sc.models, sc.players = w.dict(self.models.get), w.dict(self.agents.get, self.active)
        sc.sensors = w.dict(RSensor)
        return sc

    def simulator(self, names=("last_get_commands_ts", "last_commands", "simlogger", "last_observations")):
        return ready(Simulator(), names)

    def each(self, check):
        """check(i) for every player"""
        if self.vc.symbolic:
            if L.ctx().choose(2) == 0:
                j = L.any_index(0, self.w.n)
                check(M.Sym(j, "int"))
                raise L.PathEnd()
            return
        for i in self.w.indices():
            check(i)

    def same(self, label, a, b):
        if self.vc.symbolic:
            L.prove(label, L.equal(a, b))
        else:
            self.vc.prove(label, M.eqv(self.vc, a, b))
