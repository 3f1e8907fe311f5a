"""A world of recording models and agents around the real simulator (the SimModel/Agent/PlanningGoal interfaces)"""
from dataclasses import dataclass
from decimal import Decimal
from types import SimpleNamespace as NS
from shapely.geometry import Polygon, Point
from pyvc.vc import Undecided
from dg_commons.sim.simulator import Simulator, SimContext
from dg_commons.sim.simulator_structures import SimModel, SimParameters
from dg_commons.sim.agents.agent import Agent
from dg_commons.sim.goals import PlanningGoal
from dg_commons.sim.scenarios.structures import DgScenario

FAR = Polygon([(0, 0), (0, 1), (1, 1), (1, 0)])


@dataclass
class St:
    x: object = 0


class Model(SimModel):
    def __init__(self, name, log, x=0, shape=FAR):
        self._state = St(x)
        self.name, self.log, self.shape = name, log, shape
        self.has_collided = False

    def update(self, commands, dt):
        self.log.append(("update", self.name, commands, dt, self._state.x))
        self._state = St(self._state.x + commands)

    def get_footprint(self):
        return self.shape

    def get_pose(self):
        raise NotImplementedError

    get_velocity = set_velocity = get_mesh = get_extra_collision_friction_acc = get_pose
    model_geometry = model_params = model_type = None


class Ag(Agent):
    def __init__(self, name, log, cmd, extra=lambda k: None):
        self.name, self.log, self.cmd, self.extra, self.k = name, log, cmd, extra, 0

    def on_episode_init(self, init_sim_obs):
        self.log.append(("init", self.name, init_sim_obs))

    def get_commands(self, sim_obs):
        self.k += 1
        c = self.cmd(self.name, self.k)
        self.log.append(("ask", self.name, sim_obs.time, {p: o.state.x for p, o in sim_obs.players.items()}, c))
        return c

    def on_get_extra(self):
        return self.extra(self.k)


@dataclass(frozen=True)
class Goal(PlanningGoal):
    fn: object = None

    def is_fulfilled(self, state, at=0):
        return self.fn(state, at)

    def get_plottable_geometry(self, at=0):
        return None

    def __deepcopy__(self, memo):
        return Goal(self.fn)


def ready(s, attributes):
    """a simulator as an episode finds it (one that is prepared only when it runs is given an episode of nobody)"""
    if not all(hasattr(s, a) for a in attributes):
        s.run(SimContext(dg_scenario=DgScenario(), models={}, players={}, param=SimParameters(max_sim_time=Decimal(0))))
    for a in attributes:
        if not hasattr(s, a):
            raise Undecided(f"the simulator keeps no {a}")
    return s


def apart(i):
    return Polygon([(10 * i + x, y) for x, y in ((0, 0), (0, 1), (1, 1), (1, 0))])


def by_kind(log, kind, name=None):
    return [e for e in log if e[0] == kind and (name is None or e[1] == name)]
