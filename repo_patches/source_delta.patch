From 3a0592063f410db4873facae116f5a23471f9d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 01/29] fix: PedestrianModel.set_velocity stores the rotational
 velocity in dpsi, not over vx

---
 src/dg_commons/sim/models/pedestrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/pedestrian.py b/src/dg_commons/sim/models/pedestrian.py
index a002d17..3514238 100644
--- a/src/dg_commons/sim/models/pedestrian.py
+++ b/src/dg_commons/sim/models/pedestrian.py
@@ -249,7 +249,7 @@ class PedestrianModel(SimModel[SE2value, float]):
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.vx = omega
+        self._state.dpsi = omega
 
     @property
     def model_geometry(self) -> PedestrianGeometry:
-- 
2.43.0


From a63208fe5311348a4f0667fc4f184f6513b04c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 02/29] fix: VehicleModelDyn.set_velocity stores the rotational
 velocity in the dpsi state

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index a068cad..917e885 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -215,7 +215,7 @@ class VehicleModelDyn(VehicleModel):
 
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.dtheta = omega
+        self._state.dpsi = omega
 
     def get_acceleration_split(self, Facc: float) -> Sequence[float]:
         """Returns split of acceleration force to be applied on front and rear wheel"""
-- 
2.43.0


From 579acc639712344b74a4e2bbdb28e19af5c86c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 03/29] fix: SpacecraftCommands.from_array looked up a key with
 a trailing space

---
 src/dg_commons/sim/models/spacecraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/spacecraft.py b/src/dg_commons/sim/models/spacecraft.py
index a13d9ce..b98a5e0 100644
--- a/src/dg_commons/sim/models/spacecraft.py
+++ b/src/dg_commons/sim/models/spacecraft.py
@@ -55,7 +55,7 @@ class SpacecraftCommands:
     @classmethod
     def from_array(cls, z: np.ndarray):
         assert cls.get_n_commands() == z.size == z.shape[0], f"z vector {z} cannot initialize VehicleInputs."
-        return SpacecraftCommands(acc_left=z[cls.idx["acc_left "]], acc_right=z[cls.idx["acc_right"]])
+        return SpacecraftCommands(acc_left=z[cls.idx["acc_left"]], acc_right=z[cls.idx["acc_right"]])
 
 
 @dataclass(unsafe_hash=True, eq=True, order=True)
-- 
2.43.0


From d4e926237a064012ad82b4bd51c38790bcd91c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 04/29] fix: commands_plan_from_trajectory unpacked the (non
 iterable) IterateDT items

---
 src/dg_commons/planning/trajectory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index d73d65a..70c0121 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -152,9 +152,11 @@ JointTrajectories = Mapping[PlayerName, Trajectory]
 def commands_plan_from_trajectory(trajectory: Trajectory) -> DgSampledSequence[VehicleCommands]:
     timestamps = []
     commands = []
-    for t0, _, dt, v0, v1 in iterate_with_dt(trajectory):
-        timestamps.append(t0)
-        commands.append(VehicleCommands(acc=(v1.vx - v0.vx) / dt, ddelta=(v1.delta - v0.delta) / dt))
+    for it in iterate_with_dt(trajectory):
+        timestamps.append(it.t0)
+        commands.append(
+            VehicleCommands(acc=(it.v1.vx - it.v0.vx) / it.dt, ddelta=(it.v1.delta - it.v0.delta) / it.dt)
+        )
     return DgSampledSequence[VehicleCommands](timestamps, commands)
 
 
-- 
2.43.0


From b50f9f265b30fc64ab61342ae28d65b4701b4a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 05/29] fix: TrajectoryGraph.add_edge no longer overwrites the
 generation of an existing target node

---
 src/dg_commons/planning/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index 70c0121..795e336 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -178,7 +178,7 @@ class TrajectoryGraph(DiGraph):
         start_time, end_time = states.get_start(), states.get_end()
         self.check_node(node=(start_time, source))
         attr["transition"] = transition
-        if target not in self.nodes:
+        if (end_time, target) not in self.nodes:
             self.add_node(timed_state=(end_time, target), gen=self.nodes.get((start_time, source))["gen"] + 1)
 
         super(TrajectoryGraph, self).add_edge(u_of_edge=(start_time, source), v_of_edge=(end_time, target), **attr)
-- 
2.43.0


From 5c37b6ca7d87671e798f7ef48591b020daa9b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 06/29] fix: CommandsSamplerParam.from_vehicle_parameters
 samples within the acceleration and steering rate limits

---
 src/dg_commons/planning/commands_sampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/commands_sampler.py b/src/dg_commons/planning/commands_sampler.py
index 7f57ff8..b93a0ec 100644
--- a/src/dg_commons/planning/commands_sampler.py
+++ b/src/dg_commons/planning/commands_sampler.py
@@ -38,9 +38,9 @@ class CommandsSamplerParam:
         :param vp:
         :return:
         """
-        vel_linspace = (vp.vx_limits[0], vp.vx_limits[1], n_acc)
-        steer_linspace = (-vp.delta_max, vp.delta_max, n_steer_rate)
-        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=vel_linspace, steer_rate=steer_linspace)
+        acc_linspace = (vp.acc_limits[0], vp.acc_limits[1], n_acc)
+        steer_rate_linspace = (-vp.ddelta_max, vp.ddelta_max, n_steer_rate)
+        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=acc_linspace, steer_rate=steer_rate_linspace)
 
 
 class CommandsSampler(TrajGenerator):
-- 
2.43.0


From 469be1587e6aa2d4e047844af89c932a75345470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 07/29] fix: sampled sequences reject timestamps that are not
 strictly increasing because they are NaN

---
 src/dg_commons/seq/sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/seq/sequence.py b/src/dg_commons/seq/sequence.py
index acff96a..92c11bb 100644
--- a/src/dg_commons/seq/sequence.py
+++ b/src/dg_commons/seq/sequence.py
@@ -53,7 +53,7 @@ class DgSampledSequence(Generic[X]):
                     raise ZValueError(f'I expected a real number as "Timestamp", got {type(t)}')
             for i in range(len(timestamps) - 1):
                 dt = timestamps[i + 1] - timestamps[i]
-                if dt <= 0:
+                if not dt > 0:
                     raise ZValueError(f"Invalid dt = {dt} at i = {i}; ts= {timestamps}")
             ts_types = set([type(ts) for ts in timestamps])
             if D in ts_types and any([int in ts_types, float in ts_types]):
@@ -213,7 +213,7 @@ class DgSampledSequenceBuilder(Generic[X]):
 
     def add(self, t: Timestamp, v: X):
         if self.timestamps:
-            if t <= self.timestamps[-1]:
+            if not t > self.timestamps[-1]:
                 msg = "Repeated time stamp"
                 raise ZValueError(msg, t=t, timestamps=self.timestamps)
         self.timestamps.append(t)
-- 
2.43.0


From e9e77f5343383e213ae76685f6fc0855a47a0489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 08/29] fix: PoseGoal.get_plottable_geometry returns its
 polygon instead of raising it

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 4cf7b3a..58610f1 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -108,7 +108,7 @@ class PoseGoal(PlanningGoal):
         return np.linalg.norm(pose - goal_pose) <= self.tol
 
     def get_plottable_geometry(self, at: SimTime | float = 0) -> BaseGeometry:
-        raise self.goal_pose_poly
+        return self.goal_pose_poly
 
     @cached_property
     def goal_pose_poly(self) -> Polygon:
-- 
2.43.0


From b82a35869d1061c7ad42c5ba536d1a7be73eef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 09/29] fix: RefLaneGoal places its goal polygon at the
 along-lane progress in meters

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 58610f1..8288c75 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -58,7 +58,7 @@ class RefLaneGoal(PlanningGoal):
 
     @cached_property
     def goal_polygon(self) -> Polygon:
-        poly = _polygon_at_along_lane(self.ref_lane, self.goal_progress)
+        poly = _polygon_at_along_lane(self.ref_lane, self.ref_lane.beta_from_along_lane(self.goal_progress))
         return poly
 
 
-- 
2.43.0


From 77347dfce8fb3bba5be43900e458856e35645e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 10/29] fix: RocketModel velocities are states in global frame,
 get/set_velocity rotated them as if in body frame

---
 src/dg_commons/sim/models/rocket.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dg_commons/sim/models/rocket.py b/src/dg_commons/sim/models/rocket.py
index a4fce0e..217acd7 100644
--- a/src/dg_commons/sim/models/rocket.py
+++ b/src/dg_commons/sim/models/rocket.py
@@ -272,20 +272,20 @@ class RocketModel(SimModel[RocketState, RocketCommands]):
         return self.rg
 
     def get_velocity(self, in_model_frame: bool) -> (T2value, float):
-        """Returns velocity at COG"""
+        """Returns velocity at COG, note that the state's velocities are expressed in global frame"""
         vx = self._state.vx
         vy = self._state.vy
         dpsi = self._state.dpsi
-        v_l = np.array([vx, vy])
-        if in_model_frame:
-            return v_l, dpsi
-        rot: SO2value = SO2_from_angle(self._state.psi)
-        v_g = rot @ v_l
-        return v_g, dpsi
+        v_g = np.array([vx, vy])
+        if not in_model_frame:
+            return v_g, dpsi
+        rot: SO2value = SO2_from_angle(-self._state.psi)
+        v_l = rot @ v_g
+        return v_l, dpsi
 
     def set_velocity(self, vel: T2value, dpsi: float, in_model_frame: bool):
-        if not in_model_frame:
-            rot: SO2value = SO2_from_angle(-self._state.psi)
+        if in_model_frame:
+            rot: SO2value = SO2_from_angle(self._state.psi)
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-- 
2.43.0


From 9beb25ff4263302a781140d70dc05bb084cc8811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 11/29] fix: safety metrics accept players without a mission

---
 src/dg_commons/eval/safety.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index b5c9ec8..c9a9bbb 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -246,8 +246,8 @@ def _remove_finished_players(
     """
     log_new = {}
     for name, log in log_at_t.items():
-        mission = missions[name]
+        mission = missions.get(name)
         state = log.state
-        if not mission.is_fulfilled(state):
+        if mission is None or not mission.is_fulfilled(state):
             log_new[name] = log
     return log_new
-- 
2.43.0


From 8888a58513d83a2e6904945c03e7ba05786da68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 12/29] fix: simulators no longer share commands and logs, nor
 carry them over to the next episode

---
 src/dg_commons/sim/simulator.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index d13061e..3e396ea 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -73,16 +73,21 @@ class Simulator:
         - A post-update function that checks the new states of all the models and resolves collisions
     """
 
-    # fixme check if this is okay once you have multiple simulators running together
-    last_observations: SimObservations = SimObservations(players=fd({}), time=Decimal(0))
-    last_get_commands_ts: SimTime = SimTime("-Infinity")
-    last_commands: dict[PlayerName, U] = {}
-    simlogger: dict[PlayerName, PlayerLogger] = {}
+    def __init__(self):
+        self._reset()
+
+    def _reset(self):
+        """The state of an episode belongs to the simulator running it and starts anew at each episode"""
+        self.last_observations: SimObservations = SimObservations(players=fd({}), time=Decimal(0))
+        self.last_get_commands_ts: SimTime = SimTime("-Infinity")
+        self.last_commands: dict[PlayerName, U] = {}
+        self.simlogger: dict[PlayerName, PlayerLogger] = {}
 
     @time_function
     def run(self, sim_context: SimContext):
         logger.info("~~~~~> Beginning simulation")
         # initialize the simulation
+        self._reset()
         for player_name, player in sim_context.players.items():
             scenario = deepcopy(sim_context.dg_scenario)
             init_obs = InitSimObservations(
-- 
2.43.0


From 1f13099a747aaf4169ce554833b95caa22e6f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 13/29] fix: PolicyAgent evaluates its policy on the state of
 the player

---
 src/dg_commons/sim/agents/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/agent.py b/src/dg_commons/sim/agents/agent.py
index 6a5ffbc..e8e541a 100644
--- a/src/dg_commons/sim/agents/agent.py
+++ b/src/dg_commons/sim/agents/agent.py
@@ -65,5 +65,5 @@ class PolicyAgent(Agent):
         self.my_name = init_sim_obs.my_name
 
     def get_commands(self, sim_obs: SimObservations) -> U:
-        my_state: X = sim_obs.players[self.my_name]
+        my_state: X = sim_obs.players[self.my_name].state
         return self.policy(my_state)
-- 
2.43.0


From 2aa102f39fe3b96449b231f226ebb956c96151b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 14/29] fix: VehicleStateDyn scales all its components when
 multiplied from the left

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index 917e885..f651ae6 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -51,6 +51,8 @@ class VehicleStateDyn(VehicleState):
             delta=self.delta * val,
         )
 
+    __rmul__ = __mul__
+
     def as_ndarray(self) -> np.ndarray:
         return np.array([self.x, self.y, self.psi, self.vx, self.vy, self.dpsi, self.delta])
 
-- 
2.43.0


From ab3a73587da9c579b89de3dc57e31fdc3a24a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 15/29] fix: environment collisions with two-point lines no
 longer raise when reporting the obstacle

---
 src/dg_commons/sim/collision.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision.py b/src/dg_commons/sim/collision.py
index 16d7690..429e57b 100644
--- a/src/dg_commons/sim/collision.py
+++ b/src/dg_commons/sim/collision.py
@@ -189,7 +189,8 @@ def resolve_collision_with_environment(
     )
     # create a report for the "environment" as a fictitious player
     if not isinstance(b_shape, Polygon):
-        b_shape = Polygon(b_shape)
+        # a straight line with only two points does not enclose any area, report it as a thin polygon
+        b_shape = Polygon(b_shape) if len(b_shape.coords) > 2 else b_shape.buffer(0.01)
     b_locations = [
         (IMPACT_EVERYWHERE, b_shape),
     ]
-- 
2.43.0


From 70733ad323e282b5ce83e5c952b343eaacaa20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 16/29] fix: LFAgent uses the pure pursuit controller it is
 given

---
 src/dg_commons/sim/agents/lane_follower.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index fd0a8cd..af489a9 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -35,7 +35,9 @@ class LFAgent(Agent):
         self.speed_controller: SpeedController = SpeedController.from_vehicle_params(model_param=model_params)
         self.speed_behavior: SpeedBehavior = SpeedBehavior() if speed_behavior is None else speed_behavior
         self.steer_controller: SteerController = SteerController.from_vehicle_params(vehicle_param=model_params)
-        self.pure_pursuit: PurePursuit = PurePursuit.from_model_geometry(model_geo)
+        self.pure_pursuit: PurePursuit = (
+            PurePursuit.from_model_geometry(model_geo) if pure_pursuit is None else pure_pursuit
+        )
         self.my_name: Optional[PlayerName] = None
         self.return_extra: bool = return_extra
         self._emergency: bool = False
-- 
2.43.0


From 0daa1a5ac63d03cbe807052f39bad57e0cc6d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:21 +0000
Subject: [PATCH 17/29] fix: interpolate lane headings the short way around in
 center_point_fast_SE2Transform

---
 src/dg_commons/maps/lanes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 488e488..7663b15 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass
-from math import atan2, isclose, pi
+from math import atan2, isclose, pi, remainder
 from typing import Sequence, Optional
 
 import numpy as np
@@ -299,7 +299,8 @@ class DgLanelet:
             q1 = self.control_points[i + 1].q
             alpha = beta - i
         p = q0.p * (1 - alpha) + q1.p * alpha
-        theta = q0.theta * (1 - alpha) + q1.theta * alpha
+        # the shorter way around, also across +-pi
+        theta = q0.theta + remainder(q1.theta - q0.theta, 2 * pi) * alpha
         return SE2Transform(p, theta)
 
     def is_inside_from_T2value(self, position: T2value, tol: float = 1e-3) -> bool:
-- 
2.43.0


From b0f423611da1200fd46a18a8d2ced8cb5f8d98a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 18/29] fix: FovObsFilter must not keep the static obstacles of
 an earlier scenario

---
 src/dg_commons/sim/sim_perception.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index ddb5528..bf02447 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractmethod
 from bisect import bisect_left
 from dataclasses import replace
+from typing import Optional
 
 import numpy as np
 from commonroad_dc.pycrcc import Polygon as crPolygon
@@ -45,6 +46,7 @@ class FovObsFilter(ObsFilter):
     def __init__(self, sensor: Sensor):
         self.sensor: Sensor = sensor
         self._static_obstacles: list[crPolygon] = []
+        self._scenario: Optional[DgScenario] = None
         self._tmp_debug: int = 0
 
     def sense(self, scenario: DgScenario, full_obs: SimObservations, pov: PlayerName) -> SimObservations:
@@ -58,7 +60,8 @@ class FovObsFilter(ObsFilter):
         # first update sensor pose
         self.sensor.pose = SE2Transform.from_SE2(extract_pose_from_state(full_obs.players[pov].state))
         # then filter
-        if not self._static_obstacles:
+        if scenario is not self._scenario:
+            self._scenario = scenario
             self._static_obstacles = list(interleave([shapely2crPolygons(o.shape) for o in scenario.static_obstacles]))
 
         self._tmp_debug += 1
-- 
2.43.0


From 19da5efdbb398e0c3e5069dc702cb98598d4e988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 19/29] fix: DelayedObsFilter must not show observations of an
 earlier episode

---
 src/dg_commons/sim/sim_perception.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index bf02447..3a29cde 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -113,6 +113,9 @@ class DelayedObsFilter(ObsFilter):
     def sense(self, scenario: DgScenario, full_obs: SimObservations, pov: PlayerName) -> SimObservations:
         obs = self.obs_filter.sense(scenario, full_obs, pov)
         shifted_t = obs.time + self.latency
+        if self.obs_history and shifted_t < self.obs_history[-1][0]:
+            # time went backwards: a new episode started
+            self.obs_history = []
         self.obs_history.append((shifted_t, replace(obs, time=shifted_t)))
         history_ts = self._get_obs_history_timestamps()
         idx = bisect_left(history_ts, obs.time)
-- 
2.43.0


From 0f7a898caa007603d76a46f1b7033d3d3afbb053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 20/29] fix: the weighted acceleration must keep the length of
 the signal

---
 src/dg_commons/eval/comfort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/eval/comfort.py b/src/dg_commons/eval/comfort.py
index 65b91bb..97bb6f4 100644
--- a/src/dg_commons/eval/comfort.py
+++ b/src/dg_commons/eval/comfort.py
@@ -41,7 +41,7 @@ def get_acc_rms(commands: DgSampledSequence[U], t_range: tuple[Timestamp | None,
     freqs = np.fft.rfftfreq(n=len(acc_time), d=st)
     acc_freq_weighted = [acc_freq * acc_freq_filter(freq) for acc_freq, freq in zip(acc_freqs, freqs)]
     acc_freq_weighted = np.array(acc_freq_weighted)
-    acc_time_weighted = np.fft.irfft(acc_freq_weighted)
+    acc_time_weighted = np.fft.irfft(acc_freq_weighted, n=len(acc_time))
     acc_rms = 0
     for acc in acc_time_weighted:
         acc_rms += np.square(acc)
-- 
2.43.0


From 9240d18d2c30c29f71a498f22be6c1aad18ec74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 21/29] fix: a road boundary left in one piece is a boundary
 too

---
 src/dg_commons/maps/road_bounds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/maps/road_bounds.py b/src/dg_commons/maps/road_bounds.py
index b302b13..61f628d 100644
--- a/src/dg_commons/maps/road_bounds.py
+++ b/src/dg_commons/maps/road_bounds.py
@@ -44,5 +44,5 @@ def build_road_boundary_obstacle(scenario: Scenario, buffer: float = 0.1) -> tup
         ext_bounds = geo.exterior
         for eeg in entrance_exit_gates:
             ext_bounds = ext_bounds.difference(eeg)
-        scenario_bounds += [g for g in ext_bounds.geoms]
+        scenario_bounds += [g for g in getattr(ext_bounds, "geoms", [ext_bounds]) if not g.is_empty]
     return scenario_bounds, entrance_exit_gates
-- 
2.43.0


From 38be8f9c4018f2083c9c521e23235d3aef2aaea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 22/29] fix: static obstacles of a CommonRoad scenario must be
 placed at their position

---
 src/dg_commons/sim/scenarios/factory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/scenarios/factory.py b/src/dg_commons/sim/scenarios/factory.py
index a9e2ee3..5d3734a 100644
--- a/src/dg_commons/sim/scenarios/factory.py
+++ b/src/dg_commons/sim/scenarios/factory.py
@@ -70,7 +70,10 @@ def get_scenario_commonroad_replica(
         static_obstacles.append(
             StaticObstacle(
                 obstacle_type=sobs.obstacle_type,
-                shape=sobs.obstacle_shape.shapely_object,
+                shape=apply_SE2_to_shapely_geo(
+                    shapely_geometry=sobs.obstacle_shape.shapely_object,
+                    se2_value=SE2_from_xytheta([*sobs.initial_state.position, sobs.initial_state.orientation]),
+                ),
             )
         )
     sim_param = SimParameters() if sim_param is None else sim_param
-- 
2.43.0


From 941b131227ac6c1a90a7dd05b3fd8b82c149123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 23/29] fix: LFAgent must forget emergency and controller state
 on a new episode

---
 src/dg_commons/controllers/pid.py          | 6 ++++++
 src/dg_commons/sim/agents/lane_follower.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/dg_commons/controllers/pid.py b/src/dg_commons/controllers/pid.py
index 078003a..6c5dee9 100644
--- a/src/dg_commons/controllers/pid.py
+++ b/src/dg_commons/controllers/pid.py
@@ -32,6 +32,12 @@ class PID:
         self.last_integral_error: float = 0
         self.last_proportional_error: float = 0
 
+    def reset(self):
+        """Forget the past requests, e.g. at the beginning of a new episode"""
+        self.last_request_at = None
+        self.last_integral_error = 0
+        self.last_proportional_error = 0
+
     def update_measurement(self, measurement: float):
         self.measurement = measurement
 
diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index af489a9..dd532ca 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -48,6 +48,9 @@ class LFAgent(Agent):
         self.my_name = init_sim_obs.my_name
         self.speed_behavior.my_name = init_sim_obs.my_name
         self.pure_pursuit.update_path(self.ref_lane)
+        self.speed_controller.reset()
+        self.steer_controller.reset()
+        self._emergency = False
 
     def get_commands(self, sim_obs: SimObservations) -> VehicleCommands:
         self._my_obs = sim_obs.players[self.my_name].state
-- 
2.43.0


From 56502989280e404f3102f0d5a24dd3d7df81f8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 24/29] fix: the impact mesh of the differential drive must
 cover its round footprint

---
 src/dg_commons/sim/models/diff_drive.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/dg_commons/sim/models/diff_drive.py b/src/dg_commons/sim/models/diff_drive.py
index 2a04efc..c81e22c 100644
--- a/src/dg_commons/sim/models/diff_drive.py
+++ b/src/dg_commons/sim/models/diff_drive.py
@@ -10,7 +10,7 @@ from scipy.integrate import solve_ivp
 from shapely.geometry import Polygon
 
 from dg_commons import apply_SE2_to_shapely_geo, PoseState
-from dg_commons.sim import logger, ImpactLocation, IMPACT_RIGHT, IMPACT_LEFT, IMPACT_BACK, IMPACT_FRONT
+from dg_commons.sim import logger, ImpactLocation, IMPACT_EVERYWHERE
 from dg_commons.sim.models import ModelType
 from dg_commons.sim.models.diff_drive_structures import *
 from dg_commons.sim.simulator_structures import SimModel
@@ -176,15 +176,7 @@ class DiffDriveModel(SimModel[DiffDriveState, DiffDriveCommands]):
 
     def get_mesh(self) -> Mapping[ImpactLocation, Polygon]:
         footprint = self.get_footprint()
-        vertices = footprint.exterior.coords[:-1]
-        cxy = footprint.centroid.coords[0]
-        # fixme maybe we can use triangulate from shapely inferring the side from the relative angle
-        impact_locations: Mapping[ImpactLocation, Polygon] = {
-            IMPACT_RIGHT: Polygon([cxy, vertices[0], vertices[3], cxy]),
-            IMPACT_LEFT: Polygon([cxy, vertices[1], vertices[2], cxy]),
-            IMPACT_BACK: Polygon([cxy, vertices[0], vertices[1], cxy]),
-            IMPACT_FRONT: Polygon([cxy, vertices[2], vertices[3], cxy]),
-        }
+        impact_locations: Mapping[ImpactLocation, Polygon] = {IMPACT_EVERYWHERE: footprint}
         for shape in impact_locations.values():
             assert shape.is_valid
         return impact_locations
-- 
2.43.0


From 9208ec9062fd8528393c0c3e919a8ea3346c0b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 25/29] fix: headings must be compared modulo a full turn when
 choosing the lane of an obstacle

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index a0d558a..315ba70 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -37,7 +37,8 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
         for candidate_lane in candidates:
             _, q = candidate_lane.find_along_lane_closest_point_fast(init_position)
             s_prime = angle_from_SE2(q)
-            displacement_angles.append(np.abs(dyn_obs.initial_state.orientation - s_prime))
+            dtheta = dyn_obs.initial_state.orientation - s_prime
+            displacement_angles.append(np.abs(np.arctan2(np.sin(dtheta), np.cos(dtheta))))
         return candidates[np.argmin(displacement_angles)]
     else:
         # if we reach this point we did not find any lanelet,
-- 
2.43.0


From 29d1d9bbff0e9bfd0f590b2fb0174cc0bbcaa87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 26/29] fix: a lane leads to the final lanelet only if it
 contains it, not if its id contains the digits

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index 315ba70..8e1c1b3 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -23,9 +23,9 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
     candidates: list[DgLanelet] = []
     for init_id in init_ids:
         lanelet = network.find_lanelet_by_id(init_id)
-        merged_lanelets, _ = lanelet.all_lanelets_by_merging_successors_from_lanelet(lanelet=lanelet, network=network)
-        for merged_lanelet in merged_lanelets:
-            if any(str(id) in str(merged_lanelet.lanelet_id) for id in final_ids):
+        merged_lanelets, merged_ids = lanelet.all_lanelets_by_merging_successors_from_lanelet(lanelet=lanelet, network=network)
+        for merged_lanelet, ids in zip(merged_lanelets, merged_ids):
+            if any(id in ids for id in final_ids):
                 candidates.append(DgLanelet.from_commonroad_lanelet(merged_lanelet))
 
     if len(candidates) == 1:
-- 
2.43.0


From cf8bac01722eb604a96d3f03f25e6b84710d6610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 27/29] fix: the initial steering of a converted obstacle must
 not depend on how its heading is written

---
 src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py b/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
index 6fc1838..44ff07b 100644
--- a/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
@@ -1,3 +1,5 @@
+from math import atan2, cos, sin
+
 from commonroad.geometry.shape import Rectangle as crRectangle
 from commonroad.scenario.obstacle import DynamicObstacle, ObstacleType
 
@@ -28,7 +30,7 @@ def infer_model_from_cr_dyn_obstacle(dyn_obs: DynamicObstacle, color: Color) ->
         assert isinstance(dyn_obs.obstacle_shape, crRectangle)
         l = dyn_obs.obstacle_shape.length * axle_length_ratio
         dtheta = dyn_obs.prediction.trajectory.state_list[0].orientation - dyn_obs.initial_state.orientation
-        delta = dtheta / l
+        delta = atan2(sin(dtheta), cos(dtheta)) / l
         # x0 = VehicleStateDyn(
         #     x=dyn_obs.initial_state.position[0],
         #     y=dyn_obs.initial_state.position[1],
-- 
2.43.0


From b06575163d11825480f2255e3736216df7fc9155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 28/29] fix: braking must not recolour the brake lights shared
 by all vehicles for ever

---
 src/dg_commons/sim/simulator_animation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 3a28349..fab50a5 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -1,4 +1,5 @@
 import math
+from dataclasses import replace
 from itertools import chain
 from typing import Mapping, Union, Optional, Sequence, Iterable
 
@@ -232,7 +233,8 @@ def get_lights_colors_from_cmds(cmds: VehicleCommands, t: Timestamp) -> LightsCo
 
 def lights_colors_from_lights_cmd(lights_cmd: LightsCmd, acc: float, t: Timestamp) -> LightsColors:
     phases = lightscmd2phases[lights_cmd]
-    lights_colors = get_phased_lights(phases, float(t))
+    # a copy: the phases are shared by all vehicles and all times
+    lights_colors = replace(get_phased_lights(phases, float(t)))
     if acc < 0:  # and cmds == NO_LIGHTS:
         if lights_colors.back_left == red:
             lights_colors.back_left = red_more
-- 
2.43.0


From 11c62100ed24ed2cf3fdb5109f396a172e9943f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 29/29] fix: shapely_viz draws shapes of several parts, part by
 part

---
 src/dg_commons/maps/shapely_viz.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/dg_commons/maps/shapely_viz.py b/src/dg_commons/maps/shapely_viz.py
index 9a5d672..0f1d69d 100644
--- a/src/dg_commons/maps/shapely_viz.py
+++ b/src/dg_commons/maps/shapely_viz.py
@@ -50,7 +50,7 @@ class ShapelyViz:
         elif isinstance(shape, (Polygon, MultiPolygon)):
             self._plot_polys(shape, **style_kwargs)
         elif isinstance(shape, GeometryCollection):
-            for poly in shape:
+            for poly in shape.geoms:
                 self.add_shape(poly, **style_kwargs)
         else:
             raise NotImplementedError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
@@ -64,18 +64,14 @@ class ShapelyViz:
         if shape.is_empty:
             logger.info("Given shape is empty, returning.")
             return
-        # todo
-        x, y = [], []
         if isinstance(shape, MultiPoint):
-            for point in shape:
-                x.append(point.x)
-                y.append(point.y)
+            for point in shape.geoms:
+                self._plot_points(point, **style_kwargs)
         elif isinstance(shape, Point):
-            x, y = map(list, shape.xy)
+            circle = mpatches.Circle(xy=(shape.x, shape.y), **style_kwargs)
+            self.ax.add_patch(circle)
         else:
             raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
-        circle = mpatches.Circle(xy=(x, y), **style_kwargs)
-        self.ax.add_patch(circle)
 
     def _plot_lines(self, shape: Union[LineString, MultiLineString, LinearRing], **style_kwargs: Dict):
         """Internal method for plotting given non-empty, LineString, MultiLineString, or LinearRing `shape` object.
@@ -91,7 +87,7 @@ class ShapelyViz:
             x, y = map(list, shape.xy)
             self.ax.plot(x, y, **style_kwargs)
         elif isinstance(shape, MultiLineString):
-            for line in shape:
+            for line in shape.geoms:
                 x, y = map(list, line.xy)
                 self.ax.plot(x, y, **style_kwargs)
         else:
@@ -110,6 +106,12 @@ class ShapelyViz:
         if not isinstance(shape, (Polygon, MultiPolygon)):
             raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
 
+        if isinstance(shape, MultiPolygon):
+            # part by part: only the first ring of each part is not a hole
+            for part in shape.geoms:
+                self._plot_polys(part, **style_kwargs)
+            return
+
         xs, ys = self._get_poly_coordinates(shape)
         for idx, xy in enumerate(zip(xs, ys)):
             xy_array = list(zip(*xy))
-- 
2.43.0

