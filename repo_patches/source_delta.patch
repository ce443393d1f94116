From 4d3b587b432fef9995128e7cbdbece1835d0c0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 01/50] fix: keep the simulator's internal state per instance
 and per episode

The last commands and the loggers were class attributes shared by all simulators, and the
timestamp of the last request survived into the next episode of the same simulator.
---
 src/dg_commons/sim/simulator.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index d13061e..d3f5d43 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -73,15 +73,25 @@ class Simulator:
         - A post-update function that checks the new states of all the models and resolves collisions
     """
 
-    # fixme check if this is okay once you have multiple simulators running together
-    last_observations: SimObservations = SimObservations(players=fd({}), time=Decimal(0))
-    last_get_commands_ts: SimTime = SimTime("-Infinity")
-    last_commands: dict[PlayerName, U] = {}
-    simlogger: dict[PlayerName, PlayerLogger] = {}
+    last_observations: SimObservations
+    last_get_commands_ts: SimTime
+    last_commands: dict[PlayerName, U]
+    simlogger: dict[PlayerName, PlayerLogger]
+
+    def __init__(self):
+        self._reset()
+
+    def _reset(self):
+        """The internal state belongs to one simulator and to one episode only"""
+        self.last_observations = SimObservations(players=fd({}), time=Decimal(0))
+        self.last_get_commands_ts = SimTime("-Infinity")
+        self.last_commands = {}
+        self.simlogger = {}
 
     @time_function
     def run(self, sim_context: SimContext):
         logger.info("~~~~~> Beginning simulation")
+        self._reset()
         # initialize the simulation
         for player_name, player in sim_context.players.items():
             scenario = deepcopy(sim_context.dg_scenario)
-- 
2.43.0


From fd8d10c265f3c4ed59b13ce15478d2fa46d316a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 02/50] fix: dynamic vehicle lost the rotational velocity set
 by a collision

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index a068cad..917e885 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -215,7 +215,7 @@ class VehicleModelDyn(VehicleModel):
 
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.dtheta = omega
+        self._state.dpsi = omega
 
     def get_acceleration_split(self, Facc: float) -> Sequence[float]:
         """Returns split of acceleration force to be applied on front and rear wheel"""
-- 
2.43.0


From 5c4aa491848c1eb69282a6db6ab8ad511c9b260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 03/50] fix: pedestrian's longitudinal velocity was overwritten
 by the rotational one in collisions

---
 src/dg_commons/sim/models/pedestrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/pedestrian.py b/src/dg_commons/sim/models/pedestrian.py
index a002d17..3514238 100644
--- a/src/dg_commons/sim/models/pedestrian.py
+++ b/src/dg_commons/sim/models/pedestrian.py
@@ -249,7 +249,7 @@ class PedestrianModel(SimModel[SE2value, float]):
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.vx = omega
+        self._state.dpsi = omega
 
     @property
     def model_geometry(self) -> PedestrianGeometry:
-- 
2.43.0


From d613853f92219603cda2dfa376b26c9755cd92a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 04/50] fix: typo in SpacecraftCommands.from_array key

---
 src/dg_commons/sim/models/spacecraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/spacecraft.py b/src/dg_commons/sim/models/spacecraft.py
index a13d9ce..b98a5e0 100644
--- a/src/dg_commons/sim/models/spacecraft.py
+++ b/src/dg_commons/sim/models/spacecraft.py
@@ -55,7 +55,7 @@ class SpacecraftCommands:
     @classmethod
     def from_array(cls, z: np.ndarray):
         assert cls.get_n_commands() == z.size == z.shape[0], f"z vector {z} cannot initialize VehicleInputs."
-        return SpacecraftCommands(acc_left=z[cls.idx["acc_left "]], acc_right=z[cls.idx["acc_right"]])
+        return SpacecraftCommands(acc_left=z[cls.idx["acc_left"]], acc_right=z[cls.idx["acc_right"]])
 
 
 @dataclass(unsafe_hash=True, eq=True, order=True)
-- 
2.43.0


From f1196fe94dee9868993cd005b8f1426bb2d2fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 05/50] fix: rocket's velocity getter and setter use the global
 frame of its state

The dynamics integrate global-frame velocities, the accessors treated them as body-frame ones,
so collisions of a rotated rocket were resolved with a wrong velocity.
---
 src/dg_commons/sim/models/rocket.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/sim/models/rocket.py b/src/dg_commons/sim/models/rocket.py
index a4fce0e..5fce27c 100644
--- a/src/dg_commons/sim/models/rocket.py
+++ b/src/dg_commons/sim/models/rocket.py
@@ -276,16 +276,17 @@ class RocketModel(SimModel[RocketState, RocketCommands]):
         vx = self._state.vx
         vy = self._state.vy
         dpsi = self._state.dpsi
-        v_l = np.array([vx, vy])
-        if in_model_frame:
-            return v_l, dpsi
-        rot: SO2value = SO2_from_angle(self._state.psi)
-        v_g = rot @ v_l
-        return v_g, dpsi
+        # the state's velocities are expressed in the global frame (see dynamics)
+        v_g = np.array([vx, vy])
+        if not in_model_frame:
+            return v_g, dpsi
+        rot: SO2value = SO2_from_angle(-self._state.psi)
+        v_l = rot @ v_g
+        return v_l, dpsi
 
     def set_velocity(self, vel: T2value, dpsi: float, in_model_frame: bool):
-        if not in_model_frame:
-            rot: SO2value = SO2_from_angle(-self._state.psi)
+        if in_model_frame:
+            rot: SO2value = SO2_from_angle(self._state.psi)
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-- 
2.43.0


From c45ed0750903d3c4f0312888ae23af4ce302ee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 06/50] fix: the lane follower's lights sequence no longer
 depends on the process' hash seed

---
 src/dg_commons/sim/agents/lane_follower.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index fd0a8cd..98e9b8f 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -40,7 +40,8 @@ class LFAgent(Agent):
         self.return_extra: bool = return_extra
         self._emergency: bool = False
         self._my_obs: Optional[X] = None
-        self.lights_test_seq = DgSampledSequence[LightsCmd](timestamps=[0, 2, 4, 6, 8], values=list(LightsValues))
+        # sorted since the iteration order of a set of strings changes with the hash seed of the process
+        self.lights_test_seq = DgSampledSequence[LightsCmd](timestamps=[0, 2, 4, 6, 8], values=sorted(LightsValues))
 
     def on_episode_init(self, init_sim_obs: InitSimObservations):
         self.my_name = init_sim_obs.my_name
-- 
2.43.0


From 3d75c5fbd3ceeaa52d324a371d8bbd9f4ee2751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 07/50] fix: braking lights of one vehicle leaked into the
 colors shared by all vehicles

---
 src/dg_commons/sim/models/vehicle_ligths.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/models/vehicle_ligths.py b/src/dg_commons/sim/models/vehicle_ligths.py
index dc66230..1a1c042 100644
--- a/src/dg_commons/sim/models/vehicle_ligths.py
+++ b/src/dg_commons/sim/models/vehicle_ligths.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from typing import AbstractSet, Mapping, NewType
 
 import numpy as np
@@ -94,5 +94,6 @@ PHASE_SLOW: float = 0.4
 def get_phased_lights(phases, t: float, phase_period: float = PHASE_SLOW) -> LightsColors:
     phase_index = int(np.round(t / phase_period))
     phase = phases[phase_index % len(phases)]
-    led_commands = phase2colors[phase]
+    # a copy, the colors of the phases are shared by all vehicles and instants
+    led_commands = replace(phase2colors[phase])
     return led_commands
-- 
2.43.0


From d15e89543275be38d30144dc13e25f8a81198313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 08/50] fix: PolicyAgent applies its policy to the state rather
 than to the whole observation

---
 src/dg_commons/sim/agents/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/agent.py b/src/dg_commons/sim/agents/agent.py
index 6a5ffbc..e8e541a 100644
--- a/src/dg_commons/sim/agents/agent.py
+++ b/src/dg_commons/sim/agents/agent.py
@@ -65,5 +65,5 @@ class PolicyAgent(Agent):
         self.my_name = init_sim_obs.my_name
 
     def get_commands(self, sim_obs: SimObservations) -> U:
-        my_state: X = sim_obs.players[self.my_name]
+        my_state: X = sim_obs.players[self.my_name].state
         return self.policy(my_state)
-- 
2.43.0


From cfcfc1511eda850df2cc61eeb7cca2f48f8ca44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 09/50] fix: an agent reusing its commands object altered past
 logs and the commands being applied

---
 src/dg_commons/sim/simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index d3f5d43..23b6e54 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -149,6 +149,8 @@ class Simulator:
                 tic = perf_counter()
                 cmds = agent.get_commands(p_observations)
                 toc = perf_counter()
+                # a copy is kept, the agent might reuse the same object for its next commands
+                cmds = deepcopy(cmds)
                 self.last_commands[player_name] = cmds
                 self.simlogger[player_name].commands.add(t=t, v=cmds)
                 self.simlogger[player_name].info.add(t=t, v=toc - tic)
-- 
2.43.0


From 6fbc27ca203bdd64bfa86a60e11b6260f9804fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 10/50] fix: an agent modifying its observations altered what
 the other agents observe

---
 src/dg_commons/sim/simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index 23b6e54..8ad546a 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -146,6 +146,8 @@ class Simulator:
                 p_observations = sim_context.sensors[player_name].sense(
                     sim_context.dg_scenario, self.last_observations, player_name
                 )
+                # a copy is handed out, or an agent modifying its observations would alter what the others observe
+                p_observations = deepcopy(p_observations)
                 tic = perf_counter()
                 cmds = agent.get_commands(p_observations)
                 toc = perf_counter()
-- 
2.43.0


From 927043985ea5f812c9348c03774fa020931fbacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 11/50] fix: two bodies exactly touching aborted the simulation

It is now an ill-posed collision handled as all the other ones.
---
 src/dg_commons/sim/collision_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index 7149053..e7d8ec6 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -94,7 +94,8 @@ def compute_impact_geometry(a: Polygon, b: BaseGeometry) -> (np.ndarray, Point):
     :param b: Base Geometry
     :return: normal of impact and the impact point
     """
-    assert not a.touches(b)
+    if a.touches(b):
+        raise CollisionException("The two bodies are only touching, the impact geometry is not defined")
     if a.contains(b):
         impact_point = b.centroid
         r_ap = np.array(impact_point.coords[0]) - np.array(a.centroid.coords[0])
-- 
2.43.0


From fe7f037a4b86a1b18959893d3a929c3e0bc4990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 12/50] fix: colliding with a straight wall (two points line)
 aborted the simulation

---
 src/dg_commons/sim/collision.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision.py b/src/dg_commons/sim/collision.py
index 16d7690..12abcc8 100644
--- a/src/dg_commons/sim/collision.py
+++ b/src/dg_commons/sim/collision.py
@@ -126,6 +126,14 @@ def resolve_collision(a: PlayerName, b: PlayerName, sim_context: SimContext) ->
     )
 
 
+def _polygon_from_obstacle_shape(shape: BaseGeometry) -> Polygon:
+    try:
+        return Polygon(shape)
+    except (ValueError, TypeError, NotImplementedError):
+        # e.g. a straight wall made of only two points, it does not enclose any area
+        return shape.convex_hull.buffer(1e-3)
+
+
 EnvPlayer = PlayerName("Env")
 """The environment as a fictitious player"""
 
@@ -189,7 +197,7 @@ def resolve_collision_with_environment(
     )
     # create a report for the "environment" as a fictitious player
     if not isinstance(b_shape, Polygon):
-        b_shape = Polygon(b_shape)
+        b_shape = _polygon_from_obstacle_shape(b_shape)
     b_locations = [
         (IMPACT_EVERYWHERE, b_shape),
     ]
-- 
2.43.0


From 46994e7babb678b4c1c2929226dd569ea7e20996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 13/50] fix: a reused DelayedObsFilter returned the
 observations of the previous episode

---
 src/dg_commons/sim/sim_perception.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index ddb5528..601579c 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -110,6 +110,9 @@ class DelayedObsFilter(ObsFilter):
     def sense(self, scenario: DgScenario, full_obs: SimObservations, pov: PlayerName) -> SimObservations:
         obs = self.obs_filter.sense(scenario, full_obs, pov)
         shifted_t = obs.time + self.latency
+        if self.obs_history and shifted_t < self.obs_history[-1][0]:
+            # the clock restarted, what was observed in a previous episode does not matter anymore
+            self.obs_history = []
         self.obs_history.append((shifted_t, replace(obs, time=shifted_t)))
         history_ts = self._get_obs_history_timestamps()
         idx = bisect_left(history_ts, obs.time)
-- 
2.43.0


From a166efbe7556880b4211cd668fc00efff08965d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 14/50] fix: a reused FovObsFilter kept the static obstacles of
 the previous scenario

---
 src/dg_commons/sim/sim_perception.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index 601579c..c9258e4 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractmethod
 from bisect import bisect_left
 from dataclasses import replace
+from typing import Optional
 
 import numpy as np
 from commonroad_dc.pycrcc import Polygon as crPolygon
@@ -45,6 +46,7 @@ class FovObsFilter(ObsFilter):
     def __init__(self, sensor: Sensor):
         self.sensor: Sensor = sensor
         self._static_obstacles: list[crPolygon] = []
+        self._static_obstacles_of: Optional[DgScenario] = None
         self._tmp_debug: int = 0
 
     def sense(self, scenario: DgScenario, full_obs: SimObservations, pov: PlayerName) -> SimObservations:
@@ -58,7 +60,8 @@ class FovObsFilter(ObsFilter):
         # first update sensor pose
         self.sensor.pose = SE2Transform.from_SE2(extract_pose_from_state(full_obs.players[pov].state))
         # then filter
-        if not self._static_obstacles:
+        if self._static_obstacles_of is not scenario:
+            self._static_obstacles_of = scenario
             self._static_obstacles = list(interleave([shapely2crPolygons(o.shape) for o in scenario.static_obstacles]))
 
         self._tmp_debug += 1
-- 
2.43.0


From 14f05574922d257752169e6d053f79afa93fa85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 15/50] fix: lanes' caches are shared by all threads and need a
 lock

---
 src/dg_commons/maps/lanes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 488e488..0deffe0 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -1,5 +1,6 @@
 from dataclasses import dataclass
 from math import atan2, isclose, pi
+from threading import RLock
 from typing import Sequence, Optional
 
 import numpy as np
@@ -111,7 +112,7 @@ class DgLanelet:
         lane_ids = lane_network.find_lanelet_by_position(point_list=points)
         return [lane_network.find_lanelet_by_id(lid[0]) for lid in lane_ids]
 
-    @cached(LRUCache(maxsize=128))
+    @cached(LRUCache(maxsize=128), lock=RLock())
     def get_lane_lengths(self) -> list[float]:
         res = []
         for i in range(len(self.control_points) - 1):
@@ -318,7 +319,7 @@ class DgLanelet:
             beta, _ = self.find_along_lane_closest_point(position, tol=tol, bracket=bracket)
         return self.along_lane_from_beta(beta)
 
-    @cached(LRUCache(maxsize=128))
+    @cached(LRUCache(maxsize=128), lock=RLock())
     def lane_profile(self, points_per_segment: int = 5) -> list[T2value]:
         """Lane bounds - left and right along the lane"""
         points_left = []
-- 
2.43.0


From ae589fac2333c55591514860cee6d9c6678ffaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 16/50] fix: which of two scenarios with the same name gets
 loaded depended on the file system's order

---
 src/dg_commons/sim/scenarios/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/utils.py b/src/dg_commons/sim/scenarios/utils.py
index 8eacb35..2959cea 100644
--- a/src/dg_commons/sim/scenarios/utils.py
+++ b/src/dg_commons/sim/scenarios/utils.py
@@ -35,10 +35,11 @@ def load_commonroad_scenario(
     scenario_name = scenario_name if scenario_name.endswith(".xml") else scenario_name + ".xml"
     scenario_path = None
     for root, dirs, files in os.walk(scenarios_dir, followlinks=True):
-        for name in files:
-            if name == scenario_name:
-                scenario_path = os.path.abspath(os.path.join(root, name))
-                break
+        # the order of the entries is up to the file system
+        dirs.sort()
+        if scenario_name in files:
+            scenario_path = os.path.abspath(os.path.join(root, scenario_name))
+            break
     if scenario_path is None:
         raise FileNotFoundError(
             f"Unable to find commonroad scenario {scenario_name} within {scenarios_dir}.\n"
-- 
2.43.0


From 64404a1d91b8c8437ce9cc06f7c37915ad90b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 17/50] fix: aligned contact areas (straight wall across a non
 convex body) aborted the simulation

The minimum rotated rectangle of aligned contacts is a line, which has no exterior.
---
 src/dg_commons/sim/collision_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index e7d8ec6..a7ccc55 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -45,7 +45,8 @@ def _find_intersection_points(a_shape: Polygon, b_shape: BaseGeometry) -> list[t
             f"Try a smaller physics step for improved accuracy."
         )
         # this could still lead to some ill-posed cases
-        points = list(int_shape.exterior.coords[:-1])
+        # (aligned contacts, e.g. with a straight wall, have no exterior)
+        points = list(int_shape.exterior.coords[:-1] if isinstance(int_shape, Polygon) else int_shape.coords)
     else:
         raise CollisionException(f"Unable to handle intersection shape: {int_shape}")
 
-- 
2.43.0


From e994ca863ab38f13ef50e0a63ee852fb6f944e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 18/50] fix: concentric bodies got NaN velocities from the
 collision resolution

The impact normal is undefined when the contained body has the same center.
---
 src/dg_commons/sim/collision_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index a7ccc55..0ac7c40 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -100,6 +100,8 @@ def compute_impact_geometry(a: Polygon, b: BaseGeometry) -> (np.ndarray, Point):
     if a.contains(b):
         impact_point = b.centroid
         r_ap = np.array(impact_point.coords[0]) - np.array(a.centroid.coords[0])
+        if np.linalg.norm(r_ap) < 1e-9:
+            raise CollisionException("The two bodies are concentric, the impact geometry is not defined")
         normal = r_ap / np.linalg.norm(r_ap)
     else:
         intersecting_points = _find_intersection_points(a, b)
-- 
2.43.0


From d3b5c0905da3edbe56edf0e5491263b5ef9c6b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 19/50] fix: specifying the sensors only for a subset of the
 players aborted the simulation

The missing ones get the full observations, as documented in SimContext.
---
 src/dg_commons/sim/simulator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index 8ad546a..984091a 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -143,7 +143,12 @@ class Simulator:
             state = sim_context.models[player_name].get_state()
             self.simlogger[player_name].states.add(t=t, v=state)
             if self._need_to_update_commands(sim_context):
-                p_observations = sim_context.sensors[player_name].sense(
+                try:
+                    sensor = sim_context.sensors[player_name]
+                except KeyError:
+                    # players without a specific sensor get the full observations
+                    sensor = IdObsFilter()
+                p_observations = sensor.sense(
                     sim_context.dg_scenario, self.last_observations, player_name
                 )
                 # a copy is handed out, or an agent modifying its observations would alter what the others observe
-- 
2.43.0


From 08cc36b4268c915b0b365619174bfba717ae7129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 20/50] fix: RefLaneGoal's polygon was placed by control points
 rather than by meters along the lane

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 4cf7b3a..eb65cd9 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -58,7 +58,7 @@ class RefLaneGoal(PlanningGoal):
 
     @cached_property
     def goal_polygon(self) -> Polygon:
-        poly = _polygon_at_along_lane(self.ref_lane, self.goal_progress)
+        poly = _polygon_at_along_lane(self.ref_lane, self.ref_lane.beta_from_along_lane(self.goal_progress))
         return poly
 
 
-- 
2.43.0


From ca09cd4c900a661c6ca492b50a0163e5ed031483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 21/50] fix: the copy of the observations handed to an agent
 still shared the states of the players

---
 src/dg_commons/sim/simulator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index 984091a..1ba5a08 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -152,7 +152,10 @@ class Simulator:
                     sim_context.dg_scenario, self.last_observations, player_name
                 )
                 # a copy is handed out, or an agent modifying its observations would alter what the others observe
-                p_observations = deepcopy(p_observations)
+                # (a deepcopy of a hashable frozendict is the frozendict itself, hence the copy of its values)
+                p_observations = replace(
+                    p_observations, players=fd({p: deepcopy(obs) for p, obs in p_observations.players.items()})
+                )
                 tic = perf_counter()
                 cmds = agent.get_commands(p_observations)
                 toc = perf_counter()
-- 
2.43.0


From d70429f91d1b5e1c37f6c8a4c403a724d90d3f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 22/50] fix: collisions of differential drives were not
 resolved since their mesh did not cover their round footprint

---
 src/dg_commons/sim/models/diff_drive.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/sim/models/diff_drive.py b/src/dg_commons/sim/models/diff_drive.py
index 2a04efc..b337bac 100644
--- a/src/dg_commons/sim/models/diff_drive.py
+++ b/src/dg_commons/sim/models/diff_drive.py
@@ -10,7 +10,7 @@ from scipy.integrate import solve_ivp
 from shapely.geometry import Polygon
 
 from dg_commons import apply_SE2_to_shapely_geo, PoseState
-from dg_commons.sim import logger, ImpactLocation, IMPACT_RIGHT, IMPACT_LEFT, IMPACT_BACK, IMPACT_FRONT
+from dg_commons.sim import logger, ImpactLocation, IMPACT_EVERYWHERE
 from dg_commons.sim.models import ModelType
 from dg_commons.sim.models.diff_drive_structures import *
 from dg_commons.sim.simulator_structures import SimModel
@@ -176,14 +176,9 @@ class DiffDriveModel(SimModel[DiffDriveState, DiffDriveCommands]):
 
     def get_mesh(self) -> Mapping[ImpactLocation, Polygon]:
         footprint = self.get_footprint()
-        vertices = footprint.exterior.coords[:-1]
-        cxy = footprint.centroid.coords[0]
-        # fixme maybe we can use triangulate from shapely inferring the side from the relative angle
+        # the robot is round, unlike the cars there are no sides
         impact_locations: Mapping[ImpactLocation, Polygon] = {
-            IMPACT_RIGHT: Polygon([cxy, vertices[0], vertices[3], cxy]),
-            IMPACT_LEFT: Polygon([cxy, vertices[1], vertices[2], cxy]),
-            IMPACT_BACK: Polygon([cxy, vertices[0], vertices[1], cxy]),
-            IMPACT_FRONT: Polygon([cxy, vertices[2], vertices[3], cxy]),
+            IMPACT_EVERYWHERE: footprint,
         }
         for shape in impact_locations.values():
             assert shape.is_valid
-- 
2.43.0


From 611d1b532994c92393668999e59ee141666c0093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 23/50] fix: coinciding intersection points (thin contact
 areas) got NaN velocities from the collision resolution

---
 src/dg_commons/sim/collision_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index 0ac7c40..7746ea3 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -108,6 +108,8 @@ def compute_impact_geometry(a: Polygon, b: BaseGeometry) -> (np.ndarray, Point):
         impact_point = LineString(intersecting_points).interpolate(0.5, normalized=True)
         first, second = intersecting_points
         dxdy_surface = (second[0] - first[0], second[1] - first[1])
+        if np.linalg.norm(dxdy_surface) < 1e-9:
+            raise CollisionException("The intersecting points coincide, the impact geometry is not defined")
         normal = np.array([-dxdy_surface[1], dxdy_surface[0]])
         normal /= np.linalg.norm(normal)
         r_ap = np.array(impact_point.coords[0]) - np.array(a.centroid.coords[0])
-- 
2.43.0


From 481e88b9afbc8b007de19421a7265ba624e8ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 24/50] fix: thrusting backwards generated fuel in the
 spaceship

---
 src/dg_commons/sim/models/spaceship.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/models/spaceship.py b/src/dg_commons/sim/models/spaceship.py
index 8236f07..46ff75a 100644
--- a/src/dg_commons/sim/models/spaceship.py
+++ b/src/dg_commons/sim/models/spaceship.py
@@ -212,7 +212,7 @@ class SpaceshipModel(SimModel[SpaceshipState, SpaceshipCommands]):
         dvy/dt = 1/m*sin(delta)*thrust - dψ*vx  (Coriolis term)
         dψdot/dt = -1/I*l_r*sin(delta)*thrust
         ddelta/dt = vdelta
-        dm/dt = -k_l*thrust
+        dm/dt = -k_l*|thrust|  (thrusting backwards consumes fuel as well)
 
         """
         # todo update dynamics
@@ -236,7 +236,7 @@ class SpaceshipModel(SimModel[SpaceshipState, SpaceshipCommands]):
 
         dvpsi = -1 / self.rg.Iz * self.rg.l_r * sindelta * thrust
         ddelta = ddelta
-        dm = -self.sp.C_T * thrust
+        dm = -self.sp.C_T * abs(thrust)
 
         return SpaceshipState(x=dx, y=dy, psi=x0.dpsi, vx=dvx, vy=dvy, dpsi=dvpsi, delta=ddelta, m=dm)
 
-- 
2.43.0


From 42d08d02469ce9b1f5ab864c184779f756e2f403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 25/50] fix: dynamic obstacles ignored the limits of their
 rotational acceleration

---
 src/dg_commons/sim/models/obstacles_dyn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/obstacles_dyn.py b/src/dg_commons/sim/models/obstacles_dyn.py
index 5081d12..dbf2c37 100644
--- a/src/dg_commons/sim/models/obstacles_dyn.py
+++ b/src/dg_commons/sim/models/obstacles_dyn.py
@@ -195,7 +195,8 @@ class DynObstacleModel(SimModel[DynObstacleState, DynObstacleCommands]):
 
         acc_x = apply_full_acceleration_limits(speed=vx, acceleration=u.acc_x + x0.dpsi * vy, p=self.op)
         acc_y = apply_full_acceleration_limits(speed=vy, acceleration=u.acc_y - x0.dpsi * vx, p=self.op)
-        acc_psi = apply_rot_speed_constraint(omega=x0.dpsi, domega=u.acc_psi, p=self.op)
+        acc_psi = max(self.op.ddpsi_limits[0], min(u.acc_psi, self.op.ddpsi_limits[1]))
+        acc_psi = apply_rot_speed_constraint(omega=x0.dpsi, domega=acc_psi, p=self.op)
 
         return DynObstacleState(x=xdot, y=ydot, psi=x0.dpsi, vx=acc_x, vy=acc_y, dpsi=acc_psi)
 
-- 
2.43.0


From 42ca9b4d65957e5a4cf59a4f8d91d85d91be2596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 26/50] fix: a reused DelayedObsFilter returned the observation
 of a previous episode with a single request

---
 src/dg_commons/sim/sim_perception.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index c9258e4..8fe337a 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -113,7 +113,7 @@ class DelayedObsFilter(ObsFilter):
     def sense(self, scenario: DgScenario, full_obs: SimObservations, pov: PlayerName) -> SimObservations:
         obs = self.obs_filter.sense(scenario, full_obs, pov)
         shifted_t = obs.time + self.latency
-        if self.obs_history and shifted_t < self.obs_history[-1][0]:
+        if self.obs_history and (shifted_t < self.obs_history[-1][0] or shifted_t == self.obs_history[0][0]):
             # the clock restarted, what was observed in a previous episode does not matter anymore
             self.obs_history = []
         self.obs_history.append((shifted_t, replace(obs, time=shifted_t)))
-- 
2.43.0


From 8e6dfbc4f367d5389b408721838a331a830a2f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 27/50] fix: static obstacles of replicated CommonRoad
 scenarios were placed at the origin

---
 src/dg_commons/sim/scenarios/factory.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/factory.py b/src/dg_commons/sim/scenarios/factory.py
index a9e2ee3..1e6659b 100644
--- a/src/dg_commons/sim/scenarios/factory.py
+++ b/src/dg_commons/sim/scenarios/factory.py
@@ -67,12 +67,11 @@ def get_scenario_commonroad_replica(
                 logger.warn("Unable to convert CommonRoad dynamic obstacle due to " + e.args[0] + " skipping...")
     logger.info(f"Managed to load {len(players)}")
     for sobs in scenario.static_obstacles:
-        static_obstacles.append(
-            StaticObstacle(
-                obstacle_type=sobs.obstacle_type,
-                shape=sobs.obstacle_shape.shapely_object,
-            )
+        shape = apply_SE2_to_shapely_geo(
+            shapely_geometry=sobs.obstacle_shape.shapely_object,
+            se2_value=SE2_from_xytheta([*sobs.initial_state.position, sobs.initial_state.orientation]),
         )
+        static_obstacles.append(StaticObstacle(obstacle_type=sobs.obstacle_type, shape=shape))
     sim_param = SimParameters() if sim_param is None else sim_param
     return SimContext(
         dg_scenario=DgScenario(scenario, static_obstacles=static_obstacles),
-- 
2.43.0


From 17347c8295f12e13ebeb89226b187b8070e84ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 28/50] fix: the lane follower crept into slow and stopped
 vehicles ahead

---
 src/dg_commons/controllers/speed.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/controllers/speed.py b/src/dg_commons/controllers/speed.py
index dce0554..ba972fd 100644
--- a/src/dg_commons/controllers/speed.py
+++ b/src/dg_commons/controllers/speed.py
@@ -52,6 +52,8 @@ class SpeedBehaviorParam:
     """yield only to vehicles that are at least moving at.."""
     safety_time_braking: float = 1.5
     """Evaluates safety distance from vehicle in front based on distance covered in this delta time"""
+    min_gap: float = 2
+    """Gap to keep from the vehicle in front, also at standstill [m]"""
 
 
 class SpeedBehavior:
@@ -144,13 +146,20 @@ class SpeedBehavior:
             in_front_of_me: bool = rel.p[0] > 0.5 and abs(rel.p[1]) <= 1.2 and abs(rel.theta) < pi / 6
             # safety distance at current speed + difference of how it will be in the next second
             dist_to_keep = self._get_min_safety_dist(myvel) + max(myvel - other_vel, 0)
-            if in_front_of_me and rel_dist < dist_to_keep:
+            # the distance to keep vanishes with the speed, but the one between the bodies must not
+            too_close: bool = rel_dist < dist_to_keep or self._get_gap(other_name) < self.params.min_gap
+            if in_front_of_me and too_close:
                 speed_ref = float(np.clip(other_vel - max(myvel - other_vel, 0), 0, kmh2ms(130)))
                 candidate_speed_ref.append(speed_ref)
             else:
                 candidate_speed_ref.append(self.params.nominal_speed)
         return min(candidate_speed_ref)
 
+    def _get_gap(self, other_name: PlayerName) -> float:
+        """The distance between the bodies, as far as they are known"""
+        mine, other = self.agents[self.my_name].occupancy, self.agents[other_name].occupancy
+        return float("inf") if mine is None or other is None else mine.distance(other)
+
     def _get_min_safety_dist(self, vel: float):
         """The distance covered in x [s] travelling at vel"""
         return vel * self.params.safety_time_braking
-- 
2.43.0


From 72fb491be19dbf078ec12546e331e99f2a7b1429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 29/50] fix: a reused lane follower kept the emergency and the
 controllers' memory of the previous episode

---
 src/dg_commons/controllers/pid.py          | 4 ++++
 src/dg_commons/sim/agents/lane_follower.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/dg_commons/controllers/pid.py b/src/dg_commons/controllers/pid.py
index 078003a..80c5c01 100644
--- a/src/dg_commons/controllers/pid.py
+++ b/src/dg_commons/controllers/pid.py
@@ -26,6 +26,10 @@ class PID:
 
     def __init__(self, params: PIDParam):
         self.params = params
+        self.reset()
+
+    def reset(self):
+        """Forgets everything that happened so far, e.g. since the time starts anew"""
         self.measurement: float = 0
         self.reference: float = 0
         self.last_request_at: Optional[float] = None
diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index 98e9b8f..bed8bee 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -47,6 +47,10 @@ class LFAgent(Agent):
         self.my_name = init_sim_obs.my_name
         self.speed_behavior.my_name = init_sim_obs.my_name
         self.pure_pursuit.update_path(self.ref_lane)
+        # nothing is carried over from a previous episode
+        self._emergency = False
+        self.speed_controller.reset()
+        self.steer_controller.reset()
 
     def get_commands(self, sim_obs: SimObservations) -> VehicleCommands:
         self._my_obs = sim_obs.players[self.my_name].state
-- 
2.43.0


From b5064568131b00c0a0ce18d64e7788596b864082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 30/50] fix: the lane follower measured the safety distance
 between centres, so trucks ran into what is ahead

---
 src/dg_commons/controllers/speed.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/dg_commons/controllers/speed.py b/src/dg_commons/controllers/speed.py
index ba972fd..c9cca84 100644
--- a/src/dg_commons/controllers/speed.py
+++ b/src/dg_commons/controllers/speed.py
@@ -141,13 +141,12 @@ class SpeedBehavior:
             if other_name == self.my_name:
                 continue
             rel = agents_rel_pose[other_name]
-            rel_dist = np.linalg.norm(rel.p)
             other_vel = self.agents[other_name].state.vx
             in_front_of_me: bool = rel.p[0] > 0.5 and abs(rel.p[1]) <= 1.2 and abs(rel.theta) < pi / 6
             # safety distance at current speed + difference of how it will be in the next second
             dist_to_keep = self._get_min_safety_dist(myvel) + max(myvel - other_vel, 0)
-            # the distance to keep vanishes with the speed, but the one between the bodies must not
-            too_close: bool = rel_dist < dist_to_keep or self._get_gap(other_name) < self.params.min_gap
+            # the distance to keep vanishes with the speed, but the gap must not
+            too_close: bool = self._get_gap(other_name, rel) < max(dist_to_keep, self.params.min_gap)
             if in_front_of_me and too_close:
                 speed_ref = float(np.clip(other_vel - max(myvel - other_vel, 0), 0, kmh2ms(130)))
                 candidate_speed_ref.append(speed_ref)
@@ -155,10 +154,10 @@ class SpeedBehavior:
                 candidate_speed_ref.append(self.params.nominal_speed)
         return min(candidate_speed_ref)
 
-    def _get_gap(self, other_name: PlayerName) -> float:
-        """The distance between the bodies, as far as they are known"""
+    def _get_gap(self, other_name: PlayerName, rel: SE2Transform) -> float:
+        """The distance between the bodies if they are known, else between the poses"""
         mine, other = self.agents[self.my_name].occupancy, self.agents[other_name].occupancy
-        return float("inf") if mine is None or other is None else mine.distance(other)
+        return float(np.linalg.norm(rel.p)) if mine is None or other is None else mine.distance(other)
 
     def _get_min_safety_dist(self, vel: float):
         """The distance covered in x [s] travelling at vel"""
-- 
2.43.0


From bd4cebd7c5c869036a1b6cff161ed6fe11278e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 31/50] fix: line-of-sight sensors missed flat faces by
 rounding errors

---
 src/dg_commons/sim/sim_perception.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index 8fe337a..225e57a 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -6,6 +6,7 @@ from typing import Optional
 import numpy as np
 from commonroad_dc.pycrcc import Polygon as crPolygon
 from cytoolz import interleave
+from shapely.geometry import Polygon
 from shapely.validation import make_valid
 
 from dg_commons import PlayerName, SE2Transform, fd, shapely2crPolygons
@@ -78,7 +79,7 @@ class FovObsFilter(ObsFilter):
                 continue
 
             try:
-                player_seen = fov_poly.intersects(p_obs.occupancy)
+                player_seen = self._is_seen(fov_poly, p_obs.occupancy)
             except Exception:
                 logger.info(f"FOV polygon is valid: {fov_poly.is_valid}")
                 logger.info(f"{p}'s polygon is valid: {p_obs.occupancy.is_valid}")
@@ -87,7 +88,7 @@ class FovObsFilter(ObsFilter):
                 if not p_obs.occupancy.is_valid:
                     new_occupancy = make_valid(p_obs.occupancy)
                     p_obs = replace(p_obs, occupancy=new_occupancy)
-                player_seen = fov_poly.intersects(p_obs.occupancy)
+                player_seen = self._is_seen(fov_poly, p_obs.occupancy)
             finally:
                 if player_seen:
                     new_players[p] = p_obs
@@ -97,6 +98,11 @@ class FovObsFilter(ObsFilter):
 
         return replace(full_obs, players=fd(new_players))
 
+    @staticmethod
+    def _is_seen(fov_poly: Polygon, occupancy: Polygon) -> bool:
+        # rays end on the surface of what they hit, up to rounding errors
+        return fov_poly.distance(occupancy) < 1e-6
+
 
 class DelayedObsFilter(ObsFilter):
     """
-- 
2.43.0


From 3a5eae2b057bedc87212384e08eba3e18b9a2562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:54 +0000
Subject: [PATCH 32/50] fix: animations never drew trajectories that a player
 first gave after the beginning

---
 src/dg_commons/sim/simulator_animation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 3a28349..45cf6d1 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -137,8 +137,8 @@ def create_animation(
                         ax=ax,
                         player_name=pname,
                         trajectories=list(trajectories),
-                        traj_lines=traj_lines[pname],
-                        traj_points=traj_points[pname],
+                        traj_lines=traj_lines.get(pname),
+                        traj_points=traj_points.get(pname),
                         colors=list(tcolors),
                     )
                 except:
-- 
2.43.0


From e31526302574219fa34a93e2fa10976be3e258bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:28 +0000
Subject: [PATCH 33/50] fix: the fast centre point of a lane turned the long
 way where headings cross pi

---
 src/dg_commons/maps/lanes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 0deffe0..ac79c2f 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass
-from math import atan2, isclose, pi
+from math import atan2, cos, isclose, pi, sin
 from threading import RLock
 from typing import Sequence, Optional
 
@@ -300,7 +300,9 @@ class DgLanelet:
             q1 = self.control_points[i + 1].q
             alpha = beta - i
         p = q0.p * (1 - alpha) + q1.p * alpha
-        theta = q0.theta * (1 - alpha) + q1.theta * alpha
+        dtheta = q1.theta - q0.theta
+        # the shortest way from one heading to the other
+        theta = q0.theta + alpha * atan2(sin(dtheta), cos(dtheta))
         return SE2Transform(p, theta)
 
     def is_inside_from_T2value(self, position: T2value, tol: float = 1e-3) -> bool:
-- 
2.43.0


From 9b9fa7625ec2a490535e2f1d4fcc69ffdc5435ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:59 +0000
Subject: [PATCH 34/50] fix: choose the lane of a replica by the lanelets it
 consists of, not by digits of their ids

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index a0d558a..a0295d0 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -23,9 +23,11 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
     candidates: list[DgLanelet] = []
     for init_id in init_ids:
         lanelet = network.find_lanelet_by_id(init_id)
-        merged_lanelets, _ = lanelet.all_lanelets_by_merging_successors_from_lanelet(lanelet=lanelet, network=network)
-        for merged_lanelet in merged_lanelets:
-            if any(str(id) in str(merged_lanelet.lanelet_id) for id in final_ids):
+        merged_lanelets, merged_ids = lanelet.all_lanelets_by_merging_successors_from_lanelet(
+            lanelet=lanelet, network=network
+        )
+        for merged_lanelet, ids in zip(merged_lanelets, merged_ids):
+            if any(final_id in ids for final_id in final_ids):
                 candidates.append(DgLanelet.from_commonroad_lanelet(merged_lanelet))
 
     if len(candidates) == 1:
-- 
2.43.0


From ef67b668cc3fcef4eee28b18d8dff94cb609fd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:59 +0000
Subject: [PATCH 35/50] fix: compare headings modulo a turn when choosing the
 lane of a replica

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index a0295d0..cda5211 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -39,7 +39,8 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
         for candidate_lane in candidates:
             _, q = candidate_lane.find_along_lane_closest_point_fast(init_position)
             s_prime = angle_from_SE2(q)
-            displacement_angles.append(np.abs(dyn_obs.initial_state.orientation - s_prime))
+            dtheta = dyn_obs.initial_state.orientation - s_prime
+            displacement_angles.append(np.abs(np.arctan2(np.sin(dtheta), np.cos(dtheta))))
         return candidates[np.argmin(displacement_angles)]
     else:
         # if we reach this point we did not find any lanelet,
-- 
2.43.0


From 13ae6a927c0e5a240d9acfd751173cf93b1cf4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:59 +0000
Subject: [PATCH 36/50] fix: initial steering angle of a replica whose recorded
 heading wraps

---
 src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py b/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
index 6fc1838..08f6b22 100644
--- a/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
@@ -1,3 +1,4 @@
+import numpy as np
 from commonroad.geometry.shape import Rectangle as crRectangle
 from commonroad.scenario.obstacle import DynamicObstacle, ObstacleType
 
@@ -28,6 +29,7 @@ def infer_model_from_cr_dyn_obstacle(dyn_obs: DynamicObstacle, color: Color) ->
         assert isinstance(dyn_obs.obstacle_shape, crRectangle)
         l = dyn_obs.obstacle_shape.length * axle_length_ratio
         dtheta = dyn_obs.prediction.trajectory.state_list[0].orientation - dyn_obs.initial_state.orientation
+        dtheta = np.arctan2(np.sin(dtheta), np.cos(dtheta))
         delta = dtheta / l
         # x0 = VehicleStateDyn(
         #     x=dyn_obs.initial_state.position[0],
-- 
2.43.0


From ee1be4e7161facb1a66d45a3e30ff29afd33f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:43 +0000
Subject: [PATCH 37/50] fix: skip recorded pedestrians instead of failing to
 make a replica of the scenario

A lane follower cannot drive a pedestrian, creating one raised an
AttributeError and no replica could be made of any recording with a walking
pedestrian. They are now skipped like the other kinds that are not supported.
---
 src/dg_commons/sim/scenarios/convert_from_commonroad.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dg_commons/sim/scenarios/convert_from_commonroad.py b/src/dg_commons/sim/scenarios/convert_from_commonroad.py
index 690eada..17d7d72 100644
--- a/src/dg_commons/sim/scenarios/convert_from_commonroad.py
+++ b/src/dg_commons/sim/scenarios/convert_from_commonroad.py
@@ -5,7 +5,9 @@ from dg_commons import Color
 from dg_commons.sim import SimModel
 from dg_commons.sim.agents.agent import Agent
 from dg_commons.sim.agents.lane_follower import LFAgent
+from dg_commons.sim.models.vehicle import VehicleModel
 from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn
+from dg_commons.sim.scenarios import NotSupportedConversion
 from dg_commons.sim.scenarios.model_from_dyn_obstacle import infer_model_from_cr_dyn_obstacle
 from dg_commons.sim.scenarios.utils_dyn_obstacle import infer_lane_from_dyn_obs
 
@@ -25,6 +27,8 @@ def model_agent_from_dynamic_obstacle(
     """
 
     model: SimModel = infer_model_from_cr_dyn_obstacle(dyn_obs, color)
+    if not isinstance(model, VehicleModel):
+        raise NotSupportedConversion("Only vehicles can follow a lane", commonroad_type=dyn_obs.obstacle_type)
     # Agent
     dglane = infer_lane_from_dyn_obs(dyn_obs=dyn_obs, network=lanelet_network)
     agent = LFAgent(dglane, model_params=model.model_params, model_geo=model.model_geometry)
-- 
2.43.0


From 54d80eddb0e329f7da92f9600065b5a5f0b789be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:53 +0000
Subject: [PATCH 38/50] fix: build the road boundaries of roads whose exterior
 remains one piece, e.g. closed circuits

---
 src/dg_commons/maps/road_bounds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/maps/road_bounds.py b/src/dg_commons/maps/road_bounds.py
index b302b13..d735956 100644
--- a/src/dg_commons/maps/road_bounds.py
+++ b/src/dg_commons/maps/road_bounds.py
@@ -44,5 +44,6 @@ def build_road_boundary_obstacle(scenario: Scenario, buffer: float = 0.1) -> tup
         ext_bounds = geo.exterior
         for eeg in entrance_exit_gates:
             ext_bounds = ext_bounds.difference(eeg)
-        scenario_bounds += [g for g in ext_bounds.geoms]
+        # e.g. the exterior of a closed circuit has no gates, it remains one single ring
+        scenario_bounds += [g for g in getattr(ext_bounds, "geoms", [ext_bounds]) if not g.is_empty]
     return scenario_bounds, entrance_exit_gates
-- 
2.43.0


From 86b29c8b371eda1612ac6d110bf9396d87eb9295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:53 +0000
Subject: [PATCH 39/50] fix: keep the entrances and exits of roads open also
 without a buffer around the lanes

Gates of no extent were not removed from the boundaries, so that vehicles
collided with the end of the road when entering or leaving.
---
 src/dg_commons/maps/road_bounds.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/maps/road_bounds.py b/src/dg_commons/maps/road_bounds.py
index d735956..1f0259e 100644
--- a/src/dg_commons/maps/road_bounds.py
+++ b/src/dg_commons/maps/road_bounds.py
@@ -17,16 +17,18 @@ def build_road_boundary_obstacle(scenario: Scenario, buffer: float = 0.1) -> tup
     scenario_bounds: list[LineString] = []
     lane_polygons: list[Polygon] = []
     entrance_exit_gates = []
+    # the gates need some extent to be removed from the boundaries also when there is no buffer
+    gates_buffer = max(buffer * 2, 1e-3)
     for lanelet in lanelets:
         lane_polygons.append(lanelet.polygon.shapely_object.buffer(buffer))
         if len(lanelet.successor) == 0:
             pt1 = lanelet.right_vertices[-1]
             pt2 = lanelet.left_vertices[-1]
-            entrance_exit_gates.append(LineString([pt1, pt2]).buffer(buffer * 2))
+            entrance_exit_gates.append(LineString([pt1, pt2]).buffer(gates_buffer))
         if len(lanelet.predecessor) == 0:
             pt1 = lanelet.right_vertices[0]
             pt2 = lanelet.left_vertices[0]
-            entrance_exit_gates.append(LineString([pt1, pt2]).buffer(buffer * 2))
+            entrance_exit_gates.append(LineString([pt1, pt2]).buffer(gates_buffer))
 
     overall_poly = unary_union(lane_polygons)
     # if the overall_poly is a Polygon, convert it to a MultiPolygon
-- 
2.43.0


From 59813fcf80f98a7f249293c7ed2be417439cc9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:08 +0000
Subject: [PATCH 40/50] fix: leave players out of the safety metrics once they
 left the episode, accept players without mission

---
 src/dg_commons/eval/safety.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index b5c9ec8..d7dd428 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -107,7 +107,7 @@ def get_min_dist_at_t(
     :return: min dist, the closest agent from ego
     """
     logs_at_t = logs.at_interp(t)
-    logs_at_t = _remove_finished_players(logs_at_t, missions)
+    logs_at_t = _remove_finished_players(logs, logs_at_t, missions, t)
     if ego_name not in logs_at_t.keys():
         # ego accomplished its goal
         return np.inf, None
@@ -146,7 +146,7 @@ def get_ttc_drac_at_t(
     """
     # time to collision
     logs_at_t = logs.at_interp(t)
-    logs_at_t = _remove_finished_players(logs_at_t, missions)
+    logs_at_t = _remove_finished_players(logs, logs_at_t, missions, t)
     if ego_name not in logs_at_t.keys():
         # ego accomplished its goal
         return np.inf, None, -np.inf, None
@@ -236,18 +236,25 @@ def _get_ttc_of_poly_and_state(poly1: Polygon, poly2: Polygon, state1: X, state2
 
 
 def _remove_finished_players(
-    log_at_t: Mapping[PlayerName, LogEntry], missions: Mapping[PlayerName, TPlanningGoal]
+    logs: SimLog,
+    log_at_t: Mapping[PlayerName, LogEntry],
+    missions: Mapping[PlayerName, TPlanningGoal],
+    t: Timestamp,
 ) -> Mapping[PlayerName, LogEntry]:
     """
     Remove the agents that have accomplished their goal.
+    :param logs: simulation log
     :param log_at_t: collection of players and their log(state, command, etc.) at time t
-    :param missions: the goal of each player
+    :param missions: the goal of each player (for the players that have one)
+    :param t: sim time
     :return: a now collection of running players and their logs.
     """
     log_new = {}
     for name, log in log_at_t.items():
-        mission = missions[name]
-        state = log.state
-        if not mission.is_fulfilled(state):
+        if t > logs[name].states.get_end():
+            # the simulator removes players reaching their goal before that state is logged
+            continue
+        mission = missions.get(name)
+        if mission is None or not mission.is_fulfilled(log.state, at=t):
             log_new[name] = log
     return log_new
-- 
2.43.0


From b7e98cbf2643c15c151d169705c155063a5b8ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:44 +0000
Subject: [PATCH 41/50] fix: end the search for the lane of a vehicle that is
 next to the joint of two lanes

---
 src/dg_commons/eval/efficiency.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dg_commons/eval/efficiency.py b/src/dg_commons/eval/efficiency.py
index 5873502..de36cf7 100644
--- a/src/dg_commons/eval/efficiency.py
+++ b/src/dg_commons/eval/efficiency.py
@@ -54,7 +54,12 @@ def desired_lane_reached(
     ego_pose = SE2Transform.from_PoseState(ego_posestate)
     ref_lane = goal_lane.ref_lane  # dglanelet
     lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
+    visited: list[np.ndarray] = []
     while not lane_pose.along_inside:
+        if any(np.array_equal(ref_lane.control_points[0].q.p, p) for p in visited):
+            # next to the joint of two lanes one can be after the first and before the second of them
+            break
+        visited.append(ref_lane.control_points[0].q.p)
         if np.abs(lane_pose.along_lane) < 1.0 or np.abs(lane_pose.along_lane - ref_lane.get_lane_length()) < 1.0:
             # not inside the lane but close enough
             break
-- 
2.43.0


From 49b1c4508a6b65b8c9c5f85b2dfd30f2937dc151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:44 +0000
Subject: [PATCH 42/50] fix: look up the lanelet of a lane by its whole centre
 line, lanes overlap where they fork

---
 src/dg_commons/eval/efficiency.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/eval/efficiency.py b/src/dg_commons/eval/efficiency.py
index de36cf7..47a11db 100644
--- a/src/dg_commons/eval/efficiency.py
+++ b/src/dg_commons/eval/efficiency.py
@@ -91,9 +91,13 @@ def desired_lane_reached(
 
 def get_lanelet_from_dglanelet(lanelet_network: LaneletNetwork, dglanelet: DgLanelet) -> Lanelet:
     ref_point = dglanelet.control_points[1].q.p
-    lane_id = lanelet_network.find_lanelet_by_position([ref_point])[0][0]
-    lanelet = lanelet_network.find_lanelet_by_id(lane_id)
-    return lanelet
+    lane_ids = lanelet_network.find_lanelet_by_position([ref_point])[0]
+    start, end = dglanelet.control_points[0].q.p, dglanelet.control_points[-1].q.p
+    # lanes overlap where they fork, merge or follow each other
+    return min(
+        (lanelet_network.find_lanelet_by_id(lane_id) for lane_id in lane_ids),
+        key=lambda lane: np.linalg.norm(lane.center_vertices[0] - start) + np.linalg.norm(lane.center_vertices[-1] - end),
+    )
 
 
 def get_successor_lane(lanelet_network: LaneletNetwork, cur_lane: Lanelet | DgLanelet) -> Optional[Lanelet]:
-- 
2.43.0


From 12a12247b339c044b0c204c9c0571340e1c1b9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:44 +0000
Subject: [PATCH 43/50] fix: make commands_plan_from_trajectory work, keep the
 timestamps of the trajectory

---
 src/dg_commons/planning/trajectory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index d73d65a..c68f26e 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -152,9 +152,10 @@ JointTrajectories = Mapping[PlayerName, Trajectory]
 def commands_plan_from_trajectory(trajectory: Trajectory) -> DgSampledSequence[VehicleCommands]:
     timestamps = []
     commands = []
-    for t0, _, dt, v0, v1 in iterate_with_dt(trajectory):
+    for t0, it in zip(trajectory.timestamps, iterate_with_dt(trajectory)):
+        # not it.t0, which as a float can be after the (decimal) time at which the command is due
         timestamps.append(t0)
-        commands.append(VehicleCommands(acc=(v1.vx - v0.vx) / dt, ddelta=(v1.delta - v0.delta) / dt))
+        commands.append(VehicleCommands(acc=(it.v1.vx - it.v0.vx) / it.dt, ddelta=(it.v1.delta - it.v0.delta) / it.dt))
     return DgSampledSequence[VehicleCommands](timestamps, commands)
 
 
-- 
2.43.0


From 9785d205186a504ec016947c8f092ce198454d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:55 +0000
Subject: [PATCH 44/50] fix: keep the heading continuous along a transformed
 trajectory

---
 src/dg_commons/planning/trajectory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index c68f26e..36bca5c 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -30,7 +30,8 @@ class Trajectory(DgSampledSequence[VehicleState]):
             pose = extract_pose_from_state(x)
             new_pose = np.dot(t.as_SE2(), pose)
             xytheta = xytheta_from_SE2(new_pose)
-            return replace(x, x=xytheta[0], y=xytheta[1], psi=xytheta[2])
+            # all the headings turn by the same angle, wrapping each of them would make the trajectory jump
+            return replace(x, x=xytheta[0], y=xytheta[1], psi=x.psi + t.theta)
 
         f = partial(_applySE2, t=transform)
         return self.transform_values(f=f, YT=VehicleState)
-- 
2.43.0


From 53ced005b0b805ced09de3cb73d5c31916e19553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:55 +0000
Subject: [PATCH 45/50] fix: sample commands between the limits of the
 commands, not those of speed and steering angle

---
 src/dg_commons/planning/commands_sampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/commands_sampler.py b/src/dg_commons/planning/commands_sampler.py
index 7f57ff8..b93a0ec 100644
--- a/src/dg_commons/planning/commands_sampler.py
+++ b/src/dg_commons/planning/commands_sampler.py
@@ -38,9 +38,9 @@ class CommandsSamplerParam:
         :param vp:
         :return:
         """
-        vel_linspace = (vp.vx_limits[0], vp.vx_limits[1], n_acc)
-        steer_linspace = (-vp.delta_max, vp.delta_max, n_steer_rate)
-        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=vel_linspace, steer_rate=steer_linspace)
+        acc_linspace = (vp.acc_limits[0], vp.acc_limits[1], n_acc)
+        steer_rate_linspace = (-vp.ddelta_max, vp.ddelta_max, n_steer_rate)
+        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=acc_linspace, steer_rate=steer_rate_linspace)
 
 
 class CommandsSampler(TrajGenerator):
-- 
2.43.0


From 1e527671791360c1107718e7cbb9e048ec415170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:04 +0000
Subject: [PATCH 46/50] fix: combine collision reports also when the geometry
 of one of the contacts could not be resolved

---
 src/dg_commons/sim/collision_structures.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/collision_structures.py b/src/dg_commons/sim/collision_structures.py
index c801620..827b851 100644
--- a/src/dg_commons/sim/collision_structures.py
+++ b/src/dg_commons/sim/collision_structures.py
@@ -70,15 +70,20 @@ def combine_collision_reports(r1: CollisionReport, r2: CollisionReport) -> Colli
             report1=r1,
             report2=r2,
         )
-    # impact point, normal are propagated according to the first report
+    # impact point, normal are propagated according to the first report (that has them)
     first_report, second_report = (r1, r2) if r1.at_time <= r2.at_time else (r2, r1)
     combined_players_report: dict[PlayerName, CollisionReportPlayer] = {}
     for p in first_report.players:
         r1_player, r2_player = first_report.players[p], second_report.players[p]
+        if r1_player is None or r2_player is None:
+            # one of the contacts could not be resolved, it carries no information
+            combined_players_report[p] = r2_player if r1_player is None else r1_player
+            continue
         combined_players_report[p] = replace(
             r1_player,
             locations=r1_player.locations + r2_player.locations,
             velocity_after=r2_player.velocity_after,
             energy_delta=r1_player.energy_delta + r2_player.energy_delta,
         )
-    return replace(first_report, players=combined_players_report)
+    resolved_report = second_report if first_report.impact_point is None else first_report
+    return replace(resolved_report, players=combined_players_report, at_time=first_report.at_time)
-- 
2.43.0


From ebdea0826110b3d71cac83e4278ed4e1688735d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:04 +0000
Subject: [PATCH 47/50] fix: plot player logs into the figure they are given,
 not into the current one

---
 src/dg_commons/sim/log_visualisation.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dg_commons/sim/log_visualisation.py b/src/dg_commons/sim/log_visualisation.py
index 2c14edd..f5437e6 100644
--- a/src/dg_commons/sim/log_visualisation.py
+++ b/src/dg_commons/sim/log_visualisation.py
@@ -32,17 +32,17 @@ def plot_player_log(log: PlayerLog, fig: Figure = None):
     for i, field in enumerate(state_fields):
         field_value = [getattr(s, field.name) for s in log.states.values]
         ts = log.states.timestamps
-        fig.add_subplot(rows_number, 1, i + 1)
-        plt.plot(ts, field_value, label=field.name)
-        plt.grid()
-        plt.legend()
+        ax = fig.add_subplot(rows_number, 1, i + 1)
+        ax.plot(ts, field_value, label=field.name)
+        ax.grid()
+        ax.legend()
 
     for i, field in enumerate(cmds_fields):
         field_value = [getattr(c, field.name) for c in log.commands.values]
         ts = log.commands.timestamps
-        fig.add_subplot(rows_number, 1, n_states + i + 1)
-        plt.step(ts, field_value, label=field.name)
-        plt.grid()
-        plt.legend()
+        ax = fig.add_subplot(rows_number, 1, n_states + i + 1)
+        ax.step(ts, field_value, label=field.name)
+        ax.grid()
+        ax.legend()
 
-    plt.draw()
+    fig.canvas.draw_idle()
-- 
2.43.0


From 618fdd00514da9354c16332a77c0d0e28ed4246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:04 +0000
Subject: [PATCH 48/50] fix: show commands in plots of logs as held from when
 they were given

---
 src/dg_commons/sim/log_visualisation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/log_visualisation.py b/src/dg_commons/sim/log_visualisation.py
index f5437e6..0896709 100644
--- a/src/dg_commons/sim/log_visualisation.py
+++ b/src/dg_commons/sim/log_visualisation.py
@@ -41,7 +41,8 @@ def plot_player_log(log: PlayerLog, fig: Figure = None):
         field_value = [getattr(c, field.name) for c in log.commands.values]
         ts = log.commands.timestamps
         ax = fig.add_subplot(rows_number, 1, n_states + i + 1)
-        ax.step(ts, field_value, label=field.name)
+        # commands are held from when they are given on
+        ax.step(ts, field_value, where="post", label=field.name)
         ax.grid()
         ax.legend()
 
-- 
2.43.0


From f818e1139e0c97c4fbaa193edb348a29f9f4eb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:04 +0000
Subject: [PATCH 49/50] fix: report velocities of differential drives as
 arrays, as those of all other models

---
 src/dg_commons/sim/models/diff_drive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/diff_drive.py b/src/dg_commons/sim/models/diff_drive.py
index b337bac..8d8fed3 100644
--- a/src/dg_commons/sim/models/diff_drive.py
+++ b/src/dg_commons/sim/models/diff_drive.py
@@ -193,7 +193,7 @@ class DiffDriveModel(SimModel[DiffDriveState, DiffDriveCommands]):
 
     def get_velocity(self, in_model_frame: bool) -> (T2value, float):
         """Returns velocity at COG"""
-        return [0, 0], 0
+        return np.array([0.0, 0.0]), 0.0
 
     def set_velocity(self, vel: T2value, omega: float, in_model_frame: bool):
         logger.warn(
-- 
2.43.0


From 55645ec46c6550df77f9c19bf69bee5c09fc11bf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 07:10:11 +0000
Subject: [PATCH 50/50] fix: debug plot of an unresolved collision fails for
 obstacles made of several parts

---
 src/dg_commons/sim/collision_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index 7746ea3..70ed18c 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -61,10 +61,12 @@ def _find_intersection_points(a_shape: Polygon, b_shape: BaseGeometry) -> list[t
 
             plt.figure()
             plt.plot(*a_shape.exterior.xy, "b")
-            if isinstance(b_shape, Polygon):
-                plt.plot(*b_shape.exterior.xy, "r")
-            else:
-                plt.plot(*b_shape.xy, "r")
+            # the shape might be made of several parts
+            for b_part in getattr(b_shape, "geoms", [b_shape]):
+                if isinstance(b_part, Polygon):
+                    plt.plot(*b_part.exterior.xy, "r")
+                else:
+                    plt.plot(*b_part.xy, "r")
             for p in points:
                 plt.plot(*p, "o")
             plt.savefig(f"coll_debug{time.time()}.png")
-- 
2.43.0

