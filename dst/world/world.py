"""Builds simulations of dg_commons from JSON specs and records everything that crosses their interfaces."""
import contextlib
import dataclasses
import json
import logging
import math
import sys
from copy import deepcopy
from dataclasses import dataclass, field
from decimal import Decimal
from typing import Any, Optional

import numpy as np
import shapely
from shapely.geometry import LinearRing, LineString, MultiPolygon, Point, Polygon, box

import dg_commons
import dg_commons.sim
from dg_commons import PlayerName, SE2Transform, fd
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons.sim import SimObservations, SimParameters, SimTime
from dg_commons import DgSampledSequence
from dg_commons.sim.agents.agent import Agent, NPAgent, PolicyAgent
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.goals import PlanningGoal, PolygonGoal, PoseGoal, RefLaneGoal
from dg_commons.sim.models.obstacles import ObstacleGeometry, StaticObstacle
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.sim_perception import DelayedObsFilter, GhostObsFilter, IdObsFilter, ObsFilter
from dg_commons.sim.simulator import SimContext, Simulator
from dst.core.clock import CLOCK
from dst.core.result import h64
from dst.core.rng import Rng
from dst.world import bodies
from dst.world.lanes import make_lane
from dst.world.bodies import COMMAND_SCALE, ToyCommands, make_command, make_model, values_of


class Injected(Exception):
    """A failure injected by the harness into a participant of the simulation"""


class InjectedExit(BaseException):
    """The same for failures that are not even an Exception"""


def _flavours():
    from dg_commons.seq.sequence import UndefinedAtTime
    from dg_commons.sim.collision_utils import CollisionException

    out = {"plain": Injected, "exit": InjectedExit}
    for name, base in dict(key=KeyError, value=ValueError, attr=AttributeError, index=IndexError, stop=StopIteration,
                           runtime=RuntimeError, zero=ZeroDivisionError, check=AssertionError,
                           notimpl=NotImplementedError, collision=CollisionException).items():
        out[name] = type("Injected_" + name, (Injected, base), {})
    return out


FLAVOURS = _flavours()


class StopRun(BaseException):
    """The budget of steps of a run is exhausted (the episode should have ended long before)"""


@dataclass
class Ev:
    kind: str
    t: Any
    p: str
    d: dict


class Rec:
    """Records the history of one episode"""

    def __init__(self, step_budget: int = 10**9):
        self.events: list[Ev] = []
        self.ctx = None
        self.step_budget = step_budget
        self.reads = 0
        self.stopped = False
        self.yielder = None
        self.t_init = None
        self.live_cmds: dict[str, list] = {}
        self.mutate_cmds_on_update = False
        self.fault_log: list[str] = []
        self.flavour = "plain"
        self.raised = None
        self.raised_at = None

    def fail(self, where: str, what: str):
        """A participant fails"""
        self.fault_log.append(f"crash-{where}")
        self.raised = FLAVOURS[self.flavour](what)
        self.raised_at = len(self.events)
        raise self.raised

    def __deepcopy__(self, memo):
        return self

    def now(self):
        return self.ctx.time if self.ctx is not None else None

    def ev(self, kind: str, p: str, **d):
        if self.yielder is not None:
            self.yielder(f"{kind}:{p}")
        self.events.append(Ev(kind, self.now(), p, d))

    def fault(self, kind: str):
        self.fault_log.append(kind)

    def of(self, *kinds: str) -> list[Ev]:
        return [e for e in self.events if e.kind in kinds]

    def tick(self):
        self.reads += 1
        if self.reads > self.step_budget:
            self.stopped = True
            raise StopRun()


class RecContext(SimContext):
    """A SimContext that tells the recorder about its clock"""

    def __getattribute__(self, k):
        if k == "sim_terminated":
            rec = self.__dict__.get("_rec")
            if rec is not None:
                rec.tick()
        return super().__getattribute__(k)

    def __setattr__(self, k, v):
        if k in ("time", "sim_terminated", "first_collision_ts"):
            rec = self.__dict__.get("_rec")
            if rec is not None:
                rec.events.append(Ev("set:" + k, v, "", {}))
        super().__setattr__(k, v)


# --------------------------------------------------------------------------------- canonical forms
def c_num(v) -> Any:
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.floating, np.integer)):
        return float(v).hex()
    return v


def canon(o, depth: int = 0) -> Any:
    """A hashable, process independent representation of (almost) any value of the simulation"""
    if o is None or isinstance(o, (str, bytes)):
        return o
    if isinstance(o, (bool, int, float, np.floating, np.integer, np.bool_)):
        return c_num(o)
    if isinstance(o, Decimal):
        return ("D", str(o.normalize()))
    if isinstance(o, np.ndarray):
        return ("a",) + tuple(c_num(v) for v in o.ravel())
    if isinstance(o, shapely.Geometry):
        return ("g", o.wkb_hex)
    if isinstance(o, (set, frozenset)):
        return ("s",) + tuple(sorted((canon(v, depth + 1) for v in o), key=repr))
    if hasattr(o, "items"):
        return ("m",) + tuple(sorted(((str(k), canon(v, depth + 1)) for k, v in o.items()), key=lambda kv: kv[0]))
    if isinstance(o, (list, tuple)):
        return ("l",) + tuple(canon(v, depth + 1) for v in o)
    if dataclasses.is_dataclass(o):
        return (type(o).__name__,) + tuple((f.name, canon(getattr(o, f.name), depth + 1)) for f in dataclasses.fields(o)
                                           if not isinstance(getattr(o, f.name, None), Rec))
    return type(o).__name__


def obs_canon(obs: SimObservations) -> tuple:
    return (
        canon(Decimal(obs.time) if not isinstance(obs.time, Decimal) else obs.time),
        tuple(sorted((str(p), canon(o.state), canon(o.occupancy)) for p, o in obs.players.items())),
    )


def report_canon(r) -> tuple:
    return canon(r)


def log_canon(log) -> tuple:
    out = []
    for p in sorted(log):
        pl = log[p]
        out.append(
            (
                str(p),
                tuple((canon(t), canon(v)) for t, v in pl.states),
                tuple((canon(t), canon(v)) for t, v in pl.commands),
                tuple((canon(t), canon(v)) for t, v in pl.extra),
                tuple(canon(t) for t, v in pl.info),
            )
        )
    return tuple(out)


def outcome(ctx, with_log: bool = True) -> tuple:
    """Everything a user gets from an episode"""
    return (
        log_canon(ctx.log) if with_log else (),
        tuple(report_canon(r) for r in ctx.collision_reports),
        tuple(sorted((str(p), canon(m.get_state()), bool(m.has_collided)) for p, m in ctx.models.items())),
        tuple(str(p) for p in ctx.players),
        canon(ctx.time),
        bool(ctx.sim_terminated),
        canon(ctx.first_collision_ts),
    )


# --------------------------------------------------------------------------------- participants
def hash_unit(*parts) -> float:
    """A deterministic pseudo random number in [-1, 1)"""
    return (h64(*parts) % (1 << 40)) / float(1 << 39) - 1.0


class ScriptAgent(Agent):
    """Scripted agent. `a`: its spec
    pol: const | rand | chase | reuse ; amp ; seed
    byz: tampers with whatever it is handed ; slow: seconds of computation ; crash: [where, k]
    extra: none | some | all | falsy
    """

    def __init__(self, a: dict, kind: str, rec: Rec):
        self.a = a
        self.kind = kind
        self.rec = rec
        self.n = 0
        self.n_extra = 0
        self.n_init = 0
        self.my_name = None
        self.obj = None
        self.kept: list = []
        self.init = None
        self.inner = make_inner(a, kind) if a.get("impl") else None

    def on_episode_init(self, init_sim_obs):
        self.my_name = str(init_sim_obs.my_name)
        self.n_init += 1
        self.n = 0
        self.n_extra = 0
        self.init = init_sim_obs
        self.rec.ev(
            "init", self.my_name, seed=canon(init_sim_obs.seed), raw_seed=init_sim_obs.seed,
            goal=canon(init_sim_obs.goal),
            geo=canon(init_sim_obs.model_geometry), params=canon(init_sim_obs.model_params),
            obstacles=tuple(canon(o.shape) for o in init_sim_obs.dg_scenario.static_obstacles)
            if init_sim_obs.dg_scenario is not None else None,
        )
        self._maybe_crash("init", self.n_init)
        if self.a.get("byz"):
            self.rec.fault("byzantine-init")
            tamper_scenario(init_sim_obs)
        if self.inner is not None:
            self.inner.on_episode_init(init_sim_obs)

    def _maybe_crash(self, where: str, k: int):
        c = self.a.get("crash")
        if c and c[0] == where and c[1] == k:
            self.rec.fail(where, f"{where} {self.my_name} {k}")

    def _u(self, obs) -> list[float]:
        u = self._policy(obs)
        fixed = self.a.get("fixed")
        return [0.0 if k else v for v, k in zip(u, fixed)] if fixed else u

    def _policy(self, obs) -> list[float]:
        pol = self.a.get("pol", "const")
        amp = self.a.get("amp", 0.5)
        scale = COMMAND_SCALE[self.kind]
        if pol == "const":
            return [amp * s * hash_unit("c", self.a.get("seed", 0), i) for i, s in enumerate(scale)]
        if pol in ("rand", "reuse"):
            return [amp * s * hash_unit("r", self.a.get("seed", 0), self.n, i) for i, s in enumerate(scale)]
        if pol == "plan":
            # an explicit schedule: the latest entry not later than now
            t, u = float(obs.time), None
            for t0, v in self.a["plan"]:
                if u is None or t0 <= t + 1e-9:
                    u = v
            return [float(v) for v in u]
        if pol == "chase":
            # feedback on everything that is observed
            acc = [0.0] * len(scale)
            try:
                me = obs.players[self.my_name].state
                for p in sorted(obs.players):
                    if p != self.my_name:
                        o = obs.players[p].state
                        acc[0] += math.tanh(0.3 * (o.x - me.x))
                        if len(acc) > 1:
                            acc[1] += math.tanh(0.3 * (o.y - me.y))
                acc = [amp * s * max(-1.0, min(1.0, v)) for s, v in zip(scale, acc)]
            except (KeyError, AttributeError):
                pass
            return acc
        raise ValueError(pol)

    def get_commands(self, sim_obs):
        self.n += 1
        oc = obs_canon(sim_obs)
        self.rec.ev("ask", self.my_name, obs=oc, n=self.n, raw_t=sim_obs.time, players=sorted(map(str, sim_obs.players)))
        self._maybe_crash("cmd", self.n)
        u = self._u(sim_obs) if self.inner is None else None
        slow = self.a.get("slow")
        spent = 0.0
        if slow:
            spent = slow * abs(hash_unit("s", self.a.get("seed", 0), self.n))
            if self.a.get("jump") and self.n % 3 == 0:
                spent = -spent
                self.rec.fault("clock-jump-back")
            else:
                self.rec.fault("slow-agent")
            CLOCK.advance(spent)
        if self.inner is not None:
            cmd = self.inner.get_commands(sim_obs)
        elif self.a.get("pol") == "reuse":
            # one and the same object is returned over and over
            if self.obj is None:
                self.obj = make_command(self.kind, u)
            else:
                self.rec.fault("reused-command-object")
                for f, v in zip(bodies.COMMAND_FIELDS[self.kind], u):
                    setattr(self.obj, f, float(v))
            cmd = self.obj
        else:
            cmd = make_command(self.kind, u)
        if self.a.get("byz"):
            self.rec.fault("byzantine-observation")
            for old in self.kept:
                tamper_obs(old)
            tamper_obs(sim_obs)
            self.kept = (self.kept + [sim_obs])[-3:]
            if self.init is not None:
                tamper_scenario(self.init)
        self.rec.live_cmds.setdefault(self.my_name, []).append(cmd)
        self.rec.ev("cmd", self.my_name, u=canon(cmd), n=self.n, spent=spent)
        return cmd

    def on_get_extra(self):
        self.n_extra += 1
        self._maybe_crash("extra", self.n_extra)
        mode = self.a.get("extra", "none")
        if mode == "none":
            out = None
        elif mode == "all":
            out = ("x", self.my_name, self.n)
        elif mode == "some":
            out = ("x", self.my_name, self.n) if self.n % 2 == 1 else None
        else:
            out = [0, "", (), False][self.n % 4] if self.n % 3 else None
        self.rec.ev("extra", self.my_name, v=out, n=self.n)
        return out


def make_inner(a: dict, kind: str) -> Agent:
    """The agents of dg_commons"""
    impl = a["impl"]
    if impl == "np":
        plan = DgSampledSequence(
            timestamps=[Decimal(t) for t, _ in a["plan"]], values=[make_command(kind, u) for _, u in a["plan"]]
        )
        return NPAgent(plan)
    if impl == "policy":
        scale = COMMAND_SCALE[kind]
        amp = a.get("amp", 0.5)

        def policy(state):
            return make_command(kind, [amp * s * math.tanh(0.1 * (i + 1) * (state.x - 2 * state.y)) for i, s in enumerate(scale)])

        return PolicyAgent(policy)
    if impl == "lf":
        m = make_model(dict(kind=kind, x0=[0.0] * bodies.NX[kind]))
        return LFAgent(make_lane(a["lane"]), m.model_params, m.model_geometry, return_extra=bool(a.get("xtra")))
    raise ValueError(impl)


def tamper_obs(obs):
    """Alters everything reachable from an observation"""
    try:
        for p in obs.players:
            s = obs.players[p].state
            for f in dataclasses.fields(s):
                v = getattr(s, f.name)
                if isinstance(v, (int, float, np.floating)):
                    setattr(s, f.name, float(v) + 777.0)
            object.__setattr__(obs.players[p], "occupancy", Point(0, 0).buffer(500))
        object.__setattr__(obs, "time", SimTime(12345))
        object.__setattr__(obs, "players", fd({}))
    except Exception:
        pass


def tamper_scenario(init):
    """Alters everything reachable from the scenario and the goal handed to an agent"""
    try:
        sc = init.dg_scenario
        if sc is not None:
            for o in sc.static_obstacles:
                o.shape = box(-500, -500, 500, 500)
            sc.static_obstacles = ()
            sc.strtree_obstacles = shapely.STRtree([])
    except Exception:
        pass
    try:
        g = init.goal
        if g is not None and dataclasses.is_dataclass(g):
            for f in dataclasses.fields(g):
                v = getattr(g, f.name)
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    object.__setattr__(g, f.name, -1e9)
            if getattr(g, "box", None) is not None:
                g.box[:] = [-1e9, -1e9, 1e9, 1e9]
    except Exception:
        pass


@dataclass(frozen=True)
class ToyGoal(PlanningGoal):
    """kind: zone (box), late (time), window (box within a time window), never"""

    kind: str = "never"
    box: Optional[list] = None
    t0: float = 0.0
    t1: float = 1e9
    crash: int = 0
    rec: Any = None
    who: str = ""

    def is_fulfilled(self, state, at=0) -> bool:
        if self.rec is not None:
            self.rec.ev("goal", self.who, state=canon(state), at=canon(at))
            if self.crash:
                self.rec.goal_calls = getattr(self.rec, "goal_calls", 0) + 1
                if self.rec.goal_calls == self.crash:
                    self.rec.fail("goal", f"goal {self.who}")
        return toy_goal_fulfilled(self.kind, self.box, self.t0, self.t1, state.x, state.y, float(at))

    def get_plottable_geometry(self, at=0):
        return Point(0, 0)

    @property
    def is_static(self) -> bool:
        return self.kind != "window"


def toy_goal_fulfilled(kind, bx, t0, t1, x, y, t) -> bool:
    inside = bx is not None and bx[0] <= x <= bx[2] and bx[1] <= y <= bx[3]
    if kind == "zone":
        return inside
    if kind == "late":
        return t >= t0
    if kind == "window":
        return inside and t0 <= t <= t1
    return False


def straight_lane(g: dict) -> DgLanelet:
    """A straight lane from p with heading th, control points at the given (uneven) distances, half width r"""
    c, n = math.cos(g["th"]), math.sin(g["th"])
    return DgLanelet(
        [LaneCtrPoint(SE2Transform([g["p"][0] + c * a, g["p"][1] + n * a], g["th"]), g["r"]) for a in g["stations"]]
    )


def straight_lane_goal_fulfilled(g: dict, state):
    """Beyond the goal line across the lane (in meters along the lane) and less than one meter from it. None: unclear"""
    c, n = math.cos(g["th"]), math.sin(g["th"])
    dx, dy = state.x - g["p"][0], state.y - g["p"][1]
    along, lat = c * dx + n * dy, -n * dx + c * dy
    out = max(abs(lat) - g["r"], 0.0)
    dist = math.hypot(along - g["progress"], out)
    if dist > 1.0 + 1e-6 or along < g["progress"] - 0.02:
        return False
    if dist < 0.98 and along > g["progress"] + 0.02:
        return True
    return None


class PartialSensor(ObsFilter):
    """A sensor of the harness: drops other players by a seeded rule"""

    def __init__(self, seed: int, p: float, inner=None):
        self.seed = seed
        self.p = p
        self.inner = inner

    def sense(self, scenario, full_obs, pov):
        if self.inner is not None:
            full_obs = self.inner.sense(scenario, full_obs, pov)
        keep = {
            n: o
            for n, o in full_obs.players.items()
            if n == pov or (hash_unit("ps", self.seed, str(full_obs.time), str(n)) + 1) / 2 >= self.p
        }
        return dataclasses.replace(full_obs, players=fd(keep))


def deepcopy_obs(o: SimObservations) -> SimObservations:
    return dataclasses.replace(o, players=fd({p: deepcopy(v) for p, v in o.players.items()}))


class RecSensor(ObsFilter):
    """Records what goes into and comes out of a real sensor, injects failures"""

    def __init__(self, inner: ObsFilter, rec: Rec, owner: str, crash: int = 0):
        self.inner = inner
        self.rec = rec
        self.owner = owner
        self.crash = crash
        self.n = 0

    def sense(self, scenario, full_obs, pov):
        self.n += 1
        who = self.owner or str(pov)  # None: the sensor of several players
        self.rec.ev("sense", who, full=obs_canon(full_obs), pov=str(pov), raw_full=deepcopy_obs(full_obs))
        if self.crash and self.n == self.crash:
            self.rec.fail("sensor", f"sensor {who}")
        out = self.inner.sense(scenario, full_obs, pov)
        self.rec.ev("sensed", who, obs=obs_canon(out), pov=str(pov))
        return out


def make_sensor(s: dict) -> ObsFilter:
    k = s["k"]
    if k == "id":
        return IdObsFilter()
    if k == "partial":
        return PartialSensor(s.get("seed", 0), s.get("p", 0.5))
    if k == "delay":
        return DelayedObsFilter(IdObsFilter(), SimTime(s["lat"]))
    if k == "ghost":
        return GhostObsFilter(IdObsFilter(), PlayerName(s["who"]), s.get("far", 0.0))
    if k == "chain":
        # from the inside to the outside
        f = IdObsFilter()
        for layer in s["layers"]:
            if layer["k"] == "partial":
                f = PartialSensor(layer["seed"], layer["p"], f)
            elif layer["k"] == "delay":
                f = DelayedObsFilter(f, SimTime(layer["lat"]))
            else:
                f = GhostObsFilter(f, PlayerName(layer["who"]), layer["far"])
        return f
    raise ValueError(k)


def make_obstacle_shape(o: dict):
    k = o["k"]
    if k == "box":
        return box(*o["b"])
    if k == "wall":
        return LineString(o["pts"])
    if k == "ring":
        return LinearRing(o["pts"])
    if k == "poly":
        return Polygon(o["pts"])
    if k == "disc":
        return Point(*o["c"]).buffer(o["r"])
    if k == "multi":
        return MultiPolygon([box(*b) for b in o["bs"]])
    raise ValueError(k)


def make_obstacle(o: dict) -> StaticObstacle:
    if "e" in o:
        return StaticObstacle(make_obstacle_shape(o), geometry=ObstacleGeometry.default_static(e=o["e"]))
    return StaticObstacle(make_obstacle_shape(o))


def instrument(model, name: str, kind: str, rec: Rec, crash: int = 0, crash_fp: int = 0, crash_in=None):
    """Records the updates of a body, whatever its class"""
    cls_update = type(model).update
    cls_setv = type(model).set_velocity
    count = [0]

    def update(commands, dt):
        count[0] += 1
        if crash and count[0] == crash:
            rec.fail("model", f"model {name}")
        before = canon(model.get_state())
        raw_before = model.get_state()
        u = canon(commands)
        raw_u = deepcopy(commands)
        hc = bool(model.has_collided)
        cls_update(model, commands, dt)
        rec.ev("upd", name, u=u, dt=dt, before=before, after=canon(model.get_state()), raw_after=model.get_state(),
               raw_before=raw_before, raw_u=raw_u, collided=hc)
        if rec.mutate_cmds_on_update:
            # agents alter the objects they returned earlier while these are being applied
            for p, objs in rec.live_cmds.items():
                for o in objs[-2:]:
                    rec.fault("altered-returned-command")
                    for f in dataclasses.fields(o):
                        v = getattr(o, f.name)
                        if isinstance(v, (int, float, np.floating)):
                            setattr(o, f.name, float(v) + 0.25)

    def set_velocity(vel, omega, in_model_frame):
        before = model.get_state()
        cls_setv(model, vel, omega, in_model_frame)
        rec.ev("setv", name, before=canon(before), after=canon(model.get_state()), raw_before=before, raw_after=model.get_state())

    if crash_fp:
        cls_fp = type(model).get_footprint
        count_fp = [0]

        def get_footprint():
            count_fp[0] += 1
            if count_fp[0] == crash_fp:
                rec.fail("footprint", f"footprint {name}")
            return cls_fp(model)

        model.get_footprint = get_footprint
    if crash_in:
        # fails at the k-th call of a method that is (almost) only used while contacts are resolved
        method, k_in = crash_in
        count_in = [0]

        def failing(*a, **kw):
            count_in[0] += 1
            if count_in[0] == k_in:
                rec.fail(method, f"{method} {name}")
            return getattr(type(model), method)(model, *a, **kw)

        setattr(model, method, failing)
    model.update = update
    model.set_velocity = set_velocity
    return model


@contextlib.contextmanager
def debug_logging(on=True):
    """The verbosity of the loggers of dg_commons: at the highest one, debugging plots are written as well"""
    if not on:
        yield
        return
    loggers = [dg_commons.logger, dg_commons.sim.logger]
    levels = [l.level for l in loggers]
    for l in loggers:
        l.setLevel(logging.DEBUG)
    try:
        yield
    finally:
        for l, n in zip(loggers, levels):
            l.setLevel(n)
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")


class World:
    """One episode built from a spec"""

    def __init__(self, spec: dict, scenario: Optional[DgScenario] = None, sensors: Optional[dict] = None):
        self.spec = spec
        dt, tmax = Decimal(spec["dt"]), Decimal(spec["tmax"])
        max_steps = int(tmax / dt) + 2
        self.rec = rec = Rec(step_budget=20 * max_steps + 200)
        self.max_steps = max_steps
        rec.flavour = spec.get("flavour", "plain")
        rec.mutate_cmds_on_update = bool(spec.get("mutcmd"))
        given = sensors or {}
        models, players, missions, sensors = {}, {}, {}, {}
        objects = {}

        def one(kind, s, make):
            # equal goals and equal sensors without memory are one and the same object
            key = (kind, json.dumps(s, sort_keys=True))
            if s["k"] not in ("polygon", "pose", "lane", "partial", "ghost") or s.get("crash"):
                return make()
            if key in objects:
                rec.fault_log.append(f"shared-{kind}")
            else:
                objects[key] = make()
            return objects[key]

        for pl in spec["players"]:
            n = PlayerName(pl["name"])
            kind = pl["model"]["kind"]
            models[n] = instrument(make_model(pl["model"]), pl["name"], kind, rec, pl["model"].get("crash", 0),
                                   pl["model"].get("crash_fp", 0), pl["model"].get("crash_in"))
            players[n] = ScriptAgent(pl.get("agent") or {}, kind, rec)
            if pl.get("goal"):
                missions[n] = one("goal", pl["goal"], lambda: self.make_goal(pl["goal"], pl["name"]))
            if pl.get("sensor"):
                if given.get(pl["name"]):
                    sensors[n] = RecSensor(given[pl["name"]], rec, pl["name"], pl["sensor"].get("crash", 0))
                else:
                    owner = None if pl["sensor"]["k"] in ("partial", "ghost") and sum(q.get("sensor") == pl["sensor"] for q in spec["players"]) > 1 else pl["name"]
                    sensors[n] = one("sensor", pl["sensor"], lambda: RecSensor(make_sensor(pl["sensor"]), rec, owner, pl["sensor"].get("crash", 0)))
        self.kinds = {pl["name"]: pl["model"]["kind"] for pl in spec["players"]}
        if scenario is None:
            scenario = DgScenario(static_obstacles=[make_obstacle(o) for o in spec.get("obstacles", [])])
        if spec.get("mission_order") == "reversed":
            missions = dict(reversed(list(missions.items())))
        kw = {}
        if sensors or not spec.get("default_sensors", True):
            kw["sensors"] = sensors
        if missions or not spec.get("default_missions", True):
            kw["missions"] = missions
        self.ctx = RecContext(
            dg_scenario=scenario,
            models=models,
            players=players,
            param=SimParameters(
                dt=dt, dt_commands=Decimal(spec["dtc"]), max_sim_time=tmax,
                sim_time_after_collision=Decimal(spec.get("after", "0")),
            ),
            seed=spec.get("seed", 0),
            **kw,
        )
        object.__setattr__(self.ctx, "_rec", rec)
        rec.ctx = self.ctx
        self.initial_raw = {str(p): m.get_state() for p, m in models.items()}
        self.initial = {p: canon(m.get_state()) for p, m in models.items()}
        self.initial_goals = {str(p): canon(g) for p, g in missions.items()}
        self.initial_obstacles = tuple(canon(o.shape) for o in scenario.static_obstacles)
        self.all_models = dict(models)
        self.agents = dict(players)
        self.error: Optional[BaseException] = None
        self.missions = dict(missions)

    def make_goal(self, g: dict, who: str):
        if g["k"] == "polygon":
            return PolygonGoal(box(*g["box"]))
        if g["k"] == "pose":
            return PoseGoal(SE2Transform(g["pose"][:2], g["pose"][2]), tol=g["tol"])
        if g["k"] == "lane":
            return RefLaneGoal(straight_lane(g), g["progress"])
        return ToyGoal(kind=g["k"], box=list(g["box"]) if g.get("box") else None, t0=g.get("t0", 0.0), t1=g.get("t1", 1e9),
                       crash=g.get("crash", 0), rec=self.rec, who=who)

    def goal_fulfilled(self, name: str, state, t: float) -> bool:
        """Independent evaluation of the goals"""
        for pl in self.spec["players"]:
            if pl["name"] == name:
                g = pl.get("goal")
                if not g:
                    return False
                if g["k"] == "polygon":
                    b = g["box"]
                    return b[0] < state.x < b[2] and b[1] < state.y < b[3]
                if g["k"] == "pose":
                    x, y, th = g["pose"]
                    d = math.sqrt(
                        (state.x - x) ** 2 + (state.y - y) ** 2
                        + 2 * (math.cos(state.psi) - math.cos(th)) ** 2 + 2 * (math.sin(state.psi) - math.sin(th)) ** 2
                    )
                    return None if abs(d - g["tol"]) < 1e-6 else d <= g["tol"]
                if g["k"] == "lane":
                    return straight_lane_goal_fulfilled(g, state)
                return toy_goal_fulfilled(g["k"], g.get("box"), g.get("t0", 0.0), g.get("t1", 1e9), state.x, state.y, t)
        return False

    def run(self, sim: Optional[Simulator] = None):
        """Runs the episode, keeps the failure of a participant if one escapes"""
        sim = sim or Simulator()
        try:
            sim.run(self.ctx)
        except (Injected, InjectedExit) as e:
            self.error = e
        except StopRun as e:
            self.error = e
        object.__setattr__(self.ctx, "_rec", None)
        return self

    def history(self) -> list:
        """Everything that crossed the interfaces, in a comparable form"""
        return [
            (e.kind, str(e.t), e.p, h64({k: v for k, v in e.d.items() if not k.startswith("raw") and k != "i"}))
            for e in self.rec.events
        ] + [("error", type(self.error).__name__, str(self.error), 0)]

    def trace_into(self, res):
        for e in self.rec.events:
            d = {k: v for k, v in e.d.items() if not k.startswith("raw") and k != "i"}
            res.event(e.kind, str(e.t), e.p, h64(d))
        for f in self.rec.fault_log:
            res.faults[f] += 1
        if self.error is None:
            res.event("outcome", h64(outcome(self.ctx)))
        else:
            res.event("error", repr(self.error))
        try:
            res.sim_time += float(self.ctx.time)
        except Exception:
            pass
