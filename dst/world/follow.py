"""Episodes of lane followers with sensing faults, phantom and real traffic"""
import dataclasses
import math
from decimal import Decimal

from shapely import affinity
from shapely.geometry import box

from dg_commons import DgSampledSequence, PlayerName, fd
from dg_commons.controllers.speed import SpeedBehavior
from dg_commons.sim import SimParameters
from dg_commons.sim.agents.agent import Agent, NPAgent
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn, VehicleStateDyn
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.sim_perception import ObsFilter
from dg_commons.sim.simulator import SimContext, Simulator
from dg_commons.sim.simulator_structures import PlayerObservations
from dst.core.result import Result, h64
from dst.world.lanes import lane_points, make_lane
from dst.world.world import canon, deepcopy_obs

EGO = "ego"
NOMINAL = 40 / 3.6


def make_vehicle(m: dict):
    x = dict(x=m["x"], y=m["y"], psi=m["psi"], vx=m["v"], delta=m.get("delta", 0.0))
    if m["kind"] == "dyncar":
        return VehicleModelDyn.default_car(VehicleStateDyn(**x, vy=0.0, dpsi=0.0))
    return getattr(VehicleModel, "default_" + m["kind"])(VehicleState(**x))


class Watch(Agent):
    """Records what the agent observes and commands"""

    def __init__(self, inner: Agent, log: list):
        self.inner, self.log = inner, log

    def on_episode_init(self, init_sim_obs):
        self.inner.on_episode_init(init_sim_obs)

    def get_commands(self, sim_obs):
        obs = deepcopy_obs(sim_obs)
        cmd = self.inner.get_commands(sim_obs)
        self.log.append((obs, dataclasses.replace(cmd)))
        return cmd

    def on_get_extra(self):
        return self.inner.on_get_extra()


class Faulty(ObsFilter):
    """Sensing faults [kind, t0, t1, arg, stamp] and phantoms of one player"""

    def __init__(self, faults: list, phantoms: list, count):
        self.faults, self.phantoms, self.count = faults, phantoms, count
        self.hist = []

    def sense(self, scenario, full_obs, pov):
        t = float(full_obs.time)
        players = dict(full_obs.players)
        me = players[pov].state
        c, s = math.cos(me.psi), math.sin(me.psi)
        for i, ph in enumerate(self.phantoms):
            if ph["t0"] <= t < ph["t1"]:
                x, y, th = ph["rel"]
                st = VehicleState(x=me.x + c * x - s * y, y=me.y + s * x + c * y, psi=me.psi + th, vx=ph["v"], delta=0.0)
                shape = affinity.translate(affinity.rotate(box(-2, -0.9, 2, 0.9), st.psi, origin=(0, 0), use_radians=True), st.x, st.y)
                players[PlayerName(f"ph{i}")] = PlayerObservations(state=st, occupancy=shape)
                self.count["phantom"] += 1
        obs = dataclasses.replace(full_obs, players=fd(players))
        self.hist.append(obs)
        for kind, t0, t1, arg, stamp in self.faults:
            if not t0 <= t < t1:
                continue
            self.count[kind] += 1
            out = obs
            if kind == "stuck":
                before = [o for o in self.hist if float(o.time) < t0] or self.hist[:1]
                out = before[-1]
            elif kind == "late":
                out = self.hist[max(0, len(self.hist) - 1 - int(arg))]
            elif kind == "blind":
                out = dataclasses.replace(obs, players=fd({pov: players[pov]}))
            elif kind == "odd":
                # every other observation is lost: the one before is repeated
                out = self.hist[-1 - len(self.hist) % 2] if len(self.hist) > 1 else obs
            return dataclasses.replace(out, time=obs.time) if stamp == "new" else out
        return obs


def make_follower(lane, model, a: dict) -> LFAgent:
    sb = None
    if a.get("nominal") is not None:
        sb = SpeedBehavior()
        sb.params.nominal_speed = a["nominal"]
    return LFAgent(lane, model.model_params, model.model_geometry, speed_behavior=sb, return_extra=bool(a.get("xtra")))


class Ride:
    """One episode with the lane follower EGO. spec: dt, dtc, tmax, lane, ego, faults, phantoms, others"""

    def __init__(self, spec: dict, res: Result, agent: LFAgent = None):
        self.spec, self.res = spec, res
        self.pts = lane_points(spec["lane"])
        lane = make_lane(spec["lane"])
        names = [EGO] + [o["name"] for o in spec.get("others", [])]
        if spec.get("order"):
            names = names[::-1]
        self.log = []
        models, players = {}, {}
        self.agent = None
        for n in names:
            p = PlayerName(n)
            o = spec["ego"] if n == EGO else next(o for o in spec["others"] if o["name"] == n)
            models[p] = make_vehicle(o)
            if n == EGO:
                self.agent = agent or make_follower(lane, models[p], o)
                players[p] = Watch(self.agent, self.log)
            elif o.get("plan") and not o.get("lane"):
                players[p] = NPAgent(DgSampledSequence([Decimal(str(t)) for t, _ in o["plan"]],
                                                       [VehicleCommands(acc=a, ddelta=0.0) for _, a in o["plan"]]))
            else:
                players[p] = make_follower(make_lane(o["lane"]) if o.get("lane") else lane, models[p], o)
        sensor = Faulty(spec.get("faults", []), spec.get("phantoms", []), res.faults)
        self.ctx = SimContext(
            dg_scenario=DgScenario(), models=models, players=players, sensors={PlayerName(EGO): sensor},
            param=SimParameters(dt=Decimal(spec["dt"]), dt_commands=Decimal(spec["dtc"]), max_sim_time=Decimal(spec["tmax"]),
                                sim_time_after_collision=Decimal("1")), seed=spec.get("seed", 0),
        )

    def run(self):
        Simulator().run(self.ctx)
        self.states = [(float(t), s) for t, s in self.ctx.log[PlayerName(EGO)].states]
        self.end = self.states[-1][0] if self.states else 0.0
        self.res.sim_time += float(self.ctx.time)
        self.digest = h64(canon([s for _, s in self.states]), canon([c for _, c in self.log]))
        self.res.event("ride", self.digest, len(self.log))
        return self

    def state_at(self, t: float):
        """State at the beginning of the last step not later than t"""
        out = None
        for ts, s in self.states:
            if ts > t + 1e-9:
                break
            out = s
        return out


def on_lane(pts, s: float, lat: float, he: float) -> tuple:
    """Pose at the arc length s, shifted to the left and turned"""
    acc = 0.0
    for (x0, y0, th0), (x1, y1, _) in zip(pts, pts[1:]):
        d = math.hypot(x1 - x0, y1 - y0)
        if acc + d >= s:
            a = (s - acc) / d
            th = math.atan2(y1 - y0, x1 - x0)
            return x0 + a * (x1 - x0) - lat * math.sin(th), y0 + a * (y1 - y0) + lat * math.cos(th), th + he
        acc += d
    raise ValueError("beyond the lane")


def gentle_lane(rng, length: float, kmax: float, turn: float) -> dict:
    """A lane whose heading stays within turn of the initial one"""
    th, segs, left = 0.0, [], length
    while left > 1:
        d = round(min(left, rng.r(15, 60)), 2)
        k = rng.pick([0.0, rng.r(-kmax, kmax, 4)]) if kmax else 0.0
        if abs(th + k * d) > turn:
            k = -k
        if abs(th + k * d) > turn:
            k = 0.0
        th += k * d
        segs.append([d, k])
        left -= d
    return dict(p=[rng.r(-100, 100), rng.r(-100, 100)], th=rng.r(-3.1, 3.1), segs=segs, ds=rng.pick([1.0, 2.0, 5.0]), r=2.0)
