import dataclasses
import math
from decimal import Decimal

import numpy as np
from shapely.geometry import Point

from dg_commons import PlayerName
from dg_commons.perception.sensor import FullRangeSensor, VisRangeSensor
from dg_commons.sim import SimParameters, SimTime
from dg_commons.sim.agents.agent import Agent
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.sim_perception import DelayedObsFilter, FovObsFilter, GhostObsFilter, ObsFilter
from dg_commons.sim.simulator import SimContext, Simulator
from dg_commons import fd
from dst.core.result import HarnessError, Result
from dst.core.rng import Rng
from dst.world.bodies import ToyCommands, make_model
from dst.world.world import Injected, ToyGoal, canon, deepcopy_obs, make_obstacle
from dst.world.gen import turned

NAMES = ["a", "b", "c", "d", "e", "f", "g"]


# ------------------------------------------------------------------ what can be seen
def outlines(shape) -> list:
    """Closed rings of a body (walls have the thickness of the sensor's model of them)"""
    if shape.geom_type in ("LineString", "LinearRing"):
        shape = shape.buffer(0.01)
    geoms = shape.geoms if hasattr(shape, "geoms") else [shape]
    out = []
    for g in geoms:
        out += [np.array(g.exterior.coords)] + [np.array(i.coords) for i in g.interiors]
    return out


def first_hits(p, angles, rings) -> np.ndarray:
    """Distance along each direction to the first point of the body (inf: none)"""
    u = np.stack([np.cos(angles), np.sin(angles)], axis=1)
    best = np.full(len(angles), np.inf)
    for r in rings:
        a, d = r[:-1] - p, r[1:] - r[:-1]
        den = u[:, :1] * d[None, :, 1] - u[:, 1:] * d[None, :, 0]
        with np.errstate(all="ignore"):
            t = (a[None, :, 0] * d[None, :, 1] - a[None, :, 1] * d[None, :, 0]) / den
            k = (a[None, :, 0] * u[:, 1:] - a[None, :, 1] * u[:, :1]) / den
        ok = (np.abs(den) > 1e-12) & (t >= 0) & (k >= -1e-9) & (k <= 1 + 1e-9)
        best = np.minimum(best, np.where(ok, t, np.inf).min(axis=1))
    return best


class Seen:
    """Independent ray casting around one point of view"""

    def __init__(self, pose, bodies: dict, rng_: float, fov: float, res: float):
        x, y, psi = pose
        self.p, self.psi, self.range, self.fov, self.res = np.array([x, y]), psi, rng_, fov, res
        step = res / 6
        rings = {n: outlines(b) for n, b in bodies.items()}
        ang = [np.arange(-math.pi, math.pi, step)]
        for rs in rings.values():
            for r in rs:
                a = np.arctan2(r[:, 1] - y, r[:, 0] - x)
                ang += [a, a - 1e-6, a + 1e-6]
        # directions relative to the heading, in [-pi, pi)
        ang = np.concatenate(ang)
        self.ang = np.unique(np.mod(ang - psi + math.pi, 2 * math.pi) - math.pi)
        self.hits = {n: first_hits(self.p, self.ang + psi, rs) for n, rs in rings.items()}
        self.omni = fov > 2 * math.pi - res
        # the distance of two rays is a little more than the angular resolution
        self.width = 1.1 * res if fov > 20 * res else 2.1 * res

    def clearly(self, name: str):
        """True: a part that is wider than the resolution is visible. False: hidden, out of range or of view. None: unclear"""
        r = self.hits[name]
        other = np.full(len(r), np.inf)
        for n, h in self.hits.items():
            if n != name:
                other = np.minimum(other, h)
        inside = np.ones(len(r), bool) if self.omni else np.abs(self.ang) < self.fov / 2 - 1e-3
        first = inside & (r < self.range * math.cos(self.width / 2) - 0.03) & (r < other - 0.03)
        if self.widest(first) > self.width:
            return True
        # surely not: everywhere farther than whatever limits the view in any direction within the resolution
        limit = np.minimum(other, self.range)
        if not self.omni:
            limit = np.where(np.abs(self.ang) > self.fov / 2 + 1e-3, 0.0, limit)
        n, w = len(r), self.width + self.res / 3
        at = np.where(np.isfinite(r))[0]
        if len(at) == 0:
            raise HarnessError("body without any direction")
        ext = np.concatenate([self.ang - 2 * math.pi, self.ang, self.ang + 2 * math.pi])
        lim3 = np.concatenate([limit] * 3)
        lo = np.searchsorted(ext, self.ang[at] - w)
        hi = np.searchsorted(ext, self.ang[at] + w)
        for i, a, b in zip(at, lo, hi):
            if r[i] < lim3[a:b].max() + 0.05:
                return None
        return False

    def widest(self, ok: np.ndarray) -> float:
        best, n = 0.0, len(ok)
        if ok.all():
            return 2 * math.pi
        start = int(np.argmin(ok))
        ang = np.concatenate([self.ang[start:], self.ang[:start] + 2 * math.pi])
        ok = np.concatenate([ok[start:], ok[:start]])
        run = None
        for i in range(n):
            if ok[i]:
                run = ang[i] if run is None else run
                best = max(best, ang[i] - run)
            else:
                run = None
        if not self.omni:
            return best
        return best


def pose_of(state):
    return float(state.x), float(state.y), float(state.psi)


# ------------------------------------------------------------------ the participants
class Still(Agent):
    """Commands as scripted, keeps what it observes"""

    def __init__(self, u, crash: int):
        self.u, self.crash, self.n, self.seen = u, crash, 0, []

    def on_episode_init(self, init_sim_obs):
        self.me = init_sim_obs.my_name

    def get_commands(self, sim_obs):
        self.n += 1
        if self.n == self.crash:
            raise Injected("agent")
        self.seen.append(canon((sim_obs.time, {str(p): o for p, o in sim_obs.players.items()})))
        return ToyCommands(*self.u)


class Spy(ObsFilter):
    """Records what goes into and comes out of a filter"""

    def __init__(self, inner, spec, log):
        self.inner, self.spec, self.log = inner, spec, log

    def sense(self, scenario, full_obs, pov):
        before = deepcopy_obs(full_obs)
        out = self.inner.sense(scenario, full_obs, pov)
        untouched = canon(full_obs) == canon(before)
        inside = getattr(self.inner, "obs_filter", None)
        if inside is not None:
            before = inside.last
        self.last = deepcopy_obs(out)
        self.log.append((self.spec, scenario, before, pov, self.last, untouched))
        return out


def make_sensor(s: dict):
    cls = VisRangeSensor if s["k"] == "vis" else FullRangeSensor
    return cls(range=s["range"], field_of_view=s["fov"])


def make_filter(layers: list, log: list, objects: dict) -> ObsFilter:
    f = None
    for l in layers:
        if l["k"] in ("vis", "full"):
            # a sensor object may be shared by the filters of several players
            key = l.get("share")
            if key and key in objects:
                sensor = objects[key]
            else:
                sensor = make_sensor(l)
                if key:
                    objects[key] = sensor
            f = FovObsFilter(sensor)
        elif l["k"] == "ghost":
            f = GhostObsFilter(f, PlayerName(l["who"]), l["far"])
        else:
            f = DelayedObsFilter(f, SimTime(l["lat"]))
        f = Spy(f, l, log)
    return f


class Check:
    ID = "C14"
    RUNS_QUICK = 500
    RUNS_THOROUGH = 30000
    RULE = (
        "A case is, from (seed, index), one to three episodes with moving players among static obstacles (boxes, walls, concave shapes), "
        "run with the same sensor objects: range and line-of-sight sensors of any field of view, shared by players, under ghosts and "
        "delays; players leave, agents crash in an episode before, obstacles change between the episodes. Every call of a filter is "
        "compared with independent ray casting on the true world, and with a new filter asked in another order. Non-trivial if somebody "
        "was hidden and somebody else was seen."
    )
    REAL = ["dg_commons.sim.sim_perception", "dg_commons.perception.sensor", "dg_commons.geo", "commonroad_dc ray tracing", "dg_commons.sim.simulator"]
    STUB = ["agents (scripted)", "bodies (toy)", "triangulation of polygons (missing in this build of commonroad_dc)"]
    STATE_MEASURE = "(sensor, field of view bin, players, obstacles, who is seen, hidden and unclear)"

    # ------------------------------------------------------------------ cases
    def gen_obstacle(self, rng: Rng, size: float) -> dict:
        x, y = rng.r(-size, size, 2), rng.r(-size, size, 2)
        k = rng.pick(["box", "box", "wall", "ring", "poly", "concave"])
        if k == "box":
            return dict(k="box", b=[x, y, round(x + rng.r(0.3, 8), 2), round(y + rng.r(0.3, 8), 2)])
        if k == "wall":
            pts = [[x, y]]
            for _ in range(rng.randint(1, 3)):
                pts.append([round(pts[-1][0] + rng.r(-8, 8), 2), round(pts[-1][1] + rng.r(-8, 8), 2)])
            return dict(k="wall", pts=pts)
        if k == "ring":
            s = size + rng.r(5, 15, 2)
            return dict(k="ring", pts=[[-s, -s], [-s, s], [s, s], [s, -s], [-s, -s]])
        if k == "poly":
            n, r = rng.randint(3, 7), rng.r(0.5, 5)
            return dict(k="poly", pts=[[round(x + r * math.cos(2 * math.pi * i / n + 0.1), 3), round(y + r * math.sin(2 * math.pi * i / n + 0.1), 3)] for i in range(n)])
        s = rng.r(0.5, 3)
        return dict(k="poly", pts=[[round(x + s * a, 3), round(y + s * b, 3)] for a, b in
                                   [(-1.5, -1.5), (1.5, -1.5), (1.5, 1.5), (0.5, 1.5), (0.5, -0.5), (-0.5, -0.5), (-0.5, 1.5), (-1.5, 1.5)]])

    def gen_player(self, rng: Rng, name: str, size: float, lined) -> dict:
        shape = rng.pick([dict(k="rect", l=rng.r(0.5, 8, 1), w=rng.r(0.4, 3, 1)), dict(k="rect", l=4.0, w=2.0), dict(k="tri", r=rng.r(0.5, 3, 1)), dict(k="hex", r=rng.r(0.5, 3, 1))])
        x, y, psi = rng.r(-size, size, 2), rng.r(-size, size, 2), rng.pick([rng.r(-3.1, 3.1), rng.pick([0.0, math.pi / 2, math.pi, -math.pi / 2])])
        if lined is not None and rng.flip(0.6):
            # behind each other
            a = lined + rng.r(-0.25, 0.25)
            d = rng.r(2, 2 * size, 2)
            x, y = round(d * math.cos(a), 2), round(d * math.sin(a), 2)
        v = rng.pick([0.0, rng.r(0, 3), rng.r(0, 20)])
        a = rng.r(-3.1, 3.1)
        x0 = [x, y, turned(rng, psi, 12), round(v * math.cos(a), 3), round(v * math.sin(a), 3), rng.pick([0.0, rng.r(-2, 2)])]
        return dict(name=name, shape=shape, x0=x0, u=[rng.r(-2, 2), rng.r(-2, 2), rng.r(-1, 1)] if rng.flip(0.4) else [0.0, 0.0, 0.0])

    def gen(self, rng: Rng, tier):
        size = rng.pick([8, 15, 25])
        n = rng.randint(2, 6)
        names = NAMES[:n]
        rng.shuffle(names)

        def sensor():
            k = rng.pick(["vis", "vis", "vis", "full"])
            fov = 2 * math.pi if k == "full" or rng.flip(0.35) else rng.pick([rng.r(0.3, 6.25), math.pi, math.pi / 2, rng.r(1, 3)])
            return dict(k=k, range=rng.pick([20.0, rng.r(3, 40, 1), rng.r(10, 60, 1)]), fov=fov)

        dtc = rng.pick(["0.2", "0.3", "0.5"])

        def ghost():
            return dict(k="ghost", who=rng.pick(names), far=rng.pick([0, 0.0, rng.r(0, 2 * size), rng.r(1, 10)]))

        shared = None
        sensors = {}
        for name in names:
            if sensors and rng.flip(0.55):
                continue
            if shared and rng.flip(0.5):
                base = dict(shared)
            else:
                base = sensor()
                if rng.flip(0.5):
                    base["share"] = "s" + name
                    shared = base
            layers = [base]
            for _ in range(rng.pick([0, 0, 1, 2])):
                layers.append(ghost())
            if rng.flip(0.25):
                layers.insert(rng.randint(1, len(layers)), dict(k="delay", lat=str(Decimal(dtc) * rng.randint(0, 3))))
            sensors[name] = layers
        # one filter for several players
        same = rng.sample(names, 2) if rng.flip(0.2) and not any(l["k"] == "delay" for ls in sensors.values() for l in ls) else None
        if same:
            sensors[same[1]] = sensors.setdefault(same[0], [sensor()])
        episodes = []
        for e in range(rng.pick([1, 1, 2, 3])):
            lined = rng.r(-3.1, 3.1) if rng.flip(0.5) else None
            players = [self.gen_player(rng, m, size, lined) for m in names if not episodes or rng.flip(0.8)]
            if lined is not None and players:
                players[0]["x0"][:2] = [0.0, 0.0]
            eyes = [p for p in players if sensors.get(p["name"], [{}])[0].get("k") == "vis"]
            if eyes and rng.flip(0.35):
                # parts that are just wider than the resolution, all around
                me, s = eyes[0], sensors[eyes[0]["name"]][0]
                for pl in players:
                    if pl is not me:
                        d = rng.r(0.5, 0.93) * s["range"]
                        a = me["x0"][2] + rng.r(-0.45, 0.45) * s["fov"]
                        w = d * math.atan(1 / s["range"]) * rng.r(1.3, 1.6)
                        pl["x0"][:3] = [round(me["x0"][0] + d * math.cos(a), 3), round(me["x0"][1] + d * math.sin(a), 3), round(a, 3)]
                        pl["x0"][5] = 0.0
                        pl["shape"] = dict(k="rect", l=round(w / 2, 3), w=round(w, 3))
            if not players:
                players = [self.gen_player(rng, names[0], size, None)]
            episodes.append(dict(
                players=players, obstacles=[self.gen_obstacle(rng, size) for _ in range(rng.pick([0, 1, 2, 4, 6]))],
                tmax=str(Decimal(dtc) * rng.randint(1, 5)), leave=[[rng.pick(names), rng.r(0.1, 1.5)]] if rng.flip(0.3) else [],
                crash=[rng.pick(names), rng.randint(1, 3)] if rng.flip(0.2) else None, same=rng.flip(0.2)))
        return dict(dtc=dtc, sensors=sensors, same=same, episodes=episodes)

    # ------------------------------------------------------------------ runs
    def run(self, spec, res: Result):
        if any(l["k"] in ("vis", "full") and (l["range"] < 2 or l["fov"] < 0.2) for ls in spec["sensors"].values() for l in ls):
            return
        log, objects = [], {}
        filters = {}
        for n in sorted(spec["sensors"]):
            if spec["same"] and n == spec["same"][1] and spec["same"][0] in filters:
                filters[n] = filters[spec["same"][0]]
                res.faults["shared-filter"] += 1
            else:
                filters[n] = make_filter(spec["sensors"][n], log, objects)
        scenario, seen_all = None, {True: 0, False: 0, None: 0}
        for k, ep in enumerate(spec["episodes"]):
            if scenario is None or not ep["same"]:
                scenario = DgScenario(static_obstacles=[make_obstacle(o) for o in ep["obstacles"]])
            if k:
                res.faults["reused-sensors"] += 1
            log.clear()
            agents = self.episode(spec, ep, scenario, filters, res)
            res.event("episode", k, len(log))
            for entry in log:
                if not self.judge(*entry, res, seen_all):
                    return
            for n, f in filters.items():
                if PlayerName(n) in agents:
                    seen = agents[PlayerName(n)].seen
                    outs = [canon((o.time, {str(p): x for p, x in o.players.items()})) for l, _, _, pov, o, _ in log if l is f.spec and str(pov) == n]
                    if seen != outs[: len(seen)] or len(outs) > len(seen) + 1:
                        self.bad(res, "delivered", f"{n} was given {len(seen)} observations that are not the {len(outs)} its own sensor made")
                        return
        res.nontrivial = seen_all[True] > 0 and seen_all[False] > 0
        for v, c in seen_all.items():
            res.stats[{True: "clearly visible", False: "clearly not visible", None: "unclear"}[v]] += c

    def episode(self, spec, ep, scenario, filters, res):
        models, agents, sensors, missions = {}, {}, {}, {}
        for pl in ep["players"]:
            n = PlayerName(pl["name"])
            models[n] = make_model(dict(kind="toy", x0=pl["x0"], shape=pl["shape"]))
            agents[n] = Still(pl["u"], ep["crash"][1] if ep["crash"] and ep["crash"][0] == pl["name"] else 0)
            if pl["name"] in filters:
                sensors[n] = filters[pl["name"]]
            for who, t in ep["leave"]:
                if who == pl["name"]:
                    missions[n] = ToyGoal(kind="late", t0=t)
        ctx = SimContext(
            dg_scenario=scenario, models=models, players=agents, sensors=sensors, missions=missions,
            param=SimParameters(dt=Decimal("0.1"), dt_commands=Decimal(spec["dtc"]), max_sim_time=Decimal(ep["tmax"]),
                                sim_time_after_collision=Decimal("10")))
        try:
            Simulator().run(ctx)
        except Injected:
            res.faults["crashed-episode"] += 1
        if ep["leave"] and len(ctx.players) < len(ep["players"]):
            res.faults["left"] += 1
        res.sim_time += float(ctx.time)
        return agents

    # ------------------------------------------------------------------ the oracle
    def judge(self, l, scenario, full, pov, out, untouched, res, seen_all) -> bool:
        names = {str(p): p for p in full.players}
        got = {str(p) for p in out.players}
        who = f"{l} of {pov} at {full.time}"
        if not untouched:
            return self.bad(res, "altered", f"{who}: what was given to it has been altered")
        if str(pov) not in got:
            return self.bad(res, "self", f"{who}: does not contain the observing player")
        if l["k"] == "delay":
            return True
        if Decimal(out.time) != Decimal(full.time):
            return self.bad(res, "time", f"{who}: has the time {out.time}")
        for p, o in out.players.items():
            if str(p) not in names:
                return self.bad(res, "absent", f"{who}: contains {p} which is not there")
            if canon(o.state) != canon(full.players[p].state) or canon(o.occupancy) != canon(full.players[p].occupancy):
                return self.bad(res, "wrong", f"{who}: {p} is {o.state}, not {full.players[p].state}")
        if l["k"] == "ghost":
            return self.judge_ghost(l, full, pov, got, res, who)
        me = full.players[pov]
        x, y, psi = pose_of(me.state)
        shapes = {str(p): o.occupancy for p, o in full.players.items() if p != pov}
        if l["k"] == "full":
            for n, s in shapes.items():
                d = s.distance(Point(x, y))
                want = True if d < l["range"] * 0.997 - 1e-6 else False if d > l["range"] + 1e-6 else None
                seen_all[want] += 1
                if want is not None and want != (n in got):
                    return self.bad(res, "range", f"{who}: {n} at {d:.3f} m is {'missing' if want else 'included'}")
            return True
        bodies = dict(shapes)
        for i, o in enumerate(scenario.static_obstacles):
            bodies[f"#{i}"] = o.shape
        # too close to a body to tell what can be seen
        if any(b.distance(Point(x, y)) < 0.05 for b in bodies.values()):
            res.stats["inside another body"] += 1
            return True
        sensor = make_sensor(l)
        seen = Seen((x, y, psi), bodies, l["range"], l["fov"], sensor.angle_resolution)
        verdicts = {}
        for n in shapes:
            want = verdicts[n] = seen.clearly(n)
            seen_all[want] += 1
            if want is not None and want != (n in got):
                r = seen.hits[n]
                return self.bad(res, "visible" if want else "hidden", f"{who}: {n} from {r[np.isfinite(r)].min():.3f} m is {'missing' if want else 'included'} "
                                f"although it is {'clearly visible' if want else 'hidden, out of range or out of view'}")
        # another filter that is asked in another order
        order = list(full.players)[::-1]
        new = FovObsFilter(sensor)
        again = new.sense(scenario, dataclasses.replace(full, players=fd({p: full.players[p] for p in order})), pov)
        if {str(p) for p in again.players} != got:
            return self.bad(res, "history", f"{who}: gives {sorted(got)}, a new one {sorted(map(str, again.players))}")
        res.state(l["k"], round(l["fov"], 1), len(bodies), tuple(sorted(map(str, verdicts.values()))))
        res.event(str(pov), str(full.time), sorted(got))
        return True

    def judge_ghost(self, l, full, pov, got, res, who) -> bool:
        want = {str(p) for p in full.players}
        if str(pov) != l["who"] and l["who"] in want:
            a, g = full.players[pov].state, full.players[PlayerName(l["who"])].state
            d = math.hypot(a.x - g.x, a.y - g.y)
            if abs(d - l["far"]) < 1e-9:
                return True
            if d > l["far"]:
                want.discard(l["who"])
                res.faults["ghosted"] += 1
        if got != want:
            return self.bad(res, "ghost", f"{who}: gives {sorted(got)} instead of {sorted(want)}")
        return True

    @staticmethod
    def bad(res, kind, msg) -> bool:
        res.violation(kind, msg)
        return False


CHECK = Check()
