import dataclasses
import math
from decimal import Decimal

from dg_commons import PlayerName, fd
from dg_commons.sim import SimTime
from dg_commons.sim.simulator import Simulator
from dg_commons.sim.simulator_structures import PlayerObservations, SimObservations
from dst.core.result import Result, h64
from dst.core.rng import Rng
from dst.world.bodies import ToyState
from dst.world.gen import NAMES, gen_episode
from dst.world.world import World, deepcopy_obs, hash_unit, make_sensor, obs_canon
from shapely.geometry import Point


class RefDelay:
    """Delivers the oldest observation that is not older than the latency"""

    def __init__(self, lat: str):
        self.lat = Decimal(lat)
        self.hist: list = []

    def __call__(self, o: SimObservations, pov: str):
        now = Decimal(o.time)
        if self.hist and (now < self.hist[-1][0] or now == self.hist[0][0]):
            self.hist = []  # another episode
        self.hist.append((now, o))
        made, old = next((t, x) for t, x in self.hist if t + self.lat >= now)
        return dataclasses.replace(old, time=made + self.lat)


class RefPartial:
    def __init__(self, seed, p):
        self.seed, self.p = seed, p

    def __call__(self, o, pov):
        keep = {n: v for n, v in o.players.items()
                if n == pov or (hash_unit("ps", self.seed, str(o.time), str(n)) + 1) / 2 >= self.p}
        return dataclasses.replace(o, players=fd(keep))


class RefGhost:
    def __init__(self, who, far):
        self.who, self.far = who, far

    def __call__(self, o, pov):
        if pov == self.who or self.who not in o.players:
            return o
        a, g = o.players[pov].state, o.players[self.who].state
        if math.hypot(a.x - g.x, a.y - g.y) > self.far:
            return dataclasses.replace(o, players=fd({n: v for n, v in o.players.items() if n != self.who}))
        return o


class RefChain:
    def __init__(self, layers):
        self.layers = [
            RefDelay(l["lat"]) if l["k"] == "delay" else RefPartial(l["seed"], l["p"]) if l["k"] == "partial"
            else RefGhost(l["who"], l["far"])
            for l in layers
        ]

    def __call__(self, o, pov):
        for f in self.layers:
            o = f(o, pov)
        return o


def gen_layers(rng: Rng, unit: Decimal, names: list, long: bool = False) -> list:
    def delay():
        if long:
            return dict(k="delay", lat=str(unit * rng.pick([1, 20, 90, 150, 250]) + unit * Decimal(rng.pick(["0", "0.3"]))))
        lat = unit * rng.pick([0, 1, 1, 2, 3, 5, 8]) + unit * Decimal(rng.pick(["0", "0", "0.5", "0.01", "0.99"]))
        return dict(k="delay", lat=str(lat))

    def other():
        if rng.flip(0.5):
            return dict(k="partial", seed=rng.randint(0, 10**6), p=rng.r(0.1, 0.8))
        return dict(k="ghost", who=rng.pick(names), far=rng.r(0, 10))

    shape = rng.pick(["d", "d", "d", "od", "do", "odo", "dd"])
    return [delay() if c == "d" else other() for c in shape]


class Check:
    ID = "C13"
    RUNS_QUICK = 1500
    RUNS_THOROUGH = 120000
    RULE = (
        "A case is, from (seed, index), either a sequence of sensing instants over several episodes (irregular, with stalls, bursts "
        "and clocks that restart) of a sensor composed of delays, ghosts and drop-outs, or whole episodes run by the simulator with "
        "the same sensor objects. Every delivery is compared with a reference of the delay. Non-trivial if something older than the "
        "current instant was delivered."
    )
    REAL = ["dg_commons.sim.sim_perception (DelayedObsFilter, GhostObsFilter, IdObsFilter)", "dg_commons.sim.simulator"]
    STUB = ["agents (scripted)", "drop-out sensor of the harness", "wall clock (virtual)"]
    STATE_MEASURE = "(composition of the sensor, phase of the latency within the sensing period, age of the delivery in observations)"

    def gen(self, rng, tier):
        if rng.flip(0.35):
            spec = gen_episode(rng, features=rng.sample(["byz", "reuse", "slow", "extra", "inplace", "chase", "jump", "goals"], 3),
                               max_steps=25)
            spec["mode"] = "sim"
            names = [p["name"] for p in spec["players"]]
            unit = max(Decimal(spec["dt"]), Decimal(spec["dtc"]))
            for p in spec["players"]:
                if rng.flip(0.8):
                    p["sensor"] = dict(k="chain", layers=gen_layers(rng, unit, names))
            spec["episodes"] = [rng.pick(["1", "1", "0.3", "0.05"]) for _ in range(rng.pick([1, 2, 3]))]
            return spec
        names = rng.sample(NAMES, rng.randint(1, 3))
        unit = Decimal(rng.pick(["0.1", "0.07", "0.25", "0.033", "1"]))
        episodes = []
        long = rng.flip(0.03)  # many observations are under way
        if long:
            names = names[:1]
        for _ in range(rng.pick([1, 2, 3])):
            t = Decimal(rng.pick(["0", "0", "0", "0.5", "2"]))
            ts = [str(t)]
            style = rng.pick(["regular", "regular", "irregular", "stall", "burst"])
            for k in range(rng.randint(200, 400) if long else rng.pick([0, 0, rng.randint(1, 12), rng.randint(5, 25)])):
                step = unit
                if style == "irregular":
                    step = unit * Decimal(str(rng.r(0.05, 3)))
                elif style == "stall" and rng.flip(0.2):
                    step = unit * rng.randint(2, 12)
                elif style == "burst" and rng.flip(0.6):
                    step = unit / 10
                t += step
                ts.append(str(t))
            episodes.append(ts)
        return dict(mode="direct", names=names, pov=names[0], layers=gen_layers(rng, unit, names, long), episodes=episodes,
                    seed=rng.randint(0, 10**6))

    def run(self, spec, res: Result):
        if spec["mode"] == "sim":
            self.run_sim(spec, res)
        else:
            self.run_direct(spec, res)

    # ------------------------------------------------------------------ through the simulator
    def run_sim(self, spec, res: Result):
        sensors = {p["name"]: make_sensor(p["sensor"]) for p in spec["players"] if p.get("sensor")}
        refs = {p["name"]: RefChain(p["sensor"]["layers"]) for p in spec["players"] if p.get("sensor")}
        sim = Simulator()
        for k, part in enumerate(spec["episodes"]):
            e = dict(spec, tmax=str(max(Decimal(spec["tmax"]) * Decimal(part), Decimal(spec["dt"]))))
            w = World(e, sensors=sensors)
            w.run(sim)
            w.trace_into(res)
            if w.error is not None:
                return
            if k:
                res.faults["sensor-reused-in-another-episode"] += 1
            want = {}
            last = {}
            for ev in w.rec.events:
                if ev.kind == "sense":
                    o = refs[ev.p](ev.d["raw_full"], ev.p)
                    want[ev.p] = (o, ev.d["raw_full"])
                if ev.kind in ("sensed", "ask") and ev.p in want:
                    o, full = want[ev.p]
                    if not self.compare(o, ev.d["obs"], f"{ev.p} at {full.time} (episode {k}, {ev.kind})", res):
                        return
                    self.note(spec, ev.p, o, full, last, res)

    def note(self, spec, p, o, full, last, res):
        layers = next(q["sensor"]["layers"] for q in spec["players"] if q["name"] == p) if spec["mode"] == "sim" else spec["layers"]
        lat = sum((Decimal(l["lat"]) for l in layers if l["k"] == "delay"), Decimal(0))
        age = Decimal(full.time) - (Decimal(o.time) - lat)
        if age > 0:
            res.nontrivial = True
            res.stats["older-deliveries"] += 1
        res.state("".join(l["k"][0] for l in layers), str(age), str(lat))

    # ------------------------------------------------------------------ directly
    def run_direct(self, spec, res: Result):
        f = make_sensor(dict(k="chain", layers=spec["layers"]))
        ref = RefChain(spec["layers"])
        pov = PlayerName(spec["pov"])
        res.schedule = h64(spec["episodes"])
        single = [l["k"] for l in spec["layers"]].count("delay") == 1
        lat = sum((Decimal(l["lat"]) for l in spec["layers"] if l["k"] == "delay"), Decimal(0))
        prev_t = None
        kept_all = []
        for k, ts in enumerate(spec["episodes"]):
            if prev_t is not None and not (Decimal(ts[0]) < prev_t or (len(spec["episodes"][k - 1]) == 1 and
                                                                       Decimal(ts[0]) == prev_t)):
                continue  # the clock did not restart
            if k:
                res.faults["clock-restart"] += 1
            stamps = []
            for i, t in enumerate(ts):
                full = self.world(spec, k, Decimal(t))
                kept = deepcopy_obs(full)
                got = f.sense(None, full, pov)
                want = ref(kept, pov)
                oc = obs_canon(got)
                kept_all.append((got, oc, full, obs_canon(kept), t))
                res.event("d", k, t, h64(oc))
                res.sim_time += float(Decimal(t)) - float(Decimal(ts[max(i - 1, 0)]))
                where = f"episode {k}, sensing instants {ts[max(0, i - 3): i + 1]}, latencies {[l.get('lat') for l in spec['layers']]}"
                if not self.compare(want, oc, where, res):
                    return
                self.note(spec, spec["pov"], want, kept, None, res)
                stamps.append(Decimal(got.time))
                if single and stamps[-1] - lat not in {Decimal(x) for x in ts[: i + 1]}:
                    res.violation("stamp", f"{where}: delivered an observation of {stamps[-1] - lat}, nothing was sensed then")
                    return
                if len(stamps) > 1 and stamps[-1] < stamps[-2]:
                    res.violation("order", f"{where}: delivered the observation stamped {stamps[-1]} after that stamped {stamps[-2]}")
                    return
                if i and Decimal(ts[i]) - Decimal(ts[i - 1]) > 2 * (Decimal(ts[1]) - Decimal(ts[0])):
                    res.faults["sensing-stall"] += 1
            prev_t = Decimal(ts[-1])
        for got, oc, full, fc, t in kept_all:
            if obs_canon(got) != oc or obs_canon(full) != fc:
                res.violation("altered", f"the observation {'delivered' if obs_canon(got) != oc else 'sensed'} at {t} was altered afterwards")
                return

    def world(self, spec, k, t: Decimal) -> SimObservations:
        players = {}
        for n in spec["names"]:
            s = ToyState(*[10 * hash_unit(spec["seed"], k, str(t.normalize()), n, i) for i in range(6)])
            players[PlayerName(n)] = PlayerObservations(state=s, occupancy=Point(s.x, s.y).buffer(1, 2))
        return SimObservations(players=fd(players), time=SimTime(t))

    def compare(self, want: SimObservations, got: tuple, where: str, res: Result) -> bool:
        exp = obs_canon(want)
        if exp == got:
            return True
        if exp[0] != got[0]:
            res.violation("delay", f"{where}: delivered the observation stamped {got[0]} rather than {exp[0]}")
        else:
            res.violation("content", f"{where}: the delivered observation (stamped {got[0]}) has players {[p[0] for p in got[1]]} / "
                          f"contents that differ from what was sensed then ({[p[0] for p in exp[1]]})")
        return False


CHECK = Check()
