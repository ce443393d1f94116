import math
from decimal import Decimal
from fractions import Fraction

from dg_commons import DgSampledSequence, PlayerName, UndefinedAtTime, fd
from dg_commons.seq.sequence import DgSampledSequenceBuilder
from dg_commons.sim import SimObservations, SimTime
from dg_commons.sim.agents.agent import Agent, NPAgent, PolicyAgent
from dg_commons.sim.simulator import Simulator
from dg_commons.sim.simulator_structures import InitSimObservations, PlayerObservations
from dst.checks.c13 import gen_layers
from dst.core.result import Result, h64
from dst.core.rng import Rng
from dst.world.bodies import COMMAND_SCALE, ToyState, make_command
from dst.world.gen import NAMES, gen_episode
from dst.world.world import World, canon, deepcopy_obs, hash_unit
from shapely.geometry import Point

TIMES = {"D": Decimal, "f": float, "i": lambda s: int(Decimal(s))}


def law(a: dict, state) -> list[float]:
    """The policy of a policy agent: a function of the state"""
    s = [float(getattr(state, f, 0.0)) for f in ("x", "y", "psi", "vx")]
    scale = COMMAND_SCALE[a["kind"]]
    return [a["amp"] * c * math.tanh(sum(hash_unit(a["seed"], i, j) * v for j, v in enumerate(s))) for i, c in enumerate(scale)]


class Watch(Agent):
    """Records what a real agent is asked and answers"""

    def __init__(self, inner, a: dict, log: list):
        self.inner, self.a, self.log = inner, a, log
        self.name = None

    def on_episode_init(self, init_sim_obs):
        self.name = init_sim_obs.my_name
        self.inner.on_episode_init(init_sim_obs)

    def get_commands(self, sim_obs):
        obs = deepcopy_obs(sim_obs)
        n_calls = len(self.a.setdefault("calls", []))
        entry = dict(name=str(self.name), obs=obs, cmd=None, err=None, calls=())
        self.log.append((self.a, entry))
        try:
            cmd = self.inner.get_commands(sim_obs)
            entry["cmd"] = canon(cmd)
        except BaseException as e:
            entry["err"] = e
            raise
        finally:
            entry["calls"] = tuple(self.a["calls"][n_calls:])
        return cmd

    def on_get_extra(self):
        return self.inner.on_get_extra()


def make_agent(a: dict, plans: dict):
    if a["impl"] == "policy":
        def policy(state):
            a["calls"].append(canon(state))
            return make_command(a["kind"], law(a, state))

        return PolicyAgent(policy)
    key = a["share"]
    if key not in plans:
        ts = [TIMES[a["ty"]](t) for t, _ in a["plan"]]
        vs = [make_command(a["kind"], u) for _, u in a["plan"]]
        if a["built"]:
            b = DgSampledSequenceBuilder[type(vs[0])]()
            for t, v in zip(ts, vs):
                b.add(t, v)
            plans[key] = b.as_sequence()
        else:
            plans[key] = DgSampledSequence[type(vs[0])](timestamps=ts, values=vs)
    return NPAgent(plans[key])


class Check:
    ID = "C23"
    RUNS_QUICK = 1200
    RUNS_THOROUGH = 120000
    RULE = (
        "A case is, from (seed, index), either one to three episodes of the simulator with plan-following and policy agents (reused under "
        "other names, sharing plans) among scripted ones, with delayed, partial and ghosted sensors, byzantine participants, bodies that "
        "alter commands and arbitrary request schedules, or direct requests at jumping, repeated and backward observed times. Every answer "
        "is compared with the plan or policy at the observation as it was handed over. Non-trivial if the observed time differed from the "
        "time of the request, or went back, for an agent with more than one planned command."
    )
    REAL = ["dg_commons.sim.agents.agent", "dg_commons.seq.sequence", "dg_commons.sim.simulator", "dg_commons.sim.sim_perception"]
    STUB = ["scripted agents", "policies", "drop-out sensor", "wall clock (virtual)"]
    STATE_MEASURE = "(agent, type of the times, number of planned commands, position of the observed time in the plan, delay, outcome)"

    def gen_agent(self, rng: Rng, i: int, kind: str, t1: float, pool: list) -> dict:
        if rng.flip(0.35):
            return dict(impl="policy", kind=kind, amp=rng.r(0.1, 1), seed=rng.randint(0, 10**6), share=i)
        same = [a for a in pool if a["impl"] == "np" and a["kind"] == kind]
        if same and rng.flip(0.3):
            return dict(rng.pick(same))
        ty = rng.pick(["D", "D", "f", "i"])
        t = Decimal(rng.pick(["0", "0", "0", "-1", "-2.5", "1", str(rng.r(0, t1, 2))]))
        plan = []
        grid = rng.flip(0.5)
        for _ in range(rng.randint(1, 9)):
            plan.append([str(t), [round(rng.r(-1, 1) * s, 6) for s in COMMAND_SCALE[kind]]])
            if ty == "i":
                t = Decimal(int(t) + rng.randint(1, 3))
            else:
                t += Decimal("0.1") * rng.randint(1, 5) if grid else Decimal(str(rng.r(0.01, max(0.1, t1 / 3), 3)))
        return dict(impl="np", kind=kind, ty=ty, plan=plan, share=i, built=rng.flip(0.5))

    def gen(self, rng, tier):
        if rng.flip(0.4):
            names = rng.sample(NAMES, rng.randint(1, 4))
            agents = []
            for i in range(rng.randint(1, 3)):
                agents.append(self.gen_agent(rng, i, "toy", 5.0, agents))
            reqs, t = [], Decimal(0)
            for _ in range(rng.randint(1, 30)):
                how = rng.pick(["on", "step", "step", "jump", "back", "repeat", "edge"])
                a = rng.randrange(len(agents))
                if how == "on" and agents[a]["impl"] == "np":
                    t = Decimal(rng.pick(agents[a]["plan"])[0])
                elif how == "edge" and agents[a]["impl"] == "np":
                    t = Decimal(rng.pick(agents[a]["plan"])[0]) + Decimal(rng.pick(["0.000001", "-0.000001"]))
                elif how == "step":
                    t += Decimal("0.1")
                elif how == "jump":
                    t += Decimal(str(rng.r(0, 6)))
                elif how == "back":
                    t -= Decimal(str(rng.r(0, 6)))
                reqs.append([a, str(t), how, rng.randrange(len(names)) if rng.flip(0.15) else -1])
            return dict(mode="direct", names=names, agents=agents, reqs=reqs, seed=rng.randint(0, 10**6), mutate=rng.flip(0.5))
        episodes, agents = [], []
        for _ in range(rng.pick([1, 1, 2, 3])):
            e = gen_episode(rng, features=["sensors", "real"] + rng.sample(["byz", "reuse", "slow", "extra", "inplace", "chase", "goals", "collide", "mutcmd"], 3),
                            max_steps=25, n_max=4)
            names = [p["name"] for p in e["players"]]
            unit = max(Decimal(e["dt"]), Decimal(e["dtc"]))
            used = set()
            for p in e["players"]:
                if rng.flip(0.6):
                    p["sensor"] = dict(k="chain", layers=gen_layers(rng, unit, names))
                if rng.flip(0.25):
                    continue
                kind = p["model"]["kind"]
                old = [i for i, a in enumerate(agents) if a["kind"] == kind and i not in used]
                if old and rng.flip(0.7):
                    i = rng.pick(old)
                else:
                    i = len(agents)
                    agents.append(self.gen_agent(rng, i, kind, float(e["tmax"]), agents))
                used.add(i)
                p["watch"] = i
            episodes.append(e)
        return dict(mode="sim", episodes=episodes, agents=agents)

    def run(self, spec, res: Result):
        spec = dict(spec, agents=[dict(a, calls=[]) for a in spec["agents"]])
        plans: dict = {}
        agents = [make_agent(a, plans) for a in spec["agents"]]
        (self.run_direct if spec["mode"] == "direct" else self.run_sim)(spec, agents, res)

    def run_sim(self, spec, agents, res: Result):
        sim = Simulator()
        for k, e in enumerate(spec["episodes"]):
            w = World(e)
            log: list = []
            for p in e["players"]:
                if "watch" in p:
                    w.ctx.players[PlayerName(p["name"])] = Watch(agents[p["watch"]], spec["agents"][p["watch"]], log)
            failed = None
            try:
                w.run(sim)
            except UndefinedAtTime as err:
                failed = err
                object.__setattr__(w.ctx, "_rec", None)
            w.trace_into(res)
            if k:
                res.faults["agents-reused-in-another-episode"] += 1
            last: dict = {}
            stop = False
            for n, (a, entry) in enumerate(log):
                now = None
                if not self.judge(a, entry, f"episode {k}, request {n} to {entry['name']}", last, res):
                    return
                stop = entry["err"] is not None
                if stop and n != len(log) - 1:
                    res.violation("continued", f"episode {k}: requests went on after the failure of {entry['name']}")
                    return
            if stop != (failed is not None) or (stop and failed is not log[-1][1]["err"]):
                res.violation("failure", f"episode {k}: the failure of the agent ({log[-1][1]['err']!r}) reached the caller as {failed!r}")
                return
            # what was asked is what the simulator recorded
            for p in e["players"]:
                if "watch" not in p:
                    continue
                got = [entry["cmd"] for a, entry in log if entry["name"] == p["name"] and entry["err"] is None]
                rec = [canon(c) for _, c in w.ctx.log[PlayerName(p["name"])].commands] if failed is None else got
                if rec != got:
                    res.violation("log", f"episode {k}: {p['name']} returned {len(got)} commands, logged are {len(rec)} (or other ones)")
                    return
            delays = any(l["k"] == "delay" and Decimal(l["lat"]) > 0 for p in e["players"] if "watch" in p and p.get("sensor")
                         for l in p["sensor"].get("layers", ()))
            if delays and log:
                res.faults["delayed-sensor"] += 1
                res.nontrivial |= any(a["impl"] == "np" and len(a["plan"]) > 1 for a, _ in log)

    def run_direct(self, spec, agents, res: Result):
        pov: list = [None] * len(agents)
        log: list = []
        last: dict = {}
        res.schedule = h64([(a, h) for a, _, h, _ in spec["reqs"]])
        for n, (i, t, how, who) in enumerate(spec["reqs"]):
            a = spec["agents"][i]
            w = Watch(agents[i], a, log)
            if pov[i] is None or who >= 0:
                pov[i] = PlayerName(spec["names"][max(who, 0)])
                w.on_episode_init(InitSimObservations(my_name=pov[i], seed=0, dg_scenario=None, goal=None, model_geometry=None, model_params=None))
            w.name = pov[i]
            players = {}
            for m in spec["names"]:
                s = ToyState(*[10 * hash_unit(spec["seed"], n, m, j) for j in range(6)])
                players[PlayerName(m)] = PlayerObservations(state=s, occupancy=Point(s.x, s.y).buffer(1, 2))
            try:
                cmd = w.get_commands(SimObservations(players=fd(players), time=SimTime(t)))
            except UndefinedAtTime:
                cmd = None
            if how in ("back", "repeat", "jump"):
                res.faults["clock-" + how] += 1
                res.nontrivial |= a["impl"] == "np" and len(a["plan"]) > 1 and how == "back"
            if not self.judge(*log[-1], f"request {n} ({how})", last, res):
                return

    def judge(self, a, entry, where, last, res: Result) -> bool:
        obs, name = entry["obs"], entry["name"]
        t = Fraction(Decimal(obs.time))
        err = entry["err"]
        if a["impl"] == "np":
            want, pos = None, 0
            for ts, u in a["plan"]:
                if Fraction(TIMES[a["ty"]](ts)) <= t:
                    want, pos = u, pos + 1
            res.state("np", a["ty"], len(a["plan"]), pos, h64(str(last.get(name, 0) > t)))
            last[name] = t
            res.event("np", name, str(obs.time), pos, type(err).__name__, h64(entry["cmd"]))
            if want is None:
                if not isinstance(err, UndefinedAtTime):
                    res.violation("early", f"{where}: observed time {obs.time}, the plan begins at {a['plan'][0][0]}: "
                                  f"{'answered' if err is None else repr(err)[:80]} rather than failing")
                    return False
                return True
            if err is not None or entry["cmd"] != canon(make_command(a["kind"], want)):
                res.violation("plan", f"{where}: observed time {obs.time}: returned {entry['cmd'] if err is None else repr(err)[:80]}, the latest planned "
                              f"command is number {pos} of {len(a['plan'])} ({a['plan'][pos - 1]})")
                return False
            return True
        own = obs.players[PlayerName(name)].state
        res.event("policy", name, str(obs.time), type(err).__name__, h64(entry["cmd"]))
        res.state("policy", len(obs.players), a["kind"])
        if err is not None or entry["cmd"] != canon(make_command(a["kind"], law(a, own))):
            res.violation("policy", f"{where}: returned {entry['cmd'] if err is None else repr(err)[:80]}, the policy gives "
                          f"{law(a, own)} for the own observed state")
            return False
        if any(c != canon(own) for c in entry["calls"]):
            res.violation("state", f"{where}: the policy was given another state than that of {name}")
            return False
        return True


CHECK = Check()
