import json
import os
import random
import subprocess
from decimal import Decimal

import numpy as np

from dst.core import boot
from dst.core.clock import CLOCK
from dst.core.engine import sub_python
from dst.core.result import HarnessError, Result, h64
from dst.core.rng import Rng
from dst.world.gen import FEATURES, gen_episode
from dst.world.contact import gen_contact
from dst.world.world import World, canon, debug_logging, log_canon, outcome, report_canon
from dg_commons.sim import SimParameters
from dg_commons.sim.scenarios.factory import get_scenario_commonroad_replica
from dg_commons.sim.simulator import Simulator

REPLICAS = ["USA_Phoenix-51_10_T-1", "USA_Lanker-1_1_T-1"]


def run_replica(e: dict):
    d = os.path.join(boot.REPO, "scenarios", "testing")
    ctx = get_scenario_commonroad_replica(
        e["replica"], scenarios_dir=d, seed=e.get("seed", 0),
        sim_param=SimParameters(dt=Decimal(e["dt"]), dt_commands=Decimal(e["dtc"]), max_sim_time=Decimal(e["tmax"]),
                                sim_time_after_collision=Decimal(10)),
    )
    for i, p in enumerate(sorted(ctx.models)):
        # pushed together, so that they collide
        m = ctx.models[p]
        s = m.get_state()
        s.vx += e.get("push", 0.0) * (i % 3 - 1)
        m.set_state(s)
    Simulator().run(ctx)
    return dict(
        logs={p: h64(log_canon({p: ctx.log[p]})) for p in ctx.log},
        reports=[h64(report_canon(r)) for r in ctx.collision_reports],
        obstacles=[h64(canon(o.shape)) for o in ctx.dg_scenario.static_obstacles],
        end=str(ctx.time),
        total=h64(outcome(ctx)),
    )


def run_episode(e: dict):
    """Digests of everything a user gets from an episode"""
    if "replica" in e:
        return run_replica(e)
    w = World(e).run()
    ctx = w.ctx
    hist = [
        (x.kind, str(x.t), x.p, h64({k: v for k, v in x.d.items() if not k.startswith("raw") and k not in ("i", "spent")}))
        for x in w.rec.events
    ]
    bad_seeds = [(x.p, x.d["raw_seed"]) for x in w.rec.of("init") if x.d["raw_seed"] != e.get("seed", 0)]
    return dict(
        logs={p: h64(log_canon({p: ctx.log[p]})) for p in sorted(ctx.log)},
        reports=[h64(report_canon(r)) for r in ctx.collision_reports],
        end=str(ctx.time),
        history=h64(hist),
        total=h64(outcome(ctx)),
        bad_seeds=bad_seeds,
        sim=float(ctx.time),
        steps=len(w.rec.of("upd")),
    )


def set_environment(env: dict):
    CLOCK.reset(start=env.get("clock0", 1000.0), auto=env.get("auto", 0.0))
    random.seed(env.get("rng", 1))
    np.random.seed(env.get("rng", 1))


class Check:
    ID = "C03"
    RUNS_QUICK = 24
    RUNS_THOROUGH = 1500
    NO_SELF_CHECK = True
    RULE = (
        "A case is a batch of generated episodes (scripted and real agents, bodies, sensors, obstacles, collisions; replicas of recorded "
        "scenarios) run in two processes that differ in hash seed, wall clock (start, speed, backward), state of the global random "
        "generators, order of and activity before the episodes, and verbosity of the logging; non-trivial if at least 20 updates of "
        "bodies were compared."
    )
    REAL = ["dg_commons.sim (simulator, sensors, goals, collisions, bodies, agents, scenario factory)", "logging (in the second process)"]
    STUB = ["agents (scripted, some real)", "toy rigid bodies (in some runs)", "wall clock (virtual)"]
    STATE_MEASURE = "(kinds of bodies and agents in the batch)"

    def gen(self, rng, tier):
        eps = []
        for i in range(9 if tier == "quick" else 25):
            fs = {f for f in FEATURES if rng.flip(0.5)} | {"impl", "real"}
            fs.discard("slow") if rng.flip(0.7) else None
            eps.append(gen_episode(rng, features=sorted(fs), max_steps=14, n_max=4, real_p=0.8))
        for i in range(3):
            eps.append(gen_contact(rng, steps=10))
        for n in REPLICAS[: 1 if rng.flip(0.7) else 2]:
            eps.append(dict(replica=n, dt="0.1", dtc=rng.pick(["0.1", "0.2"]), tmax=rng.pick(["0.5", "0.8"]), push=rng.r(0, 12)))
        eps += [dict(gen_episode(rng, features=["impl", "real"], max_steps=10, real_p=1.0), players=[
            dict(name="lf", model=dict(kind="car", x0=[0, 0, 0, 3, 0]),
                 agent=dict(impl="lf", lane=dict(p=[0, 0.3], th=0.0, segs=[[60.0, 0.01]], ds=2.0, r=2.0), xtra=True))],
            dt="0.1", dtc="0.1", tmax="9", after="100", obstacles=[])]
        env = dict(hashseed=str(rng.randint(1, 4000)), clock0=rng.pick([0.0, -50.0, 1.7e9]), auto=rng.pick([0.0, 0.013, 7.0, -0.5]),
                   rng=rng.randint(1, 10**6), reverse=rng.flip(0.5), logs=rng.pick([0, 1, 2]), prior=rng.randint(0, 4))
        return dict(episodes=eps, env=env)

    def child(self, spec: dict):
        env = spec["env"]
        set_environment(env)
        for i in range(env.get("prior", 0)):
            rng = Rng(f"prior{env.get('rng')}/{i}")
            World(json.loads(json.dumps(gen_episode(rng, features=["real", "collide", "goals", "sensors"], max_steps=6)))).run()
        idx = list(range(len(spec["episodes"])))
        if env.get("reverse"):
            idx.reverse()
        out = {}
        for i in idx:
            try:
                with debug_logging(env.get("logs") == 2):
                    out[str(i)] = run_episode(spec["episodes"][i])
            except Exception as ex:  # judged by the other checks
                out[str(i)] = dict(error=type(ex).__name__)
        return out

    def run(self, spec, res: Result):
        eps, env = spec["episodes"], spec["env"]
        path = os.path.join(os.environ["DST_SCRATCH"], f"c03-{os.getpid()}.json")
        with open(path, "w") as fh:
            json.dump(spec, fh)
        cp = sub_python([self.ID, "--exec", path], env.get("hashseed", "1"), 120, **({"DST_LOGS": "1"} if env.get("logs") else {}))
        line = [l for l in cp.stdout.splitlines() if l.startswith("OUT ")]
        if not line:
            raise HarnessError(f"child failed ({cp.returncode}): {cp.stderr[-1500:]}")
        other = json.loads(line[0][4:])
        for k in ("hashseed", "logs", "auto", "prior", "reverse"):
            if env.get(k):
                res.faults["env-" + k] += 1
        n = 0
        for i, e in enumerate(eps):
            set_environment({})
            try:
                here = json.loads(json.dumps(run_episode(e)))
            except Exception as ex:  # judged by the other checks
                here = dict(error=type(ex).__name__)
            there = other[str(i)]
            res.event("episode", i, here.get("total"))
            n += here.get("steps") or 50
            res.sim_time += here.get("sim") or 0.0
            if here.get("bad_seeds"):
                res.violation("seed", f"episode {i}: agents got other seeds: {here['bad_seeds']} instead of {e.get('seed')}")
                return
            if here != there:
                what = [k for k in here if here[k] != there.get(k)]
                detail = [p for p in here.get("logs", {}) if here["logs"][p] != there.get("logs", {}).get(p)]
                pls = [(p["name"], p["model"]["kind"], p["agent"].get("impl")) for p in e.get("players", []) if p["name"] in detail]
                res.violation("differs", f"episode {i} ({'replica ' + e['replica'] if 'replica' in e else 'generated'}) differs between two "
                                         f"processes in {what}, players {pls or detail} (environment {env})")
                return
            for p in e.get("players", []):
                res.state(p["model"]["kind"], p["agent"].get("impl"), (p.get("sensor") or {}).get("k"))
        res.nontrivial = n >= 20
        res.schedule = h64(sorted(env.items()))

    def shrink(self, spec):
        eps = spec["episodes"]
        if len(eps) > 1:
            for i in range(len(eps)):
                yield {**spec, "episodes": [eps[i]]}
            yield {**spec, "episodes": eps[: len(eps) // 2]}
            yield {**spec, "episodes": eps[len(eps) // 2:]}
        for k in ("prior", "reverse", "logs", "auto"):
            if spec["env"].get(k):
                yield {**spec, "env": {**spec["env"], k: 0}}
        for i, e in enumerate(eps):
            for j in range(len(e.get("players", []))):
                yield {**spec, "episodes": [{**e, "players": e["players"][:j] + e["players"][j + 1:]}]}


CHECK = Check()
