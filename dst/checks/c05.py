import json

from dst.core.result import Result, h64
from dst.world import bodies
from dst.world.gen import FEATURES, gen_episode
from dst.world.loop import Loop
from dst.world.world import StopRun, World, canon, outcome


def without(spec: dict, *keys: str) -> dict:
    s = json.loads(json.dumps(spec))
    for pl in s["players"]:
        for k in keys:
            (pl.get("agent") or {}).pop(k, None)
    return s


class Check:
    ID = "C05"
    RUNS_QUICK = 450
    RUNS_THOROUGH = 40000
    RULE = (
        "A case is one episode generated from (seed, index) with stateless and stateful sensors, sensors given for a subset of the "
        "players, missions (removals) and byzantine agents that alter everything reachable from the observations, scenario and goal "
        "they are handed; it is re-run without the byzantine behaviour and with the players in reversed order. Non-trivial if at "
        "least two players were active at a request."
    )
    REAL = ["dg_commons.sim.simulator", "simulator_structures", "sim_perception", "goals", "collision*", "all bodies (in some runs)"]
    STUB = ["agents (scripted)", "toy rigid bodies (in most runs)", "wall clock (virtual)"]
    STATE_MEASURE = "(step, active players, observed players, sensors, removed so far)"

    def gen(self, rng, tier):
        fs = {f for f in FEATURES if rng.flip(0.5)} | {"sensors"}
        if rng.flip(0.7):
            fs.add("byz")
        spec = gen_episode(rng, features=sorted(fs), max_steps=20 if tier == "quick" else 50)
        spec["default_sensors"] = rng.flip(0.5)
        return spec

    def run(self, spec, res: Result):
        w = World(spec).run()
        w.trace_into(res)
        lp = Loop(w)
        check_snapshots(lp, res)
        for k in range(lp.n_steps):
            res.state(k, len(lp.active[k]), lp.request[k], len(lp.removed), len(spec["players"]))
        res.nontrivial = any(len(a) > 1 and r for a, r in zip(lp.active, lp.request))
        res.schedule = h64(tuple(lp.request), tuple(map(tuple, lp.active)))
        if res.violations or w.error is not None:
            return
        byz = [p for p in spec["players"] if (p.get("agent") or {}).get("byz")]
        if byz:
            w2 = World(without(spec, "byz")).run()
            res.event("honest", h64(outcome(w2.ctx)))
            if outcome(w.ctx) != outcome(w2.ctx) or str(w.error) != str(w2.error):
                res.violation(
                    "contamination",
                    f"altering what they were handed, {[p['name'] for p in byz]} changed the outcome: {diff(w.ctx, w2.ctx)}",
                )
                return
        if len(spec["players"]) > 1:
            s3 = json.loads(json.dumps(spec))
            s3["players"].reverse()
            w3 = World(s3).run()
            res.event("reversed", h64(outcome(w3.ctx)))
            a, b = bool(w.ctx.collision_reports), bool(w3.ctx.collision_reports)
            if not a and not b:
                o1, o3 = list(outcome(w.ctx)), list(outcome(w3.ctx))
                o1[3], o3[3] = sorted(o1[3]), sorted(o3[3])
                if o1 != o3:
                    res.violation("order", f"reversing the order of the players changed the outcome: {diff(w.ctx, w3.ctx)}")
            else:  # collisions are resolved one after the other, in the order of the players
                res.stats["order-not-compared"] += 1


def diff(c1, c2) -> str:
    for p in sorted(c1.log):
        if p not in c2.log:
            return f"{p} has no log"
        for what in ("states", "commands", "extra", "info"):
            a, b = list(getattr(c1.log[p], what)), list(getattr(c2.log[p], what))
            for (t1, v1), (t2, v2) in zip(a, b):
                if t1 != t2 or canon(v1) != canon(v2):
                    return f"{what} of {p} at {t1}/{t2}: {v1} instead of {v2}"
            if len(a) != len(b):
                return f"{what} of {p}: {len(a)} entries instead of {len(b)}"
    return f"reports {len(c1.collision_reports)}/{len(c2.collision_reports)}, end {c1.time}/{c2.time}"


def check_snapshots(lp: Loop, res: Result):
    w = lp.w
    specs = {p["name"]: p for p in w.spec["players"]}
    probes = {n: bodies.make_model(s["model"]) for n, s in specs.items()}
    # what agents are handed at the beginning
    for e in w.rec.of("init"):
        if e.d["obstacles"] != w.initial_obstacles:
            res.violation("init-scenario", f"{e.p} was handed an altered scenario")
            return
        if e.d["goal"] != w.initial_goals.get(e.p):
            res.violation("init-goal", f"{e.p} was handed an altered goal {e.d['goal']} instead of {w.initial_goals.get(e.p)}")
            return
    if sorted(e.p for e in w.rec.of("init")) != sorted(lp.names):
        res.violation("init", "not every agent was initialised exactly once")
        return
    if tuple(canon(o.shape) for o in w.ctx.dg_scenario.static_obstacles) != w.initial_obstacles:
        res.violation("world-altered", "the obstacles of the scenario changed during the episode")
        return
    for k in range(lp.n_steps):
        t = lp.t(k)
        snap = None
        for p in lp.active[k]:
            for e in lp.upd[t][p]:
                if e.d["before"] != canon(lp.before[k][p]):
                    res.violation("world-altered", f"step {k}: the state of {p} changed from outside: {e.d['before']} instead of {canon(lp.before[k][p])}")
                    return
            if not lp.request[k] or not lp.ask[t][p]:
                continue
            if snap is None:
                ps = []
                for q in sorted(lp.active[k]):
                    probes[q].set_state(lp.before[k][q])
                    ps.append((q, canon(lp.before[k][q]), canon(probes[q].get_footprint())))
                snap = (canon(t), tuple(ps))
            got = lp.ask[t][p][-1].d["obs"]
            want = snap
            if specs[p].get("sensor"):
                ins, outs = lp.sense[t][p], lp.sensed[t][p]
                if not ins or not outs:
                    res.violation("sensor", f"step {k}: the sensor of {p} was not used")
                    return
                for e in ins:
                    if e.d["full"] != snap or e.d["pov"] != p:
                        res.violation("snapshot", f"step {k} (t={t}): the sensor of {p} received {explain(e.d['full'], snap)} (pov {e.d['pov']})")
                        return
                want = outs[-1].d["obs"]
            if got != want:
                res.violation("snapshot", f"step {k} (t={t}): {p} observed {explain(got, want)}")
                return
            res.stats["observations"] += 1


def explain(got, want) -> str:
    if got[0] != want[0]:
        return f"time {got[0]} instead of {want[0]}"
    g, wn = {x[0]: x for x in got[1]}, {x[0]: x for x in want[1]}
    if set(g) != set(wn):
        return f"players {sorted(g)} instead of {sorted(wn)}"
    for p in g:
        if g[p][1] != wn[p][1]:
            return f"state of {p} {g[p][1]} instead of {wn[p][1]}"
        if g[p] != wn[p]:
            return f"another occupied area of {p}"
    return "?"


CHECK = Check()
