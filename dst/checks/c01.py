import json

from dst.core.result import Result, h64
from dst.core.sched import Scheduler, gen_switches
from dst.world.gen import FEATURES, gen_episode
from dst.world.world import World, outcome
from dst.checks.c05 import diff


class Check:
    ID = "C01"
    RUNS_QUICK = 260
    RUNS_THOROUGH = 30000
    RULE = (
        "A case is 2 or 3 episodes with the same, overlapping or different player names, first run alone, then at the same time on "
        "threads whose every switch (at callbacks of participants and at source lines of dg_commons) is decided by the generated "
        "list of switches, or one inside a callback of another one; a participant of one of them may fail. Non-trivial if at least "
        "3 switches (or a nested episode) happened while two episodes were alive."
    )
    REAL = ["dg_commons.sim (simulator, sensors, goals, collisions, bodies, agents)", "real threads, one running at a time"]
    STUB = ["agents (scripted, some real)", "toy rigid bodies (in most runs)", "wall clock (virtual)", "locks of dg_commons (scheduler aware)"]
    STATE_MEASURE = "(number of switches bucket, order of the first switches, nested, failing)"
    ASSUMPTIONS = ["Threads switch only at source lines of dg_commons, not inside C code or between bytecodes of one line."]

    def prepare(self):
        # imports and caches that happen only once in a process would make the number of executed lines differ
        from dst.core.rng import Rng

        for i in range(6):
            rng = Rng(f"warm{i}")
            World(json.loads(json.dumps(gen_episode(rng, features=["real", "impl", "collide", "obstacles", "goals"], max_steps=4,
                                                    real_p=1.0)))).run()

    def gen(self, rng, tier):
        n = rng.pick([2, 2, 2, 3])
        names = rng.pick(["same", "same", "other"])
        worlds = []
        base = rng.fork("names").randint(0, 10**6)
        for i in range(n):
            fs = sorted(f for f in FEATURES + ["impl"] if rng.flip(0.45))
            w = gen_episode(rng, features=fs, max_steps=8 if tier == "quick" else 14, n_max=3, prefix="" if names == "same" else f"w{i}_")
            if names == "same":
                order = ["P1", "Ego", "b"]
                ren = {}
                for k, pl in enumerate(w["players"]):
                    ren[pl["name"]] = order[k]
                    pl["name"] = order[k]
                for pl in w["players"]:
                    if pl.get("sensor", {}).get("who"):
                        pl["sensor"]["who"] = ren.get(pl["sensor"]["who"], "P1")
            worlds.append(w)
        spec = dict(worlds=worlds, switches=gen_switches(rng, n))
        if rng.flip(0.25):
            spec["nest"] = [rng.randrange(n), rng.randint(2, 40)]
        if rng.flip(0.3):
            w = rng.pick(worlds)
            if w["players"]:
                pl = rng.pick(w["players"])
                where = rng.pick(["cmd", "extra", "init", "model"])
                if where == "model":
                    pl["model"]["crash"] = rng.randint(1, 6)
                else:
                    pl["agent"]["crash"] = [where, 1 if where == "init" else rng.randint(1, 4)]
        if rng.flip(0.25):
            spec["share"] = True
            for w in worlds[1:]:
                w["obstacles"] = worlds[0]["obstacles"]
        return spec

    def run(self, spec, res: Result):
        specs = spec["worlds"]
        if not specs:
            return
        solo = [World(s).run() for s in specs]
        scenario = None
        if spec.get("share"):
            scenario = World(dict(specs[0], players=[])).ctx.dg_scenario
        worlds = [World(s, scenario=scenario) for s in specs]
        nest = spec.get("nest")
        if nest and len(worlds) > 1:
            outer = worlds[nest[0] % len(worlds)]
            inner = worlds[(nest[0] + 1) % len(worlds)]
            count = [0]

            def yielder(_):
                count[0] += 1
                if count[0] == nest[1]:
                    res.faults["nested-episode"] += 1
                    inner.run()

            outer.rec.yielder = yielder
            outer.run()
            if count[0] < nest[1]:
                inner.run()
            for w in worlds:
                if w not in (outer, inner):
                    w.run()
            res.nontrivial = count[0] >= nest[1]
            res.schedule = h64("nest", nest[1], count[0])
        else:
            sch = Scheduler(spec.get("switches") or [])
            for w in worlds:
                w.rec.yielder = lambda _: sch.yield_point()
            done = sch.run([w.run for w in worlds])
            res.stats["yield-points"] += sch.n_yields
            res.stats["switches"] += sch.n_switches
            res.faults["preemption"] += sch.n_switches
            res.nontrivial = sch.n_switches >= 3
            res.schedule = h64(tuple(sch.order), sch.n_yields)
            res.event("schedule", sch.order, sch.n_yields)
            for w in done:
                if w.error is not None:
                    res.violation("thread", f"simulation {w.tid} failed with {type(w.error).__name__}: {w.error} when run concurrently")
                    return
            res.state(min(sch.n_switches, 20), tuple(sch.order[:6]))
        for w in worlds:
            w.trace_into(res)
        for i, (a, b) in enumerate(zip(worlds, solo)):
            if str(a.error) != str(b.error) or type(a.error) is not type(b.error):
                res.violation("error", f"simulation {i} ended with {a.error!r} instead of {b.error!r} as alone")
                return
            if a.error is None and outcome(a.ctx) != outcome(b.ctx):
                res.violation("outcome", f"simulation {i} has another outcome than alone: {diff(a.ctx, b.ctx)}")
                return
            ha, hb = a.history(), b.history()
            if ha != hb:
                k = next((k for k, (x, y) in enumerate(zip(ha, hb)) if x != y), min(len(ha), len(hb)))
                res.violation("history", f"simulation {i}: event {k} is {ha[k:k+1]} instead of {hb[k:k+1]} as alone")
                return


CHECK = Check()
