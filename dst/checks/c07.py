from decimal import Decimal

from dst.core.result import Result, h64
from dst.world.gen import FEATURES, gen_episode
from dst.world.loop import Loop
from dst.world.world import StopRun, World


class Check:
    ID = "C07"
    RUNS_QUICK = 900
    RUNS_THOROUGH = 90000
    RULE = (
        "A case is one episode generated from (seed, index): step, maximum time (multiple of the step or not), time to simulate "
        "after a collision, missions of all, some or none of the players, collisions with players and obstacles, also no players at "
        "all; run until it ends or exceeds twenty times the bound of steps. Non-trivial if it took at least two steps."
    )
    REAL = ["dg_commons.sim.simulator", "goals", "collision*", "all bodies (in some runs)"]
    STUB = ["agents (scripted)", "toy rigid bodies (in most runs)", "wall clock (virtual)"]
    STATE_MEASURE = "(reason of the end, steps, missions, players left, first collision step)"

    def gen(self, rng, tier):
        fs = {f for f in FEATURES if rng.flip(0.5)} - {"byz"}
        if rng.flip(0.5):
            fs |= {"collide", "after"}
        if rng.flip(0.4):
            fs |= {"goals"}
        spec = gen_episode(rng, features=sorted(fs), max_steps=40 if tier == "quick" else 150)
        dt = Decimal(spec["dt"])
        if rng.flip(0.03):
            spec["players"] = []
        if rng.flip(0.2):
            # the time after a collision is not a multiple of the step
            spec["after"] = str(dt * rng.randint(0, 10) + dt * Decimal(rng.pick(["0.5", "0.01", "0.99"])))
        if rng.flip(0.1):
            spec["tmax"] = str(dt * Decimal(rng.pick(["0", "0.5", "1"])))
        return spec

    def run(self, spec, res: Result):
        w = World(spec).run()
        w.trace_into(res)
        lp = Loop(w)
        check_end(lp, res)
        res.nontrivial = lp.n_steps >= 2
        res.schedule = h64(lp.n_steps, tuple(map(len, lp.active)))


def check_end(lp: Loop, res: Result):
    w = lp.w
    ctx = w.ctx
    if isinstance(w.error, StopRun):
        res.violation("endless", f"the episode did not end within {w.rec.step_budget} readings of its termination flag, although "
                                 f"{lp.dt} s steps reach {lp.tmax} s in {w.max_steps} steps (clock {ctx.time})")
        return
    now = Decimal(0)
    for e in w.rec.of("set:time"):
        if e.t == now:
            continue
        if e.t != now + lp.dt:
            res.violation("clock", f"the clock went from {now} to {e.t} with a step of {lp.dt}")
            return
        now = e.t
        res.stats["steps"] += 1
    if ctx.time != now:
        res.violation("clock", f"the clock shows {ctx.time} instead of {now}")
        return
    if not ctx.sim_terminated:
        res.violation("flag", "run returned but the episode is not marked as terminated")
        return
    first = min((r.at_time for r in lp.reports), default=None)
    if lp.early is not None:
        res.violation("early", f"the episode ended at {now} although it should go on (maximum time {lp.tmax}, first collision {first}, "
                               f"after collision {lp.after}, missions {lp.missions}, left {sorted(lp.removed)})")
        return
    want = lp.t(lp.ended_at) if lp.ended_at is not None else None
    if want != now:
        res.violation("late", f"the episode ended at {now} instead of {want} (maximum time {lp.tmax}, first collision {first}, "
                              f"after collision {lp.after}, missions {lp.missions}, left {sorted(lp.removed)})")
        return
    if lp.tmax >= 0 and lp.ended_at > int(lp.tmax / lp.dt) + 1:
        res.violation("bound", f"{lp.ended_at} steps of {lp.dt} for a maximum time of {lp.tmax}")
        return
    t = lp.t(lp.ended_at)
    why = "time" if t > lp.tmax else "collision" if first is not None and t > first + lp.after else "missions" if lp.missions else "empty"
    res.stats["end:" + why] += 1
    res.state(why, lp.ended_at, len(lp.missions), len(lp.removed), None if first is None else str(first / lp.dt))


CHECK = Check()
