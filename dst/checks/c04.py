from collections import Counter

from dst.core.result import Result, h64
from dst.world.gen import gen_episode
from dst.world.loop import Loop
from dst.world.world import StopRun, World, canon


class Check:
    ID = "C04"
    RUNS_QUICK = 600
    RUNS_THOROUGH = 60000
    RULE = (
        "A case is one episode generated from (seed, index): random ratio of steps and command period, players, bodies, "
        "scripted agents (constant, random, feedback, object-reusing, byzantine, slow), sensors, goals, obstacles, collisions, "
        "run by the real Simulator.run; non-trivial if at least 3 steps were simulated and commands were both requested "
        "and held or altered after being returned."
    )
    REAL = ["dg_commons.sim.simulator", "simulator_structures", "sim_perception", "goals", "collision*", "all bodies (in some runs)"]
    STUB = ["agents (scripted)", "toy rigid bodies (in most runs)", "wall clock (virtual)"]
    STATE_MEASURE = "(players, ratio bucket, step, active players, requested, faults so far)"

    def gen(self, rng, tier):
        return gen_episode(rng, max_steps=30 if tier == "quick" else 60)

    def run(self, spec, res: Result):
        w = World(spec).run()
        w.trace_into(res)
        lp = Loop(w)
        check_requests(lp, res)
        res.nontrivial = lp.n_steps >= 3 and (
            not all(lp.request) or any(f in ("reused-command-object", "altered-returned-command") for f in w.rec.fault_log)
        )
        res.schedule = h64(tuple(lp.request), tuple(map(len, lp.active)))
        for k in range(lp.n_steps):
            res.state(len(lp.names), float(lp.dtc / lp.dt), k, len(lp.active[k]), lp.request[k])


def check_requests(lp: Loop, res: Result):
    w = lp.w
    steps = lp.n_steps
    horizon = lp.t(steps)
    for t in lp.observed_steps():
        if t not in [lp.t(k) for k in range(steps)] and (lp.upd[t] or lp.ask[t]):
            if lp.ended_at is not None and t >= lp.t(lp.ended_at):
                continue  # a late end is judged by C07
            if any(lp.ask[t].values()) or any(lp.upd[t].values()):
                res.violation("off-grid", f"something happened at time {t} which is not a multiple of the step {lp.dt}")
                return
    observed = set(lp.observed_steps())
    for k in range(steps):
        t = lp.t(k)
        if t not in observed:
            break  # ended earlier than modelled: judged by C07
        for p in lp.names:
            active = p in lp.active[k]
            asks, upds = lp.ask[t][p], lp.upd[t][p]
            want = 1 if active and lp.request[k] else 0
            if len(asks) != want:
                res.violation(
                    "requests",
                    f"step {k} (t={t}): {p} ({'active' if active else 'inactive'}) was asked {len(asks)} times instead of "
                    f"{want} (period {lp.dtc}, step {lp.dt})",
                )
                return
            wantu = 1 if active else 0
            if len(upds) != wantu:
                res.violation("moves", f"step {k} (t={t}): {p} moved {len(upds)} times instead of {wantu}")
                return
            if not active:
                continue
            if upds[0].d["dt"] != lp.dt:
                res.violation("step-length", f"step {k}: {p} moved by {upds[0].d['dt']} instead of {lp.dt}")
                return
            # the commands of the last request, with the values at the moment they were returned
            last = None
            for j in range(k, -1, -1):
                c = lp.cmd[lp.t(j)][p]
                if c:
                    last = c[-1]
                    break
            if last is None:
                res.violation("no-commands", f"step {k}: {p} moved without ever having returned commands")
                return
            if upds[0].d["u"] != last.d["u"]:
                res.violation(
                    "hold", f"step {k} (t={t}): {p} moved under {upds[0].d['u']} while its agent returned {last.d['u']}"
                )
                return
            if last.d["i"] > upds[0].d["i"]:
                res.violation("order", f"step {k}: {p} moved before its agent was asked")
                return


CHECK = Check()
