import math

from dst.core.result import Result, h64
from dst.core.rng import Rng
from dst.world.gen import FEATURES, gen_episode
from dst.world.world import FLAVOURS, StopRun, World, outcome
from dst.checks.c05 import diff
from dg_commons.sim.simulator import Simulator


def inject(rng: Rng, spec: dict) -> None:
    """Picks a participant and a point of the episode at which it fails"""
    if not spec["players"]:
        return
    pl = rng.pick(spec["players"])
    where = rng.pick(["init", "cmd", "cmd", "extra", "sensor", "goal", "model", "model", "footprint", "contact", "contact"])
    k = rng.pick([1, 1, 2, 3, rng.randint(1, 15)])
    spec["flavour"] = rng.pick(sorted(FLAVOURS))
    if where in ("init", "cmd", "extra"):
        pl["agent"]["crash"] = [where, 1 if where == "init" else k]
    elif where == "sensor":
        pl["sensor"] = dict(k="id", crash=k)
    elif where == "goal":
        pl["goal"] = dict(k="never", crash=k)
    elif where == "model":
        pl["model"]["crash"] = k
    elif where == "contact":
        pl["model"]["crash_in"] = [rng.pick(["get_mesh", "get_mesh", "get_velocity", "get_pose"]), rng.pick([1, 1, 2, 3])]
        if spec["flavour"] == "collision":
            spec["flavour"] = "plain"
        # something to hit on its way, after some steps
        x, y, psi = pl["model"]["x0"][:3]
        d, r = float(spec["dt"]) * rng.randint(1, 10) * rng.r(0.5, 5), rng.r(0.3, 1.5)
        cx, cy = x + (d + r) * math.cos(psi), y + (d + r) * math.sin(psi)
        spec["obstacles"] = spec["obstacles"] + [dict(k="disc", c=[round(cx, 3), round(cy, 3)], r=r)]
    else:
        pl["model"]["crash_fp"] = k
        if spec["flavour"] == "collision":  # legitimate for a contact that cannot be resolved
            spec["flavour"] = "plain"


class Check:
    ID = "C02"
    RUNS_QUICK = 500
    RUNS_THOROUGH = 50000
    RULE = (
        "A case is 2 to 5 episodes run one after the other with one Simulator, in most of which a participant (agent at its "
        "initialisation, commands or extras; sensor; goal; model at its update, at its footprint or while a contact is resolved) fails at a chosen call with a chosen "
        "type of exception; every episode is compared with the same one run with a new Simulator. Non-trivial if at least one "
        "injected failure fired and a later episode took place."
    )
    REAL = ["dg_commons.sim.simulator", "simulator_structures", "sim_perception", "goals", "collision*", "bodies and agents (in some runs)"]
    STUB = ["agents (scripted, some real)", "toy rigid bodies (in most runs)", "wall clock (virtual)"]
    STATE_MEASURE = "(sequence of ends: completed or place of the failure and type)"

    def gen(self, rng, tier):
        eps = []
        for i in range(rng.randint(2, 3 if tier == "quick" else 5)):
            fs = sorted(f for f in FEATURES + ["impl"] if rng.flip(0.4))
            s = gen_episode(rng, features=fs, max_steps=10 if tier == "quick" else 25, n_max=3)
            if rng.flip(0.65):
                inject(rng, s)
            eps.append(s)
        if rng.flip(0.3):
            eps[-1] = {k: v for k, v in eps[0].items()}
        return dict(episodes=eps)

    def run(self, spec, res: Result):
        sim = Simulator()
        fired_before = False
        ends = []
        for i, s in enumerate(spec["episodes"]):
            fresh = World(s).run()
            w = World(s).run(sim)
            w.trace_into(res)
            if w.rec.raised is not None:
                if w.error is not w.rec.raised:
                    res.violation("swallowed", f"episode {i}: the failure {w.rec.raised!r} did not reach the caller, which got {w.error!r}")
                    return
                later = [e for e in w.rec.events[w.rec.raised_at:] if not e.kind.startswith("set:")]
                if later:
                    res.violation("goes-on", f"episode {i}: after the failure {w.rec.raised!r} there was still {later[0].kind} of {later[0].p}")
                    return
                ends.append((w.rec.fault_log[-1], s.get("flavour")))
            else:
                ends.append(("end",))
            if (w.rec.raised is None) != (fresh.rec.raised is None) or str(w.error) != str(fresh.error):
                res.violation("error", f"episode {i} ended with {w.error!r} instead of {fresh.error!r} as with a new simulator")
                return
            ha, hb = w.history(), fresh.history()
            if ha != hb:
                k = next((k for k, (x, y) in enumerate(zip(ha, hb)) if x != y), min(len(ha), len(hb)))
                res.violation("history", f"episode {i} (after {ends[:-1]}): event {k} is {ha[k:k+1]} instead of {hb[k:k+1]} as with a new simulator")
                return
            if w.error is None and outcome(w.ctx) != outcome(fresh.ctx):
                res.violation("outcome", f"episode {i} (after {ends[:-1]}) has another outcome than with a new simulator: {diff(w.ctx, fresh.ctx)}")
                return
            if fired_before:
                res.nontrivial = True
            fired_before = fired_before or w.rec.raised is not None
        res.state(tuple(ends))
        res.schedule = h64(tuple(ends))


CHECK = Check()
