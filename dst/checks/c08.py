from dst.core.result import Result, h64
from dst.world.gen import FEATURES, gen_episode, gen_goal
from dst.world.loop import Loop
from dst.world.world import World, canon


class Check:
    ID = "C08"
    RUNS_QUICK = 700
    RUNS_THOROUGH = 70000
    RULE = (
        "A case is one episode generated from (seed, index) in which most players have missions (static and time-varying scripted "
        "goals, polygon, pose and reference lane goals), with collisions and simultaneous completions; non-trivial if at least one "
        "player completed its mission while another one was active."
    )
    REAL = ["dg_commons.sim.simulator", "goals (PolygonGoal, PoseGoal, RefLaneGoal)", "maps.lanes", "collision*", "bodies (in some runs)"]
    STUB = ["agents (scripted)", "toy rigid bodies (in most runs)", "wall clock (virtual)", "time-varying goals (scripted)"]
    STATE_MEASURE = "(step of removal, kind of goal, players, others active)"

    def gen(self, rng, tier):
        fs = {f for f in FEATURES if rng.flip(0.5)} | {"goals"}
        fs -= {"byz"}
        spec = gen_episode(rng, features=sorted(fs), max_steps=30 if tier == "quick" else 80)
        for pl in spec["players"]:
            if not pl.get("goal") and rng.flip(0.5):
                x0 = pl["model"]["x0"]
                pl["goal"] = gen_goal(rng, x0[0], x0[1], float(spec["tmax"]))
        if rng.flip(0.3) and len(spec["players"]) > 1:
            # simultaneous completions
            g = dict(k="late", t0=rng.r(0, float(spec["tmax"])))
            for pl in spec["players"][: rng.randint(2, len(spec["players"]))]:
                pl["goal"] = dict(g)
        if rng.flip(0.5):
            spec["after"] = "100"
        if rng.flip(0.3):
            spec["mission_order"] = "reversed"
        return spec

    def run(self, spec, res: Result):
        w = World(spec).run()
        w.trace_into(res)
        lp = Loop(w)
        if w.error is not None:
            res.stats["not-ended"] += 1
        check_removals(lp, res)
        others = any(len(lp.active[k]) > 1 and any(r == k + 1 for r in lp.removed.values()) for k in range(lp.n_steps))
        res.nontrivial = bool(lp.removed) and others
        res.schedule = h64(tuple(sorted(lp.removed.items())), lp.n_steps)
        kinds = {p["name"]: (p.get("goal") or {}).get("k") for p in spec["players"]}
        for p, k in lp.removed.items():
            res.stats["removed:" + str(kinds[p])] += 1
            res.state(k, kinds[p], len(lp.names), len(lp.active[k - 1]))


def check_removals(lp: Loop, res: Result):
    w = lp.w
    ctx = w.ctx
    end = lp.n_steps if lp.early is None else lp.early
    for p in lp.names:
        t_rm = lp.t(lp.removed[p]) if p in lp.removed else None
        for tab, what in ((lp.ask, "asked for commands"), (lp.upd, "moved"), (lp.sense, "sensing")):
            for t in tab:
                if tab[t][p] and t_rm is not None and t >= t_rm:
                    res.violation("after-removal", f"{p} completed its mission at {t_rm} and was still {what} at {t}")
                    return
        if t_rm is not None:
            for t in lp.setv:
                if lp.setv[t][p] and t >= t_rm:
                    res.violation("after-removal", f"{p} completed its mission at {t_rm} and was hit at {t}")
                    return
            for r in lp.reports:
                if p in r.players and r.at_time >= t_rm:
                    res.violation("after-removal", f"{p} completed its mission at {t_rm} and collided at {r.at_time}")
                    return
            if w.error is None and p in ctx.players:
                res.violation("not-removed", f"{p} completed its mission at {t_rm} and is still a player at the end")
                return
            if w.error is None:
                sts = list(ctx.log[p].states)
                if not sts or sts[-1][0] != t_rm or canon(sts[-1][1]) != canon(lp.final[p]):
                    res.violation("final-state", f"{p} completed its mission at {t_rm}; the last state logged is {sts[-1:]} instead of {lp.final[p]}")
                    return
        for k in range(end):
            if p in lp.active[k] and not lp.upd[lp.t(k)][p]:
                res.violation("removed-early", f"{p} did not move at step {k} (t={lp.t(k)}) although its mission was not completed (removal {t_rm})")
                return
        if t_rm is None and w.error is None and p not in ctx.players:
            res.violation("removed-early", f"{p} left although its mission was never completed")
            return
    # nobody observes a player that left
    for k in range(end):
        t = lp.t(k)
        for p in lp.active[k]:
            for e in lp.ask[t][p]:
                seen = [o for o, in zip(e.d["players"])]
                delayed = (next(s for s in w.spec["players"] if s["name"] == p).get("sensor") or {}).get("k") == "delay"
                gone = [q for q in seen if q not in lp.active[k]]
                if gone and not delayed:
                    res.violation("observed", f"{p} observes {gone} at {t}, which had completed their missions")
                    return
            for e in lp.sense[t][p]:
                gone = [x[0] for x in e.d["full"][1] if x[0] not in lp.active[k]]
                if gone:
                    res.violation("observed", f"the sensor of {p} receives {gone} at {t}, which had completed their missions")
                    return


CHECK = Check()
