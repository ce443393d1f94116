import dataclasses
from decimal import Decimal

import numpy as np

from dst.core.result import Result, h64
from dst.core.rng import Rng
from dst.world import bodies
from dst.world.gen import FEATURES, gen_episode
from dst.world.loop import Loop
from dst.world.world import World, canon, log_canon


class Check:
    ID = "C06"
    RUNS_QUICK = 500
    RUNS_THOROUGH = 50000
    RULE = (
        "A case is one episode generated from (seed, index) (agents reusing and altering their commands, missing, falsy and partial "
        "extras, slow agents and jumping wall clock, bodies that update their state in place, collisions, early completions), its "
        "log compared entry by entry with what crossed the interfaces, then queried at grid, intermediate and outer times; "
        "non-trivial if a log of at least 3 states was checked."
    )
    REAL = ["dg_commons.sim.simulator", "simulator_structures (PlayerLog, SimLog)", "seq.sequence", "all bodies (in some runs)"]
    STUB = ["agents (scripted)", "toy rigid bodies (in most runs)", "wall clock (virtual)"]
    STATE_MEASURE = "(players, states logged, commands logged, extras logged)"

    def gen(self, rng, tier):
        fs = {f for f in FEATURES if rng.flip(0.5)} | {"extra"}
        spec = gen_episode(rng, features=sorted(fs), max_steps=25 if tier == "quick" else 60)
        spec["qseed"] = rng.randint(0, 10**6)
        return spec

    def run(self, spec, res: Result):
        w = World(spec).run()
        w.trace_into(res)
        lp = Loop(w)
        if w.error is not None:
            res.stats["not-ended"] += 1
            return
        check_log(lp, res)
        res.nontrivial = lp.n_steps >= 3
        res.schedule = h64(tuple(lp.request), tuple(map(tuple, lp.active)))
        if res.violations:
            return
        check_queries(lp, res)
        # nothing that happens after the episode alters what was recorded
        log, before = w.ctx.log, log_canon(w.ctx.log)
        for n, m in w.all_models.items():
            kind = w.kinds[n]
            for _ in range(2):
                type(m).update(m, bodies.make_command(kind, bodies.COMMAND_SCALE[kind]), Decimal("0.1"))
        for objs in w.rec.live_cmds.values():
            for o in objs:
                for f in dataclasses.fields(o):
                    if isinstance(getattr(o, f.name), (int, float, np.floating)):
                        setattr(o, f.name, -123.0)
        if log_canon(log) != before:
            res.violation("altered-later", "the log changed after the episode, when bodies moved on or agents altered their commands")


def check_log(lp: Loop, res: Result):
    w = lp.w
    log = w.ctx.log
    if sorted(log) != sorted(lp.names):
        res.violation("players", f"the log holds {sorted(log)} instead of {sorted(lp.names)}")
        return
    for p in lp.names:
        pl = log[p]
        want = {"states": [], "commands": [], "extra": [], "info": []}
        for k in range(lp.n_steps):
            if p not in lp.active[k]:
                continue
            t = lp.t(k)
            want["states"].append((t, canon(lp.before[k][p])))
            if lp.request[k] and lp.cmd[t][p]:
                want["commands"].append((t, lp.cmd[t][p][-1].d["u"]))
                want["info"].append((t, lp.cmd[t][p][-1].d["spent"]))
                ex = [e.d["v"] for e in lp.extra[t][p] if e.d["v"] is not None]
                if ex:
                    want["extra"].append((t, canon(ex[-1])))
        if p in lp.removed:
            want["states"].append((lp.t(lp.removed[p]), canon(lp.final[p])))
        for what, entries in want.items():
            got = list(getattr(pl, what))
            gt = [t for t, _ in got]
            if any(b <= a for a, b in zip(gt, gt[1:])):
                res.violation("stamps", f"the {what} of {p} are not strictly increasing in time")
                return
            if [t for t in gt] != [t for t, _ in entries]:
                res.violation(what + "-times", f"the {what} of {p} are stamped {list(map(str, gt))} instead of {[str(t) for t, _ in entries]}")
                return
            for (t, v), (_, e) in zip(got, entries):
                if what == "info":
                    if abs(v - e) > 1e-6:
                        res.violation("info", f"the time spent by {p} at {t} is logged as {v} instead of {e}")
                        return
                elif canon(v) != e:
                    res.violation(what, f"the {what} of {p} at {t} are logged as {canon(v)} instead of {e}")
                    return
                res.stats["entries"] += 1
        res.state(len(lp.names), len(want["states"]), len(want["commands"]), len(want["extra"]))


def check_queries(lp: Loop, res: Result):
    w = lp.w
    log = w.ctx.log
    rng = Rng(f"q{w.spec.get('qseed', 0)}")
    t0, t1 = log.get_init_time(), log.get_last_time()
    wt1 = max(l.states.timestamps[-1] for l in log.values())
    if t0 != 0 or t1 != wt1:
        res.violation("span", f"the log spans {t0} to {t1} instead of 0 to {wt1}")
        return
    qs = []
    for _ in range(6):
        k = rng.randint(0, lp.n_steps + 1)
        f = rng.pick([Decimal(0), Decimal("0.25"), Decimal("0.5"), Decimal("0.875")])
        q = lp.t(k) + lp.dt * f
        qs.append(q if f == 0 or rng.flip(0.5) else float(q))
    for q in qs:
        try:
            entries = log.at_interp(q)
        except Exception as e:
            res.violation("query", f"querying the log at {q!r} failed with {type(e).__name__}: {e}")
            return
        if sorted(entries) != sorted(log):
            res.violation("query", f"querying the log at {q!r} returned {sorted(entries)}")
            return
        for p, en in entries.items():
            l = log[p]
            for what in ("commands", "extra", "info"):
                prev = [v for t, v in getattr(l, what) if t <= q]
                want = prev[-1] if prev else None
                if canon(getattr(en, what)) != canon(want):
                    res.violation("query-" + what, f"{what} of {p} at {q!r}: {getattr(en, what)} instead of {want}")
                    return
            ts, vs = l.states.timestamps, l.states.values
            lo = [i for i, t in enumerate(ts) if t <= q]
            i = lo[-1] if lo else 0
            if i == len(ts) - 1 or q == ts[i]:
                want = bodies.values_of(vs[i])
            else:
                a = (float(q) - float(ts[i])) / float(ts[i + 1] - ts[i])
                want = tuple(x * (1 - a) + y * a if isinstance(x, float) else x for x, y in
                             zip(bodies.values_of(vs[i]), bodies.values_of(vs[i + 1])))
            got = bodies.values_of(en.state)
            if len(got) != len(want) or any(
                abs(g - x) > 1e-7 * (1 + abs(x)) if isinstance(x, float) else g != x for g, x in zip(got, want)
            ):
                res.violation("query-state", f"state of {p} at {q!r}: {got} instead of {want}")
                return
            res.stats["queries"] += 1


CHECK = Check()
