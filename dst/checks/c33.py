import math
from functools import reduce

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from dg_commons.sim.collision_structures import combine_collision_reports
from dg_commons.sim.collision_visualisation import plot_collision
from dg_commons.sim.log_visualisation import plot_player_log, plot_players_logs
from dg_commons.sim.utils import who_collided
from dst.core.result import Result, h64
from dst.core.rng import Rng
from dst.world.bodies import REAL_KINDS, fields_of
from dst.world.contact import gen_contact
from dst.world.world import World, canon, log_canon


def num(v):
    return isinstance(v, (int, float, np.floating, np.integer)) and not isinstance(v, bool)


def near(a, b, tol=1e-9) -> bool:
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def shown(line, t: float):
    """The value a curve shows at a time"""
    xs, ys = [float(v) for v in line.get_xdata(orig=True)], [float(v) for v in line.get_ydata(orig=True)]
    style = line.get_drawstyle()
    for k in range(len(xs) - 1):
        if xs[k] < t < xs[k + 1]:
            if style in ("steps", "steps-pre"):
                return ys[k + 1]
            if style == "steps-post":
                return ys[k]
            if style == "steps-mid":
                return ys[k] if t < (xs[k] + xs[k + 1]) / 2 else ys[k + 1]
            return ys[k] + (ys[k + 1] - ys[k]) * (t - xs[k]) / (xs[k + 1] - xs[k])
    return None


class Check:
    ID = "C33"
    RUNS_QUICK = 80
    RUNS_THOROUGH = 6000
    RULE = (
        "A case is one or two episodes full of collisions, generated from (seed, index), whose reports of the same parties are combined in "
        "seeded groupings and orders, and whose logs and collisions are drawn in a seeded interleaving into several figures while another "
        "figure is the current one. What is on the axes is compared with the log. Non-trivial if reports were combined or a log drawn."
    )
    REAL = ["dg_commons.sim.collision_structures", "dg_commons.sim.utils", "dg_commons.sim.log_visualisation",
            "dg_commons.sim.collision_visualisation", "dg_commons.sim.simulator", "all bodies", "matplotlib artists"]
    STUB = ["agents (scripted)", "wall clock (virtual)", "screen (no window)"]
    STATE_MEASURE = "(what was drawn, current figure, figures before, reports combined, unresolved contacts among them)"

    def gen(self, rng, tier):
        eps = []
        for _ in range(rng.pick([1, 1, 2])):
            kinds = rng.pick([REAL_KINDS, ["dynobs", "ped", "cardyn", "toy"], ["toy"]])
            s = gen_contact(rng, steps=14 if tier == "quick" else 30, kinds=kinds, exact_p=0.1)
            s["after"] = "1000"
            eps.append(s)
        ops = []
        for _ in range(rng.randint(2, 5)):
            e = rng.randrange(len(eps))
            names = [p["name"] for p in eps[e]["players"]]
            ops.append(dict(
                e=e, op=rng.pick(["all", "all", "one", "collision"]), fig=rng.pick(["given", "given", "current"]), at=rng.randint(0, 2),
                current=rng.randint(0, 2), who=rng.pick([None, sorted(rng.sample(names, rng.randint(1, len(names))))]), k=rng.randint(0, 50)))
        return dict(episodes=eps, ops=ops, seed=rng.randint(0, 10**6))

    def run(self, spec, res: Result):
        ws = []
        for s in spec["episodes"]:
            w = World(s).run()
            w.trace_into(res)
            ws.append(w)
        res.schedule = h64([(o["op"], o["fig"], o["at"], o["current"]) for o in spec["ops"]])
        for w in ws:
            if not self.summaries(w, spec, res):
                return
        try:
            self.plots(spec, ws, res)
        finally:
            plt.close("all")

    # ------------------------------------------------------------------ summaries
    def summaries(self, w, spec, res: Result) -> bool:
        reports = w.ctx.collision_reports
        who = {str(p) for r in reports for p in r.players}
        if {str(p) for p in who_collided(w.ctx)} != who:
            res.violation("who", f"{sorted(map(str, who_collided(w.ctx)))} are said to have collided, the reports name {sorted(who)}")
            return False
        rng = Rng(f"{spec['seed']}:sum")
        before = [canon(r) for r in reports]
        groups = {}
        for r in reports:
            groups.setdefault(frozenset(map(str, r.players)), []).append(r)
        for who, rs in sorted(groups.items(), key=lambda kv: sorted(kv[0])):
            if len(rs) < 2 or len({r.at_time for r in rs}) != len(rs):
                continue
            rs = rs[: rng.randint(2, min(len(rs), 8))]
            how = rng.pick(["left", "right", "tree", "reversed"])
            got = self.combined(rs, how, rng)
            bad = self.judge(got, rs)
            empty = sum(any(v is None for v in r.players.values()) for r in rs)
            res.state("combine", how, min(len(rs), 4), min(empty, 2))
            res.stats["combined"] += 1
            res.faults["unresolved-contact"] += empty
            res.nontrivial = True
            if bad:
                res.violation("accident", f"the reports of {sorted(who)} at {[str(r.at_time) for r in rs]} ({empty} unresolved), combined "
                              f"({how}), give {bad}")
                return False
        if [canon(r) for r in reports] != before:
            res.violation("altered", "combining reports altered them")
            return False
        return True

    def combined(self, rs, how, rng):
        f = combine_collision_reports
        if how == "left":
            return reduce(f, rs)
        if how == "right":
            return reduce(lambda a, b: f(b, a), rs[::-1])
        if how == "reversed":
            return reduce(lambda a, b: f(a, b), rs[::-1])
        rs = list(rs)
        while len(rs) > 1:
            i = rng.randrange(len(rs) - 1)
            rs[i:i + 2] = [f(*(rs[i:i + 2] if rng.flip(0.5) else rs[i:i + 2][::-1]))]
        return rs[0]

    def judge(self, got, rs):
        first = rs[0]
        if got.at_time != first.at_time:
            return f"the time {got.at_time}"
        solved = [r for r in rs if r.impact_point is not None]
        if not solved:
            return None if got.impact_point is None and all(v is None for v in got.players.values()) else f"{got} from nothing"
        if got.impact_point is None or canon(got.impact_point) != canon(solved[0].impact_point) or canon(got.impact_normal) != canon(solved[0].impact_normal):
            return f"the impact point {got.impact_point} and normal {got.impact_normal}, not those of the first impact"
        for p in first.players:
            ps = [r.players[p] for r in solved if r.players[p] is not None]
            g = got.players[p]
            if not ps:
                continue
            if g is None:
                return f"nothing about {p}"
            if canon(g.footprint) != canon(ps[0].footprint) or canon(g.velocity) != canon(ps[0].velocity) or bool(g.at_fault) != bool(ps[0].at_fault):
                return f"other than what {p} was at the first impact"
            if canon(g.velocity_after) != canon(ps[-1].velocity_after):
                return f"{p} leaving with {g.velocity_after} instead of {ps[-1].velocity_after}"
            scale = sum(abs(float(q.energy_delta)) for q in ps)
            if abs(float(g.energy_delta) - sum(float(q.energy_delta) for q in ps)) > 1e-9 * (1 + scale):
                return f"the energy {g.energy_delta} of {p} instead of {sum(float(q.energy_delta) for q in ps)}"
            if [canon(l) for l in g.locations] != [canon(l) for q in ps for l in q.locations]:
                return f"the parts {[l[0] for l in g.locations]} of {p} instead of {[l[0] for q in ps for l in q.locations]}"
        return None

    # ------------------------------------------------------------------ plots
    def plots(self, spec, ws, res: Result):
        plt.close("all")
        figs = [plt.figure() for _ in range(3)]
        logs = [log_canon(w.ctx.log) for w in ws]
        for n, o in enumerate(spec["ops"]):
            w = ws[o["e"]]
            plt.figure(figs[o["current"]].number)
            given = o["fig"] == "given" and o["op"] != "collision"
            target = figs[o["at"] if given else o["current"]]
            count = lambda f: (len(f.axes), sum(len(a.get_children()) for a in f.axes))
            others = [(f, count(f)) for f in figs if f is not target]
            had = list(target.axes)
            where = f"drawing {n} ({o['op']}{', into a given figure' if given else ''})"
            kw = dict(fig=target) if given else {}
            names = [str(p) for p in w.ctx.log]
            if o["op"] == "collision":
                solved = [r for r in w.ctx.collision_reports if r.impact_point is not None]
                if not solved:
                    continue
                target.clear()
                r = solved[o["k"] % len(solved)]
                plot_collision(r, w.ctx.log)
                bad = self.collision(r, w, target)
            else:
                if o["op"] == "one":
                    who = [names[o["k"] % len(names)]]
                    plot_player_log(w.ctx.log[next(p for p in w.ctx.log if str(p) == who[0])], **kw)
                else:
                    who = names if o["who"] is None else [p for p in names if p in o["who"]]
                    sel = {} if o["who"] is None else dict(only_players={p for p in w.ctx.log if str(p) in o["who"]})
                    plot_players_logs(w.ctx.log, **kw, **sel)
                res.nontrivial = True
                bad = self.curves(w, who, [l for a in target.axes if a not in had for l in a.lines])
            if not bad:
                for f, c in others:
                    if count(f) != c and (f.axes or count(f)[1]):
                        bad = "it (also) changes another figure"
            if not bad and [log_canon(x.ctx.log) for x in ws] != logs:
                bad = "it alters the log"
            res.state(o["op"], given, o["current"] == o["at"], min(len(had), 3), o["who"] is None)
            res.stats["drawings"] += 1
            res.faults["other-current-figure"] += given and o["current"] != o["at"]
            if bad:
                res.violation("drawn", f"{where} of the players {[p for p in names]}: {bad}")
                return

    def curves(self, w, who, lines):
        left = list(lines)
        for p in who:
            pl = w.ctx.log[next(q for q in w.ctx.log if str(q) == p)]
            for what, seq in (("state", pl.states), ("command", pl.commands)):
                ts = [float(t) for t in seq.timestamps]
                for name, v0 in fields_of(seq.values[0]):
                    vs = [getattr(v, name) for v in seq.values]
                    if not all(map(num, vs)):
                        continue
                    for l in left:
                        if l.get_label() == name and len(l.get_xdata(orig=True)) == len(ts) and near(l.get_xdata(orig=True), ts) and near(l.get_ydata(orig=True), vs):
                            break
                    else:
                        return f"no curve shows the {what} {name} of {p} as recorded"
                    left.remove(l)
                    if what == "command":
                        for k in range(len(ts) - 1):
                            at = (ts[k] + ts[k + 1]) / 2
                            if abs(shown(l, at) - vs[k]) > 1e-9 * (1 + abs(vs[k])):
                                return f"between {ts[k]} and {ts[k + 1]} the command {name} of {p} is shown as {shown(l, at)}, it was {vs[k]}"
        n = sum(1 for l in left if all(num(v) for v in l.get_ydata(orig=True)))
        return f"{n} more curves are drawn" if n else None

    def collision(self, r, w, fig):
        axes = fig.axes
        if not axes:
            return "nothing is drawn into the current figure"
        lines = [np.column_stack([np.asarray(v, dtype=float) for v in l.get_data()]) for a in axes for l in a.lines]
        texts = [(t.get_text(), t.get_position()) for a in axes for t in a.texts]
        at = np.array(r.impact_point.coords)
        if not any(near(l, at) for l in lines):
            return f"the impact point {at.tolist()} is not marked"
        for p, q in r.players.items():
            ring = np.array(q.footprint.exterior.coords)
            if not any(near(l, ring) for l in lines):
                return f"the area of {p} is not drawn"
            pl = w.ctx.log[p] if p in w.ctx.log else None
            if pl is not None and r.at_time in pl.states.timestamps:
                s = pl.states.values[list(pl.states.timestamps).index(r.at_time)]
                if not any(t == str(p) and near(xy, (s.x, s.y), 1e-6) for t, xy in texts):
                    return f"the name of {p} is not at its position {(s.x, s.y)}"
            for v in (q.velocity[1], q.velocity_after[1]):
                if not any(t == f"{v:.3f}" for t, _ in texts):
                    return f"the rotational velocity {v:.3f} of {p} is not shown"
            for loc, shape in q.locations:
                if not any(t == str(loc) for t, _ in texts):
                    return f"the part {loc} of {p} that was hit is not shown"
        return None


CHECK = Check()
