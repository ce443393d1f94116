import contextlib
import dataclasses
import io
import math
from decimal import Decimal
from fractions import Fraction

import matplotlib
import matplotlib.animation

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.colors import to_rgb
from matplotlib.patches import Circle, Polygon as MplPolygon
from matplotlib.text import Text
from shapely.geometry import Polygon

import dg_commons.sim.simulator_animation as anim
from dg_commons import PlayerName
from dg_commons.planning import Trajectory
from dg_commons.sim.goals import PlanningGoal
from dg_commons.sim.models.vehicle import VehicleState
from dst.core.result import HarnessError, Result, h64
from dst.world.bodies import COMMAND_SCALE, vary
from dst.world.gen import NAMES, gen_obstacle, gen_x0
from dst.world.world import World, canon, log_canon, report_canon

KINDS = ["car", "truck", "bike", "cardyn", "ped", "spacecraft", "spaceship", "rocket", "diff", "dynobs"]
TOL = 1e-6


class StubAnimation:
    """In place of the event loop of matplotlib: keeps the callbacks"""

    last = None

    def __init__(self, fig=None, func=None, init_func=None, frames=None, **kw):
        self.fig, self.func, self.init_func, self.frames, self.kw = fig, func, init_func, frames, kw
        StubAnimation.last = self

    def save(self, *a, **kw):
        pass


class MovingGoal(PlanningGoal):
    """A goal drawn as a square that moves along a line"""

    def __init__(self, p, v, s):
        self.p, self.v, self.s = p, v, s

    def corners(self, t):
        x, y = self.p[0] + self.v[0] * float(t), self.p[1] + self.v[1] * float(t)
        s = self.s
        return [(x - s, y - s), (x + s, y - s), (x + s, y + s), (x - s, y + s)]

    def is_fulfilled(self, state, at=0) -> bool:
        return False

    def get_plottable_geometry(self, at=0):
        return Polygon(self.corners(at))

    @property
    def is_static(self) -> bool:
        return False


def interpolated(states, t) -> dict:
    """Numeric fields of the recorded states interpolated at t, held beyond the ends"""
    ts = [Fraction(x) for x in states.timestamps]
    vs = states.values
    t = Fraction(t)
    num = lambda s: {f.name: float(getattr(s, f.name)) for f in dataclasses.fields(s) if isinstance(getattr(s, f.name), (int, float, np.number))}
    if t <= ts[0]:
        return num(vs[0])
    if t >= ts[-1]:
        return num(vs[-1])
    k = max(i for i, x in enumerate(ts) if x <= t)
    a = float((t - ts[k]) / (ts[k + 1] - ts[k]))
    lo, hi = num(vs[k]), num(vs[k + 1])
    return {n: lo[n] + a * (hi[n] - lo[n]) for n in lo}


def latest(seq, t):
    out = None
    for ts, v in zip(seq.timestamps, seq.values):
        if Fraction(ts) <= Fraction(t):
            out = v
    return out


def placed(outline, x, y, psi):
    c, s = math.cos(psi), math.sin(psi)
    return [(x + c * a - s * b, y + s * a + c * b) for a, b in outline]


def ring(points):
    """Points of a polygon without the repeated end"""
    pts = [tuple(map(float, p)) for p in points]
    if len(pts) > 1 and math.dist(pts[0], pts[-1]) < TOL:
        pts = pts[:-1]
    return pts


def same_ring(a, b) -> bool:
    a, b = ring(a), ring(b)
    if len(a) != len(b):
        return False
    tol = 1e-6 * (1 + max(abs(v) for p in b for v in p))
    n = len(b)
    for k in range(n):
        if math.dist(a[0], b[k]) < tol:
            if all(math.dist(a[i], b[(k + i) % n]) < tol for i in range(n)) or all(math.dist(a[i], b[(k - i) % n]) < tol for i in range(n)):
                return True
    return False


def content(ax) -> list:
    """Everything on the axes, in a comparable form"""
    out = []
    r = lambda v: round(float(v), 7) + 0.0
    for a in ax.get_children():
        if isinstance(a, Circle):
            out.append(("circle", tuple(map(r, np.ravel(a.center))), r(a.radius), tuple(map(r, a.get_facecolor()))))
        elif isinstance(a, MplPolygon):
            out.append(("polygon", tuple((r(x), r(y)) for x, y in a.get_xy()), tuple(map(r, a.get_facecolor()[:3])), a.get_zorder()))
        elif isinstance(a, Text):
            if a.get_text():
                out.append(("text", a.get_text(), tuple(map(r, a.get_position()))))
        elif isinstance(a, LineCollection):
            out.append(("lines", tuple(tuple((r(x), r(y)) for x, y in s) for s in a.get_segments()), tuple(map(r, np.ravel(a.get_colors())))))
        elif isinstance(a, PathCollection):
            out.append(("points", tuple((r(x), r(y)) for x, y in np.asarray(a.get_offsets()))))
    out.sort(key=repr)
    return out


class Check:
    ID = "C24"
    RUNS_QUICK = 160
    RUNS_THOROUGH = 8000
    RULE = (
        "A case is, from (seed, index), a recorded episode (one to four bodies of ten kinds with seeded command schedules, trajectories given as "
        "extra at some requests, moving goals, missions that make players leave, obstacles) of which frames are drawn through the real renderer in "
        "a seeded order, with skipped, repeated and earlier frames. What is on the axes after each frame is compared with the interpolated log and "
        "with what a new animation shows for that frame alone. Non-trivial if a frame was drawn after a later one."
    )
    REAL = ["dg_commons.sim.simulator_animation", "dg_commons.sim.simulator_visualisation", "dg_commons.maps.shapely_viz",
            "dg_commons.sim.simulator", "dg_commons.seq", "matplotlib artists"]
    STUB = ["event loop of the animation (FuncAnimation)", "encoder of the video", "scripted agents"]
    STATE_MEASURE = "(kind of body, thrust, fuel, kind of jump between frames, extra shown)"

    def gen(self, rng, tier):
        n = rng.randint(1, 4)
        dt = rng.pick(["0.1", "0.05", "0.2", "0.07"])
        steps = rng.randint(3, 25)
        tmax = float(dt) * steps
        players = []
        for name in rng.sample(NAMES, n):
            kind = rng.pick(KINDS)
            plan, t = [], 0.0
            still = rng.flip(0.25)  # stands, but may steer, turn or burn fuel
            while t < tmax:
                cmds = [rng.pick([0.0, rng.r(-1, 1)]) * s for s in COMMAND_SCALE[kind]]
                if still:
                    cmds = [0.0] * (len(cmds) - 1) + [cmds[-1] or COMMAND_SCALE[kind][-1] / 2]
                plan.append([round(t, 2), cmds])
                t += rng.pick([0.1, 0.3, 0.7, 2.0])
            x, y = rng.r(-30, 30), rng.r(-30, 30)
            x0 = gen_x0(rng, kind, x, y, rng.r(-3, 3), 0.0 if still else rng.r(0.0, 5))
            if kind in ("spaceship", "rocket") and rng.flip(0.6):
                x0[-1] = rng.pick([2.0, 2.001, 2.02])  # little or no fuel
            p = dict(name=name, kind=kind, x0=x0, plan=plan)
            if rng.flip(0.4):
                p["geo"] = vary(rng, kind).get("geo") or {}
            if rng.flip(0.4):
                p["extra"] = dict(start=rng.pick([0, 0, 1, 3, 6]), every=rng.pick([1, 2, 5]), n=rng.randint(1, 3), grow=rng.pick([0, 0, 1, 2]), c=rng.pick(["g", "b", "orange"]))
            g = rng.pick([None, None, "moving", "late"])
            if g == "moving":
                p["goal"] = dict(p=[x, y], v=[rng.r(-3, 3), rng.r(-3, 3)], s=rng.r(0.5, 3))
            elif g == "late":
                p["leave"] = rng.r(0, tmax * 1.2)
            players.append(p)
        fdt = rng.pick([30, 50, 100, 40, 77, 250])
        last = max(1, int(tmax * 1000 / fdt))
        frames = [rng.randint(0, last + rng.pick([0, 0, 3])) for _ in range(rng.randint(2, 7))]
        how = rng.pick(["any", "any", "up", "down"])
        if how != "any":
            frames.sort(reverse=how == "down")
        return dict(players=players, frames=frames, dt=dt, tmax="0" if rng.flip(0.05) else str(Decimal(dt) * steps), fdt=fdt,
                    dtc=str(Decimal(dt) * Decimal(rng.pick(["1", "2", "2.5"]))),
                    limits=rng.pick(["auto", "auto", "box", "player"]), obstacles=[gen_obstacle(rng, 20.0) for _ in range(rng.randint(0, 2))])

    # ------------------------------------------------------------------ the episode
    def episode(self, spec):
        players = []
        for p in spec["players"]:
            d = dict(name=p["name"], model=dict(kind=p["kind"], x0=p["x0"], geo=p.get("geo")), agent=dict(pol="plan", plan=p["plan"]))
            if "leave" in p:
                d["goal"] = dict(k="late", t0=p["leave"])
            players.append(d)
        w = World(dict(dt=spec["dt"], dtc=spec["dtc"], tmax=spec["tmax"], players=players, after="100", obstacles=spec["obstacles"]))
        given = {p["name"]: [] for p in spec["players"]}
        for p in spec["players"]:
            if "goal" in p:
                w.ctx.missions[PlayerName(p["name"])] = MovingGoal(**p["goal"])
            if "extra" in p:
                agent = w.ctx.players[PlayerName(p["name"])]

                def extra(agent=agent, p=p, e=p["extra"]):
                    k = agent.n
                    if k <= e["start"] or (k - 1 - e["start"]) % e["every"]:
                        return None
                    return [(Trajectory([0, 1, 2], [VehicleState(x=k + j + i, y=k - 2 * i, psi=0, vx=i, delta=0) for i in range(3)]), e["c"])
                            for j in range(e["n"] + k % (e.get("grow", 0) + 1))]

                agent.on_get_extra = extra
        w.run()
        if w.error is not None:
            raise w.error
        return w.ctx

    def animation(self, spec, ctx):
        StubAnimation.last = None
        names = [p["name"] for p in spec["players"]]
        limits = {"auto": "auto", "box": [[-50, 50], [-40, 40]], "player": names[0]}[spec["limits"]]
        if limits == names[0] and spec["players"][0]["kind"] == "diff":
            limits = "auto"  # a differential drive has no speed in its state to look ahead of it
        with contextlib.redirect_stderr(io.StringIO()):
            # the axes are cleared at the end of create_animation, the first frame draws everything again
            anim.create_animation("unused.mp4", ctx, figsize=(2, 2), dt=spec["fdt"], dpi=10, plot_limits=limits)
        if StubAnimation.last is None:
            raise HarnessError("the animation was not created through FuncAnimation")
        return StubAnimation.last, limits

    def run(self, spec, res: Result):
        if not spec["players"]:
            return
        ctx = self.episode(spec)
        before = log_canon(ctx.log), tuple(report_canon(r) for r in ctx.collision_reports), canon(ctx.time)
        places = [m for m in (anim, matplotlib.animation) if hasattr(m, "FuncAnimation")]
        real = matplotlib.animation.FuncAnimation
        for m in places:
            m.FuncAnimation = StubAnimation
        try:
            if not ctx.log.get_init_time() < ctx.log.get_last_time():
                with contextlib.suppress(Exception):
                    self.animation(spec, ctx)
                    res.violation("empty", f"an episode from {ctx.log.get_init_time()} to {ctx.log.get_last_time()} was animated")
                return
            self.draw(spec, ctx, res)
        finally:
            for m in places:
                m.FuncAnimation = real
            plt.close("all")
        if (log_canon(ctx.log), tuple(report_canon(r) for r in ctx.collision_reports), canon(ctx.time)) != before:
            res.violation("altered", "drawing the episode altered its log or its reports")

    def draw(self, spec, ctx, res: Result):
        fresh: dict = {}
        for f in sorted(set(spec["frames"])):
            other, _ = self.animation(spec, ctx)
            other.init_func()
            other.func(f)
            ax = other.fig.axes[0]
            fresh[f] = content(ax), self.view(ax)
            plt.close("all")
        sa, limits = self.animation(spec, ctx)
        ax = sa.fig.axes[0]
        n = sa.frames if isinstance(sa.frames, int) else len(list(sa.frames))
        duration = float(ctx.log.get_last_time() - ctx.log.get_init_time())
        if not abs(n - duration * 1000 / spec["fdt"]) <= 1 + 1e-6:
            res.violation("frames", f"{n} frames of {spec['fdt']} ms for an episode of {duration} s")
            return
        sa.init_func()
        res.schedule = h64(spec["frames"])
        shown = None
        for k, f in enumerate(spec["frames"]):
            sa.func(f)
            t = f * spec["fdt"] / 1000.0
            jump = "first" if shown is None else "same" if f == shown else "back" if f < shown else "next" if f == shown + 1 else "ahead"
            shown = f
            if jump in ("back", "ahead", "same"):
                res.faults["frame-" + jump] += 1
            if jump == "back":
                res.nontrivial = True
            cont = content(ax)
            res.event(k, f, h64(cont))
            where = f"frame {f} (time {t:g}) after the frames {spec['frames'][:k][-5:]}"
            if not self.judge(spec, ctx, ax, cont, t, where, jump, res):
                return
            view = self.view(ax)
            alone, view0 = fresh[f]
            if any(len(ctx.log[PlayerName(p["name"])].extra.values) and not latest(ctx.log[PlayerName(p["name"])].extra, t) for p in spec["players"]):
                # trajectories of later frames may stay when going back before the first ones were given
                cont, alone = ([c for c in cs if c[0] not in ("lines", "points")] for cs in (cont, alone))
            if cont != alone:
                extra = [c for c in cont if c not in alone][:1]
                miss = [c for c in alone if c not in cont][:1]
                res.violation("history", f"{where} shows {str(extra)[:200]} where the frame drawn alone shows {str(miss)[:200]}")
                return
            if view != view0:
                res.violation("view", f"{where} shows the area {view}, drawn alone it shows {view0}")
                return
        res.sim_time += float(ctx.time)

    @staticmethod
    def view(ax):
        return tuple(round(float(v), 6) for v in (*ax.get_xlim(), *ax.get_ylim()))

    def judge(self, spec, ctx, ax, cont, t, where, jump, res: Result) -> bool:
        polys = [c for c in cont if c[0] == "polygon"]
        texts = [c for c in cont if c[0] == "text"]
        for p in spec["players"]:
            name, kind = p["name"], p["kind"]
            pl = ctx.log[PlayerName(name)]
            s = interpolated(pl.states, t)
            cmd = latest(pl.commands, t)
            model = ctx.models[PlayerName(name)]
            geo = model.model_geometry
            outline = list(model.shape.exterior.coords) if kind == "dynobs" else geo.outline
            body = placed(outline, s["x"], s["y"], s["psi"])
            color = tuple(round(float(v), 7) for v in to_rgb(geo.color))
            mine = [c for c in polys if same_ring(c[1], body)]
            if not any(c[2] == color for c in mine):
                res.violation("body", f"{where}: the body of {name} ({kind}) is not drawn at {({k: round(v, 4) for k, v in s.items() if k in ('x', 'y', 'psi')})}"
                              + (" in its colour" if mine else ""))
                return False
            if kind != "dynobs" and not any(c[1] == name and math.dist(c[2], (s["x"], s["y"])) < 1e-5 for c in texts):
                res.violation("name", f"{where}: the name of {name} is not drawn at its position")
                return False
            if kind in ("car", "truck", "bike", "cardyn"):
                hw, r = geo.wheel_shape
                rect = [(r, -hw), (-r, -hw), (-r, hw), (r, hw)]
                sides = [0.0] if kind == "bike" else [geo.w_half, -geo.w_half]
                for at, turn in ((geo.lf, s["delta"]), (-geo.lr, 0.0)):
                    for b in sides:
                        wheel = placed(placed(rect, at, b, turn), s["x"], s["y"], s["psi"])
                        if not any(same_ring(c[1], wheel) for c in polys):
                            res.violation("wheel", f"{where}: the {'front' if at > 0 else 'rear'} wheel of {name} ({kind}) is not drawn steered by {turn:.4f}")
                            return False
            flames = None
            if kind in ("spaceship", "rocket"):
                fuel = s["m"] > model.model_params.m_v
                thrusts = [cmd.thrust] if kind == "spaceship" else [cmd.F_left, cmd.F_right]
                red = tuple(round(float(v), 7) for v in to_rgb("r"))
                near = [c for c in polys if c[2] == red and c[2] != color and c not in mine
                        and any(math.dist(q, (s["x"], s["y"])) < 6 for q in c[1]) and len(ring(c[1])) == 3]
                flames = sum(abs(Polygon(ring(c[1])).area) > 1e-7 for c in near)
                want = sum(abs(f) > 1e-3 * geo.F_max for f in thrusts) if fuel else 0
                alone = sum(q["kind"] in ("spaceship", "rocket") for q in spec["players"]) == 1
                if alone and (flames < want or (not any(thrusts) or not fuel) and flames):
                    res.violation("flame", f"{where}: {flames} flames of {name} ({kind}) are drawn, thrusts {thrusts}, mass {s['m']} (empty: {model.model_params.m_v})")
                    return False
            ex = latest(pl.extra, t)
            lines = [c for c in cont if c[0] == "lines"]
            if ex:
                segs = tuple(tuple((round(float(v.x), 7), round(float(v.y), 7)) for v in tr.values) for tr, _ in ex)
                if not any(c[1] == segs for c in lines):
                    res.violation("extra", f"{where}: the trajectories {name} last gave are not drawn, but {str([c[1] for c in lines])[:200]}")
                    return False
            if "goal" in p:
                goal = MovingGoal(**p["goal"]).corners(t)
                if not any(same_ring(c[1], goal) and c[2] == color for c in polys):
                    res.violation("goal", f"{where}: the goal of {name} is not drawn where it is at that time")
                    return False
            res.state(kind, None if flames is None else flames, bool(ex), jump, "goal" in p)
        clock = [c[1] for c in texts if c[1].startswith("t = ")]
        if len(clock) != 1 or abs(float(clock[0].split("=")[1].strip().rstrip("s")) - t) > 0.0501:
            res.violation("clock", f"{where}: the time shown is {clock}")
            return False
        x0, x1 = ax.get_xlim()
        y0, y1 = ax.get_ylim()
        if spec["limits"] == "box":
            if not (x0 == -50 and x1 == 50 and y0 == -40 and y1 == 40):
                res.violation("area", f"{where}: the area shown is {(x0, x1, y0, y1)} instead of the requested one")
                return False
        else:
            # the requested player or everybody
            for p in spec["players"][: 1 if spec["limits"] == "player" else None]:
                s = interpolated(ctx.log[PlayerName(p["name"])].states, t)
                if not (x0 < s["x"] < x1 and y0 < s["y"] < y1):
                    res.violation("out", f"{where}: {p['name']} is outside the area shown")
                    return False
        return True


CHECK = Check()
