import dataclasses
import io
import contextlib
import logging
import math
from decimal import Decimal
from fractions import Fraction

import matplotlib
import matplotlib.animation

matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgb
from matplotlib.patches import Circle

import dg_commons.sim.simulator_animation as anim
import dg_commons.sim.models.vehicle_ligths as vl
from dg_commons import PlayerName
from dg_commons.sim.models.vehicle import VehicleCommands
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn  # noqa: F401 (the dynamic vehicles take the same commands)
from dg_commons.sim.models.pedestrian import PedestrianCommands
from dst.core.result import HarnessError, Result, h64
from dst.core.rng import Rng
from dst.core.sched import Scheduler, gen_switches
from dst.world.gen import NAMES, gen_x0
from dst.world.world import World

CMDS = ["none", "headlights", "turn_left", "turn_right", "hazard"]
LAMPS = ["front_left", "front_right", "back_left", "back_right"]
BLINK = {"turn_left": ["front_left", "back_left"], "turn_right": ["front_right", "back_right"], "hazard": LAMPS, "none": [], "headlights": []}


def colors(c) -> dict:
    return {k: tuple(map(float, getattr(c, k))) for k in LAMPS}


class Baseline:
    """What the lights show when nothing was drawn before: learned from the first calls ever made in the process"""

    def __init__(self):
        p = float(vl.PHASE_SLOW)
        self.period = p
        self.error = None
        self.t0: dict = {}
        self.shown: dict = {}
        for cmd in CMDS:
            at = lambda t: colors(anim.lights_colors_from_lights_cmd(vl.LightsCmd(cmd), 0.0, t))
            lo, hi = 0.0, p
            a, b = at(lo), at(hi)
            if not BLINK[cmd]:
                if a != b:
                    self.error = f"the lights of {cmd} change with time"
                self.shown[cmd] = (a, a)
                self.t0[cmd] = 0.0
                continue
            if a == b:
                self.error = f"the lights of {cmd} are the same at {lo} and {hi}, one phase later"
                self.shown[cmd] = (a, a)
                self.t0[cmd] = 0.0
                continue
            for _ in range(60):
                mid = (lo + hi) / 2
                if at(mid) == a:
                    lo = mid
                else:
                    hi = mid
            self.t0[cmd] = hi
            self.shown[cmd] = (a, b)  # before and after the transition
            changed = [k for k in LAMPS if a[k] != b[k]]
            if sorted(changed) != sorted(BLINK[cmd]):
                self.error = f"the lamps {changed} blink on {cmd}"
            off = min((a, b), key=lambda c: sum(c[k] != self.shown["none"][0][k] for k in LAMPS))
            if off != self.shown["none"][0]:
                self.error = f"the unlit phase of {cmd} shows {off}"
        red, more = tuple(map(float, vl.red)), tuple(map(float, vl.red_more))
        self.red, self.more = red, more
        if not sum(more) > sum(red):
            self.error = "the braking lights are not brighter"

    def want(self, cmd: str, acc: float, t, period=None):
        """None: too close to a change of phase"""
        n = 0
        if BLINK[cmd]:
            p = Fraction(period if period is not None else self.period)
            # the first change of phase scales with the period
            x = (Fraction(t) - Fraction(self.t0[cmd]) * p / Fraction(self.period)) / p
            k = math.floor(x)
            d = x - k
            if min(d, 1 - d) < 1e-6 + abs(float(t)) * 1e-12:
                return None
            n = (k + 1) % 2
        c = dict(self.shown[cmd][n])
        if acc < 0:
            for k in ("back_left", "back_right"):
                if c[k] == self.red:
                    c[k] = self.more
        return c


try:
    BASE = Baseline()
except Exception as e:  # judged in the runs
    BASE = Baseline.__new__(Baseline)
    BASE.error = f"the colours cannot be obtained: {e!r}"


class StubAnimation:
    """In place of the event loop of matplotlib: keeps the callbacks"""

    last = None

    def __init__(self, fig=None, func=None, init_func=None, frames=None, **kw):
        self.func, self.init_func, self.frames, self.kw = func, init_func, frames, kw
        StubAnimation.last = self

    def save(self, *a, **kw):
        pass


class Check:
    ID = "C17"
    RUNS_QUICK = 1500
    RUNS_THOROUGH = 60000
    RULE = (
        "A case is, from (seed, index), (calls) a history of requests of light colours by several vehicles and consumers, some of which alter "
        "what they receive, (threads) the same on two to four threads interleaved by the seeded scheduler at source lines, or (frames) a "
        "recorded episode whose frames are drawn through the real renderer in seeded order, with repeated, skipped and restarted frames. "
        "Colours are compared with those shown when nothing was drawn before. Non-trivial if a braking and a non braking vehicle with the "
        "same command were both drawn."
    )
    REAL = ["dg_commons.sim.models.vehicle_ligths", "dg_commons.sim.simulator_animation", "dg_commons.sim.simulator_visualisation",
            "dg_commons.sim.simulator", "matplotlib artists"]
    STUB = ["event loop of the animation (FuncAnimation)", "encoder of the video", "scripted agents"]
    STATE_MEASURE = "(light command, phase, braking, kind of time, mode)"

    def gen(self, rng, tier):
        mode = rng.pick(["calls", "threads", "frames"], [5, 4, 1])
        if mode == "frames":
            n = rng.randint(1, 3)
            players = []
            steps = rng.randint(4, 25)
            for name in rng.sample(NAMES, n):
                kind = rng.pick(["car", "car", "truck", "bike", "cardyn", "ped"])
                plan, t = [], 0.0
                while t < steps * 0.1:
                    plan.append([round(t, 1), rng.pick(CMDS), rng.pick([-3.0, -0.05, 0.0, 0.5, 2.0])])
                    t += rng.pick([0.1, 0.3, 0.7, 2.0])
                players.append(dict(name=name, kind=kind, x0=gen_x0(rng, kind, rng.r(-30, 30), rng.r(-30, 30), rng.r(-3, 3), rng.r(0.5, 5)), plan=plan))
            frames = [rng.randint(0, 80) for _ in range(rng.randint(3, 14))]
            if rng.flip(0.4):
                frames.sort()
            out = []
            for f in frames:
                out.append(f)
                if rng.flip(0.25):
                    out.append(f)
                if rng.flip(0.15):
                    out.append(-1)  # restart of the animation
            return dict(mode=mode, players=players, steps=steps, frames=out, dt=rng.pick([30, 50, 100, 40]), limits=rng.pick(["auto", "auto", "box"]))
        n_t = 1 if mode == "calls" else rng.randint(2, 4)
        n = rng.randint(3, 25) if mode == "threads" else rng.randint(5, 120)
        cmds = rng.sample(CMDS, rng.randint(1, 5))
        step = rng.pick([0.1, 0.05, 0.13, 0.4])
        calls, t = [], 0.0
        for _ in range(n):
            how = rng.pick(["go", "go", "go", "same", "jump", "back"])
            if how == "go":
                t = round(t + step, 4)
            elif how == "jump":
                t = rng.r(0, rng.pick([10, 1000, 1e6]), 4)
            elif how == "back":
                t = max(0.0, round(t - rng.r(0, 3), 4))
            calls.append(dict(w=rng.randrange(n_t), c=rng.pick(cmds), a=rng.pick([-3.0, -1e-9, -0.05, 0.0, -0.0, 1e-9, 2.0]), t=t,
                              ty=rng.pick(["f", "D", "i"]), api=rng.pick(["cmd", "cmds", "cmds", "phased"]), tamper=rng.flip(0.2),
                              p=rng.pick([0.4, 0.4, 1.0, 0.15, rng.r(0.08, 1.7)]), how=how))
        out = dict(mode=mode, calls=calls, n=n_t)
        if mode == "threads":
            out["switches"] = gen_switches(rng, n_t, 40)
        return out

    def run(self, spec, res: Result):
        if BASE.error:
            res.violation("baseline", BASE.error)
            return
        if spec["mode"] == "frames":
            self.run_frames(spec, res)
        else:
            self.run_calls(spec, res)

    # ------------------------------------------------------------------ requests of colours
    def call(self, c, kept):
        t = dict(f=float, D=lambda v: Decimal(str(v)), i=lambda v: int(v))[c["ty"]](c["t"])
        cmd = vl.LightsCmd(c["c"])
        if c["api"] == "cmd":
            got = anim.lights_colors_from_lights_cmd(cmd, c["a"], t)
        elif c["api"] == "cmds":
            got = anim.get_lights_colors_from_cmds(VehicleCommands(acc=c["a"], ddelta=0.1, lights=cmd), t=t)
        else:
            got = vl.get_phased_lights(vl.lightscmd2phases[cmd], float(t), phase_period=c["p"])
        shown = colors(got)
        if c["tamper"]:
            # a consumer that alters what it received
            with contextlib.suppress(dataclasses.FrozenInstanceError):
                for k in LAMPS:
                    setattr(got, k, (0.1, 0.2, 0.3))
        kept.append((t, shown))
        return shown

    def run_calls(self, spec, res: Result):
        out = [[] for _ in range(spec["n"])]

        def work(w):
            for c in spec["calls"]:
                if c["w"] == w:
                    self.call(c, out[w])

        if spec["mode"] == "calls":
            work(0)
            res.schedule = h64([c["how"] for c in spec["calls"]])
        else:
            sch = Scheduler(spec["switches"])
            for w in sch.run([lambda i=i: work(i) for i in range(spec["n"])]):
                if w.error is not None:
                    raise w.error
            res.faults["preemption"] += sch.n_switches
            res.schedule = h64(tuple(sch.order), sch.n_yields)
            res.event("schedule", sch.order, sch.n_yields)
        seen = set()
        at = [0] * spec["n"]
        for n, c in enumerate(spec["calls"]):
            w = c["w"]
            t, shown = out[w][at[w]]
            at[w] += 1
            if c["tamper"]:
                res.faults["altered-colours"] += 1
            if c["how"] in ("jump", "back"):
                res.faults["clock-" + c["how"]] += 1
            plain = c["api"] == "phased"
            want = BASE.want(c["c"], 0.0 if plain else c["a"], t, c["p"] if plain else None)
            res.event(n, c["c"], str(t), h64(shown))
            res.state(c["c"], h64(shown), c["a"] < 0, c["ty"], spec["mode"])
            if not plain:
                seen.add((c["c"], c["a"] < 0))
            if want is not None and shown != want:
                lamp = next(k for k in LAMPS if shown[k] != want[k])
                res.violation("colours", f"request {n}{' on thread %d' % w if spec['n'] > 1 else ''}: command {c['c']}, acceleration {c['a']}, time {t}"
                              f"{', period %g' % c['p'] if plain else ''}: {lamp} shows {shown[lamp]}, with nothing drawn before {want[lamp]}")
                return
        res.nontrivial = any((c, True) in seen and (c, False) in seen for c in CMDS)
        res.sim_time += sum(1 for _ in spec["calls"]) * 0.1

    # ------------------------------------------------------------------ through the renderer
    def run_frames(self, spec, res: Result):
        players = [dict(name=p["name"], model=dict(kind=p["kind"], x0=p["x0"]), agent=dict(pol="const", amp=0.0)) for p in spec["players"]]
        w = World(dict(dt="0.1", dtc="0.1", tmax=str(Decimal("0.1") * spec["steps"]), players=players, after="100"))
        for p in spec["players"]:
            agent = w.ctx.players[PlayerName(p["name"])]
            agent.get_commands = lambda obs, p=p: self.command(p, obs.time)
        w.run()
        if w.error is not None:
            raise w.error
        ctx = w.ctx
        if not ctx.log.get_init_time() < ctx.log.get_last_time():
            return
        real = matplotlib.animation.FuncAnimation
        places = [m for m in (anim, matplotlib.animation) if hasattr(m, "FuncAnimation")]
        for m in places:
            m.FuncAnimation = StubAnimation
        StubAnimation.last = None
        limits = "auto" if spec["limits"] == "auto" else [[-50, 50], [-50, 50]]
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                anim.create_animation("unused.mp4", ctx, figsize=(2, 2), dt=spec["dt"], dpi=10, plot_limits=limits)
            sa = StubAnimation.last
            if sa is None:
                raise HarnessError("the animation was not created through FuncAnimation")
            seen = set()
            started = False
            res.schedule = h64(spec["frames"])
            for n, f in enumerate(spec["frames"]):
                if f < 0 or not started:
                    artists = sa.init_func()
                    started = True
                    res.faults["animation-restart"] += f < 0
                    t = 0.0
                    if f >= 0:
                        artists = sa.func(f)
                        t = f * spec["dt"] / 1000.0
                else:
                    artists = sa.func(f)
                    t = f * spec["dt"] / 1000.0
                if n and 0 <= f <= spec["frames"][n - 1]:
                    res.faults["frame-out-of-order"] += 1
                circles = [a for a in artists if isinstance(a, Circle)]
                for p in spec["players"]:
                    if p["kind"] == "ped":
                        continue
                    pl = ctx.log[PlayerName(p["name"])]
                    e = pl.at_interp(t)
                    cmd = None
                    for ts, c in zip(pl.commands.timestamps, pl.commands.values):
                        if Fraction(ts) <= Fraction(t):
                            cmd = c
                    want = BASE.want(str(cmd.lights), cmd.acc, t)
                    seen.add((str(cmd.lights), cmd.acc < 0))
                    geo = ctx.models[PlayerName(p["name"])].model_geometry
                    s = e.state
                    got = {}
                    for lamp, (a, b) in geo.lights_position.items():
                        x = s.x + math.cos(s.psi) * a - math.sin(s.psi) * b
                        y = s.y + math.sin(s.psi) * a + math.cos(s.psi) * b
                        near = [c for c in circles if math.hypot(c.center[0] - x, c.center[1] - y) < 1e-6]
                        if not near:
                            res.violation("missing", f"frame {f} (time {t:g}): no {lamp} light is drawn on {p['name']}")
                            return
                        got[lamp] = [tuple(map(float, to_rgb(c.get_facecolor()))) for c in near]
                    res.event(n, f, p["name"], h64(got))
                    res.state(str(cmd.lights), cmd.acc < 0, "frames")
                    if want is None:
                        continue
                    for lamp, cs in got.items():
                        if want[lamp] not in cs:
                            res.violation("drawn", f"frame {f} (time {t:g}) of {spec['frames'][: n + 1][-6:]}: {lamp} of {p['name']} is drawn {cs[0]}, command "
                                          f"{cmd.lights} with acceleration {cmd.acc} shows {want[lamp]}")
                            return
            res.nontrivial = any((c, True) in seen and (c, False) in seen for c in CMDS)
            res.sim_time += float(ctx.time)
        finally:
            for m in places:
                m.FuncAnimation = real
            plt.close("all")

    @staticmethod
    def command(p, t):
        cur = p["plan"][0]
        for e in p["plan"]:
            if Decimal(str(e[0])) <= Decimal(t):
                cur = e
        if p["kind"] == "ped":
            return PedestrianCommands(cur[2], 0.0)
        return VehicleCommands(acc=cur[2], ddelta=0.0, lights=vl.LightsCmd(cur[1]))


CHECK = Check()
