import math
from decimal import Decimal

import numpy as np

from dst.checks.c22 import gen_body, gen_plan
from dst.core.result import Result, h64
from dst.world.bodies import COMMAND_FIELDS, COMMAND_SCALE, REAL_KINDS, STATE_FIELDS, make_command, make_model
from dst.world.dynamics import DEAF, friction, limits_of
from dst.world.world import World, canon

CARS = ("car", "truck", "bike", "moto")
DYN = ("cardyn", "truckdyn", "bikedyn")


class Check:
    ID = "C11"
    RUNS_QUICK = 900
    RUNS_THOROUGH = 60000
    RULE = (
        "A case is one episode of up to three real bodies of any kind, generated from (seed, index), whose agents command values up to "
        "1e100, switch signs at every step, hold stuck commands at the limits, or at some step return NaN or infinity; bodies start "
        "near or beyond their limits, with little fuel, marked as collided or not. Every step is checked against the limits in the "
        "parameters. Non-trivial if a limit was commanded to be exceeded."
    )
    REAL = ["dg_commons.sim.simulator", "all bodies of dg_commons.sim.models"]
    STUB = ["agents (scripted schedules)", "wall clock (virtual)"]
    STATE_MEASURE = "(kind, collided, which limits were reached, size of the commands, step size)"

    def gen(self, rng, tier):
        dt = rng.pick(["0.1", "0.05", "0.2", "0.02", "0.25", "0.5"])
        steps = rng.randint(4, 16 if tier == "quick" else 60)
        players = []
        for k in range(rng.randint(1, 3)):
            kind = rng.pick(REAL_KINDS)
            m = gen_body(rng, k, kind)
            if "m" in STATE_FIELDS[kind] and rng.flip(0.6):
                m["x0"][STATE_FIELDS[kind].index("m")] = round(make_model(m).model_params.m_v + rng.pick([0.0, 0.001, 0.003, 0.01, -0.1]), 6)
            if rng.flip(0.15):
                m["collided"] = True
            amp = rng.pick([1.0, 2.0, 10.0, 1e3, 1e6, 1e15, 1e100])
            plan = gen_plan(rng, kind, float(dt), steps, amp)
            if rng.flip(0.4):  # stuck in one direction
                u = [rng.pick([-1, 1]) * amp * s for s in COMMAND_SCALE[kind]]
                plan = [[0.0, u]]
            if rng.flip(0.12) and not m.get("collided"):
                t = float(dt) * rng.randint(0, steps - 1)
                u = list(plan[0][1])
                u[rng.randrange(len(u))] = rng.pick(["nan", "inf", "-inf"])
                plan = sorted([q for q in plan if q[0] != round(t, 6)] + [[round(t, 6), u]], key=lambda q: q[0])
            players.append(dict(name=f"P{k}", model=m, agent=dict(pol="plan", plan=plan)))
        D = Decimal(dt)
        return dict(dt=dt, dtc=dt, tmax=str(D * steps), players=players, seed=rng.randint(0, 10**6))

    def run(self, spec, res: Result):
        from dst.core.engine import from_code_under_test

        w = World(spec)
        for pl in spec["players"]:
            if pl["model"].get("collided"):
                w.all_models[pl["name"]].has_collided = True
        err = None
        try:
            w.run()
        except Exception as e:
            if not from_code_under_test(e.__traceback__):
                raise
            err = e
        w.trace_into(res)
        res.schedule = h64([pl["agent"] for pl in spec["players"]])
        self.steps(spec, w, res)
        if not res.violations:
            self.nonfinite(spec, w, err, res)

    # ------------------------------------------------------------------ commands that are not numbers
    def nonfinite(self, spec, w: World, err, res: Result):
        bad, last = None, {}
        for e in w.rec.events:
            if e.kind == "cmd":
                cmd = w.rec.live_cmds[e.p][e.d["n"] - 1]
                kind = w.kinds[e.p]
                last[e.p] = cmd
                if bad is None and not all(math.isfinite(float(getattr(cmd, f))) for f in COMMAND_FIELDS[kind]):
                    bad = (e.t, e.p, cmd)
        if bad is None:
            if err is not None:
                res.violation("refused", f"{type(err).__name__}: {str(err)[:200]} although all commands are finite")
            return
        res.faults["non-finite-command"] += 1
        t, p, cmd = bad
        if err is None:
            res.violation("accepted", f"{p} ({w.kinds[p]}) was not refused the command {cmd} at {t}; its state at the end: {w.all_models[p].get_state()}")
            return
        for e in w.rec.of("upd"):
            if e.p == p and e.t is not None and Decimal(e.t) >= Decimal(t):
                res.violation("accepted", f"{p} ({w.kinds[p]}) moved at {e.t} although it was commanded {cmd} at {t}")
                return
        # the refused body is where it was, and works
        m = w.all_models[p]
        before = [e.d["after"] for e in w.rec.of("upd") if e.p == p][-1:] or [w.initial[p]]
        if canon(m.get_state()) != before[0]:
            res.violation("refused-moved", f"{p} ({w.kinds[p]}) refused the command {cmd} with {type(err).__name__} but its state changed to {m.get_state()}")
            return
        kind = w.kinds[p]
        m.update(make_command(kind, [0.1 * s for s in COMMAND_SCALE[kind]]), Decimal(spec["dt"]))
        x = [float(getattr(m.get_state(), f)) for f in STATE_FIELDS[kind]]
        if not all(map(math.isfinite, x)):
            res.violation("refused-broken", f"{p} ({kind}) does not work any longer after it refused the command {cmd}")

    # ------------------------------------------------------------------ limits
    def steps(self, spec, w: World, res: Result):
        specs = {pl["name"]: pl for pl in spec["players"]}
        for e in w.rec.of("upd"):
            p = e.p
            kind = w.kinds[p]
            names = STATE_FIELDS[kind]
            a = {n: float(getattr(e.d["raw_before"], n)) for n in names}
            b = {n: float(getattr(e.d["raw_after"], n)) for n in names}
            dt = float(e.d["dt"])
            u = [float(getattr(e.d["raw_u"], n)) for n in COMMAND_FIELDS[kind]]
            if not all(map(math.isfinite, u)):
                return  # see nonfinite()
            if not all(math.isfinite(v) for v in b.values()):
                res.violation("finite", f"{p} ({kind}) at {e.t}: {a} became {b} with the finite commands {u}")
                return
            over = [abs(v) > s for v, s in zip(u, COMMAND_SCALE[kind])]
            if any(over):
                res.nontrivial = True
                res.faults["command-beyond-limits"] += 1
                if max(map(abs, u)) > 1e2:
                    res.faults["command-extreme"] += 1
            at = tuple(n for n, l in limits_of(kind, w.all_models[p].model_params).items() if b[n] <= l[0] or b[n] >= l[1])
            if at:
                res.faults["state-at-limit"] += 1
            res.state(kind, e.d["collided"], at, tuple(int(math.log10(abs(v) + 1e-3)) for v in u), spec["dt"])
            for msg in self.broken(w.all_models[p], kind, a, b, dt, bool(e.d["collided"])):
                res.violation("limit", f"{p} ({kind}) at {e.t} with commands {u} for {dt} s: {msg}; {a} -> {b}")
                return

    def broken(self, model, kind, a, b, dt, collided):
        g, p = model.model_geometry, model.model_params

        def rate(n, lo, hi, extra=0.0):
            r = (b[n] - a[n]) / dt
            if any(not (l[0] < min(a[k], b[k]) and max(a[k], b[k]) < l[1]) for k, l in limits_of(kind, p).items()):
                extra += 0.33 * max(abs(lo), abs(hi))  # the integrator meets the limit within the step
            slack = 1e-6 + 1e-3 * max(abs(lo), abs(hi)) + 1e-9 * abs(a[n]) / dt + extra
            if not lo - slack <= r <= hi + slack:
                yield f"{n} changed at the rate {r:.6g}, the limits are [{lo:.6g}, {hi:.6g}]"

        def bound(n, lim, top, extra=0.0):
            """No further beyond the limit than before, or than one step can add"""
            allow = 1.5 * dt * top + 1e-6 + extra
            for out0, out1 in ((a[n] - lim[1], b[n] - lim[1]), (lim[0] - a[n], lim[0] - b[n])):
                if out1 > max(out0 + 1e-6 + extra + (0.33 * dt * top if kind == "dynobs" else 0.0), allow):
                    yield f"{n}={b[n]:.6g} exceeds the limits [{lim[0]:.6g}, {lim[1]:.6g}] (it was {a[n]:.6g})"

        fr = [abs(v) for v in friction(kind, a, collided)]
        deaf = collided and kind in DEAF
        if kind in CARS + DYN:
            yield from rate("delta", -p.ddelta_max, p.ddelta_max)
            yield from bound("delta", (-p.delta_max, p.delta_max), p.ddelta_max)
        if kind in CARS:
            yield from rate("vx", *((0, 0) if deaf else p.acc_limits))
            yield from bound("vx", p.vx_limits, max(map(abs, p.acc_limits)))
        calm = all(x["vx"] > 1 and abs(x["vy"]) + abs(x["dpsi"]) * (g.lf + g.lr) < 0.4 * x["vx"] and abs(x["delta"]) < 0.6
                   for x in (a, b)) if kind in DYN else False
        if kind in DYN[:2] and not collided and calm:  # in a drift the tyre model is not dissipative
            # the speed equivalent to the kinetic energy: tyres, drag and resistance only dissipate
            V = [math.sqrt(x["vx"] ** 2 + x["vy"] ** 2 + g.Iz / g.m * x["dpsi"] ** 2) for x in (a, b)]
            top = 0.0 if min(a["vx"], b["vx"]) >= p.vx_limits[1] else p.acc_limits[1]
            if V[1] - V[0] > 1.2 * top * dt + 2e-2 * (1 + V[0]):
                yield f"it speeds up from {V[0]:.6g} to {V[1]:.6g}, the acceleration limit is {top:.6g}"
            # brakes, drag, rolling resistance and tyres
            low = -p.acc_limits[0] + 2.0 + 9.81 * 2
            if V[0] - V[1] > 1.2 * low * dt + 1e-2:
                yield f"it slows down from {V[0]:.6g} to {V[1]:.6g}"
        if kind == "ped":
            yield from rate("psi", *((0, 0) if deaf else (-p.dtheta_max, p.dtheta_max)))
            yield from rate("vx", *((0, 0) if deaf else p.acc_limits), extra=fr[0])
            yield from bound("vx", p.vx_limits, max(map(abs, p.acc_limits)), fr[0] * dt)
        if kind == "diff":
            th = b["psi"] - a["psi"]
            yield from rate("psi", *(s * g.wheelradius * (p.omega_limits[1] - p.omega_limits[0]) / g.wheelbase for s in (-1, 1)))
            chord = math.hypot(b["x"] - a["x"], b["y"] - a["y"])
            arc = chord * (1.0 if abs(th) < 1e-6 else abs(th / 2 / math.sin(th / 2))) if abs(th) < 3 else chord
            wheel = (arc / dt + abs(th) / dt * g.wheelbase / 2) / g.wheelradius
            top = 0.0 if deaf else max(map(abs, p.omega_limits))
            if abs(th) < 3 and wheel > top * 1.005 + 1e-3 + 1e-9 * (abs(a["x"]) + abs(a["y"])) / dt / g.wheelradius:
                yield f"a wheel turned at {wheel:.6g} rad/s, the limits are {p.omega_limits}"
        if kind in ("spacecraft", "spaceship", "rocket"):
            dv = math.hypot(b["vx"], b["vy"]) - math.hypot(a["vx"], a["vy"])
            if kind == "spacecraft":
                acc = 2 * max(map(abs, p.acc_limits))
                k = g.w_half * g.m / g.Iz * (p.acc_limits[1] - p.acc_limits[0])
                if deaf:
                    acc = k = 0.0
                yield from rate("dpsi", -k, k)
                yield from bound("dpsi", p.dpsi_limits, k)
            else:
                empty = a["m"] <= p.m_v
                lim = p.thrust_limits if kind == "spaceship" else p.F_limits
                n = 1 if kind == "spaceship" else 2
                f = 0.0 if empty or deaf else n * max(map(abs, lim))
                acc = f / max(min(a["m"], b["m"]), 0.1)
                k = f * (g.l_r if kind == "spaceship" else g.l_m / 2) / g.Iz
                yield from rate("dpsi", -k, k)
                if b["m"] > a["m"] + 1e-12:
                    yield f"the mass increased by {b['m'] - a['m']:.6g}"
                yield from rate("m", -p.C_T * f * 1.001, 0.0)
                if b["m"] < min(a["m"], p.m_v) - p.C_T * f * dt * 1.5 - 1e-9:
                    yield f"the mass {b['m']:.6g} is less than without fuel"
                ang = "delta" if kind == "spaceship" else "phi"
                yield from rate(ang, *((0, 0) if deaf else p.ddelta_limits))
                yield from bound(ang, p.delta_limits, max(map(abs, p.ddelta_limits)))
            v0 = math.hypot(a["vx"], a["vy"])
            if any(not (l[0] < min(a[k], b[k]) and max(a[k], b[k]) < l[1]) for k, l in limits_of(kind, p).items()):
                acc *= 1.33  # the integrator meets a limit or the end of the fuel within the step
            if abs(dv) > acc * dt * 1.005 + 5e-4 * (1 + v0) * (1 + abs(a["dpsi"]) * dt):
                yield f"its speed changed by {dv:.6g}, its thrusters allow {acc * dt:.6g}"
        if kind == "dynobs":
            for n in ("vx", "vy"):
                yield from rate(n, *p.acc_limits)
                yield from bound(n, p.vx_limits, max(map(abs, p.acc_limits)))
            yield from rate("dpsi", *p.ddpsi_limits)
            yield from bound("dpsi", p.dpsi_limits, max(map(abs, p.ddpsi_limits)))


CHECK = Check()
