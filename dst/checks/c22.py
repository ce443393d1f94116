import math
from decimal import Decimal

import numpy as np

from dst.core.result import Result, h64
from dst.core.rng import Rng
from dst.world.bodies import COMMAND_FIELDS, COMMAND_SCALE, REAL_KINDS, STATE_FIELDS, make_model, vary
from dst.world.dynamics import judge, limits_of, rhs
from dst.world.gen import gen_x0
from dst.world.world import World, hash_unit

def gen_body(rng: Rng, k: int, kind: str, amp_max: float = 3.0) -> dict:
    site = 40.0 * k
    big = rng.flip(0.1)
    x, y = site + rng.r(-3, 3), rng.r(-3, 3) + (1e4 if big else 0.0)
    psi = rng.r(-7, 7)
    x0 = gen_x0(rng, kind, x, y, psi, rng.pick([0.0, rng.r(0, 3), rng.r(0, 15)]))
    f = STATE_FIELDS[kind]
    other = vary(rng, kind) if rng.flip(0.5) else {}
    for n, (lo, hi) in limits_of(kind, make_model(dict(kind=kind, x0=x0, **other)).model_params).items():
        if rng.flip(0.35):  # near where the dynamics switch
            v = rng.pick([lo, hi])
            if abs(v) < 1e6:
                x0[f.index(n)] = round(v + rng.r(-1, 1) * 0.05 * max(1.0, abs(v)), 6)
        elif n == "delta" and rng.flip(0.5):
            x0[f.index(n)] = rng.r(lo, hi)
    if "dpsi" in f and kind not in ("cardyn", "truckdyn", "bikedyn") and rng.flip(0.6):
        x0[f.index("dpsi")] = rng.r(-1.5, 1.5)
    if "m" in f and x0[f.index("m")] <= 0:
        x0[f.index("m")] = 2.01
    if kind == "ped" and rng.flip(0.4):
        x0[f.index("vy")] = rng.r(-1, 1)
        x0[f.index("dpsi")] = rng.r(-2, 2)
    if kind in ("cardyn", "truckdyn", "bikedyn"):
        i = f.index("vx")
        x0[i] = rng.pick([x0[i], rng.r(-1, 0.2), rng.r(1, 20), rng.r(1, 20)])
        if x0[i] > 1:
            x0[f.index("vy")] = rng.r(-0.1, 0.1) * x0[i]
            x0[f.index("dpsi")] = rng.r(-0.2, 0.2)
    return dict(kind=kind, x0=x0, **other)


def gen_plan(rng: Rng, kind: str, grid: float, n: int, amp: float) -> list:
    """Commands changing at multiples of the grid"""
    style = rng.pick(["rand", "rand", "bang", "const", "sparse"])
    out, k = [], 0
    while k < n:
        if style == "bang":
            u = [rng.pick([-1, 1]) * amp * s for s in COMMAND_SCALE[kind]]
        elif style == "sparse":
            u = [amp * s * rng.r(-1, 1) if rng.flip(0.4) else 0.0 for s in COMMAND_SCALE[kind]]
        else:
            u = [amp * s * rng.r(-1, 1) for s in COMMAND_SCALE[kind]]
        out.append([round(k * grid, 6), [round(v, 6) for v in u]])
        k += n if style == "const" else rng.randint(1, 4)
    return out


class Check:
    ID = "C22"
    RUNS_QUICK = 500
    RUNS_THOROUGH = 30000
    RULE = (
        "A case is one episode of up to four real bodies of any kind, generated from (seed, index), with explicit command schedules "
        "(bang-bang, random, constant, beyond the limits), states near the limits where the dynamics switch, marked as collided or "
        "not. Every step is repeated by an independent integrator of the equations; the episode is also repeated with another cut of "
        "the time into steps. Non-trivial if some body moved under changing commands."
    )
    REAL = ["dg_commons.sim.simulator", "all bodies of dg_commons.sim.models"]
    STUB = ["agents (scripted schedules)", "wall clock (virtual)"]
    STATE_MEASURE = "(kind, collided, which limits were active, step size, commands saturated)"

    def gen(self, rng, tier):
        dt = rng.pick(["0.1", "0.05", "0.2", "0.02", "0.01", "0.25", "0.08", "0.4"])
        steps = rng.randint(3, 10 if tier == "quick" else 30)
        cut = rng.pick([2, 2, 4, 5])
        players = []
        for k in range(rng.randint(1, 3)):
            kind = rng.pick(REAL_KINDS)
            amp = rng.pick([0.3, 0.8, 1.5, 3.0])
            m = gen_body(rng, k, kind)
            if rng.flip(0.2):
                m["collided"] = True
            players.append(dict(name=f"P{k}", model=m,
                                agent=dict(pol="plan", plan=gen_plan(rng, kind, float(dt), steps, amp))))
        D = Decimal(dt)
        return dict(dt=dt, dtc=dt, tmax=str(D * steps), players=players, cut=cut, seed=rng.randint(0, 10**6))

    def run(self, spec, res: Result):
        w = self.episode(spec)
        w.trace_into(res)
        res.schedule = h64(spec["dt"], [pl["agent"]["plan"] for pl in spec["players"]])
        touched = set()
        if not self.steps(spec, w, res, touched):
            return
        fine = dict(spec, dt=str(Decimal(spec["dt"]) / spec["cut"]))
        fine["dtc"] = fine["dt"]
        v = self.episode(fine)
        if self.steps(fine, v, res, touched):
            self.compare(spec, w, v, res, touched)
            res.faults["step-cut"] += 1

    def episode(self, spec) -> World:
        w = World(spec)
        for pl in spec["players"]:
            if pl["model"].get("collided"):
                w.all_models[pl["name"]].has_collided = True
        return w.run()

    # --------------------------------------------------------------------------
    def steps(self, spec, w, res: Result, touched: set) -> bool:
        specs = {pl["name"]: pl for pl in spec["players"]}
        for e in w.rec.of("upd"):
            p = e.p
            kind = specs[p]["model"]["kind"]
            names = STATE_FIELDS[kind]
            s0, s1 = e.d["raw_before"], e.d["raw_after"]
            x0 = np.array([float(getattr(s0, n)) for n in names])
            x1 = np.array([float(getattr(s1, n)) for n in names])
            u = [float(getattr(e.d["raw_u"], n)) for n in COMMAND_FIELDS[kind]]
            dt = float(e.d["dt"])
            c = bool(specs[p]["model"].get("collided"))
            if e.d["collided"] != c:
                res.stats["collided-by-accident"] += 1
                return False
            model = w.all_models[p]
            want, tol, active = judge(model, kind, c, x0, u, dt, x1)
            bad = np.abs(x1 - want) > tol
            res.stats["updates:" + kind] += 1
            if "dyn" in kind and kind != "dynobs" and min(x0[3], x1[3]) < 3:
                touched.add(p)  # stiff tyres at low speed
            if np.any(np.abs(x1 - x0)[2:] > 1e-9):
                res.nontrivial = True
            sat = [abs(v) > s for v, s in zip(u, COMMAND_SCALE[kind])]
            if any(sat):
                res.faults["command-beyond-limits"] += 1
            if active:
                touched.add(p)
                res.faults["state-at-limit"] += 1
            res.state(kind, c, tuple(active), spec["dt"], tuple(sat))
            if np.any(bad):
                i = int(np.argmax(np.abs(x1 - want) / tol))
                res.violation("motion", f"{p} ({kind}{', collided' if c else ''}) at {e.t}: with commands {u} for {dt} s the state "
                              f"{dict(zip(names, x0.round(6)))} goes to {names[i]}={x1[i]:.9g}, the equations of motion give "
                              f"{want[i]:.9g} (tolerance {tol[i]:.2g})")
                return False
            if hash_unit("v", spec["seed"], p, str(e.t)) > 0.5 and not self.velocity(specs[p], kind, s0, x0, u, c, e, res):
                return False
        return True

    def velocity(self, pl, kind, s0, x0, u, collided, e, res: Result) -> bool:
        names = STATE_FIELDS[kind]
        m = make_model(pl["model"])
        m.set_state(s0)
        x = dict(zip(names, x0))
        if kind == "diff":
            return True
        if kind in ("cardyn", "truckdyn", "bikedyn") and x["vx"] < 0.1 + 1e-9:
            return True
        d = rhs(m, kind, x, dict(zip(COMMAND_FIELDS[kind], u)))
        w = x["dpsi"] if kind == "ped" else d["psi"]
        vg = np.array([d["x"], d["y"]])
        c, s = math.cos(x["psi"]), math.sin(x["psi"])
        vl = np.array([c * vg[0] + s * vg[1], -s * vg[0] + c * vg[1]])
        for frame, want in ((False, vg), (True, vl)):
            v, omega = m.get_velocity(in_model_frame=frame)
            if np.any(np.abs(np.asarray(v, dtype=float) - want) > 1e-9 * (1 + np.abs(want))) or abs(omega - w) > 1e-9 * (1 + abs(w)):
                res.violation("velocity", f"{kind} reports the {'body' if frame else 'global'} velocity {v}, {omega}, it moves with {want}, {w}")
                return False
        res.stats["velocities"] += 1
        return True

    def compare(self, spec, a: World, b: World, res: Result, touched: set):
        """The same schedule cut into other steps (bodies that met no limit nor stiff dynamics)"""
        T = {}
        for tag, w in (("a", a), ("b", b)):
            for p, pl in w.ctx.log.items():
                for t, s in pl.states:
                    T.setdefault((str(p), Decimal(t)), {})[tag] = s
        for pl in spec["players"]:
            p, kind = pl["name"], pl["model"]["kind"]
            if pl["model"].get("collided") or p in touched:
                continue
            res.stats["step-cuts-compared"] += 1
            names = STATE_FIELDS[kind]
            start = None
            spread = None
            for (q, t), d in sorted(T.items(), key=lambda kv: kv[0]):
                if q != p or len(d) < 2:
                    continue
                xa = np.array([float(getattr(d["a"], n)) for n in names])
                xb = np.array([float(getattr(d["b"], n)) for n in names])
                if "dyn" in kind and kind != "dynobs":
                    xa[4:6] = xb[4:6]  # fast modes, compared step by step only
                if start is None:
                    start = xa
                    far = np.zeros(len(xa))
                far = np.maximum(far, np.abs(xa - start))
                loose = 0.06 if kind in ("cardyn", "truckdyn", "bikedyn") else 0.02
                tol = 1e-3 + loose * (far + np.max(far[:2]) * 0.3)
                tol = tol + 0.15 * float(Decimal(spec["dt"])) * (1 + np.max(np.abs(xa[2:])))
                if np.any(np.abs(xa - xb) > tol):
                    i = int(np.argmax(np.abs(xa - xb) / tol))
                    res.violation("step-cut", f"{p} ({kind}) at {t}: {names[i]} is {xa[i]:.6g} with steps of {spec['dt']}, "
                                  f"{xb[i]:.6g} with steps {spec['cut']} times shorter")
                    return


CHECK = Check()
