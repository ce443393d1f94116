import math

from dst.core.result import Result, h64
from dst.core.rng import Rng
from dst.world.bodies import make_model

KINDS = ("car", "truck", "bike", "cardyn")


def clip(v, lim):
    return min(max(v, lim[0]), lim[1])


class RefPid:
    """The law of the controller"""

    def __init__(self, kp, ki, kd, wind, ref, out):
        self.k, self.wind, self.ref_lim, self.out = (kp, ki, kd), wind, ref, out
        self.i = 0.0
        self.r = self.m = 0.0
        self.last_e = 0.0
        self.last_t = None

    def control(self, t):
        e = self.r - self.m
        dt = 0.0 if self.last_t is None else t - self.last_t
        self.last_t = t
        d = 0.0
        if dt != 0:
            self.i = clip(self.i + self.k[1] * e * dt, self.wind)
            d = (e - self.last_e) / dt
        self.last_e = e
        return clip(self.k[0] * e + self.i + self.k[2] * d, self.out), e, d


class Check:
    ID = "C15"
    RUNS_QUICK = 3000
    RUNS_THOROUGH = 300000
    RULE = (
        "A case is, from (seed, index), a closed loop of one to three controllers (speed, steering or generic PID) on simulated plants, "
        "requested in interleaved order, under clock faults (repeated, jumping, backwards and stalled requests), sensor faults (stuck, "
        "dropped, spiking measurements) and changing references. Non-trivial if the output or the integral was saturated and a fault "
        "was injected."
    )
    REAL = ["dg_commons.controllers.pid", "dg_commons.controllers.speed", "dg_commons.controllers.steer"]
    STUB = ["plants (integrators)", "request clock"]
    STATE_MEASURE = "(controller, output saturated, integral saturated, reference clipped, fault of the request, sign of the error)"

    def gen(self, rng, tier):
        ctrls = []
        for _ in range(rng.randint(1, 3)):
            k = rng.pick(["speed", "steer", "pid", "speed-default", "steer-default"])
            c = dict(k=k, kind=rng.pick(KINDS), m0=rng.r(-3, 10), plant=rng.pick(["int", "lag", "none"]),
                     own=rng.flip(0.3))
            if k == "pid":
                lo = lambda a, b: [round(-rng.uniform(a, b), 3), round(rng.uniform(a, b), 3)]
                c.update(kp=rng.r(0, 6), ki=rng.pick([0.0, rng.r(0, 3)]), kd=rng.pick([0.0, rng.r(0, 1)]), wind=lo(0.01, 3),
                         ref=lo(0.1, 5), out=lo(0.1, 5))
                if rng.flip(0.2):
                    c["ref"] = [rng.r(0.5, 1), rng.r(2, 5)]
            ctrls.append(c)
        n = rng.randint(5, 60 if tier == "quick" else 300)
        dt = rng.pick([0.1, 0.05, 0.02, 0.2])
        amp = rng.pick([1.0, 5.0, 50.0, 1e6])
        faults = [f for f in ("repeat", "jump", "back", "stall", "stuck", "drop", "spike") if rng.flip(0.4)]
        ev = []
        for _ in range(n):
            c = rng.randrange(len(ctrls))
            f = rng.pick(faults) if faults and rng.flip(0.3) else ""
            e = dict(c=c, f=f)
            if rng.flip(0.2):
                e["ref"] = rng.r(-amp, amp)
            if f == "spike":
                e["v"] = rng.r(-amp, amp)
            if f in ("jump", "back", "stall"):
                e["by"] = rng.r(0.001, 30)
            ev.append(e)
        return dict(ctrls=ctrls, dt=dt, events=ev, t0=rng.pick([0.0, 0.0, 3.7, -2.0]), goal=rng.r(-0.3, 0.9))

    def make(self, c):
        from dg_commons.controllers.pid import PID, PIDParam
        from dg_commons.controllers.speed import SpeedController, SpeedControllerParam
        from dg_commons.controllers.steer import SteerController, SteerControllerParam

        vp = make_model(dict(kind=c["kind"], x0=[0.0] * (7 if "dyn" in c["kind"] else 5))).model_params
        if c["k"] == "pid":
            p = PIDParam(kP=c["kp"], kI=c["ki"], kD=c["kd"], antiwindup=tuple(c["wind"]), setpoint_minmax=tuple(c["ref"]),
                         output_minmax=tuple(c["out"]))
            return PID(p), RefPid(c["kp"], c["ki"], c["kd"], c["wind"], c["ref"], c["out"])
        if c["k"].startswith("speed"):
            if c["k"] == "speed":
                own = SpeedController(SpeedControllerParam.from_vehicle_params(vp))
                out = own if c.get("own") else SpeedController.from_vehicle_params(vp)
                lim = (vp.vx_limits, vp.acc_limits)
            else:
                out, d = SpeedController(), SpeedControllerParam()
                lim = (d.setpoint_minmax, d.output_minmax)
        else:
            if c["k"] == "steer":
                own = SteerController(SteerControllerParam.from_vehicle_params(vp))
                out = own if c.get("own") else SteerController.from_vehicle_params(vp)
                lim = ((-vp.delta_max, vp.delta_max), (-vp.ddelta_max, vp.ddelta_max))
            else:
                out, d = SteerController(), SteerControllerParam()
                lim = (d.setpoint_minmax, d.output_minmax)
        p = out.params
        return out, RefPid(p.kP, p.kI, p.kD, p.antiwindup, *lim)

    def run(self, spec, res: Result):
        made = [self.make(c) for c in spec["ctrls"]]
        plant = [c["m0"] for c in spec["ctrls"]]
        seen = list(plant)
        stuck = [0] * len(plant)
        u = [0.0] * len(plant)
        when = [spec["t0"]] * len(plant)
        t = spec["t0"]
        res.schedule = h64([(e["c"], e["f"]) for e in spec["events"]])
        sat_any = fault_any = False
        for n, e in enumerate(spec["events"]):
            i, f = e["c"], e["f"]
            pid, ref = made[i]
            if f == "repeat":
                pass
            elif f == "jump" or f == "stall":
                t += e["by"]
            elif f == "back":
                t -= e["by"]
            else:
                t += spec["dt"]
            el = max(0.0, min(t - when[i], 1.0))
            when[i] = t
            if spec["ctrls"][i]["plant"] == "int":
                plant[i] += u[i] * el
            elif spec["ctrls"][i]["plant"] == "lag":
                plant[i] += (u[i] - plant[i]) * min(1.0, el)
            if f == "stuck":
                stuck[i] = 4
            if f:
                res.faults["clock-" + f if f in ("repeat", "jump", "back", "stall") else "sensor-" + f] += 1
                fault_any = True
            if stuck[i]:
                stuck[i] -= 1
            elif f == "spike":
                seen[i] = e["v"]
            elif f != "drop":
                seen[i] = plant[i]
            if f != "drop":
                pid.update_measurement(seen[i])
                ref.m = seen[i]
            if "ref" in e:
                pid.update_reference(e["ref"])
                ref.r = clip(e["ref"], ref.ref_lim)
            got = pid.get_control(t)
            want, err, d = ref.control(t)
            res.event("u", n, i, float(got).hex())
            scale = abs(ref.k[0] * err) + abs(ref.i) + abs(ref.k[2] * d) + 1e-6
            osat = want in ref.out
            isat = ref.i in tuple(ref.wind)
            sat_any |= osat or isat
            res.state(spec["ctrls"][i]["k"], osat, isat, "ref" in e and ref.r != e["ref"], f, err > 0)
            if not math.isfinite(got) or abs(got - want) > 1e-9 * scale:
                res.violation("law", f"request {n} of controller {i} ({spec['ctrls'][i]['k']}) at {t:.6g}{' (' + f + ')' if f else ''}: output {got:.9g}, "
                              f"the law gives {want:.9g} (error {err:.6g}, integral {ref.i:.6g}, derivative {d:.6g})")
                return
            if not ref.out[0] - 1e-12 <= got <= ref.out[1] + 1e-12:
                res.violation("bound", f"output {got} beyond the limits {ref.out}")
                return
            raw = got if not osat else None
            if raw is not None:
                integ = raw - ref.k[0] * err - ref.k[2] * d
                if not ref.wind[0] - 1e-9 * scale <= integ <= ref.wind[1] + 1e-9 * scale:
                    res.violation("windup", f"integral part {integ} beyond the anti-windup limits {ref.wind}")
                    return
            u[i] = got
        res.nontrivial = sat_any and fault_any
        self.settle(spec, made, plant, t, res)

    def settle(self, spec, made, plant, t, res: Result):
        """Once the faults stop, the default controllers bring an integrator to the reference up to what the integral part may hold"""
        for i, c in enumerate(spec["ctrls"]):
            if c["k"] == "pid" or abs(plant[i]) > 60:
                continue
            pid, ref = made[i]
            goal = clip(spec["goal"], ref.ref_lim)
            pid.update_reference(spec["goal"])
            x, tt = plant[i], t + 0.05
            for _ in range(int(20 / 0.05 * (1 + abs(x - goal)))):
                pid.update_measurement(x)
                x += 0.05 * pid.get_control(tt)
                tt += 0.05
            hold = max(map(abs, ref.wind)) / ref.k[0]
            res.sim_time += tt - t
            res.stats["settled"] += 1
            if abs(x - goal) > hold + 0.02:
                res.violation("recovery", f"controller {i} ({c['k']}): {tt - t:.0f} s after the faults the error is {x - goal:.4g}, the anti-windup "
                              f"limits allow {hold:.4g}")
                return


CHECK = Check()
