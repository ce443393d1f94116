import math

from dst.core.result import Result, h64
from dst.core.rng import Rng
from dst.world.follow import EGO, NOMINAL, Ride, gentle_lane, on_lane
from dst.world.lanes import lane_points
from dst.world.gen import turned

D_YIELD, V_MIN, T_SAFE, W_WAY = 7.0, 5 / 3.6, 1.5, 1.2
BRAKE = {"car": 8.0, "dyncar": 8.0, "bicycle": 4.0, "truck": 6.0}
HALF = {"car": 2.6, "dyncar": 2.6, "bicycle": 1.2, "truck": 5.0}


def room(kind: str, v: float, lead: str) -> float:
    """Distance of the centres from which it can certainly be expected to stop behind a standing vehicle"""
    return 2.5 * max(v, 4) + v * v / (2 * BRAKE[kind]) + HALF[kind] + HALF[lead] + 5


def rel_of(me, o):
    dx, dy = o.x - me.x, o.y - me.y
    c, s = math.cos(me.psi), math.sin(me.psi)
    return c * dx + s * dy, -s * dx + c * dy, math.atan2(math.sin(o.psi - me.psi), math.cos(o.psi - me.psi))


def band(v, lo, hi, m):
    """v in [lo, hi]: surely (1), surely not (-1) or too close to tell (0)"""
    if lo + m <= v <= hi - m:
        return 1
    return -1 if v < lo - m or v > hi + m else 0


def both(*xs):
    return min(xs)


def any_of(xs):
    return max(xs, default=-1)


def hazards(obs, me_name: str):
    """(emergency, yield, ahead): 1 for sure, -1 surely not, 0 unclear"""
    me = next(o.state for p, o in obs.players.items() if str(p) == me_name)
    emergency, yielding, ahead = [], [], []
    for p, o in obs.players.items():
        if str(p) == me_name:
            continue
        o = o.state
        x, y, th = rel_of(me, o)
        d = math.hypot(x, y)
        close = band(d, -9, D_YIELD, 0.2)
        moving = band(o.vx, V_MIN, 1e9, 0.05)
        left = both(band(th, -3 * math.pi / 4, -math.pi / 4, 0.02), moving, close)
        way = both(band(x, 0, 1e9, 0.05), band(y, -W_WAY, W_WAY, 0.05))
        front = both(band(abs(th), 3 * math.pi / 4, 9, 0.02), way, band(d, -9, T_SAFE * (me.vx + o.vx), 0.3))
        emergency += [left, front]
        yielding.append(both(band(th, math.pi / 4, 3 * math.pi / 4, 0.02), moving, close))
        ahead.append(both(band(x, 0, 1e9, 0.0), band(y, -4, 4, 0.0), band(d, -1, 60, 0.0)))
    return any_of(emergency), any_of(yielding), any_of(ahead)


class Check:
    ID = "C19"
    RUNS_QUICK = 260
    RUNS_THOROUGH = 12000
    RULE = (
        "A case is, from (seed, index), an episode of a real lane follower among phantoms that appear in its observations (from the left, "
        "from the right, oncoming, or just beyond the thresholds) and vanish, or behind real slower, braking and stopped vehicles, with "
        "late, stuck, repeated and blind observations. The observations it really received are classified independently and its commands "
        "and motion are judged against them, from then to the end of the episode; some agents drive once more after an emergency. "
        "Non-trivial if it observed an emergency or somebody to yield to, or came within 20 m of a vehicle ahead."
    )
    REAL = ["dg_commons.sim.agents.lane_follower", "dg_commons.controllers", "dg_commons.maps.lanes", "dg_commons.sim.models.vehicle",
            "dg_commons.sim.models.vehicle_dynamic", "dg_commons.sim.simulator"]
    STUB = ["sensing faults", "phantoms", "plans of the vehicles ahead"]
    STATE_MEASURE = "(case, vehicle, start speed bin, hazard sequence, faults)"

    # ------------------------------------------------------------------ cases
    def gen_phantom(self, rng: Rng, t0: float, what: str) -> dict:
        q = math.pi / 4
        d = rng.pick([rng.r(3, 6.7), rng.r(1, 6.7)])
        a = rng.r(-3.1, 3.1)
        rel = [d * math.cos(a), d * math.sin(a)]
        v = rng.pick([rng.r(1.6, 12), 1.5])
        if what == "left":
            th = -rng.r(q + 0.05, 3 * q - 0.05)
        elif what == "right":
            th = rng.r(q + 0.05, 3 * q - 0.05)
        elif what == "front":
            th = rng.pick([-1, 1]) * rng.r(3 * q + 0.05, math.pi)
            rel, v = [rng.r(2, 12), rng.r(-1.1, 1.1)], rng.r(1, 15)
        elif what == "same":
            # alongside, in the same direction
            th, rel = rng.r(-0.6, 0.6), [rng.r(-6, 6), rng.pick([-1, 1]) * rng.r(4.5, 6)]
        else:
            # near the thresholds but no hazard
            kind = rng.pick(["far", "slow", "turned", "beside"])
            th = rng.pick([-1, 1]) * rng.r(q + 0.05, 3 * q - 0.05)
            if kind == "far":
                d = rng.r(7.3, 12)
                rel = [d * math.cos(a), d * math.sin(a)]
            elif kind == "slow":
                v = rng.r(0, 1.3)
            elif kind == "turned":
                # away from its way, turned by less than what counts as crossing
                th, rel = rng.pick([-1, 1]) * rng.r(0.55, q - 0.05), [-rng.r(2, 6), rng.r(-3, 3)]
            else:
                # oncoming on the other lane or behind
                th = rng.pick([-1, 1]) * rng.r(3 * q + 0.05, math.pi)
                rel = rng.pick([[rng.r(0, 15), rng.pick([-1, 1]) * rng.r(1.4, 6)], [-rng.r(1, 9), rng.r(-4, 4)]])
        return dict(t0=round(t0, 2), t1=round(t0 + rng.pick([0.15, rng.r(0.1, 1.0), rng.r(0.5, 3)]), 2), rel=[round(rel[0], 3), round(rel[1], 3), turned(rng, th)], v=v)

    def gen(self, rng: Rng, tier):
        case = rng.pick(["phantom", "phantom", "phantom", "lead"])
        kind = rng.pick(["car", "car", "bicycle", "dyncar", "truck"])
        tmax = rng.r(8, 12, 1) if case == "phantom" else rng.r(9, 16, 1)
        lane = gentle_lane(rng, 80 + 14.0 * tmax, 0.0 if case == "lead" else rng.pick([0, 0.005]), 0.3)
        if case == "lead":
            lane["segs"] = [[round(sum(s[0] for s in lane["segs"]), 2), 0.0]]
        lane["th"] = round(lane["th"], 3)
        pts = lane_points(lane)
        s0 = rng.r(5, 10)
        v0 = rng.pick([0.0, NOMINAL, rng.r(0, NOMINAL), rng.r(0, 13)]) if kind != "bicycle" else rng.pick([0.0, rng.r(0, NOMINAL)])
        x, y, psi = on_lane(pts, s0, rng.r(-0.3, 0.3), rng.r(-0.05, 0.05))
        ego = dict(kind=kind, x=round(x, 4), y=round(y, 4), psi=turned(rng, psi), v=round(v0, 3), delta=0.0)
        faults, phantoms, others = [], [], []
        if case == "phantom":
            t = 0.0
            for _ in range(rng.pick([1, 1, 2, 3])):
                t += rng.pick([0.0, rng.r(0, 2.5)])
                phantoms.append(self.gen_phantom(rng, t, rng.pick(["left", "right", "right", "front", "same", "no", "no"])))
                if rng.flip(0.2):
                    phantoms.append(self.gen_phantom(rng, t, rng.pick(["left", "right", "front", "no"])))
                t = phantoms[-1]["t1"]
            if rng.flip(0.5):
                t0 = rng.r(0, tmax * 0.6)
                for _ in range(rng.randint(1, 2)):
                    d = rng.r(0.1, 1.2)
                    faults.append([rng.pick(["stuck", "late", "odd", "blind"]), round(t0, 2), round(t0 + d, 2), rng.randint(1, 4), rng.pick(["old", "new"])])
                    t0 += d + rng.r(0, 1)
        else:
            v_lead = rng.pick([0.0, rng.r(0, 4), rng.r(1, 8)])
            # far enough for braking in time
            lead = rng.pick(["car", "truck", "bicycle"])
            gap = room(kind, v0, lead) + rng.r(0, 30)
            lx, ly, lp = on_lane(pts, s0 + gap, rng.r(-0.3, 0.3), 0.0)
            plan = [[0, 0.0]]
            if v_lead > 1 and rng.flip(0.6):
                t0 = rng.r(1, 6)
                a = -rng.r(0.5, 2.0)
                stop = rng.flip(0.6)
                plan += [[t0, a], [round(t0 + (v_lead / -a if stop else 0.5 * v_lead / -a), 2), 0.0]]
                if rng.flip(0.3):
                    plan += [[round(plan[-1][0] + rng.r(1, 3), 2), rng.r(0.5, 2)]]
            elif rng.flip(0.2):
                plan += [[rng.r(3, 6), rng.r(0.5, 2)]]
            others = [dict(name="lead", kind=lead, x=round(lx, 3), y=round(ly, 3), psi=turned(rng, lp), v=v_lead, plan=plan)]
            if rng.flip(0.5):
                # somebody else, farther ahead or beside the lane, who does not matter
                far = rng.flip(0.5)
                ox, oy, op = on_lane(pts, s0 + (gap + rng.r(18, 30) if far else rng.r(0, gap + 20)), 0.0 if far else rng.pick([-1, 1]) * rng.r(5, 8), 0.0)
                others.insert(rng.randint(0, 1), dict(name=rng.pick(["aside", "other"]), kind=rng.pick(["car", "bicycle"]), x=round(ox, 3), y=round(oy, 3), psi=turned(rng, op),
                                                      v=rng.r(0, 8) if far else rng.pick([0.0, rng.r(0, 11)]), plan=[[0, 0.0]], other=True))
        if rng.flip(0.3):
            # another lane follower far beside it
            ox, oy, op = on_lane(pts, s0 + rng.r(-20, 20), rng.pick([-1, 1]) * rng.r(60, 80), 0.0)
            others.insert(rng.randint(0, len(others)), dict(
                name=rng.pick(["ally", "zoe"]), kind=rng.pick(["car", "bicycle"]), x=round(ox, 3), y=round(oy, 3), psi=turned(rng, op), v=rng.r(0, 8),
                lane=dict(p=[round(ox, 3), round(oy, 3)], th=round(op, 5), segs=[[60 + 13.0 * tmax, 0.0]], ds=2.0, r=2.0), other=True))
        return dict(case=case, dt=rng.pick(["0.05", "0.1", "0.02"]) if case == "lead" else rng.pick(["0.05", "0.1"]), dtc=rng.pick(["0.1", "0.1", "0.05", "0.2"] if case == "phantom" else ["0.1", "0.05"]),
                    tmax=str(tmax), lane=lane, ego=ego, faults=faults, phantoms=phantoms, others=others, order=rng.flip(0.5),
                    again=case == "phantom" and rng.flip(0.2), seed=0)

    # ------------------------------------------------------------------ runs
    @staticmethod
    def valid(spec) -> bool:
        """Whether there is room to brake, which shrinking the case may destroy"""
        e = spec["ego"]
        lead = [o for o in spec["others"] if not o.get("other")]
        if spec["case"] == "lead" and len(lead) != 1:
            return False
        for o in lead:
            c, s = math.cos(e["psi"]), math.sin(e["psi"])
            dx, dy = o["x"] - e["x"], o["y"] - e["y"]
            if c * dx + s * dy < room(e["kind"], max(0.0, e["v"]), o["kind"]) - 1 or o["v"] < 0 or abs(o["psi"] - e["psi"]) > 0.2:
                return False
            if any(a < -2 for _, a in o.get("plan", [])) or len({round(s[1], 9) for s in spec["lane"]["segs"]}) > 1:
                return False
        return abs(e["v"]) <= 15 and e.get("delta", 0) == 0

    def run(self, spec, res: Result):
        if not self.valid(spec):
            return
        ride = Ride(spec, res).run()
        ok = self.judge(spec, ride, res)
        if ok and spec.get("again"):
            res.faults["reused-agent"] += 1
            short = dict(spec, tmax="1.5", faults=[], phantoms=[])
            new = Ride(short, res).run()
            old = Ride(short, res, agent=ride.agent).run()
            if new.digest != old.digest:
                res.violation("reused", f"after an episode with {[p['rel'] for p in spec['phantoms']]} the agent commands {old.log[0][1]}, then {old.log[-1][1]} "
                              f"in the next one, a new agent {new.log[0][1]}, then {new.log[-1][1]}")

    def judge(self, spec, ride: Ride, res: Result) -> bool:
        kind = spec["ego"]["kind"]
        # only what happened before the vehicle left the episode (or collided) counts
        hz = []
        for obs, cmd in ride.log:
            e, y, a = hazards(obs, EGO)
            me = next(o.state for p, o in obs.players.items() if str(p) == EGO)
            hz.append((e, y, a, me, cmd, float(obs.time)))
        # the times of the requests in the world
        asked = [float(t) for t in ride.ctx.log[EGO].commands.timestamps]
        seq = "".join("E" if h[0] > 0 else "e" if h[0] == 0 else "Y" if h[1] > 0 else "y" if h[1] == 0 else "." for h in hz)
        short = "".join(c for i, c in enumerate(seq) if not i or seq[i - 1] != c)
        res.state(spec["case"], kind, round(spec["ego"]["v"]), short, tuple(f[0] for f in spec["faults"]))
        res.nontrivial = "E" in seq or "Y" in seq
        if spec["case"] == "lead":
            return self.judge_lead(spec, ride, res)
        te = next((t for h, t in zip(hz, asked) if h[0] > 0), None)
        te_maybe = next((t for h, t in zip(hz, asked) if h[0] >= 0), None)
        prev = None
        for (e, y, a, me, cmd, seen), t in zip(hz, asked):
            must = y > 0 or e > 0 or (te is not None and t >= te)
            # stuck observations that end look like a sudden change of the speed, to which the controller reacts
            jump = prev is not None and abs(prev - me.vx) > 1.3 * BRAKE[kind] * float(spec["dtc"])
            prev = me.vx
            # close to standstill the speed is corrected in both directions
            limit = 1e-6 if me.vx >= 0.7 else 1.2 + 6 * max(0.0, -me.vx)
            if must and not jump and cmd.acc > limit:
                why = "it observes somebody to yield to" if y > 0 else "it observes an emergency" if e > 0 else f"of the emergency at {te}"
                res.violation("accelerates", f"{kind} at {t}: commands acceleration {cmd.acc:.3f} at {me.vx:.2f} m/s although {why}")
                return False
        if te is not None:
            v = max(0.0, ride.state_at(te).vx)
            t_stop = te + float(spec["dtc"]) + v / BRAKE[kind] + 3.0
            # while the observations are stuck or late it may not know that it has stopped
            for f in spec["faults"]:
                if f[2] > te:
                    t_stop = max(t_stop, f[2] + 4.0)
            for t, s in ride.states:
                if t >= t_stop and abs(s.vx) > 0.12:
                    res.violation("not-stopped", f"{kind} drives at {s.vx:.2f} m/s at {t:.2f}, {t - te:.2f} s after it observed an emergency at {v:.2f} m/s")
                    return False
            return True
        if te_maybe is not None:
            return True
        # no emergency: after the last reason to yield it is soon at speed again
        last = max([t for h, t in zip(hz, asked) if h[1] >= 0] + [f[2] for f in spec["faults"]] + [0.0])
        # vehicles alongside might be taken for vehicles ahead
        last = max([last] + [t for h, t in zip(hz, asked) if h[2] >= 0])
        acc = {"car": 5.0, "dyncar": 5.0, "bicycle": 3.0, "truck": 3.5}[kind]
        for t, s in ride.states:
            if t >= last + 2.5 + NOMINAL / acc and s.vx < 0.9 * NOMINAL:
                res.violation("not-resumed", f"{kind} at {s.vx:.2f} m/s at {t:.2f}, although nobody was in its way since {last:.2f} and there was no emergency")
                return False
        return True

    def judge_lead(self, spec, ride: Ride, res: Result) -> bool:
        names = {str(p): p for p in ride.ctx.models}
        near = min((math.hypot(a.x - b.x, a.y - b.y) for (_, a), (_, b) in zip(ride.states, ride.ctx.log[names["lead"]].states)), default=99)
        res.nontrivial = near < 20
        if ride.ctx.collision_reports:
            r = ride.ctx.collision_reports[0]
            if set(map(str, r.players)) != {EGO, "lead"}:
                return True
            s = ride.state_at(float(r.at_time))
            lead = next(o for o in spec["others"] if o["name"] == "lead")
            res.violation("ran-into", f"{spec['ego']['kind']} runs into the {lead['kind']} ahead ({lead['v']} m/s, plan {lead['plan']}) "
                          f"at {float(r.at_time):.2f} with {s.vx:.2f} m/s")
            return False
        return True


CHECK = Check()
