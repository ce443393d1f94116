import copy
import math

from dst.core.result import Result, h64
from dst.core.rng import Rng
from dst.world.follow import EGO, NOMINAL, Ride, gentle_lane, on_lane
from dst.world.lanes import distance_to_lane
from dst.world.gen import turned

# where convergence is promised: lateral and heading error, speed, steering angle
BASIN = {"car": (2.0, 0.6, 11.2, 0.1), "bicycle": (2.0, 0.6, 11.2, 0.1), "dyncar": (1.5, 0.35, 9.0, 0.08)}
SETTLE = {"car": 9.0, "bicycle": 9.0, "dyncar": 11.0}


class Check:
    ID = "C18"
    RUNS_QUICK = 110
    RUNS_THOROUGH = 6000
    RULE = (
        "A case is, from (seed, index), an episode of a real lane follower (car, bicycle or dynamic car) on a gently curved lane, starting "
        "off centre, turned and at any speed up to the nominal one, with other vehicles far from its way and windows of late, stuck, "
        "repeated or lost observations; every fourth case the same agent drives a second episode. Once the faults have stopped and the "
        "vehicle is still near its lane, its distance from the lane, its progress and its speed are bounded from the given times on. "
        "Non-trivial if it started (or was left by the faults) more than half a metre off the lane or turned by more than 0.2 rad."
    )
    REAL = ["dg_commons.sim.agents.lane_follower", "dg_commons.controllers", "dg_commons.maps.lanes", "dg_commons.sim.models.vehicle",
            "dg_commons.sim.models.vehicle_dynamic", "dg_commons.sim.simulator"]
    STUB = ["sensing faults", "agents of the other vehicles"]
    STATE_MEASURE = "(vehicle, start lateral bin, start heading bin, start speed bin, faults, curvature class)"

    def gen(self, rng: Rng, tier):
        kind = rng.pick(["car", "car", "bicycle", "dyncar"])
        lat, he, v, de = BASIN[kind]
        tmax = rng.pick([14, 16, 20]) if tier == "thorough" else rng.pick([13, 14, 15])
        lane = gentle_lane(rng, 60 + 12.0 * tmax, rng.pick([0, 0.005, 0.01, 0.015]), 0.8)
        from dst.world.lanes import lane_points

        pts = lane_points(lane)
        x, y, psi = on_lane(pts, rng.r(5, 25), rng.r(-lat, lat), rng.r(-he, he))
        ego = dict(kind=kind, x=round(x, 4), y=round(y, 4), psi=turned(rng, psi), v=rng.pick([0.0, rng.r(0, v), v]), delta=rng.r(-de, de), xtra=rng.flip(0.3))
        faults, t = [], 0.0
        for _ in range(rng.pick([0, 0, 1, 2])):
            t += rng.r(0, 1.5)
            d = rng.r(0.1, 0.8)
            faults.append([rng.pick(["stuck", "late", "odd", "blind"]), round(t, 2), round(t + d, 2), rng.randint(1, 3), rng.pick(["old", "new"])])
            t += d
        others = []
        for i in range(rng.pick([0, 1, 2, 3])):
            # far away from its way
            side = rng.pick([-1, 1]) * rng.r(25, 60)
            away = math.copysign(math.pi / 2, side) + rng.r(-0.7, 0.7)
            ox, oy, op = on_lane(pts, rng.r(10, 60 + 8 * tmax), side, away)
            others.append(dict(name=f"p{i}", kind=rng.pick(["car", "bicycle", "truck"]), x=round(ox, 3), y=round(oy, 3), psi=turned(rng, op), v=rng.pick([0.0, rng.r(0, 9)]), plan=[[0, 0.0]]))
            if rng.flip(0.4):
                # another lane follower, on a lane of its own that leads away
                others[-1]["lane"] = dict(p=[round(ox, 3), round(oy, 3)], th=turned(rng, op), segs=[[60 + 13.0 * tmax, 0.0]], ds=2.0, r=2.0)
        dt = rng.pick(["0.05", "0.1", "0.04"])
        return dict(dt=dt, dtc=rng.pick(["0.1", "0.08", "0.1"]), tmax=str(tmax), lane=lane, ego=ego, faults=faults, others=others,
                    order=rng.flip(0.5), again=rng.flip(0.25), seed=rng.randint(0, 1000))

    def run(self, spec, res: Result):
        try:
            ride = Ride(spec, res).run()
        except ValueError:
            raise
        if not self.judge(spec, ride, res):
            return
        if spec.get("again"):
            # the agent drives once more, after which it must have forgotten the first episode
            res.faults["reused-agent"] += 1
            short = dict(spec, tmax="2", faults=[])
            new = Ride(short, res).run()
            old = Ride(short, res, agent=ride.agent).run()
            if new.digest != old.digest:
                k = next((i for i, (a, b) in enumerate(zip(new.log, old.log)) if a[1] != b[1]), None)
                res.violation("reused", f"an agent used for a second episode commands {old.log[k][1] if k is not None else '?'} at request {k}, "
                              f"a new one {new.log[k][1] if k is not None else '?'}")

    def judge(self, spec, ride: Ride, res: Result) -> bool:
        kind = spec["ego"]["kind"]
        lat_max, he_max, v_max, de_max = BASIN[kind]
        calm = max([f[2] for f in spec["faults"]] + [0.0]) + float(spec["dtc"]) + float(spec["dt"])
        calm = calm if spec["faults"] else 0.0
        s = ride.state_at(calm)
        if s is None or ride.end < calm:
            return True
        d, al = distance_to_lane(ride.pts, s.x, s.y)
        x, y, th = on_lane(ride.pts, al, 0, 0)
        he = math.atan2(math.sin(s.psi - th), math.cos(s.psi - th))
        k = max(abs(c) for _, c in spec["lane"]["segs"]) if spec["lane"]["segs"] else 0
        res.state(kind, round(d), round(he, 1), round(s.vx), tuple(f[0] for f in spec["faults"]), k > 0.004, k > 0.01)
        slack = 1.0 if not spec["faults"] else 1.05
        if d > lat_max * slack + 1e-3 or abs(he) > he_max * slack + 1e-3 or not -0.1 <= s.vx <= v_max * slack + 0.3 or abs(s.delta) > de_max + (0.05 if spec["faults"] else 1e-3):
            res.stats["left-elsewhere-by-faults"] += 1
            return True
        res.nontrivial = d > 0.5 or abs(he) > 0.2
        t_conv = calm + SETTLE[kind]
        last = None
        for t, s in ride.states:
            if t < calm:
                continue
            d, al = distance_to_lane(ride.pts, s.x, s.y)
            if t >= t_conv and d > 0.5:
                res.violation("off", f"{kind}: {d:.2f} m off the lane at {t:.2f}, {t - calm:.2f} s after the start or the last fault")
                return False
            if t >= calm + 7.0 and abs(s.vx - NOMINAL) > 0.05 * NOMINAL:
                res.violation("speed", f"{kind}: speed {s.vx:.2f} at {t:.2f}, {t - calm:.2f} s after the start or the last fault, nominal {NOMINAL:.2f}")
                return False
            if t >= t_conv:
                if last is not None and t - last[0] >= 1.0 - 1e-9:
                    if al - last[1] < 0.85 * NOMINAL * (t - last[0]):
                        res.violation("progress", f"{kind}: only {al - last[1]:.2f} m along the lane between {last[0]:.2f} and {t:.2f}")
                        return False
                    last = (t, al)
                elif last is None:
                    last = (t, al)
        return True


CHECK = Check()
