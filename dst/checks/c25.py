import math

import numpy as np
from commonroad.scenario.lanelet import Lanelet
from commonroad.scenario.scenario import Scenario, ScenarioID
from shapely.geometry import Point, Polygon

from dg_commons.sim.scenarios.structures import DgScenario
from dst.core.result import Result, h64
from dst.world.contact import Steps, gen_contact
from dst.world.lanes import lane_points
from dst.world.world import World, make_obstacle
from dst.world.gen import turned

EDGE = 0.02  # metres within which being inside is left open
TURN = 0.02  # radians around the right angle within which the direction is left open


def road(lanes: list) -> Scenario:
    sc = Scenario(0.1, ScenarioID())
    for l in lanes:
        pts = np.array(lane_points(l))
        n = np.stack([-np.sin(pts[:, 2]), np.cos(pts[:, 2])], axis=1)
        c = pts[:, :2]
        sc.add_objects(Lanelet(left_vertices=c + l["r"] * n, center_vertices=c, right_vertices=c - l["r"] * n, lanelet_id=l["id"]))
    return sc


class Lane:
    """A chain of straight and circular pieces with a constant width"""

    def __init__(self, l: dict):
        self.l = l
        pts = np.array(lane_points(l))
        n = np.stack([-np.sin(pts[:, 2]), np.cos(pts[:, 2])], axis=1) * l["r"]
        self.area = Polygon(np.concatenate([pts[:, :2] + n, (pts[:, :2] - n)[::-1]]))
        self.length = sum(s[0] for s in l["segs"])

    def covers(self, p):
        q = Point(p)
        if self.area.boundary.distance(q) < EDGE:
            return None
        return self.area.contains(q)

    def project(self, x: float, y: float):
        """Signed distance to the left of the closest point of the centre, its heading and how far along it is"""
        best, s0 = None, 0.0
        px, py, th = *self.l["p"], self.l["th"]
        for length, kappa in self.l["segs"]:
            if abs(kappa) < 1e-9:
                a = (x - px) * math.cos(th) + (y - py) * math.sin(th)
                a = min(length, max(0.0, a))
                qx, qy, qth = px + a * math.cos(th), py + a * math.sin(th), th
                ex, ey, eth = px + length * math.cos(th), py + length * math.sin(th), th
            else:
                cx, cy = px - math.sin(th) / kappa, py + math.cos(th) / kappa
                at = lambda h: (cx + math.sin(h) / kappa, cy - math.cos(h) / kappa)
                h = math.atan2((x - cx) * kappa, -(y - cy) * kappa)
                d = math.remainder(h - th - length * kappa / 2, 2 * math.pi) + length * kappa / 2
                a = min(length, max(0.0, d / kappa))
                qth = th + a * kappa
                (qx, qy), eth = at(qth), th + length * kappa
                ex, ey = at(eth)
            d = math.hypot(x - qx, y - qy)
            if best is None or d < best[0]:
                best = (d, qx, qy, qth, s0 + a)
            px, py, th = ex, ey, eth
            s0 += length
        _, qx, qy, qth, s = best
        ahead = (x - qx) * math.cos(qth) + (y - qy) * math.sin(qth)
        left = -(x - qx) * math.sin(qth) + (y - qy) * math.cos(qth)
        return left, qth, s + ahead

    def proper(self, x: float, y: float, psi: float):
        """Is this pose inside the lane and along it?"""
        left, th, s = self.project(x, y)
        off = abs(math.remainder(psi - th, 2 * math.pi))
        margins = [self.l["r"] - abs(left), s, self.length - s]
        if min(margins) < -EDGE or off > math.pi / 2 + TURN:
            return False
        if min(margins) < EDGE or off > math.pi / 2 - TURN:
            return None
        return True


class Check:
    ID = "C25"
    RUNS_QUICK = 500
    RUNS_THOROUGH = 20000
    RULE = (
        "A case is two episodes after another, full of collisions and on different roads whose lanes have the same numbers, generated from (seed, index). "
        "For each resolved collision the parties reported at fault are compared with those that were not properly in any lane at the impact. "
        "Non-trivial if at least one of the collisions took place on a lane."
    )
    REAL = ["dg_commons.sim.collision", "collision_utils.check_who_is_at_fault", "maps.lanes", "sim.simulator", "all bodies", "commonroad lanelet network"]
    STUB = ["agents (scripted)", "toy rigid bodies", "wall clock (virtual)"]
    STATE_MEASURE = "(kinds of bodies, number of lanes at the impact, for each party and lane whether it was in it and along it, reported faults)"

    def gen(self, rng, tier):
        eps = []
        ids = [rng.randint(1, 60) * k for k in (1, 61, 3721, 226981)]
        for _ in range(2):
            spec = gen_contact(rng, steps=14 if tier == "quick" else 30, exact_p=0.0)
            spec["after"] = "1000"
            lanes = []
            if not rng.flip(0.08):
                for k in range(rng.randint(1, 4)):
                    i = rng.randint(0, len(spec["players"]) - 1)
                    x0 = spec["players"][i]["model"]["x0"]
                    th = turned(rng, rng.r(-3.1, 3.1))
                    if rng.flip(0.6):
                        th = round(x0[2] + rng.r(-0.9, 0.9) + (math.pi if rng.flip(0.4) else 0), 3)
                    segs = [[rng.r(4, 15), rng.pick([0.0, 0.0, rng.r(-0.05, 0.05, 4)])] for _ in range(rng.randint(1, 3))]
                    back = rng.r(1, 12)
                    side = rng.r(-4, 4)
                    lanes.append(dict(id=ids[k], th=th, segs=segs, ds=rng.pick([1.0, 2.0, 5.0]), r=rng.r(1.2, 3.5),
                                      p=[round(-back * math.cos(th) - side * math.sin(th), 3), round(-back * math.sin(th) + side * math.cos(th), 3)]))
            spec["lanes"] = lanes
            eps.append(spec)
        return dict(eps=eps)

    def run(self, spec, res: Result):
        sched = []
        for k, ep in enumerate(spec["eps"]):
            base = road(ep["lanes"]) if ep["lanes"] else None
            sc = DgScenario(base, static_obstacles=[make_obstacle(o) for o in ep.get("obstacles", [])])
            w = World(ep, scenario=sc).run()
            w.trace_into(res)
            if k:
                res.faults["episode-before"] += 1
            ss = Steps(w)
            lanes = [Lane(l) for l in ep["lanes"]]
            for st in ss:
                if st.ended:
                    continue
                for r in st.reports:
                    if any(v is None for v in r.players.values()):
                        continue
                    sched.append((str(r.at_time), tuple(map(str, r.players))))
                    if not self.one(res, ss, st, r, lanes, base is not None):
                        return
        res.schedule = h64(tuple(sched))

    @staticmethod
    def one(res: Result, ss, st, r, lanes, has_road: bool) -> bool:
        names = [str(p) for p in r.players]
        reps = {str(p): v for p, v in r.players.items()}
        for n in names:
            if type(reps[n].at_fault) is not bool and not isinstance(reps[n].at_fault, np.bool_):
                res.violation("fault", f"at {st.t1}: the fault of {n} is {reps[n].at_fault!r}")
                return False
        if "Env" in names:
            res.stats["with-obstacle"] += 1
            bad = [n for n in names if bool(reps[n].at_fault) != (n != "Env")]
            if bad:
                res.violation("obstacle", f"at {st.t1}: {names} collided, {bad[0]} is reported {'' if reps[bad[0]].at_fault else 'not '}at fault")
            return not bad
        if not has_road:
            res.stats["no-road"] += 1
            bad = [n for n in names if reps[n].at_fault]
            if bad:
                res.violation("no-road", f"at {st.t1}: {bad} of {names} reported at fault in a world without lanes")
            return not bad
        P = r.impact_point.coords[0]
        on = [(l, l.covers(P)) for l in lanes]
        on = [(l, c) for l, c in on if c is not False]
        state = []
        for n in names:
            s = st.s0[n]
            verdicts = []
            for l, c in on:
                ok = l.proper(float(s.x), float(s.y), float(s.psi))
                verdicts.append(None if ok is None or (ok and c is None) else ok)
            state.append(tuple(map(str, verdicts)))
            res.state(ss.kinds[n], len(on), tuple(map(str, verdicts)), bool(reps[n].at_fault))
            want = False if True in verdicts else (None if None in verdicts else True)
            if want is None:
                res.stats["unclear"] += 1
                continue
            res.stats["at-fault" if want else "not-at-fault"] += 1
            if bool(reps[n].at_fault) != want:
                where = [l.l["id"] for l, c in on]
                res.violation("fault", f"at {st.t1}: {names} collided at {tuple(map(float, P))} on lanes {where}; {n} at {(s.x, s.y, s.psi)} is reported "
                                       f"{'' if reps[n].at_fault else 'not '}at fault")
                return False
        if on:
            res.nontrivial = True
        return True


CHECK = Check()
