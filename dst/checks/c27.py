import math

import numpy as np
import shapely
from commonroad.scenario.lanelet import Lanelet
from commonroad.scenario.scenario import Scenario, ScenarioID
from shapely.geometry import LineString, Polygon, box

from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.scenarios.structures import DgScenario
from dst.core.result import Result, h64
from dst.world.contact import MUST_REPORT, Contact, Steps
from dst.world.gen import gen_x0
from dst.world.lanes import lane_points
from dst.world.world import World, canon

MARGIN = 0.18  # metres from the edge of the road within which a body counts as neither on nor off the road
SURE = 0.06  # the same for single points
EPS = 1e-6


def sides(l: dict):
    """Left and right vertices, rounded so that consecutive lanes share them"""
    pts = np.array(lane_points(l))
    n = np.stack([-np.sin(pts[:, 2]), np.cos(pts[:, 2])], axis=1) * l["r"]
    return np.round(pts[:, :2] + n, 6) + 0.0, np.round(pts[:, :2] - n, 6) + 0.0


def make_scenario(lanes: list) -> Scenario:
    sc = Scenario(0.1, ScenarioID())
    for l in lanes:
        left, right = sides(l)
        sc.add_objects(Lanelet(left_vertices=left, center_vertices=(left + right) / 2, right_vertices=right, lanelet_id=l["id"],
                               successor=list(l["next"]), predecessor=[k["id"] for k in lanes if l["id"] in k["next"]],
                               **{f"adjacent_{s}": (l.get(s) or [None])[0] for s in ("left", "right")},
                               **{f"adjacent_{s}_same_direction": (l.get(s) or [None, None])[1] for s in ("left", "right")}))
    return sc


def end_of(l: dict):
    return lane_points(l)[-1]


class Roads:
    """Where the road is: everything within the buffer around a lane"""

    def __init__(self, lanes: list, buffer: float):
        self.b = buffer
        self.lanes = [Polygon(np.concatenate([a, b[::-1]])) for a, b in map(sides, lanes)]
        # open ends: (point, direction out of the lane, half width, lane)
        self.ends = []
        for i, l in enumerate(lanes):
            pts = lane_points(l)
            if not l["next"]:
                x, y, th = pts[-1]
                self.ends.append((x, y, th, l["r"], i))
            if not any(l["id"] in k["next"] for k in lanes):
                x, y, th = pts[0]
                self.ends.append((x, y, th + math.pi, l["r"], i))
        self.gates = [LineString([(x - r * math.sin(th), y + r * math.cos(th)), (x + r * math.sin(th), y - r * math.cos(th))])
                      for x, y, th, r, _ in self.ends]
        # what the roads enclose, an end of a lane in there is left open
        filled = shapely.union_all([p.buffer(buffer + 0.3) for p in self.lanes])
        filled = [Polygon(g.exterior) for g in getattr(filled, "geoms", [filled])]
        self.outward = []
        for x, y, th, r, i in self.ends:
            q = shapely.Point(x + (buffer + 1.5) * math.cos(th), y + (buffer + 1.5) * math.sin(th))
            self.outward.append(not any(f.contains(q) for f in filled))

    def depth(self, pts: np.ndarray) -> np.ndarray:
        """For each lane and point how far it is outside the lane (negative inside)"""
        q = shapely.points(pts)
        out = []
        for p in self.lanes:
            out.append(np.where(shapely.contains(p, q), -1.0, 1.0) * shapely.distance(p.exterior, q))
        return np.array(out)

    def judge(self, F: Polygon) -> str:
        """in | out | across (the edge of the road) | through (an open end) | unclear"""
        n = max(8, int(F.exterior.length / 0.12))
        ring = np.array([F.exterior.interpolate(k / n, normalized=True).coords[0] for k in range(n)])
        x0, y0, x1, y1 = F.bounds
        g = np.stack(np.meshgrid(np.arange(x0, x1, 0.25), np.arange(y0, y1, 0.25)), -1).reshape(-1, 2)
        g = g[shapely.contains(F, shapely.points(g))] if len(g) else g
        pts = np.concatenate([ring, np.array(F.exterior.coords), g])
        d = self.depth(pts)
        e = d.min(axis=0) - self.b
        far = all(F.distance(gate) > 2 * self.b + MARGIN for gate in self.gates)
        if (e < -MARGIN).all():
            return "in"
        if far and (e > MARGIN).all() and not any(F.contains(shapely.Point(p.exterior.coords[0])) for p in self.lanes):
            return "out"
        if far and (e < -SURE).any() and (e > SURE).any():
            return "across"
        ok = e < -MARGIN
        used = False
        for (x, y, th, r, i), outward in zip(self.ends, self.outward):
            if not outward:
                continue
            rel = pts - np.array([x, y])
            along = rel @ np.array([math.cos(th), math.sin(th)])
            lat = np.abs(rel @ np.array([-math.sin(th), math.cos(th)]))
            others = [k for k in range(len(self.lanes)) if k != i]
            free = (np.abs(d[others] - self.b) > MARGIN).all(axis=0) if others else np.ones(len(pts), bool)
            here = (along > -(2 * self.b + 0.3)) & (lat < r - MARGIN) & free
            used = used or bool((here & ~ok).any())
            ok = ok | here
        if ok.all() and used:
            return "through"
        return "unclear"


class Check:
    ID = "C27"
    RUNS_QUICK = 220
    RUNS_THOROUGH = 12000
    RULE = (
        "A case is a network of lanes (trees with forks, closed circuits with and without exits, several roads, parallel lanes) and bodies that drive along, off "
        "the side of the road or out of its open ends, generated from (seed, index). After every step each footprint is judged to be on the road, off it, across "
        "its edge or in an open end by its distance from each lane. Non-trivial if a body was across the edge or in an open end."
    )
    REAL = ["dg_commons.maps.road_bounds", "sim.scenarios.structures", "sim.simulator", "sim.collision", "all bodies", "commonroad lanelet network"]
    STUB = ["agents (scripted)", "toy rigid bodies", "wall clock (virtual)"]
    STATE_MEASURE = "(kind of body, layout, buffer, where the footprint is before and after the step, reported)"

    # ------------------------------------------------------------------ generation
    def gen(self, rng, tier):
        layout = rng.pick(["tree", "tree", "circuit", "circuit", "exit", "two", "parallel"])
        r = rng.pick([1.5, 2.0, 2.5, 3.0])
        lanes = []
        ids = list(range(1, 12))
        for k in range(len(ids) - 1, 0, -1):
            j = rng.randint(0, k)
            ids[k], ids[j] = ids[j], ids[k]

        def add(p, th, segs):
            lanes.append(dict(id=ids[len(lanes)], p=[float(v) for v in p], th=float(th), segs=segs, ds=rng.pick([0.5, 1.0]), r=r, next=[]))
            return lanes[-1]

        def tree(p, th, forks):
            tips = [add(p, th, [[rng.r(8, 20), rng.pick([0.0, 0.0, 0.04, -0.04])]])]
            for _ in range(forks):
                tip = tips.pop(0)
                x, y, t = end_of(tip)
                for k in rng.pick([[0.0], [0.08, -0.08], [0.0, 0.08], [0.0, -0.08]]):
                    b = add((x, y), t, [[rng.r(8, 20), k]])
                    tip["next"].append(b["id"])
                    tips.append(b)

        th = rng.r(-3.1, 3.1)
        if layout == "tree":
            tree((rng.r(-20, 20), rng.r(-20, 20)), th, rng.randint(0, 2))
        elif layout == "two":
            tree((rng.r(-20, 20), rng.r(-20, 20)), th, 0)
            tree((rng.r(100, 130), rng.r(-20, 20)), rng.r(-3, 3), rng.randint(0, 1))
        elif layout == "parallel":
            p, rows = (rng.r(-9, 9), rng.r(-9, 9)), []
            n, opposite, known = rng.pick([2, 2, 3]), rng.flip(0.5), rng.flip(0.8)
            for _ in range(rng.pick([1, 1, 2])):  # one after the other
                length, row = rng.r(10, 25), []
                for k in range(n):  # from the right to the left, the leftmost maybe in the other direction
                    q = (p[0] - 2 * r * k * math.sin(th), p[1] + 2 * r * k * math.cos(th))
                    back = opposite and k == n - 1
                    if back:
                        q = (q[0] + length * math.cos(th), q[1] + length * math.sin(th))
                    l = add(q, th + math.pi if back else th, [[length, 0.0]])
                    if row and known:
                        row[-1]["left"] = [l["id"], not back]
                        l["left" if back else "right"] = [row[-1]["id"], not back]
                    if rows:
                        b, a = (l, rows[-1][k]) if back else (rows[-1][k], l)
                        b["next"].append(a["id"])
                    row.append(l)
                rows.append(row)
                p = (p[0] + length * math.cos(th), p[1] + length * math.sin(th))
        else:
            R = rng.r(9, 16) * rng.pick([1, -1])
            n = rng.randint(2, 4)
            p, t, first = (rng.r(-20, 20), rng.r(-20, 20)), th, None
            for k in range(n):
                l = add(p, t, [[2 * math.pi * abs(R) / n, 1 / R]])
                if first is not None:
                    prev["next"].append(l["id"])
                first, prev = first or l, l
                x, y, t = end_of(l)
                p = (x, y)
            prev["next"].append(first["id"])
            if layout == "exit":  # out of the circuit, to the side away from its centre
                l = rng.pick(lanes)
                x, y, t = end_of(l)
                e = add((x, y), t, [[rng.r(6, 12), -0.6 / R], [rng.r(15, 25), 0.0]])
                l["next"].append(e["id"])
        dt = rng.pick(["0.1", "0.05", "0.02", "0.04"])
        players = []
        for name in ["P1", "Ego", "b"][: rng.randint(1, 3)]:
            kind = rng.pick(["toy", "toy", "toy", "car", "bike", "ped", "cardyn", "diff", "spacecraft"])
            l = rng.pick(lanes)
            pts = lane_points(l)
            i = rng.randint(0, len(pts) - 1)
            x, y, t = pts[i]
            off = rng.r(-0.3, 0.3) if rng.flip(0.85) else rng.pick([-1, 1]) * (r + rng.r(3, 6))
            turn = rng.pick([0.0, math.pi, rng.r(-0.4, 0.4), rng.r(-3.1, 3.1), math.pi / 2, -math.pi / 2])
            psi = round(math.remainder(t + turn, 2 * math.pi), 4)
            model = dict(kind=kind, x0=gen_x0(rng, kind, round(x - off * math.sin(t), 3), round(y + off * math.cos(t), 3), psi, rng.r(2, 10)))
            if kind == "toy":
                v, w = rng.r(2, 8), rng.pick([0.0, 0.0, rng.r(-0.5, 0.5)])
                model["x0"][3:] = [round(v * math.cos(psi), 4), round(v * math.sin(psi), 4), w]
                model["shape"] = rng.pick([dict(k="rect", l=rng.r(0.6, 3), w=rng.r(0.6, 1.6)), dict(k="tri", r=rng.r(0.5, 1.2)), dict(k="hex", r=rng.r(0.5, 1.2))])
                model.update(m=rng.r(0.5, 5), Iz=rng.r(0.5, 5), e=rng.pick([0.0, 1.0, rng.r(0, 1)]))
            players.append(dict(name=name, model=model, agent=dict(pol=rng.pick(["const", "const", "rand"]), amp=rng.pick([0.0, 0.1, rng.r(0, 1)]), seed=rng.randint(0, 10**6))))
        return dict(layout=layout, lanes=lanes, buffer=rng.pick([0.1, 0.1, 0.3, 0.0, 0.7, None]), bounds=not rng.flip(0.08), players=players, dt=dt, dtc=dt,
                    tmax=str(round(float(dt) * rng.randint(20, 60), 6)), after=rng.pick(["1000", "1000", "1", "0"]), seed=0, obstacles=[], map=True,
                    box=rng.flip(0.2), before=rng.flip(0.3))

    # ------------------------------------------------------------------ run
    def run(self, spec, res: Result):
        lanes = spec["lanes"]
        have = {l["id"] for l in lanes}
        if not lanes or len(have) != len(lanes) or any(n not in have for l in lanes for n in l["next"]) or not spec["players"]:
            return
        b = 0.1 if spec["buffer"] is None else spec["buffer"]
        sc = make_scenario(lanes)
        kw = {} if spec["buffer"] is None else dict(road_boundaries_buffer=b)
        given = [StaticObstacle(box(500, 500, 501, 501))] if spec["box"] else []
        world = DgScenario(sc, static_obstacles=list(given) or None, use_road_boundaries=spec["bounds"], **kw)
        if spec["before"]:
            # another world made from the same map
            res.faults["same-map-again"] += 1
            DgScenario(sc, use_road_boundaries=True, road_boundaries_buffer=1.0)
        if given and (not world.static_obstacles or world.static_obstacles[0].shape != given[0].shape):
            res.violation("given", f"the given obstacle is not among {[o.shape.wkt[:60] for o in world.static_obstacles]}")
            return
        if not spec["bounds"] and len(world.static_obstacles) != len(given):
            res.violation("unasked", f"{len(world.static_obstacles) - len(given)} obstacles although no boundaries were asked for")
            return
        road = Roads(lanes, b)
        shapes = [o.shape for o in world.static_obstacles]
        w = World(spec, scenario=world).run()
        w.trace_into(res)
        if w.error is not None:
            raise w.error
        ss = Steps(w)
        where = {p["name"]: road.judge(ss.footprint(p["name"], w.initial_raw[p["name"]])) for p in spec["players"]}
        small = {n: math.sqrt(ss.footprint(n, w.initial_raw[n]).minimum_rotated_rectangle.area) for n in where}
        inside_at, noticed, last = {n: v == "in" for n, v in where.items()}, {n: False for n in where}, {n: w.initial_raw[n] for n in where}
        sched = []
        for st in ss:
            if st.ended:
                continue
            for n in st.act:
                kind = ss.kinds[n]
                s = st.s0[n]
                F = ss.footprint(n, s)
                now = road.judge(F)
                reps = [r for r in st.reports if set(map(str, r.players)) - {"Env"} == {n}]
                touched = [q for q in shapes if q.intersects(F)]
                res.state(kind, spec["layout"], b, where[n], now, bool(reps))
                res.stats[now] += 1
                if where[n] != now:
                    sched.append((n, st.k, now))
                if now in ("across", "through"):
                    res.nontrivial = True
                    res.faults["off-the-side" if now == "across" else "out-of-an-end"] += 1
                at = f"{n} ({kind}) at ({s.x:.3f}, {s.y:.3f}, {s.psi:.3f}) at {st.t1}"
                if not spec["bounds"] or now in ("in", "out", "through"):
                    if touched or reps:
                        res.violation("alarm", f"{at} {'is reported to collide with' if reps else 'touches'} the edge of the road, it is {now} ({spec['layout']}, buffer {b})")
                        return
                elif now == "across":
                    if not touched:
                        res.violation("gap", f"{at} is across the edge of the road, but touches none of its boundaries ({spec['layout']}, buffer {b})")
                        return
                    cs = [Contact(F, q) for q in touched]
                    must = any(c.cls in MUST_REPORT or (c.cls in ("simple", "contains") and c.n is not None and all(a > EPS for a in st.approach(c, n, None))) for c in cs)
                    if must and not reps:
                        res.violation("unreported", f"{at} is across the edge of the road and moves against it, no collision is reported ({spec['layout']}, buffer {b})")
                        return
                # leaving the road
                noticed[n] |= bool(reps)
                step = math.dist((s.x, s.y), (last[n].x, last[n].y))
                last[n] = s
                if now == "in":
                    inside_at[n], noticed[n] = True, False
                elif now in ("through", "unclear") and any(F.distance(g) <= 2 * b + MARGIN for g in road.gates) or step > 0.35 * min(small[n], 1.5):
                    inside_at[n] = False
                elif now == "out" and inside_at[n]:
                    if spec["bounds"] and not noticed[n]:
                        res.violation("left", f"{at} has left the road sideways without any collision ({spec['layout']}, buffer {b})")
                        return
                    res.stats["left-the-road"] += 1
                    inside_at[n] = False
                where[n] = now
        res.schedule = h64(tuple(sched))
        if [canon(o.shape) for o in world.static_obstacles] != list(w.initial_obstacles):
            res.violation("moved", "the boundaries have changed during the episode")


CHECK = Check()
