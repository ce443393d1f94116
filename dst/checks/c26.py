import math
import os
import shutil
import tempfile
from decimal import Decimal as D

import numpy as np
from shapely.geometry import LineString, Point, Polygon

from dg_commons import PlayerName
from dg_commons.sim import SimParameters
from dg_commons.sim.models.vehicle import VehicleModel
from dg_commons.sim.scenarios.factory import get_scenario_commonroad_replica
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext, Simulator
from dst.core.result import Result, fl, h64
from dst.world.lanes import lane_points

SIZES = dict(car=(4.5, 1.8), truck=(8.0, 2.4), bus=(10.0, 2.5), bicycle=(2.0, 0.6), motorcycle=(2.2, 0.8), train=(15.0, 3.0), pedestrian=(0.6, 0.5))
FOLLOW = ("car", "truck", "bus", "bicycle")
STRAY = 2.2  # metres from the recorded path
ARRIVE = 2.2  # metres from the recorded end


# ------------------------------------------------------------------------------ recordings
def end_pose(l: dict):
    return lane_points(dict(l, ds=1.0))[-1]


def pose_along(l: dict, s: float):
    x, y = l["p"]
    th = l["th"]
    for length, kappa in l["segs"]:
        d = min(length, s)
        if abs(kappa) < 1e-9:
            x, y = x + d * math.cos(th), y + d * math.sin(th)
        else:
            t2 = th + d * kappa
            x, y, th = x + (math.sin(t2) - math.sin(th)) / kappa, y - (math.cos(t2) - math.cos(th)) / kappa, t2
        s -= d
        if s <= 1e-9:
            break
    return x, y, th


def length(l: dict) -> float:
    return sum(s[0] for s in l["segs"])


def wrap(a: float) -> float:
    return math.remainder(a, 2 * math.pi)


def recorded(o: dict, lanes: dict) -> list:
    """The recorded (x, y, heading) of a road user, at every tenth of a second"""
    out = []
    if o["route"]:
        route = [lanes[i] for i in o["route"]]
    else:
        route = [o["path"]]
    n = int(o["dist"] / (o["v"] * 0.1)) if o["v"] > 0 else o["n"]
    for k in range(n + 1):
        s = d0 = o["s"] + k * o["v"] * 0.1
        for l in route[:-1]:
            if s < length(l):
                break
            s -= length(l)
        else:
            l = route[-1]
        x, y, th = pose_along(l, s)
        d, turn = o["d"], 0.0
        if o.get("shift"):  # a change of lane
            a = min(1.0, max(0.0, (k / max(1, n) - 0.2) / 0.6))
            d += o["shift"] * (3 * a * a - 2 * a ** 3)
            if 0 < a < 1:
                turn = math.atan2(o["shift"] * 6 * a * (1 - a) / 0.6 / o["dist"], 1.0)
        out.append((x - d * math.sin(th), y + d * math.cos(th), wrap(th + turn + o.get("noise", 0.0) * math.sin(12.9898 * k + o["v"]))))
    return out


def xml_of(s: dict) -> bytes:
    pt = lambda x, y: f"<point><x>{x:.9f}</x><y>{y:.9f}</y></point>"
    state = lambda t, x, y, th, v: (f"<time><exact>{t}</exact></time><position>{pt(x, y)}</position><orientation><exact>{th:.9f}</exact></orientation>"
                                    f"<velocity><exact>{v}</exact></velocity>")
    out = ["<?xml version='1.0' encoding='UTF-8'?>\n",
           '<commonRoad timeStepSize="0.1" commonRoadVersion="2020a" author="a" affiliation="b" source="c" benchmarkID="ZAM_Dst-1_1_T-1" date="2020-01-01">\n',
           "<location><geoNameId>1</geoNameId><gpsLatitude>1.0</gpsLatitude><gpsLongitude>2.0</gpsLongitude></location>\n<scenarioTags><simulated/></scenarioTags>\n"]
    lanes = {l["id"]: l for l in s["lanes"]}
    for l in s["lanes"]:
        pts = lane_points(l)
        side = lambda r: "".join(pt(x - r * math.sin(th), y + r * math.cos(th)) for x, y, th in pts)
        out.append(f'<lanelet id="{l["id"]}"><leftBound>{side(l["r"])}</leftBound><rightBound>{side(-l["r"])}</rightBound>'
                   + "".join(f'<predecessor ref="{k["id"]}"/>' for k in s["lanes"] if l["id"] in k["next"])
                   + "".join(f'<successor ref="{k}"/>' for k in l["next"]) + "<laneletType>urban</laneletType></lanelet>\n")
    for i, o in enumerate(s["static"]):
        out.append(f'<staticObstacle id="{30000 + i}"><type>{o["type"]}</type><shape><rectangle><length>{o["l"]}</length><width>{o["w"]}</width></rectangle></shape>'
                   f'<initialState><time><exact>0</exact></time><position>{pt(o["x"], o["y"])}</position><orientation><exact>{o["th"]}</exact></orientation></initialState></staticObstacle>\n')
    for i, o in enumerate(s["dynamic"]):
        rec = recorded(o, lanes)
        le, wi = SIZES[o["type"]]
        tr = "".join(f"<state>{state(k, *rec[k], o['v'])}</state>" for k in range(1, len(rec)))
        out.append(f'<dynamicObstacle id="{50000 + i}"><type>{o["type"]}</type><shape><rectangle><length>{le}</length><width>{wi}</width></rectangle></shape>'
                   f'<initialState>{state(0, *rec[0], o["v"])}</initialState><trajectory>{tr}</trajectory></dynamicObstacle>\n')
    out.append("</commonRoad>\n")
    return "".join(out).encode()


def rectangle(x, y, th, le, wi) -> Polygon:
    c, s = math.cos(th), math.sin(th)
    return Polygon([(x + a * le / 2 * c - b * wi / 2 * s, y + a * le / 2 * s + b * wi / 2 * c) for a, b in ((1, 1), (-1, 1), (-1, -1), (1, -1))])


class Check:
    ID = "C26"
    RUNS_QUICK = 120
    RUNS_THOROUGH = 6000
    RULE = (
        "A case is one or two recordings generated from (seed, index): a tree of lanes with forks, in any direction and with numbers that are part of each other, "
        "road users recorded on routes through it, changing lane, off the road, against opposite lanes on the same ground, standing, or of unknown kinds, and "
        "obstacles. Each is made into a simulation, in which every player is then simulated alone. Non-trivial if at least one player was simulated."
    )
    REAL = ["dg_commons.sim.scenarios.factory", "model_from_dyn_obstacle", "utils_dyn_obstacle", "convert_from_commonroad", "lane followers", "sim.simulator",
            "commonroad file reader"]
    STUB = ["recorded files (generated)", "wall clock (virtual)"]
    STATE_MEASURE = "(kind of road user, kind of route, forks on the route, quadrant of the start heading, recorded turn crosses half a turn)"

    # ------------------------------------------------------------------ generation
    def gen(self, rng, tier):
        return dict(recs=[self.gen_rec(rng) for _ in range(rng.pick([1, 1, 2]))], ego=rng.pick([None, 0, 1]), seed=rng.randint(0, 99))

    def gen_rec(self, rng):
        pool = [1, 2, 3, 12, 21, 13, 23, 11, 22, 31, 123, 211, 7, 70, 77, 710]
        for k in range(len(pool) - 1, 0, -1):
            j = rng.randint(0, k)
            pool[k], pool[j] = pool[j], pool[k]
        lanes = []

        def add(p, th, lo, hi, kappas):
            i = pool[len(lanes)]
            segs = [[rng.r(lo, hi), rng.pick(kappas)]]
            if rng.flip(0.4):
                segs.append([rng.r(5, 20), 0.0])
            lanes.append(dict(id=i, p=[round(float(v), 6) for v in p], th=round(float(th), 6), segs=segs, ds=rng.pick([1.0, 2.0, 4.0]), r=rng.pick([1.5, 1.75, 2.0]), next=[]))
            return lanes[-1]

        curves = [0.0, 0.0, 0.01, -0.01, 0.02, -0.02]
        head = math.pi + rng.pick([0.0, 0.001, -0.001, rng.r(-0.3, 0.3)]) if rng.flip(0.4) else rng.r(-3.1, 3.1)
        start = (rng.r(-50, 50), rng.r(-50, 50))
        if rng.flip(0.7):
            tips = [add(start, head, 20, 50, [0.0, 0.0, 0.01, -0.01])]
            forks = rng.randint(1, 2)
        else:  # several lanes from the same place
            tips = [add(start, head, 30, 50, [k]) for k in (0.0, rng.pick([0.02, -0.02]))]
            forks = rng.randint(0, 1)
        r = lanes[0]["r"]
        for l in lanes:
            l["r"] = r
        for _ in range(forks):
            new = []
            for tip in tips[:2]:
                x, y, th = end_pose(tip)
                ks = rng.pick([[0.0], [0.0, 0.02], [0.02, -0.02], [0.0, -0.02, 0.02], [-0.02, 0.0]])
                for k in ks:
                    if len(lanes) >= 9:
                        break
                    b = add((x, y), th, 25, 45, [k])
                    b["r"] = r
                    tip["next"].append(b["id"])
                    new.append(b)
            tips = new or tips
        by = {l["id"]: l for l in lanes}
        opposite = None
        if rng.flip(0.5):  # a lane in the other direction on the same ground as one of them
            o = rng.pick([l for l in lanes if not l["next"]] + [lanes[0]])
            x, y, th = end_pose(o)
            opposite = dict(id=pool[len(lanes)], p=[round(x, 6), round(y, 6)], th=round(th + math.pi, 6), segs=[[a, -k] for a, k in reversed(o["segs"])], ds=2.0, r=o["r"], next=[])
            lanes.append(opposite)
            if rng.flip(0.5):
                lanes.insert(0, lanes.pop())
            by[opposite["id"]] = opposite
            twin = o["id"]
        dyn = []
        for _ in range(rng.randint(1, 3)):
            typ = rng.pick(["car", "car", "car", "truck", "bus", "bicycle", "bicycle", "motorcycle", "train", "pedestrian"])
            how = rng.pick(["route", "route", "route", "route", "one", "offroad", "change", "still", "reverse"])
            v = rng.r(0.6, 2) if typ == "pedestrian" else rng.r(2, 6 if typ == "bicycle" else 9)
            o = dict(type=typ, how=how, v=v, noise=rng.pick([0.0, 0.003]), d=round(rng.r(-0.4, 0.4), 3), route=None, s=0.0)
            if how in ("route", "one", "still", "change"):
                roots = [l for l in lanes if l is not opposite and not any(l["id"] in k["next"] for k in lanes)]
                l = rng.pick(roots) if rng.flip(0.7) else rng.pick([l for l in lanes if l is not opposite])
                route = [l["id"]]
                while by[route[-1]]["next"] and how in ("route", "change") and (rng.flip(0.8) or len(route) < 2):
                    route.append(rng.pick(by[route[-1]]["next"]))
                total = sum(length(by[i]) for i in route)
                o["s"] = rng.r(1, min(18, length(l) - 9))
                o["route"] = route
                lo = total - length(by[route[-1]]) - o["s"] + 8
                hi = total - o["s"] - 1
                lo = max(6.0, lo)
                o["dist"] = rng.r(lo, hi) if lo < hi else hi
                if how == "one":
                    o["dist"] = max(5.0, hi * rng.r(0.4, 1))
                if how == "still":
                    o.update(v=rng.pick([0.0, 0.001]), n=rng.randint(2, 30), dist=0.02)
                    o["dist"] = o["v"] * 0.1 * o["n"]
                if how == "change":
                    o["d"] = 0.0
                    o["shift"] = rng.pick([-1, 1]) * 2 * r
                    if o["dist"] < 30:
                        o.pop("shift")
                        o["how"] = "route"
            elif how == "offroad" or opposite is None:
                o["how"] = "offroad"
                o["path"] = dict(p=[rng.r(200, 260), rng.r(-30, 30)], th=rng.pick([math.pi - 0.1, math.pi, rng.r(-3.1, 3.1)]),
                                 segs=[[rng.r(15, 40), rng.pick(curves)], [rng.r(15, 40), rng.pick(curves)]], ds=1.0)
                o["dist"] = length(o["path"]) - 1
            else:
                o["route"] = [opposite["id"]] if rng.flip(0.5) else [twin]
                l = by[o["route"][0]]
                o["s"] = rng.r(1, 8)
                o["dist"] = (length(l) - o["s"] - 1) * rng.r(0.5, 1)
            dyn.append(o)
        static = [dict(type=rng.pick(["parkedVehicle", "constructionZone"]), x=rng.r(-99, 99), y=rng.r(-99, 99), th=rng.r(-3, 3), l=rng.r(0.5, 6), w=rng.r(0.5, 3))
                  for _ in range(rng.randint(0, 2))]
        return dict(lanes=lanes, dynamic=dyn, static=static)

    # ------------------------------------------------------------------ run
    def run(self, spec, res: Result):
        base = tempfile.mkdtemp(prefix="dst-c26-")
        sched = []
        try:
            for k, s in enumerate(spec["recs"]):
                lanes = {l["id"]: l for l in s["lanes"]}
                if len(lanes) != len(s["lanes"]) or any(n not in lanes for l in s["lanes"] for n in l["next"]):
                    return
                if any(o["route"] and any(i not in lanes for i in o["route"]) for o in s["dynamic"]):
                    return
                if k:
                    res.faults["recording-before"] += 1
                folder = os.path.join(base, str(k))
                os.mkdir(folder)
                with open(os.path.join(folder, "rec.xml"), "wb") as f:
                    f.write(xml_of(s))
                if not self.one(spec, s, lanes, folder, res, sched):
                    return
        finally:
            shutil.rmtree(base)
            res.schedule = h64(tuple(sched))

    def one(self, spec, s, lanes, folder, res: Result, sched) -> bool:
        ego = None if spec["ego"] is None else PlayerName(f"P{spec['ego']}")
        ctx = get_scenario_commonroad_replica("rec.xml", scenarios_dir=folder, ego_player=ego, seed=spec["seed"])
        recs = [recorded(o, lanes) for o in s["dynamic"]]
        moves = [math.dist(r[0][:2], r[-1][:2]) for r in recs]
        if any(abs(m - 0.2) < 0.01 for m in moves):
            return True
        want, still = {}, []
        for i, (o, m) in enumerate(zip(s["dynamic"], moves)):
            if m < 0.2:
                still.append(rectangle(*recs[i][0], *SIZES[o["type"]]))
            elif o["type"] in FOLLOW:
                want["Ego" if ego is not None and f"P{i}" == str(ego) else f"P{i}"] = i
        got = sorted(map(str, ctx.players))
        if got != sorted(want) or sorted(map(str, ctx.models)) != sorted(want):
            res.violation("players", f"players {got} and bodies {sorted(map(str, ctx.models))} for the recorded {sorted(want)}")
            return False
        still += [rectangle(o["x"], o["y"], o["th"], o["l"], o["w"]) for o in s["static"]]
        obs = [Polygon(o.shape) for o in ctx.dg_scenario.static_obstacles]
        left = list(obs)
        for q in still:
            m = [p for p in left if p.symmetric_difference(q).area < 1e-5]
            if not m:
                res.violation("obstacles", f"no static obstacle like the recorded {q.wkt}: {[p.wkt for p in obs]}")
                return False
            left.remove(m[0])
        if left:
            res.violation("obstacles", f"static obstacles {[p.wkt for p in left]} were not recorded")
            return False
        if ctx.seed != spec["seed"] or len(ctx.dg_scenario.lanelet_network.lanelets) != len(lanes):
            res.violation("context", f"seed {ctx.seed}, {len(ctx.dg_scenario.lanelet_network.lanelets)} lanes")
            return False
        for name, i in want.items():
            if not self.start(s, name, i, recs[i], ctx, res):
                return False
        for name, i in want.items():
            res.nontrivial = True
            if not self.drive(s, lanes, name, i, recs[i], ctx, res, sched):
                return False
        return True

    @staticmethod
    def start(s, name, i, rec, ctx, res: Result) -> bool:
        o = s["dynamic"][i]
        m = ctx.models[PlayerName(name)]
        x = m.get_state()
        if not isinstance(m, VehicleModel):
            res.violation("start", f"{name} ({o['type']}) has a {type(m).__name__}")
            return False
        turn = abs(wrap(rec[1][2] - rec[0][2]))
        if math.dist((x.x, x.y), rec[0][:2]) > 1e-6 or abs(wrap(x.psi - rec[0][2])) > 1e-6 or abs(x.vx - o["v"]) > 1e-6:
            res.violation("start", f"{name} ({o['type']}) begins at {x}, recorded {rec[0]} at {o['v']} m/s")
            return False
        if abs(x.delta) > 0.05 + 2 * turn:
            res.violation("steering", f"{name} ({o['type']}) begins with its wheels turned by {x.delta}, recorded to turn by {turn} in the first tenth of a second")
            return False
        le, wi = SIZES[o["type"]]
        area = m.get_footprint().area
        if not 0.5 * le * wi < area < 2.5 * le * wi:
            res.violation("size", f"{name} ({o['type']}) covers {area} square metres, recorded {le} by {wi}")
            return False
        return True

    @staticmethod
    def drive(s, lanes, name, i, rec, ctx, res: Result, sched) -> bool:
        o = s["dynamic"][i]
        p = PlayerName(name)
        dist = o["dist"]
        if o["how"] == "one" and dist < 5:
            return True
        ctx1 = SimContext(dg_scenario=DgScenario(ctx.dg_scenario.scenario), models={p: ctx.models[p]}, players={p: ctx.players[p]}, seed=ctx.seed,
                          param=SimParameters(dt=D("0.1"), dt_commands=D("0.1"), max_sim_time=D(str(round(5 + dist / 2, 1)))))
        Simulator().run(ctx1)
        st = ctx1.log[p].states
        res.event("drive", name, o["type"], o["how"], o["dist"])
        for t, x in zip(st.timestamps, st.values):
            res.event(str(t), fl(x.x), fl(x.y), fl(x.psi), fl(x.vx), fl(x.delta))
        xy = [(x.x, x.y, x.psi) for x in st.values]
        path = LineString([q[:2] for q in rec])
        dend = [math.dist(q[:2], rec[-1][:2]) for q in xy]
        k = min(range(len(xy)), key=lambda j: dend[j])
        forks = sum(len(lanes[r]["next"]) > 1 for r in (o["route"] or [])[:-1])
        crosses = any(abs(a[2] - b[2]) > 3 for a, b in zip(rec, rec[1:]))
        res.state(o["type"], o["how"], forks, int(wrap(rec[0][2]) // (math.pi / 2)), crosses)
        res.stats[o["how"]] += 1
        res.sim_time += float(st.get_end())
        sched.append((name, o["type"], o["how"], k))
        stray = max(path.distance(Point(q[:2])) for q in xy[: k + 1])
        slack = abs(o.get("shift", 0.0))
        if dend[k] > ARRIVE + slack / 3:
            res.violation("route", f"{name} ({o['type']}, {o['how']}) recorded from {rec[0]} to {rec[-1]} never comes closer than {dend[k]:.2f} m to the end of its route")
            return False
        if stray > STRAY + slack:
            res.violation("stray", f"{name} ({o['type']}, {o['how']}) recorded from {rec[0]} to {rec[-1]} leaves its recorded path by {stray:.2f} m")
            return False
        if abs(wrap(xy[k][2] - rec[-1][2])) > 0.6:
            res.violation("heading", f"{name} ({o['type']}, {o['how']}) recorded to end at {rec[-1]} gets there at {xy[k]}")
            return False
        return True


CHECK = Check()
