import math
from decimal import Decimal

import numpy as np
from shapely.geometry import Point, Polygon

from dg_commons import DgSampledSequence, PlayerName
from dg_commons.eval.comfort import get_acc_rms, get_max_jerk
from dg_commons.eval.efficiency import distance_traveled, time_goal_lane_reached
from dg_commons.eval.safety import get_min_dist, get_min_ttc_max_drac, has_collision
from dg_commons.maps.lanes import DgLanelet
from dg_commons.sim.goals import RefLaneGoal
from dg_commons.sim.models.vehicle import VehicleCommands
from dst.checks.c27 import make_scenario
from dst.core.result import Result, h64
from dst.world.bodies import STATE_FIELDS
from dst.world.contact import Steps
from dst.world.gen import gen_goal, gen_obstacle, gen_x0, turned
from dst.world.lanes import distance_to_lane, lane_points
from dst.world.world import World, canon, log_canon, report_canon

KINDS = ["car", "truck", "bike", "moto", "cardyn", "truckdyn", "bikedyn"]
STEP = 0.1  # resolution of the prediction
HORIZON = 3.0
INF = float("inf")


def project(P: Polygon, axis) -> tuple:
    v = np.array(P.exterior.coords) @ axis
    return float(v.min()), float(v.max())


def contact_window(A: Polygon, B: Polygon, v) -> tuple:
    """Times between which B, moving with v, has a point in common with A (both convex). (inf, -inf): never"""
    lo, hi = -INF, INF
    for P in (A, B):
        c = np.array(P.exterior.coords)
        for d in np.diff(c, axis=0):
            L = np.linalg.norm(d)
            if L < 1e-12:
                continue
            n = np.array([-d[1], d[0]]) / L
            a0, a1 = project(A, n)
            b0, b1 = project(B, n)
            s = float(v @ n)
            if abs(s) < 1e-9:
                if b0 > a1 or b1 < a0:
                    return INF, -INF
                continue
            t0, t1 = sorted(((a0 - b1) / s, (a1 - b0) / s))
            lo, hi = max(lo, t0), min(hi, t1)
            if lo > hi:
                return INF, -INF
    return lo, hi


def weight(f: float) -> float:
    """Weighting of horizontal accelerations after ISO 2631-1, third order approximation"""
    return (14.55 * f * f + 6.026 * f + 7.725) / (f**3 + 15.02 * f * f + 51.63 * f + 47.61)


class Check:
    ID = "C28"
    RUNS_QUICK = 900
    RUNS_THOROUGH = 30000
    RULE = (
        "A case is an episode of two to five vehicles that meet, collide, follow or miss each other, some of which leave early, with the missions of some of "
        "them and ranges of time, generated from (seed, index). The metrics are compared with distances and constant velocity encounters computed from "
        "the logged states by a separating axis method. Non-trivial if a player left before the end of the ego's log or an encounter within the horizon occurs."
    )
    REAL = ["dg_commons.eval.safety", "dg_commons.eval.comfort", "dg_commons.eval.efficiency", "sim.simulator", "sim log", "sim.goals", "vehicle models", "sim.collision"]
    STUB = ["agents (scripted)", "wall clock (virtual)", "some goals (toy)"]
    STATE_MEASURE = "(kinds of the closest pair, who had left, missions given, ranges, contact / encounter / neither)"

    # ------------------------------------------------------------------ generation
    def gen(self, rng, tier):
        dt = rng.pick(["0.1", "0.05", "0.2", "0.1"])
        steps = rng.randint(6, 26)
        tmax = float(dt) * steps
        mode = rng.pick(["cross", "cross", "follow", "crowd", "apart"])
        players = []
        names = rng.sample(["Ego", "P1", "b", "player_10", "Z"], 5)[: rng.randint(2, 5 if rng.flip(0.4) else 3)]
        if "Ego" not in names and rng.flip(0.8):
            names[rng.randint(0, len(names) - 1)] = "Ego"
        for i, n in enumerate(names):
            kind = rng.pick(KINDS)
            if mode == "cross":
                a = rng.r(-3.1, 3.1)
                d, speed = rng.r(4, 22), rng.r(1, 9)
                x, y, psi = d * math.cos(a), d * math.sin(a), a + math.pi + rng.r(-0.5, 0.5)
            elif mode == "follow":
                x, y, psi, speed = -12.0 * i + rng.r(-2, 2), rng.r(-1.5, 1.5), rng.r(-0.1, 0.1) + rng.pick([0, 0, math.pi]), rng.r(2, 10)
            elif mode == "crowd":
                x, y, psi, speed = rng.r(-6, 6), rng.r(-6, 6), rng.r(-3, 3), rng.pick([0.0, rng.r(0, 4)])
            else:
                x, y, psi, speed = 60.0 * i, rng.r(-5, 5), rng.r(-3, 3), rng.r(0, 8)
            if rng.flip(0.08):
                speed = -rng.r(0.5, 3)
            psi = turned(rng, math.remainder(psi, 2 * math.pi))
            model = dict(kind=kind, x0=gen_x0(rng, kind, round(x, 3), round(y, 3), psi, speed))
            pl = dict(name=n, model=model, agent=dict(pol=rng.pick(["const", "rand"]), amp=rng.pick([0.0, 0.2, rng.r(0, 1)]), seed=rng.randint(0, 10**6)))
            if rng.flip(0.4):
                pl["goal"] = dict(k="late", t0=rng.r(0.1, tmax)) if rng.flip(0.6) else gen_goal(rng, x, y, tmax)
            players.append(pl)
        lanes, goal_lane = [], None
        if rng.flip(0.4):
            lanes = self.gen_lanes(rng)
            goal_lane = [rng.pick(lanes)["id"], rng.r(0.1, 0.9)]
            for pl in players:
                if rng.flip(0.8):
                    pts = lane_points(rng.pick(lanes))
                    x, y, th = pts[rng.randint(0, len(pts) - 1)]
                    off = rng.pick([0.0, rng.r(-1.2, 1.2), rng.r(-9, 9)])
                    m = pl["model"]
                    psi = turned(rng, math.remainder(th + rng.pick([0.0, rng.r(-0.15, 0.15)]), 2 * math.pi))
                    m["x0"] = gen_x0(rng, m["kind"], round(x - off * math.sin(th), 3), round(y + off * math.cos(th), 3), psi, rng.r(2, 12))
                    f = STATE_FIELDS[m["kind"]]
                    m["x0"] = [0.0 if n in ("delta", "vy", "dpsi") else v for n, v in zip(f, m["x0"])]
                    pl["agent"]["amp"] = rng.pick([0.0, 0.05, 0.3])
        given = {}
        for pl in players:
            k = rng.pick(["own", "own", "none", "other"])
            if k == "own" and pl.get("goal"):
                given[pl["name"]] = "own"
            elif k == "other":
                given[pl["name"]] = dict(k="late", t0=rng.r(0, tmax)) if rng.flip(0.5) else dict(
                    k="zone", box=[pl["model"]["x0"][0] - 3, pl["model"]["x0"][1] - 3, pl["model"]["x0"][0] + 3, pl["model"]["x0"][1] + 3])
        ranges = [[None, None]]
        for _ in range(rng.randint(1, 3)):
            a, b = sorted((rng.r(-0.2, tmax * 1.1, 2), rng.r(-0.2, tmax * 1.1, 2)))
            if rng.flip(0.5):  # at a step
                a = float(Decimal(dt) * rng.randint(0, steps))
                b = float(Decimal(dt) * rng.randint(0, steps))
                a, b = min(a, b), max(a, b)
            ranges.append([a if rng.flip(0.7) else None, b if rng.flip(0.7) else None])
        dtc = "0.1" if dt in ("0.1", "0.05") and rng.flip(0.6) else str(Decimal(dt) * rng.pick([1, 2, 3]))
        return dict(dt=dt, dtc=dtc, tmax=str(Decimal(dt) * steps), players=players, after=rng.pick(["1000", "1000", "0.5", "0"]), seed=0,
                    obstacles=[gen_obstacle(rng, 25.0) for _ in range(rng.randint(0, 2))] if rng.flip(0.3) else [],
                    given=given, ranges=ranges, lanes=lanes, goal_lane=goal_lane, ego=rng.pick(names), again=rng.randint(0, 3), order=rng.flip(0.5))

    def gen_lanes(self, rng) -> list:
        lanes = []
        ids = rng.sample(list(range(1, 12)), 11)
        r = rng.pick([1.5, 2.0, 3.0])

        def add(p, th, segs):
            lanes.append(dict(id=ids[len(lanes)], p=[float(v) for v in p], th=float(th), segs=segs, ds=rng.pick([0.5, 1.0, 2.0]), r=r, next=[]))
            return lanes[-1]

        kinks = rng.flip(0.5)
        tips = [add((rng.r(-20, 20), rng.r(-20, 20)), rng.r(-3.1, 3.1), [[rng.r(8, 25), rng.pick([0.0, 0.02, -0.03])]])]
        for _ in range(rng.randint(0, 3)):
            tip = tips.pop(0)
            x, y, t = lane_points(tip)[-1]
            for k in rng.pick([[0.0], [0.0], [0.03], [0.08, -0.08], [0.0, 0.08], [-0.08, 0.0]]):
                b = add((x, y), t + (rng.r(-0.4, 0.4) if kinks else 0.0), [[rng.r(8, 25), k]])
                tip["next"].append(b["id"])
                tips.append(b)
        return lanes

    # ------------------------------------------------------------------ lanes
    def lane_reached(self, spec, logs, res: Result) -> bool:
        lanes = {l["id"]: l for l in spec["lanes"]}
        gid, part = spec["goal_lane"] or (None, 0)
        if gid not in lanes or any(n not in lanes for l in lanes.values() for n in l["next"]) or any(l["r"] < 1 or not l["segs"] for l in lanes.values()):
            return False
        for l in lanes.values():
            x, y, t = lane_points(l)[-1]
            for n in l["next"]:
                if math.dist((x, y), lanes[n]["p"]) > 1e-6 or abs(math.remainder(t - lanes[n]["th"], 2 * math.pi)) > 0.41:
                    return False
        net = make_scenario(list(lanes.values())).lanelet_network
        lane = DgLanelet.from_commonroad_lanelet(net.find_lanelet_by_id(gid))
        L = sum(s[0] for s in lanes[gid]["segs"])
        goal = RefLaneGoal(lane, part * L)
        first, todo = [gid], gid
        while lanes[todo]["next"] and lanes[todo]["next"][0] not in first:
            todo = lanes[todo]["next"][0]
            first.append(todo)
        related = {gid}
        for step in (lambda a, b: b in lanes[a]["next"], lambda a, b: a in lanes[b]["next"]):
            reach = {gid}
            while True:
                more = {b for a in reach for b in lanes if step(a, b)} - reach
                if not more:
                    break
                reach |= more
            related |= reach
        pts = {i: lane_points(l) for i, l in lanes.items()}
        ext = {}
        for i, q in pts.items():
            (x0, y0, t0), (x1, y1, t1) = q[0], q[-1]
            ext[i] = [(x0 - 99 * math.cos(t0), y0 - 99 * math.sin(t0), t0)] + list(q) + [(x1 + 99 * math.cos(t1), y1 + 99 * math.sin(t1), t1)]

        def verdict(s):
            for i in first:
                d, along = distance_to_lane(pts[i], s.x, s.y)
                k = max(range(len(pts[i]) - 1), key=lambda k: -math.dist(((pts[i][k][0] + pts[i][k + 1][0]) / 2, (pts[i][k][1] + pts[i][k + 1][1]) / 2), (s.x, s.y)))
                hs = [math.remainder(s.psi - pts[i][j][2], 2 * math.pi) for j in (k, k + 1)]
                Li = sum(a[0] for a in lanes[i]["segs"])
                back = [p for j in first[: first.index(i)] for p in pts[j]]
                if any(abs(math.remainder(s.psi - p[2], 2 * math.pi)) > 1.2 for p in back):
                    continue  # may be abreast of the lanes before
                if d < 0.65 and 0.6 < along < Li - 0.6 and all(abs(h) < 0.05 for h in hs):
                    return True, i
            if goal.is_fulfilled(s):
                return True, gid
            if goal.goal_polygon.distance(Point(s.x, s.y)) < 0.05:
                return None, None
            for i in related:
                if distance_to_lane(ext[i], s.x, s.y)[0] < 0.95 and any(abs(math.remainder(s.psi - p[2], 2 * math.pi)) < 0.13 for p in pts[i]):
                    return None, None
            return False, None

        for p, l in logs.items():
            vs = [verdict(s) for s in l.states.values]
            got = time_goal_lane_reached(net, goal, l.states)
            yes = next((t for t, v in zip(l.states.timestamps, vs) if v[0]), None)
            on = next((v[1] for v in vs if v[0]), None)
            may = next((t for t, v in zip(l.states.timestamps, vs) if v[0] is not False), None)
            res.stats["lane-" + ("reached" if yes is not None else "unclear" if may is not None else "not")] += 1
            if yes is not None and on != gid:
                res.faults["on-a-later-lane"] += 1
            if got is None and yes is not None or got is not None and (may is None or got < float(may) - 1e-9 or yes is not None and got > float(yes) + 1e-9):
                res.violation("lane", f"{p}: goal lane {gid} reached at {got} according to time_goal_lane_reached, it is between {may} and {yes} (on lane {on})")
                return True
        return False

    # ------------------------------------------------------------------ run
    def run(self, spec, res: Result):
        have = [p["name"] for p in spec["players"]]
        if spec["ego"] not in have or not set(spec["given"]) <= set(have):
            return
        w = World(spec).run()
        w.trace_into(res)
        if w.error is not None:
            raise w.error
        logs = w.ctx.log
        if set(map(str, logs)) != set(have):
            return  # decided elsewhere
        ss = Steps(w)
        ego = PlayerName(spec["ego"])
        missions, own = {}, {}
        for n, g in spec["given"].items():
            if g == "own":
                if PlayerName(n) in w.missions:
                    missions[PlayerName(n)], own[n] = w.missions[PlayerName(n)], None
            else:
                missions[PlayerName(n)], own[n] = w.make_goal(g, n), g
        if spec["order"]:
            missions = dict(reversed(list(missions.items())))
        if len(missions) < len(have):
            res.faults["mission-missing"] += 1
        models = w.all_models
        before = (log_canon(logs), {n: canon(m.get_state()) for n, m in models.items()}, [report_canon(r) for r in w.ctx.collision_reports])

        # collisions
        involved = any("Ego" in map(str, r.players) for r in w.ctx.collision_reports)
        if bool(has_collision(w.ctx.collision_reports)) != involved:
            res.violation("has-collision", f"has_collision says {not involved}, Ego is {'' if involved else 'not '}part of a collision")
            return

        # who is there
        st = {str(p): {t: s for t, s in zip(l.states.timestamps, l.states.values)} for p, l in logs.items()}

        def there(n, t):
            """True, False or None (unclear)"""
            s = st[n].get(t)
            if s is None:
                return False
            if n not in own:
                return True
            g = own[n]
            spec_ = dict(players=[dict(name=n, goal=g)]) if g is not None else spec
            saved, w.spec = w.spec, spec_
            try:
                f = w.goal_fulfilled(n, s, float(t))
            finally:
                w.spec = saved
            return None if f is None else not f

        ts = list(st[str(ego)])
        names = [n for n in have if n != str(ego)]
        if any(max(st[n]) < ts[-1] for n in names):
            res.faults["player-left"] += 1
            res.nontrivial = True
        foot = {(n, t): ss.footprint(n, s) for n in have for t, s in st[n].items()}
        rows = []  # (t, other, sure, distance, first contact from, to, is it sure, speed of ego)
        for t in ts:
            ego_in = there(str(ego), t)
            if ego_in is False:
                continue
            e = st[str(ego)][t]
            for n in names:
                o_in = there(n, t)
                if o_in is False:
                    continue
                sure = ego_in is True and o_in is True
                o = st[n][t]
                A, B = foot[str(ego), t], foot[n, t]
                ve, vo = (s.vx * np.array([math.cos(s.psi), math.sin(s.psi)]) for s in (e, o))
                rel = vo - ve
                c = np.array([o.x - e.x, o.y - e.y])
                d = float(np.linalg.norm(c))
                closing = -float(rel @ c) / d if d > 1e-9 else 0.0
                lo, hi = contact_window(A, B, rel)
                if hi < 0 or lo > HORIZON + STEP + 0.02 or closing < -1e-6:
                    enc = None
                    if closing < -1e-6 or lo > hi or lo > HORIZON + STEP + 0.02 or hi < -0.01:
                        enc = (INF, INF, True)
                    else:
                        enc = (0.0, INF, False)
                else:
                    s0 = max(lo, 0.0)
                    firm = closing > 1e-6 and d / closing < 4.9 and hi - s0 > STEP + 0.02 and s0 < HORIZON - STEP - 0.02 and abs(lo) > 1e-6
                    enc = (s0 - 0.011, s0 + STEP + 0.011 if firm else INF, firm and sure)
                rows.append((t, n, sure, A.distance(B), enc[0], enc[1], enc[2] and sure, e.vx))
        hull = all(abs(f.convex_hull.area - f.area) < 1e-9 for f in list(foot.values())[:6])
        if not hull:
            return

        def within(t, r):
            return (r[0] is None or t >= r[0]) and (r[1] is None or t <= r[1])

        sched = []
        for i, r in enumerate(spec["ranges"]):
            rr = (None if r[0] is None else Decimal(str(r[0])), None if r[1] is None else Decimal(str(r[1])))
            sel = [x for x in rows if within(x[0], rr)]
            if len(sel) < len(rows):
                res.faults["range-cuts-off"] += 1
            at = f"ego {ego}, range {r}, missions of {sorted(map(str, missions))}"
            # ------------------------------------------------ distance
            dist, who, when = get_min_dist(logs, models, missions, ego, rr)
            best = min((x[3] for x in sel if x[2]), default=INF)
            floor = min((x[3] for x in sel), default=INF)
            if not (floor - 1e-6 <= dist <= best + 1e-6):
                row = min((x for x in sel if x[3] == floor), default=None)
                res.violation("distance", f"{at}: minimum distance {dist} to {who} at {when}, it is {best} {row[:4] if row else ''}")
                return
            if dist == INF:
                if who is not None or when is not None:
                    res.violation("distance-who", f"{at}: no distance, but {who} at {when}")
                    return
            elif not any(x[0] == when and x[1] == str(who) and abs(x[3] - dist) < 1e-6 for x in sel):
                res.violation("distance-who", f"{at}: the distance {dist} does not occur with {who} at {when}: {[x[:4] for x in sel if x[0] == when]}")
                return
            # ------------------------------------------------ encounters
            ttc, ta, tt, drac, da, dtt = get_min_ttc_max_drac(logs, models, missions, ego, rr)
            top = min((x[5] for x in sel if x[6]), default=INF)
            low = min((x[4] for x in sel), default=INF)
            if not (low <= ttc <= top):
                row = min((x for x in sel if x[6]), key=lambda x: x[5], default=None)
                res.violation("ttc", f"{at}: time to collision {ttc} with {ta} at {tt}, expected within [{low}, {top}], earliest {row}")
                return
            if ttc == INF:
                if ta is not None or tt is not None:
                    res.violation("ttc-who", f"{at}: no encounter, but {ta} at {tt}")
                    return
            elif not any(x[0] == tt and x[1] == str(ta) and x[4] <= ttc <= (x[5] if x[6] else INF) for x in sel):
                res.violation("ttc-who", f"{at}: time to collision {ttc} does not occur with {ta} at {tt}: {[x for x in sel if x[0] == tt]}")
                return
            if top < INF:
                res.nontrivial = True
                res.stats["encounters"] += 1
            moving = [x for x in sel]
            if moving and all(x[7] > 0.1 for x in moving):
                need = max((x[7] / (2 * x[5]) for x in moving if x[6] and x[5] < INF), default=-INF)
                most = max((INF if x[4] <= 0 else x[7] / (2 * x[4]) for x in moving), default=-INF)
                most = max(most, 0.0)
                if not (need - 1e-6 <= drac <= most + 1e-6):
                    res.violation("drac", f"{at}: deceleration to avoid the collision {drac} with {da} at {dtt}, expected within [{need}, {most}]")
                    return
                if drac > 0 and not any(x[0] == dtt and x[1] == str(da) for x in moving):
                    res.violation("drac-who", f"{at}: deceleration {drac} with {da} at {dtt}, who was not there")
                    return
                res.stats["decelerations"] += 1
            sched.append((str(who), str(when), str(ta), str(tt), round(ttc, 1)))
            res.state(w.kinds[str(ego)], w.kinds.get(str(who), ""), len(missions), [v is None for v in r], dist == 0, ttc < INF)
            if i == 0:
                # a collision of the ego with a player that is still there has no distance
                for c in w.ctx.collision_reports:
                    ps = set(map(str, c.players))
                    if str(ego) in ps and len(ps) == 2 and ps <= set(have):
                        o = (ps - {str(ego)}).pop()
                        if any(x[0] == c.at_time and x[1] == o and x[2] for x in rows):
                            res.faults["collision-of-ego"] += 1
                            if dist > 1e-6:
                                res.violation("collision-distance", f"{at}: minimum distance {dist}, but it collides with {o} at {c.at_time}")
                                return
            # ------------------------------------------------ comfort
            for n in have:
                cmds = logs[PlayerName(n)].commands
                if self.comfort(spec, cmds, n, rr, res):
                    return
                if i == 0 and len(cmds) > 2:
                    # a part of them, at uneven times
                    keep = [k for k in range(len(cmds)) if (k * k + spec["again"] + len(n)) % 3 or k in (0, len(cmds) - 1)]
                    if len(keep) > 1:
                        res.faults["uneven-commands"] += 1
                        sub = DgSampledSequence[VehicleCommands]([cmds.timestamps[k] for k in keep], [cmds.values[k] for k in keep])
                        if self.comfort(dict(spec, dtc="uneven"), sub, n, rr, res):
                            return
            if i == spec["again"]:
                if (dist, who, when) != get_min_dist(logs, models, missions, ego, rr):
                    res.violation("repeat", f"{at}: the distance differs when computed again")
                    return
        for n in have:
            s = logs[PlayerName(n)].states.values
            want = sum(math.hypot(b.x - a.x, b.y - a.y) for a, b in zip(s, s[1:]))
            got = distance_traveled(logs[PlayerName(n)].states)
            if abs(got - want) > 1e-6 * max(1, want):
                res.violation("travelled", f"{n} travelled {got} m according to distance_traveled, {want} m according to its log")
                return
        if spec["lanes"] and self.lane_reached(spec, logs, res):
            return
        res.schedule = h64(tuple(sched))
        after = (log_canon(logs), {n: canon(m.get_state()) for n, m in models.items()}, [report_canon(r) for r in w.ctx.collision_reports])
        if before != after:
            res.violation("altered", "computing the metrics changed the log, the models or the reports")

    def comfort(self, spec, commands, n, rr, res: Result) -> bool:
        ts, vs = commands.timestamps, [c.acc for c in commands.values]
        if any(not isinstance(v, (int, float)) for v in vs):
            return False
        jerks = [(t0, t1, abs(b - a) / float(t1 - t0)) for t0, t1, a, b in zip(ts, ts[1:], vs, vs[1:])]

        def ok(t, by=0.0):
            return (rr[0] is None or float(t) >= float(rr[0]) - by) and (rr[1] is None or float(t) <= float(rr[1]) + by)

        # an interval that ends on a limit of the range counts or not
        inner = max((j for a, b, j in jerks if ok(a, -1e-9) and ok(b, -1e-9)), default=0.0)
        outer = max((j for a, b, j in jerks if ok(b, 1e-9) or ok(a, 1e-9)), default=0.0)
        got = get_max_jerk(commands, rr)
        if not (inner * (1 - 1e-9) - 1e-9 <= got <= outer * (1 + 1e-9) + 1e-9):
            res.violation("jerk", f"{n}: maximum jerk {got} in {rr}, expected {inner} (at most {outer})")
            return True
        if inner > 0:
            res.stats["jerks"] += 1
        sel = [v for t, v in zip(ts, vs) if ok(t)]
        if spec["dtc"] == "0.1" and len(sel) >= 2 and len(sel) % 2 == 0:
            N = len(sel)
            a = np.array(sel)
            total = 0.0
            for k in range(N):
                f = min(k, N - k) / (N * 0.1)
                A = np.sum(a * np.exp(-2j * math.pi * k * np.arange(N) / N))
                total += (weight(f) * abs(A)) ** 2
            want = math.sqrt(total) / N
            got = float(get_acc_rms(commands, rr))
            if abs(got - want) > 1e-6 * max(1.0, want):
                res.violation("rms", f"{n}: weighted rms of the acceleration {got} in {rr}, expected {want}")
                return True
            res.stats["rms"] += 1
        return False


CHECK = Check()
