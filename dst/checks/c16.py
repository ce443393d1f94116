import math

import cachetools
import numpy as np

import dg_commons.maps.lanes as lanes_mod
from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dst.core.result import Result, h64
from dst.core.rng import Rng
from dst.core.sched import Scheduler, gen_switches


# ------------------------------------------------------------------ independent geometry of lanes
def rel(a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    c, s = math.cos(a[2]), math.sin(a[2])
    th = math.atan2(math.sin(b[2] - a[2]), math.cos(b[2] - a[2]))
    return c * dx + s * dy, -s * dx + c * dy, th


def twist(a, b):
    """The constant motion from a to b: linear velocity and angle"""
    x, y, th = rel(a, b)
    if abs(th) < 1e-9:
        return x, y, th
    p, q = math.sin(th) / th, (1 - math.cos(th)) / th
    d = p * p + q * q
    return (p * x + q * y) / d, (-q * x + p * y) / d, th


def move(a, v, alpha):
    vx, vy, w = v[0] * alpha, v[1] * alpha, v[2] * alpha
    p, q = (1.0, 0.0) if abs(w) < 1e-9 else (math.sin(w) / w, (1 - math.cos(w)) / w)
    x, y = p * vx - q * vy, q * vx + p * vy
    c, s = math.cos(a[2]), math.sin(a[2])
    return a[0] + c * x - s * y, a[1] + s * x + c * y, a[2] + w


class RefLane:
    def __init__(self, l: dict):
        self.pts = [tuple(p[:3]) for p in l["pts"]]
        self.r = [p[3] for p in l["pts"]]
        self.straight = l["straight"]
        self.n = len(self.pts)
        self.tw = [twist(a, b) for a, b in zip(self.pts, self.pts[1:])]
        self.len = [math.hypot(v[0], v[1]) for v in self.tw]
        self.S = sum(self.len)

    def along(self, beta):
        if beta < 0:
            return beta
        if beta >= self.n - 1:
            return self.S + beta - (self.n - 1)
        i = int(beta)
        return sum(self.len[:i]) + self.len[i] * (beta - i)

    def beta(self, along):
        if along < 0:
            return along
        if along >= self.S:
            return self.n - 1 + along - self.S
        s = 0.0
        for i, d in enumerate(self.len):
            if along < s + d:
                return i + (along - s) / d
            s += d
        return float(self.n - 1)

    def center(self, beta):
        if beta < 0:
            return move(self.pts[0], (0.1, 0, 0), beta)
        if beta >= self.n - 1:
            return move(self.pts[-1], (0.1, 0, 0), beta - (self.n - 1))
        i = int(beta)
        return move(self.pts[i], self.tw[i], beta - i)

    def fast(self, beta):
        """Straight lines between the control points"""
        if beta < 0 or beta >= self.n - 1:
            return self.center(beta)
        i = int(beta)
        p, q, al = self.pts[i], self.pts[i + 1], beta - i
        return p[0] + al * (q[0] - p[0]), p[1] + al * (q[1] - p[1]), p[2] + al * rel(p, q)[2]

    def radius(self, beta):
        if beta < 0:
            return self.r[0]
        if beta >= self.n - 1:
            return self.r[-1]
        i = int(beta)
        return self.r[i] * (1 - (beta - i)) + self.r[i + 1] * (beta - i)


def make(l: dict) -> DgLanelet:
    return DgLanelet([LaneCtrPoint(SE2Transform([x, y], th), r) for x, y, th, r in l["pts"]])


def pose_of(q) -> tuple:
    return float(q[0, 2]), float(q[1, 2]), math.atan2(q[1, 0], q[0, 0])


def near(a, b, tol) -> bool:
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def forget():
    """Every run begins with empty caches"""
    for f in vars(DgLanelet).values():
        f = getattr(f, "__func__", f)
        if hasattr(f, "cache_clear"):
            f.cache_clear()
        c = getattr(f, "cache", None)
        if c is not None and hasattr(c, "clear"):
            c.clear()
    for v in list(vars(lanes_mod).values()):
        if isinstance(v, cachetools.Cache):
            v.clear()


def ask(lane: DgLanelet, q: dict):
    """One query"""
    k = q["k"]
    if k == "lengths":
        return list(map(float, lane.get_lane_lengths()))
    if k == "length":
        return float(lane.get_lane_length())
    if k == "profile":
        return [tuple(map(float, p)) for p in (lane.lane_profile(q["n"]) if q["n"] != 5 else lane.lane_profile())]
    if k == "along":
        return float(lane.along_lane_from_beta(q["b"]))
    if k == "beta":
        return float(lane.beta_from_along_lane(q["a"]))
    if k == "trip":
        return float(lane.beta_from_along_lane(lane.along_lane_from_beta(q["b"])))
    if k == "trip2":
        return float(lane.along_lane_from_beta(lane.beta_from_along_lane(q["a"])))
    if k == "center":
        return pose_of(lane.center_point(q["b"]))
    if k == "fast":
        p = lane.center_point_fast_SE2Transform(q["b"])
        return float(p.p[0]), float(p.p[1]), float(p.theta)
    if k == "given":
        p = lane.lane_pose(q["a"], q["h"], q["lat"])
        c = p.center_point
        return [bool(getattr(p, f)) for f in FLAGS] + [float(getattr(p, f)) for f in DISTANCES] + [float(c.p[0]), float(c.p[1]), float(c.theta)]
    if k == "inside":
        return bool(lane.is_inside_from_T2value(np.array(q["p"][:2])))
    if k == "radius":
        return float(lane.radius(q["b"]))
    if k == "pose":
        p = lane.lane_pose_from_SE2Transform(SE2Transform(q["p"][:2], q["p"][2]))
        return (float(p.along_lane), float(p.lateral), float(p.relative_heading), bool(p.inside), bool(p.along_inside), bool(p.lateral_inside),
                float(p.lateral_left), tuple(map(float, p.center_point.p)))
    if k == "closest":
        return float(lane.find_along_lane_closest_point(np.array(q["p"][:2]))[0])
    if k == "alongp":
        return float(lane.along_lane_from_T2value(np.array(q["p"][:2]), fast=q["n"] % 2 == 0))
    raise ValueError(k)


FLAGS = ("inside", "along_inside", "along_before", "along_after", "lateral_inside", "outside_left", "outside_right", "correct_direction")
DISTANCES = ("along_lane", "lateral", "relative_heading", "lateral_left", "lateral_right", "distance_from_left", "distance_from_right",
             "distance_from_center")
EXACT = ("lengths", "length", "profile", "along", "beta", "trip", "trip2", "center", "radius", "fast", "given")


class Check:
    ID = "C16"
    RUNS_QUICK = 1500
    RUNS_THOROUGH = 60000
    RULE = (
        "A case is, from (seed, index), one to four threads that query shared and short lived lanes while the seeded scheduler switches "
        "between them at source lines of the lanes and of the cache library, with the caches filled up to around their size beforehand. "
        "Every answer is compared with an independent geometry of the lane (or with a lone query, for the search of the closest point). "
        "Non-trivial if two threads were inside lane queries alternately or more lanes were in use than a cache holds."
    )
    REAL = ["dg_commons.maps.lanes", "cachetools"]
    STUB = ["interleaving of the threads", "locks created by dg_commons (same semantics, waiting is up to the scheduler)"]
    STATE_MEASURE = "(query, lanes in use, shared or short lived, position class of the query, number of switches)"

    # ------------------------------------------------------------------ cases
    def gen_lane(self, rng: Rng, n=None) -> dict:
        n = n or rng.pick([2, 2, 3, 4, rng.randint(2, 12)])
        straight = rng.flip(0.4)
        x, y, th = rng.r(-50, 50), rng.r(-50, 50), rng.r(-3, 3)
        pts = [[x, y, th, rng.r(1, 3)]]
        for _ in range(n - 1):
            d = rng.pick([1.0, rng.r(0.05, 6), rng.r(0.5, 3)])
            if not straight:
                th += rng.r(-0.4, 0.4) * min(d, 1)
            x, y = x + d * math.cos(th), y + d * math.sin(th)
            if not straight:
                th += rng.r(-0.2, 0.2) * min(d, 1)
            th = math.atan2(math.sin(th), math.cos(th))
            pts.append([round(x, 6), round(y, 6), round(th, 9) if straight is False else th, rng.r(1, 3)])
        return dict(pts=pts, straight=straight)

    def twin(self, rng: Rng, l: dict) -> dict:
        """A lane that differs from another one in a single control point, its width, its direction or not at all"""
        pts = [list(p) for p in l["pts"]]
        how = rng.pick(["point", "point", "radius", "same", "reversed", "head"])
        i = rng.randrange(1, len(pts) - 1) if len(pts) > 2 else rng.randrange(len(pts))
        straight = l["straight"]
        if how == "point":
            d = rng.r(0.3, 3)
            pts[i][0], pts[i][1], straight = pts[i][0] + d * math.sin(pts[i][2]), pts[i][1] - d * math.cos(pts[i][2]), False
        elif how == "radius":
            pts[i][3] += 0.7
        elif how == "head":
            pts[i][2], straight = pts[i][2] + 0.3, False
        elif how == "reversed":
            pts = [[x, y, math.atan2(-math.sin(th), -math.cos(th)), r] for x, y, th, r in reversed(pts)]
        return dict(pts=pts, straight=straight)

    def gen_query(self, rng: Rng, l: dict) -> dict:
        ref = RefLane(l)
        k = rng.pick(list(EXACT) * 2 + ["pose", "closest", "alongp", "inside"])
        q = dict(k=k, n=rng.randint(2, 6))
        where = rng.pick(["in", "in", "in", "knot", "end", "before", "after", "edge"])
        b = {"in": rng.r(0, ref.n - 1), "knot": rng.randrange(ref.n), "end": ref.n - 1, "before": -rng.r(0, 8), "after": ref.n - 1 + rng.r(0, 8),
             "edge": rng.pick([0.0, 1e-9, -1e-9, ref.n - 1 - 1e-9, ref.n - 1 + 1e-9])}[where]
        q["b"], q["where"] = float(b), where
        q["a"] = ref.along(float(b))
        c = ref.center(b)
        lat = rng.r(-3, 3)
        q["p"] = [c[0] - lat * math.sin(c[2]), c[1] + lat * math.cos(c[2]), c[2] + rng.r(-1, 1)]
        q["lat"] = lat
        q["h"] = rng.pick([rng.r(-0.5, 0.5), rng.r(-3.1, 3.1), 1.5, 1.6, -1.6])
        return q

    def gen(self, rng, tier):
        n_t = rng.pick([1, 2, 2, 3, 4])
        pool = [self.gen_lane(rng, rng.pick([None, None, 3])) for _ in range(rng.randint(1, 6))]
        threads = []
        for _ in range(n_t):
            qs = []
            for _ in range(rng.randint(2, 14 if n_t > 1 else 40)):
                if rng.flip(0.3):
                    l = self.gen_lane(rng, rng.pick([2, 3, 3, None]))
                    qs.append(dict(new=l, qs=[self.gen_query(rng, l) for _ in range(rng.randint(1, 2))]))
                else:
                    i = rng.randrange(len(pool))
                    qs.append(dict(i=i, qs=[self.gen_query(rng, pool[i])]))
            threads.append(qs)
        if rng.flip(0.4):
            # lanes that are almost the same
            news = [s for qs in threads for s in qs if "new" in s]
            for s in news:
                if rng.flip(0.5):
                    s["new"] = self.twin(rng, rng.pick(pool))
                    s["qs"] = [self.gen_query(rng, s["new"]) for _ in s["qs"]]
        return dict(pool=pool, threads=threads, fill=rng.pick([0, 0, 60, 120, 126, 127, 128, 129, 200]), switches=gen_switches(rng, n_t, 60) if n_t > 1 else [])

    # ------------------------------------------------------------------ runs
    @staticmethod
    def valid(l: dict) -> bool:
        return len(l["pts"]) >= 2 and all(math.hypot(b[0] - a[0], b[1] - a[1]) > 0.02 and abs(rel(a, b)[2]) < 2.5 for a, b in zip(l["pts"], l["pts"][1:])) and all(
            p[3] > 0 for p in l["pts"])

    def run(self, spec, res: Result):
        if not all(self.valid(l) for l in spec["pool"] + [s["new"] for t in spec["threads"] for s in t if "new" in s]):
            return
        forget()
        fill = [make(dict(pts=[[0, 0, 0, 1], [1 + i, 0, 0, 1]])) for i in range(spec["fill"])]
        for i, l in enumerate(fill):
            d = l.get_lane_lengths()
            if not near(d, [1 + i], 1e-9):
                res.violation("fill", f"lane {i} of {spec['fill']} in a row: lengths {d} rather than {[1 + i]}")
                return
            l.lane_profile(2)
        pool = [make(l) for l in spec["pool"]]
        got = [[] for _ in spec["threads"]]

        def work(w):
            for s in spec["threads"][w]:
                lane = make(s["new"]) if "new" in s else pool[s["i"]] if s["i"] < len(pool) else None
                if lane is None:
                    continue
                for q in s["qs"]:
                    got[w].append((s, q, ask(lane, q)))
                del lane

        if len(spec["threads"]) == 1:
            work(0)
            res.schedule = h64(spec["fill"], len(got[0]))
            switches = 0
        elif spec["threads"]:
            sch = Scheduler(spec["switches"])
            done = sch.run([lambda w=w: work(w) for w in range(len(spec["threads"]))])
            switches = sch.n_switches
            res.faults["preemption"] += switches
            res.stats["yield-points"] += sch.n_yields
            res.schedule = h64(tuple(sch.order), sch.n_yields)
            res.event("schedule", sch.order, sch.n_yields)
            for w in done:
                if w.error is not None:
                    res.violation("failed", f"thread {w.tid}: query {len(got[w.tid])} failed with {type(w.error).__name__}: {w.error} "
                                  f"({'deadlock' if sch.deadlock else 'other threads were querying lanes'})")
                    return
        else:
            return
        if spec["fill"]:
            res.faults["cache-pressure"] += 1
        for w, answers in enumerate(got):
            for n, (s, q, a) in enumerate(answers):
                l = s.get("new") or spec["pool"][s["i"]]
                where = f"{'thread %d, ' % w if len(got) > 1 else ''}query {n} ({q['k']} at {q.get('where')}) of a {'short lived' if 'new' in s else 'shared'} lane of {len(l['pts'])} points"
                res.event(w, n, q["k"], h64(a))
                res.state(q["k"], q["where"], "new" in s, min(switches, 10), spec["fill"] // 64)
                if not self.judge(l, q, a, where, res):
                    return
        res.nontrivial = switches >= 3 or spec["fill"] + len(pool) > 128
        for l in spec["pool"][:2]:
            if not self.monotone(l, res):
                return
        # once the threads are gone: every kept lane still answers
        for i, lane in enumerate(fill[:: max(1, len(fill) // 5)] if fill else []):
            k = i * max(1, len(fill) // 5)
            if not near(lane.get_lane_lengths(), [1 + k], 1e-9) or not near(lane.get_lane_length(), 1 + k, 1e-9):
                res.violation("later", f"lane {k} of {spec['fill']}: lengths {lane.get_lane_lengths()} after the other queries, {[1 + k]} before")
                return
        for l, lane in zip(spec["pool"], pool):
            if not near(lane.get_lane_lengths(), RefLane(l).len, 1e-6):
                res.violation("later", f"a shared lane has lengths {lane.get_lane_lengths()} after the other queries, {RefLane(l).len} before")
                return

    def judge(self, l, q, a, where, res: Result) -> bool:
        ref = RefLane(l)
        k = q["k"]
        tol = 1e-6
        if k == "lengths":
            want = ref.len
        elif k == "length":
            want = ref.S
        elif k == "along":
            want = ref.along(q["b"])
        elif k == "beta":
            want, tol = ref.beta(q["a"]), 1e-6 / min(ref.len) + 1e-7
        elif k == "trip":
            want, tol = q["b"], 1e-6 / min(ref.len) + 1e-7
        elif k == "trip2":
            want = q["a"]
        elif k == "center":
            c = ref.center(q["b"])
            want = (c[0], c[1], 0.0)
            a = (a[0], a[1], math.sin((a[2] - c[2]) / 2))
        elif k == "fast":
            c = ref.fast(q["b"])
            want = (c[0], c[1], 0.0)
            a = (a[0], a[1], math.sin((a[2] - c[2]) / 2))
        elif k == "given":
            b = ref.beta(q["a"])
            c, r = ref.center(b), ref.radius(b)
            al, lat, h = q["a"], q["lat"], q["h"]
            if min(abs(al), abs(al - ref.S), abs(abs(lat) - r), abs(abs(h) - math.pi / 2)) < 1e-6:
                return True
            lane_in, way_in = abs(lat) < r, 0 < al < ref.S
            want = [lane_in and way_in, way_in, al < 0, al > ref.S, lane_in, lat > r, lat < -r, abs(h) < math.pi / 2,
                    al, lat, h, r, -r, abs(r - lat), abs(-r - lat), abs(lat), c[0], c[1], 0.0]
            tol = 1e-6 / min(ref.len) + 1e-6
            a = a[:-1] + [math.sin((a[-1] - c[2]) / 2)]
        elif k == "radius":
            want = ref.radius(q["b"])
        elif k == "profile":
            want = []
            bs = np.linspace(0, ref.n - 1, num=(ref.n - 1) * q["n"])
            for side in (-1, 1):
                part = []
                for b in bs:
                    c, r = ref.center(b), ref.radius(b)
                    part.append((c[0] - side * r * math.sin(c[2]), c[1] + side * r * math.cos(c[2])))
                want += part if side < 0 else part[::-1]
        else:
            forget()
            alone = ask(make(l), q)
            if h64(alone) != h64(a):
                res.violation("other", f"{where}: {a}, the same query alone gives {alone}")
                return False
            if k == "inside" and ref.straight and 0.05 < q["b"] < ref.n - 1.05 and abs(abs(q["lat"]) - ref.radius(q["b"])) > 0.05:
                if a != (abs(q["lat"]) < ref.radius(q["b"])):
                    res.violation("inside", f"{where}: {a} for a point {q['lat']:.3f} m beside the centre where the lane is {ref.radius(q['b']):.3f} m wide on each side")
                    return False
            if k == "pose" and ref.straight:
                # the search is only approximate
                slack = 5e-3 * (ref.n + 2) * max(ref.len + [1.0]) + 0.02
                if 0 <= q["b"] <= ref.n - 1 and (abs(a[1] - q["lat"]) > 1e-3 or abs(a[0] - q["a"]) > slack):
                    res.violation("pose", f"{where}: along {a[0]:.4f}, lateral {a[1]:.4f}, the point is at {q['a']:.4f}, {q['lat']:.4f}")
                    return False
            return True
        if not near(a, want, tol):
            res.violation(k, f"{where}: {str(a)[:150]} rather than {str(want)[:150]}")
            return False
        return True

    def monotone(self, l, res: Result) -> bool:
        """The two parametrisations grow together"""
        lane, ref = make(l), RefLane(l)
        bs = sorted({b for i in range(-2, ref.n + 2) for b in (i - 1e-6, float(i), i + 1e-6, i + 0.3, i + 0.77)})
        al = [float(lane.along_lane_from_beta(b)) for b in bs]
        for b0, b1, a0, a1 in zip(bs, bs[1:], al, al[1:]):
            if not a1 > a0 - 1e-12 or (b1 - b0 > 1e-3 and not a1 > a0):
                res.violation("monotone", f"the distance along the lane goes from {a0} to {a1} as the index goes from {b0} to {b1}")
                return False
        back = [float(lane.beta_from_along_lane(a)) for a in al]
        for b, r in zip(bs, back):
            if abs(b - r) > 1e-7 / min(ref.len) + 1e-7:
                res.violation("inverse", f"index {b} goes to distance {lane.along_lane_from_beta(b)} and back to {r}")
                return False
        return True


CHECK = Check()
