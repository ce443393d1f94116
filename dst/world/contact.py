"""Reference model of the contacts of an episode: who touches whom after every step, and what may follow from it."""
import math
from collections import defaultdict

import numpy as np
from shapely.geometry import LinearRing, LineString, MultiPoint, Point, Polygon

from dst.core.rng import Rng
from dst.world.bodies import STATE_FIELDS, make_model, vary
from dst.world.gen import gen_x0, keep_still, turned
from dst.world.loop import Loop
from dst.world.world import World, canon, make_obstacle_shape

FREE = ("toy", "dynobs", "spacecraft", "spaceship", "rocket", "ped", "cardyn", "truckdyn", "bikedyn")
GLOBAL_FRAME = ("toy", "rocket")
KINEMATIC = ("car", "truck", "bike", "moto")
EPS = 1e-6


# ------------------------------------------------------------------------------------ generator
def gen_contact(rng: Rng, steps: int = 25, kinds=None, exact_p: float = 0.15) -> dict:
    """Episodes full of collisions: several bodies in a small area, walls, targets, degenerate contacts"""
    if rng.flip(exact_p):
        return gen_exact(rng)
    dt = rng.pick(["0.1", "0.05", "0.02", "0.2"])
    n = rng.randint(2, 5)
    mode = rng.pick(["toy", "mixed", "real"], [5, 3, 2]) if kinds is None else "kinds"
    weird = rng.flip(0.4)
    area = rng.r(1.0, 4.0)
    violent = rng.flip(0.25)
    if violent:
        dt = "0.02"
    players = []
    for i in range(n):
        if mode == "kinds":
            kind = rng.pick(kinds)
        elif mode == "toy" or (mode == "mixed" and rng.flip(0.5)):
            kind = rng.pick(["toy", "toy", "toy", "dynobs"])
        else:
            kind = rng.pick(["car", "truck", "bike", "moto", "cardyn", "truckdyn", "bikedyn", "ped", "spacecraft", "spaceship",
                             "rocket", "diff", "dynobs"])
        a = area * (2.5 if kind in ("truck", "truckdyn", "car", "cardyn") else 1.0)
        x, y = rng.r(-a, a), rng.r(-a, a)
        psi = math.atan2(-y, -x) + rng.r(-0.8, 0.8) if rng.flip(0.8) else rng.r(-3.1, 3.1)
        speed = rng.pick([0.0, rng.r(0.2, 2), rng.r(1, 6)])
        if violent:
            speed = rng.r(3, 25) * (1 if kind in GLOBAL_FRAME or rng.flip(0.8) else -0.2)
        model = dict(kind=kind, x0=gen_x0(rng, kind, x, y, turned(rng, psi), speed))
        if kind != "toy" and rng.flip(0.25):
            model.update(vary(rng, kind))
        if violent and "dpsi" in STATE_FIELDS[kind]:
            model["x0"][STATE_FIELDS[kind].index("dpsi")] = rng.r(-4, 4)
        if kind in ("toy", "dynobs"):
            options = [dict(k="rect", l=rng.r(0.5, 3), w=rng.r(0.5, 2)), dict(k="tri", r=rng.r(0.5, 2)), dict(k="hex", r=rng.r(0.5, 2))]
            if weird:
                options += [dict(k="U", s=rng.r(0.5, 1.5)), dict(k="rect", l=rng.r(0.05, 0.3), w=rng.r(0.05, 0.3)),
                            dict(k="rect", l=rng.r(4, 9), w=rng.r(0.1, 0.5)), dict(k="hex", r=rng.r(2, 4))]
            model["shape"] = rng.pick(options)
            model.update(m=rng.pick([rng.r(0.5, 5), rng.r(20, 800)]), Iz=rng.r(0.3, 5), e=rng.pick([0.0, 1.0, rng.r(0, 1)]))
            if kind == "toy" and rng.flip(0.2):
                model["inplace"] = True
        agent = dict(pol=rng.pick(["const", "rand", "rand"]), amp=rng.pick([0.0, rng.r(0, 1)]), seed=rng.randint(0, 10**6))
        if rng.flip(0.12):
            keep_still(rng, model, agent)
        players.append(dict(name=["P1", "Ego", "b", "player_10", "player_2"][i], model=model, agent=agent))
        if rng.flip(0.12):
            players[-1]["goal"] = dict(k="late", t0=rng.r(0, steps * float(dt)))
    obstacles = []
    for _ in range(rng.randint(0, 4) if rng.flip(0.6) else 0):
        obstacles.append(gen_target(rng, area * 1.5, weird))
    spec = dict(dt=dt, dtc=rng.pick([dt, str(float(dt) * 3)]), tmax=str(round(float(dt) * rng.randint(4, steps), 6)),
                players=players, obstacles=obstacles, after=rng.pick(["1000", "1000", "1000", "0.3", "0"]),
                seed=rng.randint(0, 1000))
    return spec


def gen_target(rng: Rng, area: float, weird: bool, k: str = None) -> dict:
    k = k or rng.pick(["box", "wall", "ring", "disc", "poly", "pwall"] + (["multi", "U", "tiny", "huge"] if weird else []))
    x, y = rng.r(-area, area), rng.r(-area, area)
    if k == "box":
        o = dict(k=k, b=[x, y, round(x + rng.r(0.5, 4), 3), round(y + rng.r(0.5, 4), 3)])
    elif k == "tiny":
        o = dict(k="box", b=[x, y, round(x + 0.05, 3), round(y + 0.08, 3)])
    elif k == "huge":
        o = dict(k="box", b=[x - 4, y - 4, x + 6, y + 5])
    elif k == "wall":
        o = dict(k=k, pts=[[x, y], [round(x + rng.r(-8, 8), 3), round(y + rng.r(1, 8), 3)]])
    elif k == "pwall":
        p, pts = [x, y], [[x, y]]
        th = rng.r(-3, 3)
        for _ in range(rng.randint(2, 4)):
            p = [round(p[0] + rng.r(1, 4) * math.cos(th), 3), round(p[1] + rng.r(1, 4) * math.sin(th), 3)]
            th += rng.r(-0.6, 0.6)
            pts.append(p)
        o = dict(k="wall", pts=pts)
    elif k == "ring":
        s = round(area * rng.r(0.8, 1.8), 3)
        o = dict(k=k, pts=[[-s, -s], [s, -s], [s, s], [-s, s]])
    elif k == "disc":
        o = dict(k=k, c=[x, y], r=rng.r(0.2, 2))
    elif k == "multi":
        o = dict(k=k, bs=[[x, y, round(x + 1, 3), round(y + 1, 3)], [round(x + 1.4, 3), y, round(x + 2.4, 3), round(y + 1.1, 3)]])
    elif k == "U":
        s = rng.r(0.5, 1.5)
        o = dict(k="poly", pts=[[round(x + s * a, 4), round(y + s * b, 4)] for a, b in
                                ((-1.5, -1.5), (1.5, -1.5), (1.5, 1.5), (0.5, 1.5), (0.5, -0.5), (-0.5, -0.5), (-0.5, 1.5), (-1.5, 1.5))])
    else:
        o = dict(k="poly", pts=[[x, y], [round(x + 3, 3), y], [round(x + 1.5, 3), round(y + 2, 3)]])
    if rng.flip(0.5):
        o["e"] = rng.pick([0.0, 1.0, rng.r(0, 1)])
    return o


def gen_exact(rng: Rng) -> dict:
    """Axis aligned boxes on a grid: exact touches, shared edges, containments and concentric bodies"""
    dt = rng.pick(["0.25", "0.5", "1"])
    players = []
    for i in range(rng.randint(2, 4)):
        w, h = rng.pick([1, 2, 2, 4, 6]), rng.pick([1, 2, 2, 4, 6])
        x, y = rng.randint(-4, 4) + (0.5 if w % 2 else 0), rng.randint(-2, 2) + (0.5 if h % 2 else 0)
        v = [rng.pick([0, 0, 1, -1, 2, -2]), rng.pick([0, 0, 0, 1, -1])]
        m = dict(kind="toy", x0=[x, y, 0, v[0], v[1], 0], shape=dict(k="rect", l=w, w=h), m=rng.pick([1.0, 2.0]), Iz=rng.r(0.5, 3),
                 e=rng.pick([0, 0.5, 1]))
        players.append(dict(name=["P1", "Ego", "b", "player_2"][i], model=m, agent=dict(pol="const", amp=0.0, seed=0)))
    obstacles = []
    for _ in range(rng.randint(0, 2)):
        x, y, s = rng.randint(-5, 5), rng.randint(-4, 4), rng.randint(1, 4)
        obstacles.append(rng.pick([dict(k="box", b=[x, y, x + s, y + rng.randint(1, 4)]), dict(k="wall", pts=[[x, y - 4], [x, y + 4]]),
                                   dict(k="wall", pts=[[x, y], [x, y + 2], [x, y + 5]]),
                                   dict(k="ring", pts=[[-6, -6], [6, -6], [6, 6], [-6, 6]])]))
    return dict(dt=dt, dtc=dt, tmax=str(float(dt) * rng.randint(3, 12)), players=players, obstacles=obstacles, after="1000", seed=0,
                exact=True)


# ------------------------------------------------------------------------------------ geometry
def rot(a: float):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s], [s, c]])


def cross2(a, b) -> float:
    return float(a[0] * b[1] - a[1] * b[0])


def true_velocity(kind: str, s, probe):
    """Velocity of the centre of gravity in the global frame and turning rate, from the state"""
    if kind in GLOBAL_FRAME:
        return np.array([s.vx, s.vy]), float(s.dpsi)
    if kind == "diff":
        return np.array([0.0, 0.0]), 0.0
    if kind in KINEMATIC:
        om = s.vx * math.tan(s.delta) / (probe.vg.lf + probe.vg.lr)
        return rot(s.psi) @ np.array([s.vx, om * probe.vg.lr]), om
    return rot(s.psi) @ np.array([s.vx, s.vy]), float(s.dpsi)


class Contact:
    """cls: apart | touch | inside | simple | contains | multi | crossed | unclear"""

    def __init__(self, A: Polygon, B):
        self.cls, self.n, self.P = "unclear", None, None
        self._classify(A, B)

    def _orient(self, A, n):
        r = np.array(self.P) - np.array(A.centroid.coords[0])
        d = float(np.dot(r, n))
        if abs(d) < 1e-6 * max(1.0, float(np.linalg.norm(r))):
            return None
        return n if d > 0 else -n

    def _classify(self, A, B):
        if not A.intersects(B):
            self.cls = "apart" if A.distance(B) > 1e-9 else "unclear"
            return
        if A.touches(B):
            self.cls = "touch"
            return
        if A.contains(B):
            c = np.array(B.centroid.coords[0])
            r = c - np.array(A.centroid.coords[0])
            L = float(np.linalg.norm(r))
            if L < 1e-12:
                self.cls = "concentric"
            elif L > 1e-6:
                self.cls, self.n, self.P = "contains", r / L, c
            return
        if B.contains(A) and A.distance(B.boundary) > 1e-6:
            self.cls = "inside"
            return
        inter = A.intersection(B)
        if inter.geom_type not in ("Polygon", "LineString"):
            self.cls = "multi"
            return
        if inter.geom_type == "Polygon" and inter.area < 1e-9:
            return
        if inter.geom_type == "LineString" and inter.length < 1e-6:
            return
        bb = B.boundary if B.geom_type in ("Polygon", "MultiPolygon") else B
        cr = A.boundary.intersection(bb)
        if cr.geom_type == "Point":
            pts = [cr]
        elif cr.geom_type == "MultiPoint":
            pts = list(cr.geoms)
        else:
            self.cls = "unclear"  # aligned edges
            return
        va = MultiPoint(list(A.exterior.coords))
        vb = MultiPoint([c for g in (getattr(bb, "geoms", None) or [bb]) for c in g.coords])
        if va.distance(bb) < 1e-6 or vb.distance(A.boundary) < 1e-6:
            return
        if len(pts) != 2:
            self.cls = "crossed"
            return
        a, b = np.array(pts[0].coords[0]), np.array(pts[1].coords[0])
        d = b - a
        L = float(np.linalg.norm(d))
        if L < 1e-6:
            return
        self.P = (a + b) / 2
        n = self._orient(A, np.array([-d[1], d[0]]) / L)
        self.cls = "simple"
        self.n = n  # None: orientation too close to call


MUST_REPORT = ("touch", "inside", "concentric", "crossed")


class Steps:
    """Walks the steps at which collisions are looked for"""

    def __init__(self, w: World):
        self.w = w
        self.lp = Loop(w)
        self.kinds = w.kinds
        self.specs = {p["name"]: p["model"] for p in w.spec["players"]}
        self.probes = {n: make_model({k: v for k, v in m.items() if k != "inplace"}) for n, m in self.specs.items()}
        self.obstacles = [make_obstacle_shape(o) for o in w.spec.get("obstacles", [])] if not w.spec.get("map") else [
            o.shape for o in w.ctx.dg_scenario.static_obstacles]
        self.obs_e = [o.get("e", 0.1) for o in w.spec.get("obstacles", [])]
        self.reports = defaultdict(list)
        for r in w.ctx.collision_reports:
            self.reports[r.at_time].append(r)

    def footprint(self, p: str, state):
        from copy import deepcopy

        self.probes[p].set_state(deepcopy(state))
        return self.probes[p].get_footprint()

    def mesh(self, p: str, state):
        from copy import deepcopy

        self.probes[p].set_state(deepcopy(state))
        return self.probes[p].get_mesh()

    def vel(self, p: str, state):
        return true_velocity(self.kinds[p], state, self.probes[p])

    def geom(self, p: str):
        """mass, inertia and restitution"""
        m = self.specs[p]
        if m["kind"] == "toy":
            return m.get("m", 2.0), m.get("Iz", 1.0), m.get("e", 0.5)
        if m["kind"] == "dynobs":
            return m.get("m", 5.0), m.get("Iz", 10.0), m.get("e", 0.5)
        g = self.probes[p].model_geometry
        return g.m, g.Iz, g.e

    def __iter__(self):
        lp = self.lp
        for k in range(lp.n_steps):
            t1 = lp.t(k + 1)
            if lp.early is not None and k + 1 > lp.early:
                return
            ended = lp.ended_at == k + 1
            act = [p for p in lp.active[k] if not (p in lp.removed and lp.removed[p] <= k + 1)]
            yield Step(self, k, t1, ended, act)


class Step:
    def __init__(self, ss: Steps, k: int, t1, ended: bool, act: list):
        self.ss, self.k, self.t1, self.ended, self.act = ss, k, t1, ended, act
        lp = ss.lp
        t = lp.t(k)
        self.reports = ss.reports.get(t1, [])
        self.s0 = {p: lp.upd[t][p][-1].d["raw_after"] for p in act if lp.upd[t][p]}
        self.chain = {p: [s] for p, s in self.s0.items()}
        evs = sorted((e for p in lp.setv[t1] for e in lp.setv[t1][p]), key=lambda e: e.d["i"])
        self.snap = [dict(self.s0)]
        cur = dict(self.s0)
        for e in evs:
            if e.p in self.chain:
                self.chain[e.p].append(e.d["raw_after"])
                cur[e.p] = e.d["raw_after"]
                self.snap.append(dict(cur))
        self.setv = evs

    def pairs(self):
        for i, a in enumerate(self.act):
            for b in self.act[i + 1:]:
                yield a, b

    def approach(self, c: Contact, a: str, b):
        """Approach speeds at the contact at every moment of this step (b None: immovable)"""
        out = []
        for s in self.snap:
            va, oa = self.ss.vel(a, s[a])
            ra = np.array(c.P) - np.array([s[a].x, s[a].y])
            v = va + oa * np.array([-ra[1], ra[0]])
            if b is not None:
                vb, ob = self.ss.vel(b, s[b])
                rb = np.array(c.P) - np.array([s[b].x, s[b].y])
                v = v - (vb + ob * np.array([-rb[1], rb[0]]))
            out.append(float(np.dot(v, c.n)))
        return out
