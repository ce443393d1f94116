import math

import numpy as np
from shapely import affinity
from shapely.geometry import Point, Polygon
from shapely.ops import unary_union

from dg_commons.sim.collision_structures import IMPACT_BACK, IMPACT_EVERYWHERE, IMPACT_FRONT, IMPACT_LEFT, IMPACT_RIGHT
from dst.core.result import Result, h64
from dst.core.rng import Rng
from dst.world.bodies import REAL_KINDS, polygon_points, vary
from dst.world.contact import gen_contact
from dst.world.world import World

WHEELS = ("car", "truck", "bike", "moto", "cardyn", "truckdyn", "bikedyn")


def off(a, b) -> float:
    """How far two areas differ, relative to their size"""
    return a.symmetric_difference(b).area / max(a.area, b.area, 1e-9)


def moved(shape: Polygon, s) -> Polygon:
    c, n = math.cos(s.psi), math.sin(s.psi)
    return affinity.affine_transform(shape, [c, -n, n, c, s.x, s.y])


def body_shape(m: dict, model):
    """The documented shape of a body in its own frame and what is wrong with the outline of its geometry (if anything)"""
    kind, g = m["kind"], model.model_geometry
    if kind == "dynobs":
        return Polygon(polygon_points(m.get("shape") or {"k": "rect", "l": 2.0, "w": 1.0})), None
    own = Polygon(g.outline)
    x0, y0, x1, y1 = own.bounds
    if not own.is_valid or own.area <= 0:
        return own, "it is no valid area"
    if abs(y0 + y1) > 1e-9:
        return own, f"it is not as wide to the left ({y1}) as to the right ({-y0})"
    if kind in WHEELS:
        hw, r = g.wheel_shape
        if off(own, Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)])) > 1e-9:
            return own, "it is no rectangle"
        half = g.w_half + hw
        if not half - 1e-9 <= y1 <= half + hw + 1e-9:
            return own, f"it is {y1 - y0} wide, with wheels {2 * g.w_half} apart and {2 * hw} wide"
        if not (g.lf + r - 1e-9 <= x1 <= g.lf + max(4 * r, g.lf)) or not (g.lr + r - 1e-9 <= -x0 <= g.lr + max(4 * r, g.lr)):
            return own, f"it goes from {x0} to {x1}, with the axles at {-g.lr} and {g.lf}"
        if abs(g.length - (x1 - x0)) > 1e-9:
            return own, f"it is {x1 - x0} long instead of {g.length}"
        return own, None
    if kind == "ped":
        if abs(x0 + x1) > 1e-9 or not 0.3 < x1 - x0 < y1 - y0 < 2.5 or not own.contains(Point(0, 0)):
            return own, f"it extends {own.bounds}, not wider than deep around the pedestrian"
        return own, None
    if kind == "diff":
        want = Point(0, 0).buffer(g.radius, 64)
    elif kind == "spacecraft":
        front = affinity.scale(Point(0, 0).buffer(1.0, 64), g.lf, g.w_half)
        want = unary_union([front, Polygon([(-g.lr, -g.w_half), (0, -g.w_half), (0, g.w_half), (-g.lr, g.w_half)])])
    else:
        nose = g.l_f if kind == "spaceship" else g.l_f + g.l_m
        want = Polygon([(-g.l_r, -g.w_half), (nose, -g.w_half), (nose + g.l_c, 0), (nose, g.w_half), (-g.l_r, g.w_half)])
    tol = 1e-9 if kind in ("spaceship", "rocket") else 0.02
    if off(own, want) > tol:
        return own, f"it differs from the documented one by {100 * off(own, want):.2f}% of its area"
    return own, None


class Check:
    ID = "C32"
    RUNS_QUICK = 500
    RUNS_THOROUGH = 30000
    RULE = (
        "A case is one episode of two to five bodies of all kinds and of other than default sizes, colliding with each other and with "
        "obstacles, generated from (seed, index). Every area observed by the agents, and the areas, parts and poses of the body "
        "objects put back into the states they went through, in mixed order, are compared with the shape moved to the state. "
        "Non-trivial if some body moved and turned."
    )
    REAL = ["dg_commons.sim.simulator", "all bodies and geometries of dg_commons.sim.models", "sim_perception"]
    STUB = ["agents (scripted)", "wall clock (virtual)"]
    STATE_MEASURE = "(kind, other sizes, octant of the heading, what was looked at, collided)"

    def gen(self, rng, tier):
        spec = gen_contact(rng, steps=12 if tier == "quick" else 30, kinds=REAL_KINDS, exact_p=0.0)
        for p in spec["players"]:
            m = p["model"]
            m.pop("geo", None), m.pop("par", None)
            if rng.flip(0.7):
                m.update(vary(rng, m["kind"]))
            if rng.flip(0.15):
                m["x0"][0] += rng.pick([1e4, -1e4])
            p["sensor"] = dict(k="id")
        spec["probe"] = rng.randint(0, 10**6)
        return spec

    def run(self, spec, res: Result):
        w = World(spec).run()
        w.trace_into(res)
        specs = {p["name"]: p["model"] for p in spec["players"]}
        shapes = {}
        for p, m in specs.items():
            shapes[p], bad = body_shape(m, w.all_models[p])
            if bad:
                res.violation("shape", f"the outline of {p} ({m['kind']}, {m.get('geo')}): {bad}")
                return
        for e in w.rec.of("sense"):
            for q, o in e.d["raw_full"].players.items():
                if not self.same(o.occupancy, moved(shapes[str(q)], o.state)):
                    res.violation("observed", f"at {e.t} {e.p} observes {q} ({specs[str(q)]['kind']}) at {o.state} occupying {o.occupancy.wkt[:200]}")
                    return
                res.stats["observed-areas"] += 1
        rng = Rng(f"{spec['probe']}:areas")
        states = [(p, s) for p in specs for s in self.states(w, p)]
        todo = rng.sample(states, min(len(states), 40))
        for p, s in todo:
            model, m = w.all_models[p], specs[p]
            model.set_state(s)
            want = moved(shapes[p], s)
            for what in rng.sample(["area", "parts", "pose", "area"], 4):
                bad = getattr(self, what)(model, m, s, want, shapes[p])
                if bad:
                    res.violation(what, f"{p} ({m['kind']}, {m.get('geo')}) at x={s.x:.6g}, y={s.y:.6g}, psi={s.psi:.6g}: {bad}")
                    return
                res.state(m["kind"], bool(m.get("geo")), int((s.psi % (2 * math.pi)) * 4 / math.pi), what, model.has_collided)
            res.stats["looks:" + m["kind"]] += 1
            res.faults["put-back"] += 1
        res.nontrivial = any(abs(a.psi - b.psi) > 1e-3 and math.hypot(a.x - b.x, a.y - b.y) > 1e-3
                             for p in specs for a, b in [(w.initial_raw[p], list(self.states(w, p))[-1])])
        res.faults["collision"] += len(w.ctx.collision_reports)
        res.schedule = h64([(p, round(s.x, 6), round(s.psi, 6)) for p, s in todo])

    @staticmethod
    def states(w, p):
        yield w.initial_raw[p]
        for e in w.rec.events:
            if e.p == p and e.kind in ("upd", "setv"):
                yield e.d["raw_after"]

    @staticmethod
    def same(a, b) -> bool:
        if abs(a.area - b.area) > 1e-6 * (1 + b.area):
            return False
        return a.hausdorff_distance(b) < 1e-6 * (1 + max(map(abs, b.bounds)) * 1e-3)

    def area(self, model, m, s, want, shape):
        got = model.get_footprint()
        return None if self.same(got, want) else f"it occupies {got.wkt[:160]} instead of {want.wkt[:160]}"

    def pose(self, model, m, s, want, shape):
        c, n = math.cos(s.psi), math.sin(s.psi)
        q = np.array([[c, -n, s.x], [n, c, s.y], [0, 0, 1]])
        got = np.asarray(model.get_pose(), dtype=float)
        return None if got.shape == (3, 3) and np.all(np.abs(got - q) < 1e-9 * (1 + np.abs(q))) else f"its pose is {got.tolist()}"

    def parts(self, model, m, s, want, shape):
        mesh = dict(model.get_mesh())
        if not all(q.is_valid for q in mesh.values()):
            return "a part of it is no valid area"
        if off(unary_union(list(mesh.values())), want) > 1e-5:
            return f"its parts {sorted(mesh)} do not cover it"
        if len(mesh) == 1:
            return None if set(mesh) == {IMPACT_EVERYWHERE} else f"its only part is called {sorted(mesh)}"
        if sum(q.area for q in mesh.values()) > want.area * (1 + 1e-5):
            return f"its parts {sorted(mesh)} overlap"
        if set(mesh) != {IMPACT_BACK, IMPACT_FRONT, IMPACT_LEFT, IMPACT_RIGHT}:
            return f"its parts are {sorted(mesh)}"
        x0, y0, x1, y1 = shape.bounds
        mx, e = (x0 + x1) / 2, 0.01
        for name, at in ((IMPACT_FRONT, (x1 - e, 0)), (IMPACT_BACK, (x0 + e, 0)), (IMPACT_LEFT, (mx, y1 - e)), (IMPACT_RIGHT, (mx, y0 + e))):
            if not mesh[name].contains(moved(Point(*at), s)):
                return f"its part called {name} is not at that side"
        return None


CHECK = Check()
