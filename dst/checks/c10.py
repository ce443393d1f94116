import math

import numpy as np

from dst.core.result import Result, h64
from dst.world.bodies import STATE_FIELDS
from dst.world.contact import FREE, Contact, Steps, cross2, gen_contact, rot
from dst.world.world import World, canon

TOL = 1e-6


class Check:
    ID = "C10"
    RUNS_QUICK = 1000
    RUNS_THOROUGH = 60000
    RULE = (
        "A case is one episode generated from (seed, index) full of (simultaneous, chained) collisions of toy and real bodies with each "
        "other and with obstacles. For each resolved collision the impulse equations are verified on the true states right before and "
        "after it and compared with its report. Non-trivial if at least one collision was resolved."
    )
    REAL = ["dg_commons.sim.simulator", "collision", "collision_utils", "collision_structures", "velocity accessors of all bodies"]
    STUB = ["agents (scripted)", "toy rigid bodies", "wall clock (virtual)"]
    STATE_MEASURE = "(kinds of bodies, contact class, number of resolved collisions in the step, position of this one)"

    def gen(self, rng, tier):
        kinds = None
        if rng.flip(0.3):
            kinds = ["spacecraft", "spaceship", "rocket", "ped", "cardyn", "bikedyn", "truckdyn", "dynobs", "toy"]
        spec = gen_contact(rng, steps=20 if tier == "quick" else 45, kinds=kinds, exact_p=0.05)
        spec["after"] = "1000"
        return spec

    def run(self, spec, res: Result):
        w = World(spec).run()
        w.trace_into(res)
        ss = Steps(w)
        n = 0
        for st in ss:
            if st.ended:
                continue
            got = Responses(ss, st, res).check()
            n += got
            if res.violations:
                break
        if not res.violations:
            check_kept(ss, res)
        res.nontrivial = n > 0
        res.stats["resolved"] += n
        res.schedule = h64(tuple((str(r.at_time), tuple(map(str, r.players))) for r in w.ctx.collision_reports))


def close(a, b, scale=1.0, tol=TOL) -> bool:
    return bool(np.all(np.abs(np.asarray(a, dtype=float) - np.asarray(b, dtype=float)) <= tol * (1.0 + scale)))


class Responses:
    def __init__(self, ss: Steps, st, res: Result):
        self.ss, self.st, self.res = ss, st, res
        self.pos = {p: 0 for p in st.act}
        self.fp = {p: ss.footprint(p, st.s0[p]) for p in st.act}

    def fail(self, kind, msg):
        self.res.violation(kind, f"at {self.st.t1}: {msg}")
        return False

    def check(self) -> int:
        st, ss = self.st, self.ss
        n = 0
        for r in st.reports:
            if any(v is None for v in r.players.values()):
                continue
            n += 1
            if not self.one(r, n):
                return n
        for p in st.act:
            chain = st.chain[p]
            if self.pos[p] < len(chain) - 1:
                if ss.kinds[p] == "dynobs":
                    for i in range(self.pos[p], len(chain) - 1):
                        if not self.passive(p, chain[i], chain[i + 1]):
                            return n
                        n += 1
                else:
                    self.fail("unreported", f"the velocity of {p} was changed {len(chain) - 1} times but only {self.pos[p]} resolved collisions were reported")
                    return n
        return n

    def transition(self, p: str, rep):
        """The change of state this report of p is about"""
        st, ss = self.st, self.ss
        chain = st.chain[p]
        for i in range(self.pos[p], len(chain) - 1):
            v, om = ss.vel(p, chain[i])
            sc = float(np.linalg.norm(v)) + abs(om)
            if close(rep.velocity[0], v, sc) and close(rep.velocity[1], om, sc):
                if ss.kinds[p] == "dynobs":
                    v2, om2 = ss.vel(p, chain[i + 1])
                    sc += float(np.linalg.norm(v2)) + abs(om2)
                    if not (close(rep.velocity_after[0], v2, sc) and close(rep.velocity_after[1], om2, sc)):
                        continue
                    for j in range(self.pos[p], i):
                        if not self.passive(p, chain[j], chain[j + 1]):
                            return None
                self.pos[p] = i + 1
                return chain[i], chain[i + 1]
            if ss.kinds[p] != "dynobs":
                break
        seen = [(ss.vel(p, s)[0].tolist(), float(ss.vel(p, s)[1])) for s in chain]
        self.fail("report-velocities", f"{p} ({ss.kinds[p]}) is reported to go from {rep.velocity} to {rep.velocity_after}, in fact its velocities were {seen}")
        return None

    def one(self, r, n: int) -> bool:
        st, ss = self.st, self.ss
        names = [str(q) for q in r.players]
        parties = [p for p in names if p != "Env"]
        if not all(p in st.act for p in parties):
            return self.fail("report-inactive", f"report of {names}")
        a = parties[0]
        b = parties[1] if len(parties) == 2 else None
        reps = {str(q): v for q, v in r.players.items()}
        if r.at_time != st.t1:
            return self.fail("time", f"report of {names} dated {r.at_time}")
        nrm, P = np.array(r.impact_normal, dtype=float), np.array(r.impact_point.coords[0], dtype=float)
        if not (np.all(np.isfinite(nrm)) and abs(np.linalg.norm(nrm) - 1) < 1e-9):
            return self.fail("normal", f"the normal {nrm} of {names} has not length one")
        obstacle = None
        if b is None:
            fpe = reps["Env"].footprint
            cands = [i for i, o in enumerate(ss.obstacles) if self.fp[a].intersects(o)]
            if not cands:
                return self.fail("report-apart", f"{a} is reported to collide with Env but meets no obstacle")
            dist = {i: round(fpe.hausdorff_distance(ss.obstacles[i]), 6) for i in cands}
            best = [i for i in cands if dist[i] == min(dist.values())]
            obstacle = best[0] if len(best) == 1 else None
            if obstacle is None:
                self.res.stats["ambiguous-obstacle"] += 1
        other = self.fp[b] if b is not None else (ss.obstacles[obstacle] if obstacle is not None else None)
        # geometry of the contact (the first body may be either one: seen from it the normal points outwards)
        if other is not None:
            c = Contact(self.fp[a], other)
            self.res.stats["contact:" + c.cls] += 1
            self.res.state(ss.kinds[a], ss.kinds[b] if b else "env", c.cls, len(st.reports), n)
            if c.n is not None and c.cls in ("simple", "contains"):
                if not close(P, c.P, float(np.linalg.norm(c.P)), 1e-5) or not close(nrm, c.n, 1.0, 1e-4):
                    return self.fail("geometry", f"contact ({c.cls}) of {names} reported at {P} with normal {nrm}, expected {c.P} and {c.n}")
        after, before = {}, {}
        for p in parties:
            rep = reps[p]
            tr = self.transition(p, rep)
            if tr is None:
                return False
            s0, s1 = tr
            kind = ss.kinds[p]
            if (s0.x, s0.y, s0.psi) != (s1.x, s1.y, s1.psi):
                return self.fail("moved", f"the collision moved {p} from {s0} to {s1}")
            if kind in FREE:
                v1, om1 = ss.vel(p, s1)
                sc = float(np.linalg.norm(v1)) + abs(om1)
                if not (close(rep.velocity_after[0], v1, sc) and close(rep.velocity_after[1], om1, sc)):
                    return self.fail("report-after", f"{p} ({kind}) has velocities {v1}, {om1} after the collision, its report says {rep.velocity_after}")
                rest = [f for f in STATE_FIELDS[kind] if f in ("m", "delta", "phi")]
                if any(getattr(s0, f) != getattr(s1, f) for f in rest):
                    return self.fail("side-effect", f"the collision changed {rest} of {p}: {s0} -> {s1}")
            elif kind != "diff":
                vx = float((rot(-s0.psi) @ np.asarray(rep.velocity_after[0], dtype=float))[0])
                if not close(s1.vx, vx, abs(vx)):
                    return self.fail("report-after", f"{p} ({kind}) has longitudinal velocity {s1.vx} after the collision instead of {vx}")
            m, Iz, e = ss.geom(p)
            v0, o0 = np.asarray(rep.velocity[0], dtype=float), float(rep.velocity[1])
            v1, o1 = np.asarray(rep.velocity_after[0], dtype=float), float(rep.velocity_after[1])
            before[p], after[p] = (v0, o0), (v1, o1)
            dE = 0.5 * m * (float(v1 @ v1) - float(v0 @ v0))
            if not close(rep.energy_delta, dE, 0.5 * m * (float(v1 @ v1) + float(v0 @ v0))):
                return self.fail("energy-delta", f"energy change of {p} reported as {rep.energy_delta} instead of {dE}")
            if rep.footprint.hausdorff_distance(self.fp[p]) > 1e-9 * (1 + abs(s0.x) + abs(s0.y)):
                return self.fail("footprint", f"the footprint of {p} in the report is not its footprint at the impact")
            if other is not None and not self.locations(p, rep, s0, self.fp[b] if (b is not None and p == a) else
                                                        (self.fp[a] if b is not None else other)):
                return False
        return self.physics(names, a, b, obstacle, nrm, P, before, after)

    def locations(self, p, rep, s0, other) -> bool:
        parts = self.ss.mesh(p, s0)
        hit = {str(k): s.intersects(other) for k, s in parts.items()}
        unclear = {str(k) for k, s in parts.items() if s.touches(other) or (hit[str(k)] and s.intersection(other).length < 1e-6)
                   or (not hit[str(k)] and s.distance(other) < 1e-6)}
        got = [str(k) for k, _ in rep.locations]
        want = {k for k, h in hit.items() if h}
        if len(set(got)) != len(got) or (set(got) ^ want) - unclear:
            return self.fail("locations", f"impact locations of {p} are {sorted(got)} instead of {sorted(want)}")
        for k, s in rep.locations:
            q = next(v for n, v in parts.items() if str(n) == str(k))
            if s.hausdorff_distance(q) > 1e-6:
                return self.fail("locations", f"the area of impact location {k} of {p} is wrong")
        return True

    def physics(self, names, a, b, obstacle, n, P, before, after) -> bool:
        ss, st = self.ss, self.st
        info = {}
        impulses = []
        for p, sign in ((a, 1.0), (b, -1.0)):
            if p is None:
                continue
            m, Iz, e = ss.geom(p)
            r = P - np.array([st.s0[p].x, st.s0[p].y])
            (v0, o0), (v1, o1) = before[p], after[p]
            dp = m * (v1 - v0)
            j = float(dp @ n)
            sc = m * (float(np.linalg.norm(v0)) + float(np.linalg.norm(v1)))
            if not close(dp - j * n, [0, 0], sc):
                return self.fail("direction", f"the momentum of {p} changed by {dp}, not along the normal {n}")
            L = Iz * (o1 - o0)
            scl = Iz * (abs(o0) + abs(o1)) + sc * float(np.linalg.norm(r))
            if not close(L, cross2(r, dp), scl):
                return self.fail("torque", f"the spin of {p} changed by {L} instead of {cross2(r, dp)} (impulse {dp} at {r})")
            u0 = v0 + o0 * np.array([-r[1], r[0]])
            u1 = v1 + o1 * np.array([-r[1], r[0]])
            info[p] = (m, Iz, e, u0, u1)
            impulses.append((p, sign * j, sc))
        if b is not None and not close(impulses[0][1], impulses[1][1], impulses[0][2] + impulses[1][2]):
            return self.fail("momentum", f"the momenta of {a} and {b} changed by {impulses[0][1]} and {-impulses[1][1]} along the normal: not conserved")
        ua0, ua1 = info[a][3], info[a][4]
        ub0, ub1 = (info[b][3], info[b][4]) if b is not None else (np.zeros(2), np.zeros(2))
        vn0, vn1 = float((ua0 - ub0) @ n), float((ua1 - ub1) @ n)
        if vn0 < -1e-6:
            return self.fail("separating", f"{names} were separating at {-vn0} m/s and got an impulse")
        es = [info[a][2]]
        if b is not None:
            es.append(info[b][2])
        elif obstacle is not None and not ss.w.spec.get("map"):
            es.append(ss.obs_e[obstacle])
        sc = abs(vn0) + abs(vn1) + float(np.linalg.norm(ua0)) + float(np.linalg.norm(ub0))
        if b is not None or obstacle is not None:
            if not close(vn1, -min(es) * vn0, sc):
                return self.fail("restitution", f"{names} approach at {vn0} and leave at {vn1} m/s, expected {-min(es) * vn0} (restitutions {es})")
        E0 = E1 = 0.0
        for p in (a, b):
            if p is None:
                continue
            m, Iz = info[p][0], info[p][1]
            (v0, o0), (v1, o1) = before[p], after[p]
            E0 += 0.5 * m * float(v0 @ v0) + 0.5 * Iz * o0 * o0
            E1 += 0.5 * m * float(v1 @ v1) + 0.5 * Iz * o1 * o1
        if E1 > E0 + 1e-6 * (1 + E0):
            return self.fail("energy", f"the kinetic energy of {names} grew from {E0} to {E1}")
        return True

    def passive(self, p: str, s0, s1) -> bool:
        """A passive obstacle bouncing off a static one (not reported)"""
        ss = self.ss
        m, Iz, e = ss.geom(p)
        (v0, o0), (v1, o1) = ss.vel(p, s0), ss.vel(p, s1)
        why = []
        for i, o in enumerate(ss.obstacles):
            c = Contact(self.fp[p], o)
            if c.cls == "apart":
                continue
            if c.cls not in ("simple", "contains") or c.n is None:
                if c.cls in ("multi", "unclear", "simple"):
                    return True
                continue
            r = c.P - np.array([s0.x, s0.y])
            dp = m * (v1 - v0)
            u0 = v0 + o0 * np.array([-r[1], r[0]])
            u1 = v1 + o1 * np.array([-r[1], r[0]])
            sc = float(np.linalg.norm(v0) + np.linalg.norm(v1)) + (abs(o0) + abs(o1)) * float(np.linalg.norm(r))
            ok = (
                close(dp - float(dp @ c.n) * c.n, [0, 0], m * sc, 1e-5)
                and close(Iz * (o1 - o0), cross2(r, dp), m * sc * (1 + float(np.linalg.norm(r))), 1e-5)
                and close(float(u1 @ c.n), -min(e, ss.obs_e[i]) * float(u0 @ c.n), sc, 1e-5)
            )
            if ok:
                return True
            why.append(i)
        return self.fail("passive", f"passive {p} changed its velocities from {v0}, {o0} to {v1}, {o1}, which is no bounce off one of {why}")


def check_kept(ss: Steps, res: Result):
    """What a collision sets is what the next step starts from"""
    lp = ss.lp
    for st in ss:
        for p in st.act:
            nxt = lp.upd[st.t1][p]
            if nxt and canon(nxt[0].d["raw_before"]) != canon(st.chain[p][-1]):
                res.violation("lost", f"{p} was at {st.chain[p][-1]} after the collisions at {st.t1} but moves on from {nxt[0].d['raw_before']}")
                return


CHECK = Check()
