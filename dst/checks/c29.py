import math
from dataclasses import replace
from decimal import Decimal
from itertools import product

import numpy as np

from dg_commons import DgSampledSequence, PlayerName, SE2Transform
from dg_commons.dynamics import BicycleDynamics
from dg_commons.planning import (
    CommandsSampler, CommandsSamplerParam, MotionPrimitivesGenerator, MPGParam, Trajectory, TrajectoryGraph, commands_plan_from_trajectory,
)
from dg_commons.sim import SimParameters
from dg_commons.sim.agents.agent import NPAgent
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from dg_commons.sim.scenarios import DgScenario
from dg_commons.sim.simulator import SimContext, Simulator
from dst.core.result import Result, h64
from dst.world.world import canon, log_canon

KINDS = ["car", "truck", "bicycle"]
CONNECT = 1e-3


def ang(a: float) -> float:
    return math.remainder(a, 2 * math.pi)


def vec(s) -> list:
    return [float(s.x), float(s.y), float(s.psi), float(s.vx), float(s.delta)]


def tolerance(s0, speed: float, time: float) -> float:
    """How far two integrations of the same motion may be apart (metres): their error grows with the coordinates"""
    return 0.01 + 0.0005 * (abs(s0[0]) + abs(s0[1]) + speed * time)


class Stop(Exception):
    pass


class Check:
    ID = "C29"
    RUNS_QUICK = 1500
    RUNS_THOROUGH = 60000
    RULE = (
        "A case is one to three vehicles, each with a plan chained from generated motion primitives, from sampled commands or through a trajectory graph, with "
        "a start anywhere, generated from (seed, index); the plans are driven together in the simulator at another step. Non-trivial if a vehicle drove a plan of at least two parts."
    )
    REAL = ["dg_commons.planning", "dg_commons.dynamics", "sim.simulator", "sim.agents.NPAgent", "vehicle models", "seq.sequence"]
    STUB = ["wall clock (virtual)"]
    STATE_MEASURE = "(vehicle, kind of plan, number of parts, step and command period relative to the plan's, grid)"

    # ------------------------------------------------------------------ generation
    def gen(self, rng, tier):
        dt = rng.pick(["0.1", "0.2", "0.1", "0.3", "0.25", "0.4"])
        n = rng.randint(1, 4)
        vehicles = []
        for i in range(rng.randint(1, 3)):
            kind = rng.pick(KINDS)
            top = dict(car=36.0, truck=25.0, bicycle=13.8)[kind]
            v0 = rng.pick([0.0, rng.r(0, 5), rng.r(-0.2, top * 0.6)])
            horizon = float(dt) * n
            mode = rng.pick(["mpg", "mpg", "graph", "sampler"])
            # limits of velocities and steering around what can be reached
            w = rng.pick([1.0, 2.0, 4.0]) * horizon
            vlo = round(max(v0 - w, -0.25), 3)
            velocity = [vlo, round(min(vlo + 2 * w, top), 3), rng.randint(1, 3)]
            if velocity[0] >= velocity[1]:
                velocity[1] = round(velocity[0] + 0.5, 3)
            s = round(rng.pick([0.1, 0.25, 0.5, 0.9]) * min(1.0, horizon), 3)
            c = rng.r(-0.3, 0.3) if rng.flip(0.3) else 0.0
            steering = [round(c - s, 3), round(c + s, 3), rng.randint(1, 3)]
            if rng.flip(0.1):
                velocity, steering = ["limits", None, rng.randint(2, 3)], ["limits", None, 3]
            vehicles.append(dict(kind=kind, mode=mode, start=[round(200.0 * i + rng.r(-40, 40), 3), rng.r(-40, 40), rng.pick([0.0, math.pi, -math.pi, rng.r(-3.2, 3.2), rng.r(2.9, 3.3)])],
                                 velocity=velocity, steering=steering, x0=rng.flip(0.4), axles=[1.0, 1.0] if rng.flip(0.4) else [rng.r(0.6, 1.4), rng.r(0.6, 1.4)], v0=v0, d0=rng.r(-0.2, 0.2), parts=rng.randint(1, 4),
                                 picks=[rng.randint(0, 10**6) for _ in range(8)], width=rng.randint(1, 2), up=rng.randint(0, 3),
                                 acc=sorted([rng.r(-3, 2.9), rng.r(-3, 2.9)]), rate=sorted([rng.r(-0.5, 0.5), rng.r(-0.5, 0.5)]), defaults=rng.flip(0.25)))
        return dict(dt=dt, n=n, vehicles=vehicles, sub=rng.pick([1, 1, 2, 4]), csub=rng.pick([1, 1, 2]), again=rng.flip(0.3))

    # ------------------------------------------------------------------ pieces
    def vehicle(self, v: dict):
        f = f"default_{v['kind']}"
        vg, vp = getattr(VehicleGeometry, f)(), getattr(VehicleParameters, f)()
        return replace(vg, lf=vg.lf * v["axles"][0], lr=vg.lr * v["axles"][1]), vp

    def bad(self, res, kind: str, msg: str):
        res.violation(kind, msg)
        raise Stop

    def primitives(self, spec, v, x0, res, first=False):
        """The primitives, in a fixed order, compared with those that exist"""
        vg, vp = self.vehicle(v)
        dt, n = Decimal(spec["dt"]), spec["n"]
        if v["velocity"][0] == "limits":
            par = MPGParam.from_vehicle_parameters(dt=dt, n_steps=n, n_vel=v["velocity"][2], n_steer=v["steering"][2], vp=vp)
            vel, ste = (vp.vx_limits[0], vp.vx_limits[1], v["velocity"][2]), (-vp.delta_max, vp.delta_max, v["steering"][2])
        else:
            vel, ste = tuple(v["velocity"]), tuple(v["steering"])
            par = MPGParam(dt=dt, n_steps=n, velocity=vel, steering=ste)
        gen = MotionPrimitivesGenerator(param=par, vehicle_dynamics=BicycleDynamics(vg=vg, vp=vp).successor_ivp, vehicle_param=vp)
        keep = None if x0 is None else vec(x0)
        prims = list(gen.generate(x0) if x0 is not None else gen.generate())
        if spec["again"] and first:
            res.faults["generated-again"] += 1
            more = list(gen.generate(x0) if x0 is not None else gen.generate())
            if sorted(map(canon, map(lambda p: (p.timestamps, p.values), prims))) != sorted(map(canon, map(lambda p: (p.timestamps, p.values), more))):
                self.bad(res, "again", "generating the primitives again gives others")
        if keep is not None and vec(x0) != keep:
            self.bad(res, "start-changed", f"generating changed the given state from {keep} to {vec(x0)}")
        # which are there
        grid = [vel[0] + (vel[1] - vel[0]) * k / max(1, vel[2] - 1) for k in range(vel[2])], [
            ste[0] + (ste[1] - ste[0]) * k / max(1, ste[2] - 1) for k in range(ste[2])]
        T = float(dt) * n
        must, may = [], []
        for a, b in product(*(grid if x0 is None else ([x0.vx], [x0.delta]))):
            for c, d in product(*grid):
                acc, rate = (c - a) / T, (d - b) / T
                e = max(vp.acc_limits[0] - acc, acc - vp.acc_limits[1], abs(rate) - vp.ddelta_max)
                if e < -1e-9:
                    must.append((a, b, c, d))
                elif e <= 1e-9:
                    may.append((a, b, c, d))
        want = [t for t in must]
        open_ = list(may)
        for p in prims:
            s, e = p.values[0], p.values[-1]
            key = (s.vx, s.delta, e.vx, e.delta)
            hit = next((q for pool in (want, open_) for q in pool if max(abs(x - y) for x, y in zip(q, key)) < 1e-4), None)
            if hit is None:
                self.bad(res, "infeasible", f"{v['kind']}: a primitive from (v, steering) {key[:2]} to {key[2:]} in {T} s, which is not within {vp.acc_limits} and {vp.ddelta_max} or not on the grid {vel} {ste}, or is there twice")
            (want if hit in want else open_).remove(hit)
            if list(p.timestamps) != [k * dt for k in range(n + 1)]:
                self.bad(res, "timestamps", f"a primitive of {n} steps of {dt} at {p.timestamps}")
            at = [0.0, 0.0, 0.0] if x0 is None else vec(x0)[:3]
            if max(abs(x - y) for x, y in zip(vec(s)[:3], at)) > 1e-9:
                self.bad(res, "start", f"a primitive starts at {vec(s)}, not at {at}")
            for k, x in enumerate(p.values):  # uniformly from the first to the last
                f = k / n
                if abs(x.vx - (key[0] + f * (key[2] - key[0]))) > 1e-4 or abs(x.delta - (key[1] + f * (key[3] - key[1]))) > 1e-4:
                    self.bad(res, "uneven", f"step {k} of a primitive from {key[:2]} to {key[2:]} is at speed {x.vx}, steering {x.delta}")
        if want:
            self.bad(res, "missing", f"{v['kind']}: no primitive from (v, steering) {want[0][:2]} to {want[0][2:]} in {T} s, {len(must)} exist, {len(prims)} generated, x0 {x0}, grid {vel} {ste}")
        res.stats["primitives"] += len(prims)
        return sorted(prims, key=lambda p: [vec(x) for x in p.values]), par

    def transformed(self, p: Trajectory, pose, res) -> Trajectory:
        """p moved to the pose, compared with the rotation of its states"""
        q = p.apply_SE2transform(SE2Transform(pose[:2], pose[2]))
        if list(q.timestamps) != list(p.timestamps) or len(q.values) != len(p.values):
            self.bad(res, "transform", "the transform changes the timestamps")
        c, s = math.cos(pose[2]), math.sin(pose[2])
        last = None
        for a, b in zip(p.values, q.values):
            x, y = pose[0] + c * a.x - s * a.y, pose[1] + s * a.x + c * a.y
            if max(abs(b.x - x), abs(b.y - y), abs(ang(b.psi - a.psi - pose[2])), abs(b.vx - a.vx), abs(b.delta - a.delta)) > 1e-6:
                self.bad(res, "transform", f"{vec(a)} transformed by {pose} is {vec(b)}")
            if last is not None and abs((b.psi - last[1]) - (a.psi - last[0])) > 1e-6:
                self.bad(res, "turn", f"a motion turning by {a.psi - last[0]} turns by {b.psi - last[1]} once transformed by {pose}")
            last = (a.psi, b.psi)
        return q

    def upsampled(self, t: Trajectory, n: int, res):
        u = t.upsample(n)
        if len(u.timestamps) != (len(t.timestamps) - 1) * (n + 1) + 1:
            self.bad(res, "upsample", f"{len(t.timestamps)} samples become {len(u.timestamps)} with {n} between them")
        for k, (a, b) in enumerate(zip(t.values, t.values[1:])):
            ta, tb = t.timestamps[k], t.timestamps[k + 1]
            for i in range(n + 2):
                tu, x = u.timestamps[k * (n + 1) + i], u.values[k * (n + 1) + i]
                f = i / (n + 1)
                want = [p + f * (q - p) for p, q in zip(vec(a), vec(b))]
                if abs(float(tu) - (float(ta) + f * float(tb - ta))) > 1e-9 or max(abs(p - q) for p, q in zip(vec(x), want)) > 1e-6 or abs(ang(x.psi - a.psi)) > abs(b.psi - a.psi) + 1e-6:
                    self.bad(res, "upsample", f"sample {i} of {n} between {vec(a)} at {ta} and {vec(b)} at {tb} is {vec(x)} at {tu}")

    # ------------------------------------------------------------------ plans
    def plan(self, spec, v, res):
        """(start state, plan of commands, trajectory expected, parts)"""
        dt, n = Decimal(spec["dt"]), spec["n"]
        T = dt * n
        vg, vp = self.vehicle(v)
        pose = list(v["start"])
        first = VehicleState(x=pose[0], y=pose[1], psi=pose[2], vx=v["v0"], delta=v["d0"])
        if v["mode"] == "sampler":
            dyn = BicycleDynamics(vg=vg, vp=vp).successor_ivp
            if v["defaults"]:
                par = CommandsSamplerParam.from_vehicle_parameters(dt=dt, n_steps=1, n_acc=2, n_steer_rate=3, vp=vp)
                A, R = (vp.acc_limits[0], vp.acc_limits[1], 2), (-vp.ddelta_max, vp.ddelta_max, 3)
                res.faults["default-limits"] += 1
            else:
                A, R = (v["acc"][0], v["acc"][1], 2), (v["rate"][0], v["rate"][1], 2)
                par = CommandsSamplerParam(dt=dt, n_steps=1, acc=A, steer_rate=R)
            sampler = CommandsSampler(param=par, vehicle_dynamics=dyn, vehicle_param=vp)
            x = VehicleState(x=pose[0], y=pose[1], psi=pose[2], vx=v["v0"], delta=v["d0"])
            traj, cmds = Trajectory(timestamps=[], values=[]), []
            for k in range(v["parts"]):
                keep = vec(x)
                ts = sorted(sampler.generate(x), key=lambda p: [vec(s) for s in p.values])
                if vec(x) != keep:
                    self.bad(res, "start-changed", "sampling commands changed the given state")
                combos = sorted({(a, r) for a in np.linspace(*A) for r in np.linspace(*R)})
                got = sorted(((t.values[-1].vx - x.vx) / float(dt), (t.values[-1].delta - x.delta) / float(dt)) for t in ts)
                if len(ts) != len(combos) or any(not any(abs(a - g[0]) < 1e-3 and abs(r - g[1]) < 1e-3 for g in got) for a, r in combos):
                    self.bad(res, "samples", f"{v['kind']}: sampled (acceleration, steering rate) {got}, asked for {combos}")
                for t in ts:
                    if list(t.timestamps) != [0, dt] or vec(t.values[0]) != keep:
                        self.bad(res, "samples", f"sampled trajectory from {vec(t.values[0])} at {t.timestamps}, from {keep} for {dt}")
                ok = [t for t in ts if vp.vx_limits[0] <= t.values[-1].vx <= vp.vx_limits[1] and abs(t.values[-1].delta) <= vp.delta_max]
                if not ok:
                    break
                t = ok[v["picks"][k] % len(ok)]
                cmds.append(((t.values[-1].vx - x.vx) / float(dt), (t.values[-1].delta - x.delta) / float(dt)))
                moved = Trajectory(timestamps=[dt * k + s for s in t.timestamps], values=list(t.values))
                traj = traj.merge(moved)
                x = t.values[-1]
            if not cmds:
                return None
            return traj, commands_plan_from_trajectory(traj), cmds, dt
        prims, par = self.primitives(spec, v, first if v["x0"] else None, res, first=True)
        if not v["x0"] or v["parts"] > 1:
            lib = prims if not v["x0"] else self.primitives(spec, v, None, res)[0]
        if not prims:
            return None
        if v["x0"]:
            pose = [0.0, 0.0, 0.0]  # they begin at the start already
        if v["mode"] == "graph":
            return self.graph(spec, v, prims, lib if v["parts"] > 1 else prims, pose, T, res)
        traj, cmds = None, []
        for k in range(v["parts"]):
            if k == 0:
                p = prims[v["picks"][0] % len(prims)]
            else:
                e = traj.values[-1]
                sure = [q for q in lib if max(abs(q.values[0].vx - e.vx), abs(q.values[0].delta - e.delta)) < CONNECT - 1e-6]
                for q in lib:
                    d = max(abs(q.values[0].vx - e.vx), abs(q.values[0].delta - e.delta))
                    if abs(d - CONNECT) > 1e-6 and bool(traj.is_connectable(q)) != (d < CONNECT):
                        self.bad(res, "connectable", f"{vec(e)} and {vec(q.values[0])}: connectable {traj.is_connectable(q)}")
                if not sure:
                    break
                p = sure[v["picks"][k] % len(sure)]
                pose = [float(e.x), float(e.y), float(e.psi)]
            q = self.transformed(p, pose, res)
            q = Trajectory(timestamps=[T * k + s for s in q.timestamps], values=list(q.values))
            cmds.append(((p.values[-1].vx - p.values[0].vx) / float(T), (p.values[-1].delta - p.values[0].delta) / float(T)))
            if traj is None:
                traj = q
            else:
                old = traj
                traj = traj.merge(q)
                if list(traj.timestamps) != list(old.timestamps) + list(q.timestamps)[1:] or list(map(vec, traj.values)) != list(map(vec, old.values)) + list(map(vec, q.values[1:])):
                    self.bad(res, "merge", f"merging samples at {old.timestamps} and {q.timestamps} gives {traj.timestamps}")
        self.upsampled(traj, v["up"], res)
        if len(traj.values) > 2:  # unevenly sampled
            keep = [i for i in range(len(traj.values)) if i in (0, len(traj.values) - 1) or (v["picks"][4] >> (i % 16)) & 1]
            if len(keep) < len(traj.values):
                res.faults["uneven-samples"] += 1
                self.upsampled(Trajectory(timestamps=[traj.timestamps[i] for i in keep], values=[traj.values[i] for i in keep]), v["up"], res)
        self.transformed(traj, v["start"], res)
        return traj, commands_plan_from_trajectory(traj), cmds, T

    def graph(self, spec, v, prims, lib, pose, T, res):
        G = TrajectoryGraph()
        p = prims[v["picks"][0] % len(prims)].values[0]
        root = (Decimal(0), p if v["x0"] else VehicleState(x=pose[0], y=pose[1], psi=pose[2], vx=float(p.vx), delta=float(p.delta)))
        G.add_node(root, gen=0)
        level, paths = [root], {root: []}
        for k in range(v["parts"]):
            nxt = []
            for j, node in enumerate(level[:3]):
                pool = [q for q in (prims if k == 0 else lib) if abs(q.values[0].vx - node[1].vx) < CONNECT and abs(q.values[0].delta - node[1].delta) < CONNECT]
                for w in range(min(v["width"], len(pool))):
                    q = pool[(v["picks"][k] + 7 * j + w) % len(pool)]
                    m = q.apply_SE2transform(SE2Transform(pose[:2], pose[2]) if k == 0 else SE2Transform([node[1].x, node[1].y], node[1].psi))
                    m = Trajectory(timestamps=[node[0] + s for s in m.timestamps], values=list(m.values))
                    target = (node[0] + T, m.values[-1])
                    if target in paths:
                        continue
                    u = ((q.values[-1].vx - q.values[0].vx) / float(T), (q.values[-1].delta - q.values[0].delta) / float(T))
                    G.add_edge(states=Trajectory(timestamps=[node[0], target[0]], values=[node[1], target[1]]), transition=m,
                               commands=VehicleCommands(acc=u[0], ddelta=u[1]))
                    paths[target] = paths[node] + [(m, u)]
                    if G.nodes[target]["gen"] != k + 1:
                        self.bad(res, "generation", f"node after {k + 1} transitions has generation {G.nodes[target]['gen']}")
                    nxt.append(target)
            if not nxt:
                break
            level = nxt
        if not paths or len(paths) == 1:
            return None
        leaves = [t for t in paths if not any(t != o and len(paths[o]) > len(paths[t]) and paths[o][: len(paths[t])] == paths[t] for o in paths)]
        want = {tuple((t, *vec(s)) for t, s in self.nodes_of(root, paths[l])) for l in leaves}
        got = {tuple((t, *vec(s)) for t, s in zip(j.timestamps, j.values)) for j in G.get_all_trajectories()}
        if want != got:
            self.bad(res, "paths", f"the graph has {len(leaves)} leaves and {len(got)} trajectories")
        if len(G.get_all_transitions()) != len(leaves):
            self.bad(res, "paths", f"the graph has {len(leaves)} leaves and {len(G.get_all_transitions())} transitions")
        leaf = leaves[v["picks"][1] % len(leaves)]
        steps = paths[leaf]
        tr = G.get_transition(root, leaf)
        flat = [(t, *vec(s)) for i, (m, _) in enumerate(steps) for t, s in list(zip(m.timestamps, m.values))[(1 if i else 0):]]
        if [(t, *vec(s)) for t, s in zip(tr.timestamps, tr.values)] != flat:
            self.bad(res, "transition", f"the transition to a leaf after {len(steps)} edges has samples at {tr.timestamps}")
        plan = G.commands_on_trajectory(G.get_trajectory(root, leaf))
        if list(plan.timestamps) != [T * k for k in range(len(steps))] or [(c.acc, c.ddelta) for c in plan.values] != [u for _, u in steps]:
            self.bad(res, "commands", f"commands on a path of {len(steps)} edges: {list(zip(plan.timestamps, plan.values))}, expected {[u for _, u in steps]}")
        other = VehicleState(x=1e6, y=0.0, psi=0.0, vx=0.0, delta=0.0)
        for f in (lambda: G.get_transition(root, (Decimal(1), other)), lambda: G.get_trajectory((Decimal(1), other), leaf), lambda: G.get_transition(leaf, root)):
            try:
                f()
            except ValueError:
                continue
            self.bad(res, "no-path", "a path between nodes that are not connected or not in the graph")
        res.stats["graphs"] += 1
        if len(steps) > 1 and v["picks"][2] % 2:
            # a second, shorter way to the same node
            res.faults["shorter-way"] += 1
            k = v["picks"][3] % (len(steps) - 1)  # from before edge k to the leaf
            nodes = self.nodes_of(root, steps)
            way = Trajectory(timestamps=[nodes[k][0], leaf[0]], values=[nodes[k][1], leaf[1]])
            u = VehicleCommands(acc=0.125, ddelta=-0.25)
            G.add_edge(states=way, transition=way, commands=u)
            want = nodes[: k + 1] + [leaf]
            got = G.get_trajectory(root, leaf)
            if [(t, *vec(s)) for t, s in zip(got.timestamps, got.values)] != [(t, *vec(s)) for t, s in want]:
                self.bad(res, "shortest", f"with an edge from node {k} to the leaf after {len(steps)} edges, the trajectory has nodes at {got.timestamps}")
            p2 = G.commands_on_trajectory(got)
            if [(c.acc, c.ddelta) for c in p2.values] != [c for _, c in steps[:k]] + [(u.acc, u.ddelta)]:
                self.bad(res, "shortest", f"with an edge from node {k} to the leaf after {len(steps)} edges, the commands are {p2.values}")
            t2 = G.get_transition(root, leaf)
            flat = [(t, *vec(s)) for i, (m, _) in enumerate(steps[:k]) for t, s in list(zip(m.timestamps, m.values))[(1 if i else 0):]]
            flat = (flat or [(nodes[0][0], *vec(nodes[0][1]))]) + [(leaf[0], *vec(leaf[1]))]
            if [(t, *vec(s)) for t, s in zip(t2.timestamps, t2.values)] != flat:
                self.bad(res, "shortest", f"with an edge from node {k} to the leaf after {len(steps)} edges, the transition has samples at {t2.timestamps}")
        return tr, plan, [u for _, u in steps], T

    def nodes_of(self, root, steps):
        out = [root]
        for m, _ in steps:
            out.append((m.timestamps[-1], m.values[-1]))
        return out

    # ------------------------------------------------------------------ run
    def run(self, spec, res: Result):
        try:
            self.drive(spec, res)
        except Stop:
            pass

    def drive(self, spec, res: Result):
        dt, n = Decimal(spec["dt"]), spec["n"]
        if n < 1 or dt <= 0 or spec["sub"] < 1 or spec["csub"] < 1:
            return
        models, agents, plans = {}, {}, {}
        for i, v in enumerate(spec["vehicles"]):
            if v["velocity"][0] != "limits" and (v["velocity"][2] < 1 or v["steering"][2] < 1):
                return
            made = self.plan(spec, v, res)
            if made is None:
                continue
            traj, plan, cmds, T = made
            vg, vp = self.vehicle(v)
            name = PlayerName(f"V{i}")
            # what the commands are
            per = T / (n if v["mode"] == "mpg" else 1)
            if v["mode"] == "graph":
                want = [(T * k, *c) for k, c in enumerate(cmds)]
            else:
                rep = n if v["mode"] == "mpg" else 1
                want = [(per * k, *cmds[k // rep]) for k in range(len(cmds) * rep)]
            got = [(t, c.acc, c.ddelta) for t, c in zip(plan.timestamps, plan.values)]
            if len(want) != len(got) or any(abs(float(a[0]) - float(b[0])) > 1e-9 or abs(a[1] - b[1]) > 2e-3 or abs(a[2] - b[2]) > 2e-3 for a, b in zip(want, got)):
                self.bad(res, "plan", f"{v['mode']}: commands of the plan {got}, the motion needs {want}")
            lim = 2e-3
            for t, a, r in got:
                if not (vp.acc_limits[0] - lim <= a <= vp.acc_limits[1] + lim and abs(r) <= vp.ddelta_max + lim):
                    self.bad(res, "limits", f"{v['kind']}: the plan needs acceleration {a}, steering rate {r} at {t}")
            models[name] = VehicleModel(x0=VehicleState(*vec(traj.values[0])), vg=vg, vp=vp)
            agents[name] = NPAgent(plan)
            plans[name] = (v, traj, cmds, T)
        if not plans:
            return
        sub = dt / spec["sub"]
        end = max(p[1].timestamps[-1] for p in plans.values())
        ctx = SimContext(dg_scenario=DgScenario(), models=models, players=agents,
                         param=SimParameters(dt=sub, dt_commands=dt / spec["csub"] if spec["sub"] % spec["csub"] == 0 else dt, max_sim_time=end + sub * 2, sim_time_after_collision=Decimal(1000)))
        Simulator().run(ctx)
        res.sim_time += float(end)
        if ctx.collision_reports:
            res.stats["collided"] += 1
            return
        sched = []
        for name, (v, traj, cmds, T) in plans.items():
            st = ctx.log[name].states
            seen = dict(zip(st.timestamps, st.values))
            s0 = vec(traj.values[0])
            top = max(abs(x.vx) for x in traj.values)
            worst = 0.0
            vp = self.vehicle(v)[1]
            edge_v = any(abs(x.vx - lim) < 1e-3 for x in traj.values for lim in vp.vx_limits)
            edge_d = any(abs(abs(x.delta) - vp.delta_max) < 1e-3 for x in traj.values)
            for t, x in zip(traj.timestamps, traj.values):
                if t not in seen:
                    self.bad(res, "time", f"no state of {name} at {t} in its log {st.timestamps[:4]}..{st.timestamps[-2:]}")
                a, b = vec(seen[t]), vec(x)
                tol = tolerance(s0, top, float(t))
                # the integration of the vehicle is less exact in the step in which it reaches a limit
                vtol = 0.002 + (0.02 * max(abs(u[0]) for u in cmds) * float(T) if edge_v else 0.0)
                dtol = 0.001 + (0.02 * max(abs(u[1]) for u in cmds) * float(T) if edge_d else 0.0)
                if edge_v or edge_d:
                    tol += 0.02 * top * float(T)
                d = math.hypot(a[0] - b[0], a[1] - b[1])
                worst = max(worst, d / tol)
                if d > tol or abs(ang(a[2] - b[2])) > 0.005 + 0.005 * float(t) + (0.05 if edge_v or edge_d else 0) or abs(a[3] - b[3]) > vtol or abs(a[4] - b[4]) > dtol:
                    self.bad(res, "driven", f"{v['kind']} ({v['mode']}, part {float(t) / float(T):.2f}) planned to be at {b} at {t}, drives to {a}, commands {cmds}, step {sub}")
            res.event("driven", name, [round(z, 6) for z in vec(traj.values[-1])])
            res.stats["driven"] += 1
            res.stats["parts"] += len(cmds)
            if worst > 0.5:
                res.stats["more than half of the tolerance"] += 1
            res.faults[f"plan-{v['mode']}"] += 1
            if len(cmds) > 1:
                res.nontrivial = True
            if spec["sub"] > 1:
                res.faults["other-step"] += 1
            sched.append((v["kind"], v["mode"], tuple(cmds)))
            res.state(v["kind"], v["mode"], len(cmds), spec["sub"], spec["csub"], str(v["velocity"][2]), v["x0"])
        res.schedule = h64(tuple(sched))


CHECK = Check()
