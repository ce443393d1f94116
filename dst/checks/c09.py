from collections import Counter

from dst.core.result import Result, h64
from dst.world.contact import EPS, MUST_REPORT, Contact, Steps, gen_contact, gen_target
from dst.world.world import World, canon, debug_logging


class Check:
    ID = "C09"
    RUNS_QUICK = 1000
    RUNS_THOROUGH = 60000
    RULE = (
        "A case is one episode generated from (seed, index) full of collisions (toy and real bodies, convex, U-shaped, tiny and long; "
        "boxes, walls, rings, discs, multi-part obstacles; exact touches, shared edges, containments). Every pair of active bodies and "
        "every body and obstacle are classified after every step by an independent geometric model and compared with the reports. "
        "Non-trivial if at least one contact happened."
    )
    REAL = ["dg_commons.sim.simulator", "collision", "collision_utils", "collision_structures", "all bodies (in some runs)", "lanes/maps (few runs)"]
    STUB = ["agents (scripted)", "toy rigid bodies", "wall clock (virtual)", "failing impact computations (injected in some runs)"]
    STATE_MEASURE = "(contact class, kinds of bodies, number of contacts of the step, reported)"

    def gen(self, rng, tier):
        spec = gen_contact(rng, steps=20 if tier == "quick" else 45)
        if rng.flip(0.015):
            spec["map"] = "USA_Lanker-1_1_T-1"
            spec["obstacles"] = []
        elif rng.flip(0.15):
            # the impact computation of some body fails from time to time
            spec["nomesh"] = dict(p=rng.r(0.1, 1.0), seed=rng.randint(0, 10**6))
        if rng.flip(0.05):
            spec["debug"] = True
            if rng.flip(0.5) and not spec.get("map"):
                spec["obstacles"].append(gen_target(rng, 3.0, True, "multi"))
        return spec

    def run(self, spec, res: Result):
        w = World(spec, scenario=load_map(spec["map"], spec) if spec.get("map") else None)
        if spec.get("nomesh"):
            fail_mesh(w, spec["nomesh"])
        with debug_logging(spec.get("debug")):
            w.run()
        w.trace_into(res)
        if spec.get("debug"):
            res.faults["debug-logging"] += 1
        ss = Steps(w)
        contacts = check_reports(ss, res)
        res.nontrivial = contacts > 0
        res.schedule = h64(tuple(sorted((str(r.at_time), tuple(map(str, r.players))) for r in w.ctx.collision_reports)))


def fail_mesh(w: World, f: dict):
    """Bodies whose mesh is sometimes far away: the impact locations cannot be found"""
    from shapely.geometry import box

    from dg_commons.sim import ImpactLocation
    from dst.world.world import hash_unit

    for p, m in w.all_models.items():
        def get_mesh(m=m, p=p, n=[0]):
            n[0] += 1
            if (hash_unit(f["seed"], str(p), n[0]) + 1) / 2 < f["p"]:
                w.rec.fault("failing-impact-location")
                return {ImpactLocation("nowhere"): box(1e6, 1e6, 1e6 + 1, 1e6 + 1)}
            return type(m).get_mesh(m)

        m.get_mesh = get_mesh


_MAPS = {}


def load_map(name: str, spec: dict):
    from dg_commons.sim.scenarios import load_commonroad_scenario
    from dg_commons.sim.scenarios.structures import DgScenario

    if name not in _MAPS:
        from dst.core.boot import REPO

        sc, _ = load_commonroad_scenario(name, scenarios_dir=f"{REPO}/scenarios/testing")
        _MAPS[name] = sc
    sc = _MAPS[name]
    dg = DgScenario(sc)
    # place the episode on a lane
    ll = sc.lanelet_network.lanelets[0]
    v = ll.center_vertices[len(ll.center_vertices) // 2]
    return dg


def env_name(r):
    from dg_commons.sim.collision import EnvPlayer

    return EnvPlayer


def check_reports(ss: Steps, res: Result) -> int:
    w = ss.w
    n_contacts = 0
    seen_first = None
    known_t = set()
    for st in ss:
        known_t.add(st.t1)
        reps = st.reports
        if st.ended:
            if reps:
                res.violation("report-after-end", f"reports at {st.t1}, when the episode ended: {[tuple(r.players) for r in reps]}")
                return n_contacts
            continue
        for r in reps:
            bad = [p for p in r.players if str(p) not in st.act and str(p) != "Env"]
            if bad:
                res.violation("report-inactive", f"report at {st.t1} names {bad}, active are {st.act}")
                return n_contacts
        # --- players against players
        by_pair = Counter(frozenset(map(str, r.players)) for r in reps if "Env" not in r.players and len(r.players) == 2)
        fps = {p: ss.footprint(p, st.s0[p]) for p in st.act}
        for a, b in st.pairs():
            c = Contact(fps[a], fps[b])
            got = [r for r in reps if frozenset(map(str, r.players)) == frozenset((a, b))]
            n_contacts += c.cls != "apart"
            if c.cls != "apart":
                res.stats["pair:" + c.cls] += 1
                res.state(c.cls, ss.kinds[a], ss.kinds[b], len(reps), len(got))
            if not judge(ss, st, c, a, b, got, res, f"{a} ({ss.kinds[a]}) and {b} ({ss.kinds[b]})"):
                return n_contacts
        # --- players against obstacles
        for p in st.act:
            env = [r for r in reps if frozenset(map(str, r.players)) in (frozenset((p, "Env")), frozenset((p,)))]
            classes = {i: Contact(fps[p], o) for i, o in enumerate(ss.obstacles)}
            hits = {i: c for i, c in classes.items() if c.cls != "apart"}
            n_contacts += len(hits)
            for c in hits.values():
                res.stats["env:" + c.cls] += 1
                res.state(c.cls, ss.kinds[p], "env", len(reps), len(env))
            passive = ss.kinds[p] == "dynobs"
            if passive:
                if env:
                    res.violation("passive-reported", f"passive {p} against a static obstacle is reported at {st.t1}")
                    return n_contacts
                continue
            if w.spec.get("nomesh") and len(hits) > 1:
                # unresolved reports do not name the obstacle: only their number is judged
                need = sum(required(st, c, p) for c in hits.values())
                if not need <= len(env) <= len(hits):
                    res.violation("count", f"{len(env)} reports of {p} with the environment at {st.t1}, {need} contacts out of {len(hits)} need one")
                    return n_contacts
                continue
            resolved = [r for r in env if len(r.players) == 2]
            unresolved = [r for r in env if len(r.players) == 1]
            assign = {i: [] for i in hits}
            for r in resolved:
                if not hits:
                    res.violation("report-apart", f"{p} against Env reported at {st.t1} although {p} meets no obstacle")
                    return n_contacts
                fpe = r.players[env_name(r)].footprint
                i = min(hits, key=lambda j: (round(fpe.hausdorff_distance(ss.obstacles[j]), 6), len(assign[j]), j))
                assign[i].append(r)
            free = list(unresolved)
            # unresolved reports do not name the obstacle: they go first to the contacts that must have one
            order = sorted(hits, key=lambda j: (hits[j].cls not in MUST_REPORT, hits[j].cls in ("simple", "contains"), j))
            for i in order:
                if not assign[i] and free and (hits[i].cls in MUST_REPORT or hits[i].cls in ("unclear", "multi")
                                               or w.spec.get("nomesh")):
                    assign[i].append(free.pop())
            if free:
                res.violation("extra-report", f"{p} has {len(env)} reports with the environment at {st.t1} but {len(hits)} contacts ({[c.cls for c in hits.values()]})")
                return n_contacts
            for i, c in hits.items():
                if not judge(ss, st, c, p, None, assign[i], res, f"{p} ({ss.kinds[p]}) and obstacle {i}"):
                    return n_contacts
        # --- an unresolved contact leaves the motion unchanged
        n_res = Counter()
        for r in reps:
            for q, v in r.players.items():
                if v is not None:
                    n_res[str(q)] += 1
        for p in st.act:
            if ss.kinds[p] == "dynobs" and ss.obstacles:
                continue
            changes = len(st.chain[p]) - 1
            if n_res[p] == 0 and changes and any(canon(s) != canon(st.s0[p]) for s in st.chain[p]):
                res.violation("moved", f"{p} has no resolved collision at {st.t1} but its state was changed from {st.s0[p]} to {st.chain[p][-1]}")
                return n_contacts
    for r in w.ctx.collision_reports:
        if r.at_time not in known_t:
            res.violation("report-time", f"report of {tuple(r.players)} at {r.at_time}, when no step ended")
            return n_contacts
        seen_first = r.at_time if seen_first is None else min(seen_first, r.at_time)
    f = w.ctx.first_collision_ts
    if (seen_first is None) != (not f.is_finite()) or (seen_first is not None and f != seen_first):
        res.violation("first-time", f"first collision at {f} but the earliest report is at {seen_first}")
    return n_contacts


def required(st, c: Contact, p: str) -> bool:
    if c.cls in MUST_REPORT:
        return c.cls != "touch"
    return c.cls in ("simple", "contains") and c.n is not None and all(x > EPS for x in st.approach(c, p, None))


def judge(ss: Steps, st, c: Contact, a: str, b, got: list, res: Result, who: str) -> bool:
    """One contact (or its absence) against the reports about it"""
    nomesh = bool(ss.w.spec.get("nomesh"))
    if len(got) > 1:
        res.violation("duplicate", f"{len(got)} reports of {who} at {st.t1}")
        return False
    resolved = bool(got) and all(v is not None for v in got[0].players.values())
    if got and any(v is not None for v in got[0].players.values()) != resolved:
        res.violation("half-report", f"the report of {who} at {st.t1} has data only for one party")
        return False
    if c.cls == "apart":
        if got:
            res.violation("report-apart", f"{who} reported at {st.t1} although they are apart")
            return False
        return True
    if c.cls in MUST_REPORT:
        if c.cls == "touch" and not ss.w.spec.get("exact"):
            return True
        if not got:
            res.violation("missing", f"no report of {who} at {st.t1} (contact: {c.cls})")
            return False
        if resolved:
            res.violation("resolved", f"{who} at {st.t1} is resolved although its geometry is undefined ({c.cls})")
            return False
        return True
    if c.cls in ("simple", "contains") and c.n is not None:
        v = st.approach(c, a, b)
        if not got and all(x > EPS for x in v):
            res.violation("missing", f"no report of {who} at {st.t1}: they overlap ({c.cls}) and approach at {min(v):.4g} m/s or more")
            return False
        if got and all(x < -EPS for x in v):
            res.violation("separating", f"{who} reported at {st.t1} although they separate at {-max(v):.4g} m/s or more")
            return False
        if got and not resolved and not nomesh:
            res.violation("unresolved", f"{who} at {st.t1} is an ordinary contact ({c.cls}) but it was not resolved")
            return False
    return True


CHECK = Check()
