from collections import defaultdict

import numpy as np

from dst.core.result import Result, h64
from dst.world.bodies import COMMAND_FIELDS, COMMAND_SCALE, STATE_FIELDS, make_command, make_model
from dst.world.dynamics import judge
from dst.world.contact import MUST_REPORT, Contact, Steps, gen_contact
from dst.world.world import World, canon, hash_unit

DEAF = ("truck", "bike", "moto", "truckdyn", "bikedyn", "ped", "diff", "spacecraft", "spaceship", "rocket")
KINDS = ["car", "truck", "bike", "moto", "cardyn", "truckdyn", "bikedyn", "ped", "spacecraft", "spaceship", "rocket", "diff", "dynobs"]


class Check:
    ID = "C12"
    RUNS_QUICK = 500
    RUNS_THOROUGH = 40000
    RULE = (
        "A case is one episode of real bodies generated from (seed, index) with collisions, random commands before and after them and "
        "unresolvable contacts. The collided flag is tracked independently from the history; every update is repeated on a fresh body "
        "with the flag it should have, and with other commands. Non-trivial if a body was updated after it collided."
    )
    REAL = ["dg_commons.sim.simulator", "collision*", "all bodies"]
    STUB = ["agents (scripted)", "wall clock (virtual)"]
    STATE_MEASURE = "(kind, steps since its collision, other bodies collided, commands saturated or not)"

    def gen(self, rng, tier):
        spec = gen_contact(rng, steps=14 if tier == "quick" else 40, kinds=KINDS, exact_p=0.0)
        spec["after"] = "1000"
        for pl in spec["players"]:
            pl["agent"] = dict(pol=rng.pick(["rand", "rand", "const"]), amp=rng.pick([0.5, 1.0, 3.0]), seed=rng.randint(0, 10**6))
        return spec

    def run(self, spec, res: Result):
        w = World(spec).run()
        w.trace_into(res)
        ss = Steps(w)
        truth, unsure, when = follow(ss, res)
        res.schedule = h64(tuple(sorted(when.items())))
        if not res.violations:
            check_updates(ss, truth, unsure, when, res)


def follow(ss: Steps, res: Result):
    """truth[k][p]: whether p has collided before step k"""
    w, lp = ss.w, ss.lp
    cur = {p: False for p in lp.names}
    unsure = {p: False for p in lp.names}
    truth, uns = [], []
    when = {}
    for st in ss:
        truth.append(dict(cur))
        uns.append(dict(unsure))
        if st.ended:
            break
        fps = {p: ss.footprint(p, st.s0[p]) for p in st.act}
        for r in st.reports:
            names = [str(q) for q in r.players]
            if all(v is not None for v in r.players.values()):
                for p in names:
                    if p in cur and not cur[p]:
                        cur[p] = True
                        when[p] = st.k
            else:
                ps = [p for p in names if p in fps]
                if len(names) == 2 and len(ps) == 2:
                    classes = [Contact(fps[ps[0]], fps[ps[1]]).cls]
                else:
                    classes = [c for c in (Contact(fps[p], o).cls for p in ps for o in ss.obstacles) if c != "apart"]
                if not classes or any(c not in MUST_REPORT for c in classes):
                    for p in ps:
                        unsure[p] = True
        for p in st.act:
            if ss.kinds[p] == "dynobs" and not cur[p] and len(st.chain[p]) > 1:
                cur[p] = True
                when[p] = st.k
            if ss.kinds[p] == "dynobs" and not cur[p]:
                if any(Contact(fps[p], o).cls not in ("apart",) + MUST_REPORT for o in ss.obstacles):
                    unsure[p] = True
    for k in range(len(truth)):
        t = lp.t(k)
        for p in lp.active[k]:
            for e in lp.upd[t][p]:
                if e.d["collided"] != truth[k][p] and not (uns[k][p] and e.d["collided"]):
                    res.violation("flag", f"{p} ({ss.kinds[p]}) is {'not ' if truth[k][p] else ''}marked as collided at {t}, "
                                  + (f"it collided at step {when[p]}" if truth[k][p] else "it never did"))
                    return truth, uns, when
    for p, m in w.all_models.items():
        p = str(p)
        if bool(m.has_collided) != cur[p] and not (unsure[p] and m.has_collided):
            res.violation("flag", f"{p} ({ss.kinds[p]}) is {'not ' if cur[p] else ''}marked as collided at the end")
            break
    return truth, uns, when


def fresh(ss: Steps, p: str, state, cmd, dt, collided: bool):
    """One update of a new body from the same state"""
    m = make_model(ss.specs[p])
    m.set_state(state)
    if collided:
        m.has_collided = True
    m.update(cmd, dt)
    return m.get_state()


def arr(kind, s) -> np.ndarray:
    return np.array([float(getattr(s, f)) for f in STATE_FIELDS[kind]])


def check_updates(ss: Steps, truth, unsure, when, res: Result):
    from copy import deepcopy

    lp = ss.lp
    sure_collided = {p for p in lp.names if p in when}
    for k in range(len(truth)):
        t = lp.t(k)
        for p in lp.active[k]:
            kind = ss.kinds[p]
            for e in lp.upd[t][p]:
                if unsure[k][p] and not truth[k][p]:
                    continue
                c = truth[k][p]
                first = k == 0 or (c and k - when[p] < 5)
                if not first and (hash_unit("s", ss.w.spec["seed"], k, p) > -0.4):
                    continue  # a sample of the updates is repeated
                s0 = e.d["raw_before"]
                cmd = e.d["raw_u"]
                got = arr(kind, e.d["raw_after"])
                want = arr(kind, fresh(ss, p, deepcopy(s0), deepcopy(cmd), e.d["dt"], c))
                tol = 1e-9 * (1 + np.abs(want))
                if np.any(np.abs(got - want) > tol):
                    res.violation("response", f"{p} ({kind}, {'collided' if c else 'never collided'}) at {t} went from {arr(kind, s0)} to {got} "
                                  f"with {cmd}; a new body in the same conditions goes to {want}")
                    return
                if not c:
                    u = [float(getattr(cmd, n)) for n in COMMAND_FIELDS[kind]]
                    ref, wide, _ = judge(ss.w.all_models[p], kind, False, arr(kind, s0), u, float(e.d["dt"]), got)
                    if np.any(np.abs(got - ref) > wide):
                        res.violation("response", f"{p} ({kind}, never collided) at {t} went from {arr(kind, s0)} to {got} with {cmd}; "
                                      f"its equations of motion without any collision give {ref}")
                        return
                    continue
                res.nontrivial = True
                res.stats["after-collision:" + kind] += 1
                res.state(kind, k - when[p], len(sure_collided), bool(np.any(np.abs(cmd.as_ndarray()) > COMMAND_SCALE[kind])))
                if kind in DEAF:
                    u = [-np.sign(v or 1.0) * 3 * s * (1.2 + hash_unit("o", k, p, i)) for i, (s, v) in
                         enumerate(zip(COMMAND_SCALE[kind], cmd.as_ndarray()))]
                    other = arr(kind, fresh(ss, p, deepcopy(s0), make_command(kind, u), e.d["dt"], True))
                    # the step size control of the integrator may see the commands: compared with their effect on a body
                    # that listens
                    f0 = arr(kind, fresh(ss, p, deepcopy(s0), deepcopy(cmd), e.d["dt"], False))
                    f1 = arr(kind, fresh(ss, p, deepcopy(s0), make_command(kind, u), e.d["dt"], False))
                    tol = 2e-4 * (1 + np.abs(other) * 0.05) + 0.3 * np.abs(f0 - f1)
                    bad = np.abs(got - other) > tol
                    if kind in ("truckdyn", "bikedyn"):  # stiff: only where the commands act directly
                        bad = bad[[3, 6]]
                    if np.any(bad):
                        res.violation("not-deaf", f"{p} ({kind}) collided at step {when[p]} and at {t} still depends on its commands: {got} with {cmd}, {other} with {u}")
                        return
                elif kind in ("car", "cardyn", "dynobs"):
                    u = responsive(kind, s0, cmd)
                    if u is None:
                        continue
                    other = arr(kind, fresh(ss, p, deepcopy(s0), make_command(kind, u), e.d["dt"], True))
                    res.stats["responsive:" + kind] += 1
                    if np.all(np.abs(got - other) <= 1e-9):
                        res.violation("deaf", f"{p} ({kind}) collided at step {when[p]} and at {t} does not respond to {cmd} any more: it moves as with {u}")
                        return


def responsive(kind: str, s0, cmd):
    """A command that must make a difference, far from every saturation"""
    if kind in ("car", "cardyn"):
        if not (abs(cmd.acc) > 0.1 and -1.0 < s0.vx < 20.0):
            return None
        return [-np.sign(cmd.acc) * 2.0, cmd.ddelta]
    if abs(cmd.acc_x) < 0.1 or abs(s0.vx) > 8 or abs(s0.dpsi * s0.vy) > 3:
        return None
    return [-np.sign(cmd.acc_x) * 2.0, cmd.acc_y, cmd.acc_psi]


CHECK = Check()
