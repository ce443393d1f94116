"""Generators of episodes"""
import math
from decimal import Decimal

from dst.core.rng import Rng, swarm
from dst.world.bodies import COMMAND_SCALE, REAL_KINDS, STATE_FIELDS
from dst.world.lanes import gen_lane

NAMES = ["P1", "Ego", "b", "player_10", "player_2", "Z", "a-1"]


def turned(rng: Rng, psi: float, digits: int = 5) -> float:
    """The same heading, sometimes after some full turns"""
    return round(psi + 2 * math.pi * rng.pick([0, 0, 0, 0, 1, -1, 2, -3, 8]), digits)


def gen_x0(rng: Rng, kind: str, x: float, y: float, psi: float, speed: float) -> list:
    f = STATE_FIELDS[kind]
    vals = dict(x=x, y=y, psi=psi, delta=0.0, dpsi=0.0, vy=0.0, vx=speed, m=2.5, phi=0.0)
    if kind in ("toy", "rocket"):
        # velocities in the global frame
        vals["vx"], vals["vy"] = speed * math.cos(psi), speed * math.sin(psi)
        if kind == "toy":
            vals["dpsi"] = rng.r(-0.3, 0.3)
    if kind in ("spacecraft", "spaceship", "dynobs", "cardyn", "truckdyn", "bikedyn"):
        vals["vy"] = rng.r(-0.3, 0.3)
    if "delta" in f:
        vals["delta"] = rng.r(-0.2, 0.2)
    return [round(vals[n], 6) for n in f]


def gen_times(rng: Rng, max_steps: int = 40) -> dict:
    dt = Decimal(rng.pick(["0.1", "0.05", "0.07", "0.03", "0.25", "0.125", "0.02", "0.2", "0.11", "0.0625", "0.03333"]))
    ratio = Decimal(rng.pick(["1", "2", "3", "5", "2.5", "1.3", "0.5", "7", "0.1", "1.01", "0.99", "3.5"]))
    steps = rng.randint(3, max_steps)
    frac = Decimal(rng.pick(["0", "0", "0.5", "0.01", "0.99"]))
    return dict(dt=str(dt), dtc=str((dt * ratio).normalize()), tmax=str(dt * steps + dt * frac))


def gen_sensor(rng: Rng, dt: Decimal, names: list[str]):
    k = rng.pick(["id", "partial", "delay", "ghost"])
    if k == "id":
        return dict(k="id")
    if k == "partial":
        return dict(k="partial", seed=rng.randint(0, 10**6), p=rng.r(0.1, 0.9))
    if k == "delay":
        return dict(k="delay", lat=str(dt * rng.pick([0, 1, 2, 3, 5]) + dt * Decimal(rng.pick(["0", "0", "0.5"]))))
    return dict(k="ghost", who=rng.pick(names), far=rng.r(0, 10))


def gen_goal(rng: Rng, x: float, y: float, tmax: float):
    k = rng.pick(["zone", "late", "window", "never", "polygon", "pose", "lane"], [8, 4, 4, 2, 4, 2, 2])
    far = rng.flip(0.5)
    gx, gy = x + (rng.r(-6, 6) if far else rng.r(-1, 1)), y + (rng.r(-6, 6) if far else rng.r(-1, 1))
    s = rng.r(0.5, 3)
    b = [round(v, 3) for v in (gx - s, gy - s, gx + s, gy + s)]
    if k == "pose":
        return dict(k=k, pose=[round(gx, 3), round(gy, 3), rng.r(-3, 3)], tol=rng.r(0.5, 4))
    if k == "lane":
        st = [0.0]
        for _ in range(rng.randint(1, 5)):
            st.append(round(st[-1] + rng.r(0.4, 5), 3))
        return dict(k=k, p=[round(gx - 3, 3), round(gy, 3)], th=rng.r(-1, 1), r=rng.r(1, 5), stations=st,
                    progress=round(st[-1] * rng.r(0.1, 0.9), 3))
    if k in ("zone", "polygon"):
        return dict(k=k, box=b)
    if k == "late":
        return dict(k=k, t0=rng.r(0, tmax * 1.2))
    if k == "window":
        a = rng.r(0, tmax)
        return dict(k=k, box=[b[0] - 3, b[1] - 3, b[2] + 3, b[3] + 3], t0=a, t1=round(a + rng.r(0, tmax), 3))
    return dict(k="never")


def gen_obstacle(rng: Rng, area: float) -> dict:
    k = rng.pick(["box", "wall", "ring", "disc", "poly"])
    x, y = rng.r(-area, area), rng.r(-area, area)
    if k == "box":
        return dict(k=k, b=[x, y, round(x + rng.r(0.5, 4), 3), round(y + rng.r(0.5, 4), 3)])
    if k == "wall":
        return dict(k=k, pts=[[x, y], [round(x + rng.r(-8, 8), 3), round(y + rng.r(1, 8), 3)]])
    if k == "ring":
        s = area * 1.2
        return dict(k=k, pts=[[-s, -s], [s, -s], [s, s], [-s, s]])
    if k == "disc":
        return dict(k=k, c=[x, y], r=rng.r(0.3, 2))
    return dict(k=k, pts=[[x, y], [round(x + 3, 3), y], [round(x + 1.5, 3), round(y + 2, 3)]])


def gen_plan(rng: Rng, kind: str, tmax: float) -> list:
    """A plan of commands that begins at time zero (or before)"""
    t, plan = Decimal(rng.pick(["0", "0", "-1"])), []
    for _ in range(rng.randint(1, 8)):
        plan.append([str(t), [rng.r(-1, 1) * s for s in COMMAND_SCALE[kind]]])
        t += Decimal(str(rng.r(0.05, max(0.1, tmax / 3), 2)))
    return plan


def gen_impl(rng: Rng, kind: str, tmax: float, x: float, y: float, psi: float, impl: str = "") -> dict:
    """One of the agents of dg_commons"""
    impl = impl or rng.pick(["np", "policy"] + (["lf"] * 2 if kind in LANE_KINDS else []))
    if impl == "np":
        return dict(impl=impl, plan=gen_plan(rng, kind, tmax))
    if impl == "policy":
        return dict(impl=impl)
    return dict(impl=impl, lane=gen_lane(rng, 60.0, p=(x, y), th=round(psi, 3)), xtra=rng.flip(0.5))


LANE_KINDS = ["car", "truck", "bike", "cardyn", "truckdyn", "bikedyn"]
FEATURES = ["byz", "reuse", "slow", "chase", "extra", "sensors", "goals", "obstacles", "collide", "real", "mutcmd",
            "inplace", "after", "jump", "still"]
# kinds of motion along a part of the coordinates: (positions that do not change, commands that stay zero)
PARTIAL_MOTION = dict(
    toy=dict(turn=(("vx", "vy"), (1, 1, 0)), x=(("vy", "dpsi"), (0, 1, 1)), y=(("vx", "dpsi"), (1, 0, 1)),
             still=(("vx", "vy", "dpsi"), (1, 1, 1))),
    dynobs=dict(turn=(("vx", "vy"), (1, 1, 0)), still=(("vx", "vy", "dpsi"), (1, 1, 1))),
    spacecraft=dict(turn=(("vx", "vy"), (1, 1))),
    ped=dict(turn=(("vx", "vy"), (1, 0)), still=(("vx", "vy", "dpsi"), (1, 1))),
)


def keep_still(rng: Rng, model: dict, agent: dict) -> None:
    """The body turns on the spot, only moves along one axis or not at all"""
    options = PARTIAL_MOTION.get(model["kind"])
    if options:
        zero, fixed = options[rng.pick(sorted(options))]
        f = STATE_FIELDS[model["kind"]]
        model["x0"] = [0.0 if n in zero else v for n, v in zip(f, model["x0"])]
        if "dpsi" in f and "dpsi" not in zero and model["kind"] != "ped":
            model["x0"][f.index("dpsi")] = rng.pick([1.0, -0.7])
        agent["fixed"] = list(fixed)


def gen_episode(rng: Rng, features=None, max_steps: int = 40, n_max: int = 5, real_p: float = 0.3, prefix: str = "") -> dict:
    fs = swarm(rng, FEATURES, 0.5) if features is None else set(features)
    spec = gen_times(rng, max_steps)
    dt, tmax = Decimal(spec["dt"]), float(spec["tmax"])
    n = rng.randint(1, n_max)
    names = [prefix + s for s in rng.sample(NAMES, n)]
    area = 3.0 if "collide" in fs else 14.0
    players = []
    real = "real" in fs and rng.flip(real_p)
    followers = "impl" in fs and rng.flip(0.25)  # lane followers of dg_commons
    real = real or followers
    if real:
        n = min(n, 3)
        names = names[:n]
    for i, name in enumerate(names):
        kind = rng.pick([k for k in REAL_KINDS if not ("impl" in fs and k == "diff")]) if real and rng.flip(0.7) else "toy"
        follower = followers and (i == 0 or rng.flip(0.6))
        if follower:
            kind = rng.pick(LANE_KINDS)
        x, y = rng.r(-area, area), rng.r(-area, area)
        psi = math.atan2(-y, -x) + rng.r(-0.6, 0.6) if "collide" in fs else rng.r(-3, 3)
        speed = rng.r(0, 5)
        model = dict(kind=kind, x0=gen_x0(rng, kind, x, y, round(psi, 4), speed))
        if kind == "toy":
            model["shape"] = rng.pick([dict(k="rect", l=rng.r(0.5, 3), w=rng.r(0.5, 2)), dict(k="tri", r=rng.r(0.5, 2)),
                                       dict(k="hex", r=rng.r(0.5, 2))])
            model.update(m=rng.r(0.5, 5), Iz=rng.r(0.5, 5), e=rng.r(0, 1))
            if "inplace" in fs and rng.flip(0.5):
                model["inplace"] = True
        agent = dict(pol=rng.pick(["const", "rand"]), amp=rng.r(0, 1), seed=rng.randint(0, 10**6))
        if "chase" in fs and rng.flip(0.5):
            agent["pol"] = "chase"
        if "reuse" in fs and rng.flip(0.5):
            agent["pol"] = "reuse"
        if "byz" in fs and rng.flip(0.5):
            agent["byz"] = True
        if "slow" in fs and rng.flip(0.6):
            agent["slow"] = rng.r(0.01, 3)
            if "jump" in fs and rng.flip(0.3):
                agent["jump"] = True
        if "extra" in fs and rng.flip(0.7):
            agent["extra"] = rng.pick(["some", "all", "falsy"])
        if "impl" in fs and rng.flip(0.5):
            agent.update(gen_impl(rng, kind, tmax, x, y, psi))
        if follower:
            agent.update(gen_impl(rng, kind, tmax, x, y, psi, "lf"))
        if "still" in fs and rng.flip(0.4):
            keep_still(rng, model, agent)
        pl = dict(name=name, model=model, agent=agent)
        if "sensors" in fs and rng.flip(0.6):
            pl["sensor"] = gen_sensor(rng, dt, names)
        if "goals" in fs and rng.flip(0.6):
            pl["goal"] = gen_goal(rng, x, y, tmax)
        if players and rng.flip(0.15):
            # the same goal or sensor object for several players
            other = rng.pick(players)
            if (other.get("goal") or {}).get("k") in ("polygon", "pose", "lane"):
                pl["goal"] = dict(other["goal"])
            if (other.get("sensor") or {}).get("k") in ("partial", "ghost"):
                pl["sensor"] = dict(other["sensor"])
        players.append(pl)
    spec["players"] = players
    spec["obstacles"] = [gen_obstacle(rng, area + 3) for _ in range(rng.randint(0, 3))] if "obstacles" in fs else []
    spec["after"] = str(dt * rng.randint(0, 20)) if "after" in fs else rng.pick(["0", "100"])
    spec["seed"] = rng.pick([0, 1, 42, 2**40 + 3, -5, 123456789])
    if "mutcmd" in fs:
        spec["mutcmd"] = True
    return spec
