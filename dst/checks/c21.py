import bisect
import math
from decimal import Decimal
from fractions import Fraction

import numpy as np
from dg_commons import DgSampledSequence, UndefinedAtTime
from dg_commons.seq.sequence import DgSampledSequenceBuilder
from dg_commons.sim.models.pedestrian import PedestrianState
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dst.core.result import Result, h64

TYPES = {"D": Decimal, "f": float, "i": int}
VALUES = {"num": float, "arr": np.ndarray, "veh": VehicleState, "ped": PedestrianState, "cmd": VehicleCommands, "obj": object}


def value(kind: str, seed: int):
    """The value of a sample, a function of its seed"""
    a = [((seed * 7919 + k * 104729) % 20011) / 1000 - 10 for k in range(6)]
    if kind == "num":
        return a[0]
    if kind == "arr":
        return np.array(a[:3])
    if kind == "veh":
        return VehicleState(*a[:5])
    if kind == "ped":
        return PedestrianState(*a[:5])
    if kind == "cmd":
        return VehicleCommands(a[0], a[1])
    return ("opaque", seed)


def numbers(v) -> list[float]:
    if isinstance(v, np.ndarray):
        return [float(x) for x in v]
    if isinstance(v, (VehicleState, PedestrianState, VehicleCommands)):
        return [float(x) for x in v.as_ndarray()]
    return [float(v)]


def same(a, b) -> bool:
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool((a == b).all())
    return a == b


class Ref:
    """What was accepted"""

    def __init__(self, t=(), v=()):
        self.t, self.v = list(t), list(v)  # exact times
        self.raw: list = []

    def add(self, raw, v) -> bool:
        t = Fraction(raw)
        if self.t and t <= self.t[-1]:
            return False
        self.t.append(t)
        self.v.append(v)
        self.raw.append(raw)
        return True

    def frozen(self) -> "Ref":
        r = Ref(self.t, self.v)
        r.raw = list(self.raw)
        return r


class Check:
    ID = "C21"
    RUNS_QUICK = 15000
    RUNS_THOROUGH = 600000
    RULE = (
        "A case is, from (seed, index), one to four recorders (builders) fed by producers over a simulated transport that delays, reorders, "
        "duplicates, drops and corrupts samples, with consumers that take sequences and derive others at arbitrary moments and query them "
        "between and after later deliveries, with times as decimals, floats or integers. Non-trivial if a late sample was refused after a "
        "sequence had been taken and more was accepted afterwards."
    )
    REAL = ["dg_commons.seq.sequence", "state and command classes as values"]
    STUB = ["producers", "transport", "consumers"]
    STATE_MEASURE = "(type of times, type of values, operation, length of the sequence, class of the query time, outcome)"

    def gen(self, rng, tier):
        kinds = []
        n_b = rng.randint(1, 4)
        for _ in range(n_b):
            kinds.append(dict(t=rng.pick(["D", "D", "f", "f", "i", "fi"]), v=rng.pick(list(VALUES)), scale=rng.pick(["0.1", "0.01", "1", "0.3", "1000", "0.00001"]),
                              t0=rng.pick([0, 0, -5, 1000000, 3])))
        faults = [f for f in ("delay", "dup", "drop", "garbage") if rng.flip(0.6)]
        n = rng.randint(2, 40 if tier == "quick" else 150)
        queue = []  # (delivery, producer order)
        for k in range(n):
            b = rng.randrange(n_b)
            late = rng.r(0, 6) if "delay" in faults and rng.flip(0.4) else 0.0
            if "drop" in faults and rng.flip(0.1):
                continue
            m = dict(op="add", b=b, k=k, seed=rng.randint(0, 10**6))
            if "delay" in faults:
                m["late"] = late
            queue.append((k + late, len(queue), m))
            if "dup" in faults and rng.flip(0.25):
                queue.append((k + rng.r(0, 5), len(queue), dict(m, seed=rng.randint(0, 10**6), dup=1, jit=rng.pick([0, 0, 1, -1]))))
            if "garbage" in faults and rng.flip(0.15):
                queue.append((k + 0.5, len(queue), dict(op="bad", b=b, what=rng.pick(["str", "none", "tuple"]))))
        ops = [m for _, _, m in sorted(queue, key=lambda x: x[:2])]
        out = []
        for m in ops:
            out.append(m)
            while rng.flip(0.35):
                o = rng.pick(["take", "take", "query", "query", "query", "sub", "shift", "map", "iter"])
                if o == "take":
                    out.append(dict(op="take", b=rng.randrange(n_b)))
                else:
                    out.append(dict(op=o, s=rng.randint(0, 99), q=[rng.randint(0, 99), rng.pick(["at", "at", "mid", "eps-", "eps+", "before", "after", "any"]),
                               rng.r(0, 1)], q2=[rng.randint(0, 99), rng.pick(["at", "mid", "before", "after"]), rng.r(0, 1)],
                               by=rng.randint(-50, 50), cast=rng.flip(0.3)))
        return dict(kinds=kinds, ops=out)

    def run(self, spec, res: Result):
        kinds = spec["kinds"]
        builders = [DgSampledSequenceBuilder[VALUES[k["v"]]]() for k in kinds]
        refs = [Ref() for _ in kinds]
        taken: list = []  # (sequence, reference, kind)
        refused_after_take = accepted_later = False
        res.schedule = h64([(m["op"], m.get("b"), m.get("k")) for m in spec["ops"]])
        for n, m in enumerate(spec["ops"]):
            op = m["op"]
            if op in ("add", "bad"):
                k, b, r = kinds[m["b"]], builders[m["b"]], refs[m["b"]]
                if op == "bad":
                    if not r.t:
                        continue
                    raw = {"str": "12", "none": None, "tuple": (1, 2)}[m["what"]]
                    res.faults["garbage"] += 1
                    v, ok = 0, False
                else:
                    raw = self.time(k, m["k"], m.get("jit", 0))
                    v = value(k["v"], m["seed"])
                    ok = r.add(raw, v)
                    if m.get("late"):
                        res.faults["delayed"] += 1
                    if m.get("dup"):
                        res.faults["duplicated"] += 1
                try:
                    b.add(raw, v)
                    got = True
                except Exception:
                    got = False
                res.event("add", n, m["b"], str(raw), got)
                res.state(k["t"], k["v"], op, min(len(r.t), 8), ok)
                if got != ok:
                    res.violation("accept", f"operation {n}: a sample at {raw!r} after {list(map(str, b.timestamps))[-3:]} was {'accepted' if got else 'refused'}")
                    return
                if not ok:
                    refused_after_take |= bool(taken)
                elif refused_after_take:
                    accepted_later = True
                if not self.holds(b.timestamps, b.values, r) or len(b) != len(r.t):
                    res.violation("record", f"operation {n} ({'accepted' if ok else 'refused'} sample at {raw!r}): the builder holds "
                                  f"{self.show(b.timestamps, b.values)}, accepted were {self.show(r.raw, r.v)}")
                    return
            elif op == "take":
                k = kinds[m["b"]]
                s = builders[m["b"]].as_sequence()
                taken.append((s, refs[m["b"]].frozen(), k))
            elif taken:
                i = m["s"] % len(taken)
                s, r, k = taken[i]
                if not self.use(n, m, s, r, k, taken, res):
                    return
            for s, r, k in taken:
                if not self.holds(s.timestamps, s.values, r) or len(s) != len(r.t):
                    res.violation("changed", f"after operation {n} ({op}) a sequence taken earlier holds {self.show(s.timestamps, s.values)}, it was "
                                  f"{self.show(r.raw, r.v)}")
                    return
            if len(taken) > 12:
                taken.pop(n % 12)
        res.stats["sequences"] += len(taken)
        res.sim_time += len(spec["ops"])
        res.nontrivial = refused_after_take and accepted_later

    @staticmethod
    def time(k, i: int, jit: int):
        ty = k["t"]
        x = Decimal(k["t0"]) + Decimal(k["scale"]) * i
        if ty == "fi":
            x = Decimal(k["t0"] + i)
            return int(x) if i % 2 else float(x)
        if ty == "i":
            return k["t0"] + i
        if ty == "D":
            return x + jit * Decimal("1e-15")
        return math.nextafter(float(x), jit * math.inf) if jit else float(x)

    @staticmethod
    def holds(ts, vs, r: Ref) -> bool:
        return (
            len(ts) == len(vs) == len(r.raw)
            and all(type(a) is type(b) and a == b for a, b in zip(ts, r.raw))
            and all(same(a, b) for a, b in zip(vs, r.v))
        )

    @staticmethod
    def show(ts, vs) -> str:
        return "[" + ", ".join(f"{t}: {v}" for t, v in list(zip(map(str, ts), vs))[-4:]) + f"] ({len(ts)})"

    def point(self, q, r: Ref, k, cast: bool):
        """A query time, of the type of the times of the sequence (or another that compares with it)"""
        i, how, w = q
        ty = k["t"][0]
        if not r.raw:
            x = Decimal(1)
        else:
            i %= len(r.raw)
            t = r.raw[i]
            if how == "at":
                return float(t) if cast and ty != "f" else t
            j = min(i + 1, len(r.raw) - 1)
            x = Decimal(str(t))
            y = Decimal(str(r.raw[j]))
            if how == "mid" or how == "any":
                x = x + (y - x) * Decimal(str(w))
            elif how == "eps-":
                x -= Decimal("0.0001")
            elif how == "eps+":
                x += Decimal("0.0001")
            elif how == "before":
                x = Decimal(str(r.raw[0])) - Decimal(str(w)) - Decimal("0.001")
            else:
                x = Decimal(str(r.raw[-1])) + Decimal(str(w)) + Decimal("0.001")
        if ty == "D" and not cast:
            return x
        if ty == "i" and not cast and how != "mid":
            return math.floor(x)
        return float(x)

    def use(self, n, m, s, r: Ref, k, taken, res: Result) -> bool:
        op = m["op"]
        t = self.point(m["q"], r, k, m["cast"])
        if op == "query":
            ft = Fraction(t)
            pos = bisect.bisect_right(r.t, ft)
            exact = pos > 0 and r.t[pos - 1] == ft
            res.event("query", n, str(t), pos, exact)
            res.state(k["t"], k["v"], min(len(r.t), 8), pos == 0, pos == len(r.t), exact, m["cast"])
            for name in ("at", "at_or_previous", "at_interp"):
                if name == "at_interp" and k["v"] == "obj" and 0 < pos < len(r.t):
                    continue
                err = got = None
                try:
                    got = getattr(s, name)(t)
                except Exception as e:
                    err = e
                if not r.t:
                    ok = err is not None
                    want = "an error, the sequence being empty"
                elif name == "at":
                    ok = same(got, r.v[pos - 1]) and err is None if exact else isinstance(err, UndefinedAtTime)
                    want = r.v[pos - 1] if exact else "UndefinedAtTime"
                elif name == "at_or_previous":
                    ok = isinstance(err, UndefinedAtTime) if pos == 0 else err is None and same(got, r.v[pos - 1])
                    want = "UndefinedAtTime" if pos == 0 else r.v[pos - 1]
                elif pos == 0 or pos == len(r.t):
                    want = r.v[0] if pos == 0 else r.v[-1]
                    ok = err is None and same(got, want)
                else:
                    a, b = numbers(r.v[pos - 1]), numbers(r.v[pos])
                    gap = r.t[pos] - r.t[pos - 1]
                    w = float((ft - r.t[pos - 1]) / gap)
                    want = [x * (1 - w) + y * w for x, y in zip(a, b)]
                    tol = [1e-9 + abs(y - x) * (1e-9 + 1e-15 * float(abs(ft)) / float(gap)) for x, y in zip(a, b)]
                    ok = err is None and type(got) is type(r.v[pos]) and all(abs(g - x) <= e for g, x, e in zip(numbers(got), want, tol))
                if not ok:
                    res.violation(name, f"operation {n}: {name}({t!r}) of {self.show(r.raw, r.v)} gave {got if err is None else repr(err)[:80]}, expected {want}")
                    return False
            if r.t and not (s.get_start() == r.raw[0] and s.get_end() == r.raw[-1]):
                res.violation("ends", f"operation {n}: start and end {s.get_start()}, {s.get_end()} of {self.show(r.raw, r.v)}")
                return False
            return True
        if op == "sub":
            t2 = self.point(m["q2"], r, k, m["cast"])
            lo, hi = sorted((t, t2))
            new = s.get_subsequence(lo, hi)
            want = Ref()
            for raw, v in zip(r.raw, r.v):
                if Fraction(lo) <= Fraction(raw) <= Fraction(hi):
                    want.add(raw, v)
        elif op == "shift":
            by = TYPES[k["t"][0]](m["by"])
            want = Ref()
            for raw, v in zip(r.raw, r.v):
                if not want.add(raw + by, v):
                    return True  # not representable: two times become one
            new = s.shift_timestamps(by)
        elif op == "map":
            keep = lambda v: None if h64(str(v)) % 4 == 0 else ("x", str(v))
            new = s.transform_values(keep, tuple)
            want = Ref()
            for raw, v in zip(r.raw, r.v):
                if keep(v) is not None:
                    want.add(raw, keep(v))
        else:
            got = list(s)
            if not self.holds([a for a, _ in got], [b for _, b in got], r):
                res.violation("iterate", f"operation {n}: iterating gave {got}, recorded were {self.show(r.raw, r.v)}")
                return False
            if not (r.t and k["v"] == "num"):
                return True
            fresh = DgSampledSequence[float](timestamps=list(s.timestamps), values=list(s.values))
            if hash(fresh) != hash(s) or fresh != s:
                res.violation("equality", f"operation {n}: the sequence differs from one of the same samples")
                return False
            return True
        res.event(op, n, len(new))
        if not self.holds(new.timestamps, new.values, want):
            res.violation(op, f"operation {n}: {op} of {self.show(r.raw, r.v)} gave {self.show(new.timestamps, new.values)}, expected {self.show(want.raw, want.v)}")
            return False
        taken.append((new, want, dict(k, v="obj" if op == "map" else k["v"])))
        return True


CHECK = Check()
