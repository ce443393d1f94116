"""Reference model of the simulation loop.

It knows only the spec of an episode and the sequence of true states recorded at the interfaces of the bodies; from these it
decides which players are active at which step, when they are asked, and when the episode ends.
"""
from collections import defaultdict
from decimal import Decimal

from dst.world.world import World, canon


class Loop:
    def __init__(self, w: World):
        self.w = w
        s = w.spec
        self.dt, self.dtc, self.tmax = Decimal(s["dt"]), Decimal(s["dtc"]), Decimal(s["tmax"])
        self.after = Decimal(s.get("after", "0"))
        self.names = [p["name"] for p in s["players"]]
        self.upd = defaultdict(lambda: defaultdict(list))
        self.ask = defaultdict(lambda: defaultdict(list))
        self.cmd = defaultdict(lambda: defaultdict(list))
        self.sense = defaultdict(lambda: defaultdict(list))
        self.sensed = defaultdict(lambda: defaultdict(list))
        self.extra = defaultdict(lambda: defaultdict(list))
        self.setv = defaultdict(lambda: defaultdict(list))
        for i, e in enumerate(w.rec.events):
            e.d["i"] = i
            tab = self.__dict__.get(e.kind)
            if isinstance(tab, defaultdict):
                tab[e.t][e.p].append(e)
        self.missions = [p["name"] for p in s["players"] if p.get("goal")]
        self.reports = list(w.ctx.collision_reports)
        self._model()

    def t(self, k: int) -> Decimal:
        return self.dt * k

    def happened(self, t) -> bool:
        return any(self.upd[t].values()) or any(self.ask[t].values())

    def _model(self):
        """Who is active at which step, driven by the recorded true states"""
        active = list(self.names)
        self.active: list[list[str]] = []
        self.request: list[bool] = []
        self.removed: dict[str, int] = {}
        # true states of all the players before each step, and at the moment goals are evaluated
        self.before: list[dict] = []
        self.final: dict = {}
        state = dict(self.w.initial_raw)
        last = None
        self.ended_at = None
        self.early = None
        k = 0
        while True:
            t, t1 = self.t(k), self.t(k + 1)
            if active and not self.happened(t):
                self.early = k
                break
            self.active.append(list(active))
            self.before.append(dict(state))
            req = last is None or t - last >= self.dtc
            self.request.append(req)
            if req:
                last = t
            for p in self.names:
                if self.upd[t][p]:
                    state[p] = self.upd[t][p][-1].d["raw_after"]
            for p in list(active):
                done = self.w.goal_fulfilled(p, state[p], float(t1))
                if done is None:  # too close to call: follow what happened
                    done = not self.upd[t1][p] and p not in self.w.ctx.players
                if done:
                    active.remove(p)
                    self.removed[p] = k + 1
                    self.final[p] = state[p]
            first = min((r.at_time for r in self.reports if r.at_time <= t), default=None)
            if (
                t1 > self.tmax
                or (first is not None and t1 > first + self.after)
                or not active
                or (self.missions and all(p not in active for p in self.missions))
            ):
                self.ended_at = k + 1
                break
            # collisions
            for p in self.names:
                if self.setv[t1][p]:
                    state[p] = self.setv[t1][p][-1].d["raw_after"]
            if k > self.w.max_steps + 5:
                break
            k += 1
        self.n_steps = len(self.active)

    def observed_steps(self) -> list:
        """Times at which something happened, in order"""
        return [t for t in sorted(set(list(self.upd) + list(self.ask))) if self.happened(t)]
