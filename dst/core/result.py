import hashlib
import json
import struct
from collections import Counter
from typing import Any


def h64(*parts: Any) -> int:
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        m.update(repr(p).encode())
        m.update(b"|")
    return int.from_bytes(m.digest(), "big")


def fl(x: Any) -> str:
    """Exact representation of a float"""
    return float(x).hex()


class Result:
    """What one simulated run gives"""

    def __init__(self):
        self.violations: list[dict] = []
        self.trace: list[str] = []
        self._h = hashlib.blake2b(digest_size=16)
        self.n_events = 0
        self.faults: Counter = Counter()
        self.stats: Counter = Counter()
        self.states: set[int] = set()
        self.sim_time: float = 0.0
        self.nontrivial: bool = False
        self.keep_trace = False
        self.schedule: int = 0

    def event(self, *parts: Any):
        """Records one event of the run: its digest identifies the execution"""
        s = " ".join(p if isinstance(p, str) else repr(p) for p in parts)
        self._h.update(s.encode())
        self._h.update(b"\n")
        self.n_events += 1
        if self.keep_trace:
            self.trace.append(s)

    def digest(self) -> str:
        return self._h.hexdigest()

    def violation(self, kind: str, msg: str, **data):
        self.violations.append(dict(kind=kind, msg=msg, **data))

    def state(self, *parts):
        self.states.add(h64(*parts))


class HarnessError(Exception):
    """The harness itself is wrong or cannot conclude (never reported as a violation)"""
