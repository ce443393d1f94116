"""Virtual clock: the clocks that the simulation may read are functions of the seed, not of the wall."""
import time as _time

_real = {n: getattr(_time, n) for n in ("perf_counter", "process_time", "time", "monotonic", "thread_time")}
real_monotonic = _time.monotonic
real_time = _time.time


class VClock:
    def __init__(self):
        self.reset()

    def reset(self, start: float = 1000.0, auto: float = 0.0):
        self.now = start
        self.auto = auto
        """how much the clock advances at every reading"""
        self.reads = 0

    def advance(self, d: float):
        self.now += d

    def read(self) -> float:
        self.reads += 1
        self.now += self.auto
        return self.now


CLOCK = VClock()


def install():
    for n in _real:
        setattr(_time, n, CLOCK.read)
        ns = n + "_ns"
        if hasattr(_time, ns):
            setattr(_time, ns, lambda: int(CLOCK.read() * 1e9))
