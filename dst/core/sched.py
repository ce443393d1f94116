"""Deterministic scheduler of real threads.

Exactly one of the threads of a run holds the baton and executes; the others wait. The baton can change hands only at yield
points: the callbacks of the participants, every source line executed in the code under test (and in the libraries listed in
TRACED), and the acquisition of a lock of the code under test. An explicit list of switches [[gap, choice], ...] decides: after
`gap` yield points the baton goes to the `choice`-th of the threads that can run. Hence a list of switches is one exactly
repeatable interleaving. After the list is exhausted threads run to completion one after the other.
"""
import os
import sys
import threading
import _thread

from dst.core import boot

REPO_PREFIX = os.path.join(os.path.abspath(boot.REPO), "src", "")
TRACED_LIBS = ("cachetools",)


class Deadlock(BaseException):
    pass


class _Worker:
    def __init__(self, tid: int, fun):
        self.tid = tid
        self.fun = fun
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.blocked_on = None
        self.result = None
        self.error = None


class Scheduler:
    current = None

    def __init__(self, switches, trace_lines: bool = True):
        self.switches = [list(s) for s in switches]
        self.pos = 0
        self.left = self.switches[0][0] if self.switches else -1
        self.workers: list[_Worker] = []
        self.active = None
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.trace_lines = trace_lines
        self.n_yields = 0
        self.n_switches = 0
        self.order: list[int] = []
        self.deadlock = False
        self._files: dict[str, bool] = {}

    # ---- decisions
    def runnable(self):
        return [w for w in self.workers if not w.done and (w.blocked_on is None or w.blocked_on.free())]

    def _next_choice(self) -> int:
        c = self.switches[self.pos][1] if self.pos < len(self.switches) else 0
        self.pos += 1
        self.left = self.switches[self.pos][0] if self.pos < len(self.switches) else -1
        return c

    def yield_point(self):
        """Called by the running thread"""
        w = self.active
        if w is None or _thread.get_ident() != w.ident:
            return
        self.n_yields += 1
        if self.left < 0:
            return
        self.left -= 1
        if self.left > 0:
            return
        c = self._next_choice()
        rs = self.runnable()
        if not rs:
            return
        nxt = rs[c % len(rs)]
        if nxt is not w:
            self._hand_over(w, nxt)

    def _hand_over(self, w, nxt):
        self.n_switches += 1
        self.order.append(nxt.tid)
        self.active = nxt
        nxt.gate.release()
        w.gate.acquire()
        if self.deadlock:
            raise Deadlock()

    def block(self, lock):
        """The running thread needs a lock held by another thread"""
        w = self.active
        w.blocked_on = lock
        rs = [x for x in self.runnable() if x is not w]
        if not rs:
            self._abort()
            raise Deadlock()
        self._hand_over(w, rs[0])
        w.blocked_on = None

    def _abort(self):
        self.deadlock = True

    # ---- threads
    def _tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        ok = self._files.get(fn)
        if ok is None:
            ok = fn.startswith(REPO_PREFIX) or any(os.sep + lib + os.sep in fn for lib in TRACED_LIBS)
            self._files[fn] = ok
        return self._local if ok else None

    def _local(self, frame, event, arg):
        if event == "line":
            self.yield_point()
        return self._local

    def _main(self, w: _Worker):
        w.ident = _thread.get_ident()
        w.gate.acquire()
        try:
            if self.deadlock:
                return
            if self.trace_lines:
                sys.settrace(self._tracer)
            w.result = w.fun()
        except BaseException as e:  # kept for the caller of run
            w.error = e
        finally:
            sys.settrace(None)
            w.done = True
            self._leave()

    def _leave(self):
        rest = [x for x in self.workers if not x.done]
        if not rest:
            self.finished.release()
            return
        rs = self.runnable()
        if not rs:
            self._abort()
            rs = rest
        nxt = rs[0]
        self.active = nxt
        self.order.append(nxt.tid)
        nxt.gate.release()

    def run(self, funs) -> list[_Worker]:
        self.workers = [_Worker(i, f) for i, f in enumerate(funs)]
        Scheduler.current = self
        started = []
        try:
            for w in self.workers:
                t = threading.Thread(target=self._main, args=(w,), daemon=True)
                started.append(t)
                t.start()
            self.active = self.workers[0]
            self.order.append(0)
            self.workers[0].gate.release()
            self.finished.acquire()
            for t in started:
                t.join(5)
        finally:
            Scheduler.current = None
        return self.workers


class SimLock:
    """Lock given to the code under test: waiting for it is a decision of the scheduler"""

    def __init__(self, reentrant: bool):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def free(self) -> bool:
        return self.owner is None

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me = _thread.get_ident()
        sch = Scheduler.current
        if sch is not None:
            sch.yield_point()
        if self.owner == me and self.reentrant:
            self.count += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            if sch is None:
                raise Deadlock("lock held by a thread that is not running any more")
            sch.block(self)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def install():
    """The locks that the code under test creates are locks of the scheduler"""
    real_lock, real_rlock = threading.Lock, threading.RLock

    def is_ours() -> bool:
        return sys._getframe(2).f_globals.get("__name__", "").startswith("dg_commons")

    def Lock(*a):
        return SimLock(False) if is_ours() else real_lock(*a)

    def RLock(*a):
        return SimLock(True) if is_ours() else real_rlock(*a)

    threading.Lock, threading.RLock = Lock, RLock


def gen_switches(rng, n_threads: int, max_switches: int = 60) -> list:
    """A random interleaving: dense, sparse or mixed"""
    mode = rng.pick(["dense", "mid", "sparse", "mixed", "mixed"])
    out = []
    for _ in range(rng.randint(1, max_switches)):
        top = {"dense": 8, "mid": 60, "sparse": 800, "mixed": rng.pick([3, 20, 100, 600])}[mode]
        out.append([rng.randint(1, top), rng.randrange(n_threads)])
    return out
