"""Seeded search over simulated runs: workers, minimisation, replay files, evidence."""
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import traceback
from collections import Counter

from dst.core import boot, clock
from dst.core.clock import CLOCK, real_monotonic
from dst.core.result import HarnessError, Result, h64
from dst.core.rng import Rng

RUN_WALL_LIMIT = 400
"""seconds of wall clock given to a single run before the harness gives up on it (no verdict)"""
RUN_CPU_LIMIT = 120
"""seconds of processor time after which a run counts as one that never ends (the longest ones take a few seconds)"""
UNREADABLE = (ArithmeticError, AssertionError, AttributeError, LookupError, TypeError, ValueError)
"""what the oracles raise on an outcome of the code under test they cannot make sense of (None for a report, ...)"""


class RunTimeout(HarnessError):
    pass


class Stalled(BaseException):
    """The run used up its processor time; not an Exception, so that the code under test does not swallow it"""


def load(pid: str):
    return importlib.import_module(f"dst.checks.{pid.lower()}").CHECK


def _alarm(*_):
    raise RunTimeout("wall clock limit of one run exceeded")


def _stalled(*_):
    raise Stalled()


def from_code_under_test(tb) -> bool:
    """Whether an exception was raised by the code under test (or by a library called by it) rather than by the harness"""
    frames = traceback.extract_tb(tb)
    repo = os.path.join(os.path.abspath(boot.REPO), "")
    dst = os.path.join(boot.VERIF, "dst", "")
    last_repo = max((i for i, f in enumerate(frames) if f.filename.startswith(repo)), default=-1)
    last_dst = max((i for i, f in enumerate(frames) if f.filename.startswith(dst)), default=-1)
    return last_repo > last_dst


def execute(check, spec: dict, keep_trace: bool = False) -> Result:
    """Executes one spec from a clean state of the process' seams"""
    import numpy as np

    random.seed(12345)
    np.random.seed(12345)
    CLOCK.reset()
    res = Result()
    res.keep_trace = keep_trace
    old = signal.signal(signal.SIGALRM, _alarm)
    old_prof = signal.signal(signal.SIGPROF, _stalled)
    signal.alarm(RUN_WALL_LIMIT)
    signal.setitimer(signal.ITIMER_PROF, RUN_CPU_LIMIT, 5)
    try:
        check.run(spec, res)
    except HarnessError:
        raise
    except Stalled:
        res.violation("stalled", f"the run has not ended after {RUN_CPU_LIMIT} s of processor time")
    except Exception as e:
        if from_code_under_test(e.__traceback__):
            where = traceback.extract_tb(e.__traceback__)[-1]
            res.violation(
                "unexpected-exception",
                f"{type(e).__name__}: {str(e)[:300]} (raised in {os.path.basename(where.filename)}:{where.name})",
                trace=traceback.format_exc()[-3000:],
            )
        elif isinstance(e, UNREADABLE):
            where = traceback.extract_tb(e.__traceback__)[-1]
            res.violation(
                "malformed-outcome",
                f"{type(e).__name__}: {str(e)[:300]} (raised in {os.path.basename(where.filename)}:{where.name}) "
                "by the oracle, which cannot make sense of what the code under test returned",
                trace=traceback.format_exc()[-3000:],
            )
        else:
            raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old_prof)
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return res


def spec_of(check, seed: int, tier: str, i: int) -> dict:
    rng = Rng(f"{seed}/{check.ID}/{i}")
    spec = check.gen(rng, tier)
    spec = json.loads(json.dumps(spec))
    return spec


class Agg:
    """Aggregation of the results of many runs"""

    def __init__(self):
        self.runs = 0
        self.nontrivial: set = set()
        self.faults: Counter = Counter()
        self.stats: Counter = Counter()
        self.states: set[int] = set()
        self.schedules: set[int] = set()
        self.digests: set[str] = set()
        self.sim_time = 0.0
        self.events = 0
        self.samples: list = []
        self.found: list = []
        self.errors: list = []
        self.sample_digests: dict = {}
        self.skipped = 0

    def add(self, i: int, spec: dict, res: Result, known):
        self.runs += 1
        d = res.digest()
        self.digests.add(d)
        if res.nontrivial:
            self.nontrivial.add(d)
        self.faults += res.faults
        self.stats += res.stats
        self.states |= res.states
        self.schedules.add(res.schedule)
        self.sim_time += res.sim_time
        self.events += res.n_events
        if len(self.samples) < 2 and res.nontrivial:
            self.samples.append(dict(index=i, spec=spec, digest=d, events=res.n_events))
        if len(self.sample_digests) < 2:
            self.sample_digests[i] = d
        for v in res.violations:
            k = known.match(v)
            if k:
                self.stats["known:" + k] += 1
            else:
                self.found.append((i, spec, v))
                break

    def merge(self, o: "Agg"):
        self.runs += o.runs
        self.nontrivial |= o.nontrivial
        self.faults += o.faults
        self.stats += o.stats
        self.states |= o.states
        self.schedules |= o.schedules
        self.digests |= o.digests
        self.sim_time += o.sim_time
        self.events += o.events
        self.samples += o.samples
        self.found += o.found
        self.errors += o.errors
        self.sample_digests.update(o.sample_digests)
        self.skipped += o.skipped


class Known:
    """Known findings: lines `finding: property=<id> key=<kind> [match=<text in the message>] <what fails>`"""

    def __init__(self, pid: str):
        self.entries = []
        path = os.path.join(boot.VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line.startswith("finding:"):
                    f = dict(p.split("=", 1) for p in line.split()[1:] if "=" in p)
                    if f.get("property") == pid:
                        self.entries.append((f.get("key"), f.get("match", "").replace("~", " "), line))

    def match(self, v: dict):
        for key, text, line in self.entries:
            if v["kind"] == key and text in v["msg"]:
                return line
        return None


def worker(check, seed: int, tier: str, indices, deadline: float, known) -> Agg:
    agg = Agg()
    for i in indices:
        if real_monotonic() > deadline:
            agg.skipped += 1
            continue
        try:
            spec = spec_of(check, seed, tier, i)
            res = execute(check, spec)
        except Exception:
            agg.errors.append((i, traceback.format_exc()[-4000:]))
            if len(agg.errors) > 2:
                break
            continue
        agg.add(i, spec, res, known)
        if agg.found:
            break
    return agg


def fork_map(jobs: int, fun, args_list) -> list:
    """Runs fun(*args) for each args in forked processes, results are pickled back through pipes"""
    pending = list(enumerate(args_list))
    running: dict[int, tuple] = {}
    results: dict[int, object] = {}
    buffers: dict[int, bytearray] = {}
    while pending or running:
        while pending and len(running) < jobs:
            k, args = pending.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    out = fun(*args)
                    data = pickle.dumps(out)
                    with os.fdopen(w, "wb") as fh:
                        fh.write(data)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            running[r] = (k, pid)
            buffers[r] = bytearray()
        ready, _, _ = select.select(list(running), [], [])
        for r in ready:
            data = os.read(r, 1 << 20)
            if data:
                buffers[r] += data
            else:
                k, pid = running.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                results[k] = pickle.loads(bytes(buffers.pop(r))) if buffers[r] else None
    return [results[k] for k in range(len(args_list))]


# ---------------------------------------------------------------- minimisation
def shrink_candidates(spec):
    """Generic candidates: fewer list elements, fewer optional entries, simpler numbers"""
    if isinstance(spec, dict):
        for k in list(spec):
            v = spec[k]
            if k.startswith("!"):
                continue
            if isinstance(v, list):
                n = len(v)
                step = n // 2
                while step >= 1:
                    for a in range(0, n, step):
                        if n - min(step, n - a) >= 0:
                            yield {**spec, k: v[:a] + v[a + step:]}
                    step //= 2
                for a, e in enumerate(v):
                    for c in shrink_candidates(e):
                        yield {**spec, k: v[:a] + [c] + v[a + 1:]}
            elif isinstance(v, dict):
                if not k.startswith("="):
                    for kk in list(v):
                        yield {**spec, k: {q: w for q, w in v.items() if q != kk}}
                for c in shrink_candidates(v):
                    yield {**spec, k: c}
            elif isinstance(v, bool):
                if v:
                    yield {**spec, k: False}
            elif isinstance(v, (int, float)) and v != 0:
                yield {**spec, k: type(v)(0)}
                if isinstance(v, float):
                    if round(v, 1) != v:
                        yield {**spec, k: round(v, 1)}
                elif abs(v) > 1:
                    yield {**spec, k: int(v / 2)}
            elif v is not None and k in ("goal", "sensor", "fault"):
                yield {**spec, k: None}


def vkey(v: dict) -> str:
    """What makes two violations the same while minimising: an exception only stands for itself"""
    if v["kind"] in ("unexpected-exception", "malformed-outcome"):
        return v["kind"] + v["msg"].split(":")[0] + v["msg"].rsplit("(raised in", 1)[-1].split(")")[0]
    return v["kind"]


def minimise(check, spec: dict, kind: str, budget_s: float, max_runs: int = 600):
    """Greedy delta debugging on the spec, a candidate is kept if it still shows the same kind of violation"""
    t_end = real_monotonic() + budget_s
    runs = 0
    improved = True
    cands = getattr(check, "shrink", None) or shrink_candidates
    while improved and real_monotonic() < t_end and runs < max_runs:
        improved = False
        for cand in cands(spec):
            if real_monotonic() > t_end or runs >= max_runs:
                break
            runs += 1
            try:
                cand = json.loads(json.dumps(cand))
                res = execute(check, cand)
            except Exception:
                continue
            if any(vkey(v) == kind for v in res.violations):
                spec = cand
                improved = True
                break
    return spec, runs


# ---------------------------------------------------------------- entry points
def write_json(path: str, obj) -> None:
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + f".{os.getpid()}.tmp"
    with open(tmp, "w") as fh:
        json.dump(obj, fh, indent=1, default=str)
        fh.write("\n")
    os.replace(tmp, path)


def replay(pid: str, path: str) -> int:
    check = load(pid)
    with open(path) as fh:
        rep = json.load(fh)
    res = execute(check, rep["spec"], keep_trace=True)
    want = vkey(rep["violation"])
    got = [v for v in res.violations if vkey(v) == want]
    if "--trace" in sys.argv:
        print("\n".join(res.trace))
    if got:
        same = res.digest() == rep.get("digest")
        print(f"replayed: {got[0]['kind']}: {got[0]['msg']}")
        print(f"digest {res.digest()} {'identical' if same else 'DIFFERENT from the recorded ' + str(rep.get('digest'))}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"the violation of {pid} in {path} does not occur any more (digest {res.digest()})")
    return 0


def exec_main(pid: str, path: str) -> int:
    """Runs the part of a check that belongs to another process"""
    with open(path) as fh:
        spec = json.load(fh)
    print("OUT " + json.dumps(load(pid).child(spec)))
    return 0


def digests_main(pid: str, tier: str, seed: int, indices: list[int]) -> int:
    check = load(pid)
    out = {}
    for i in indices:
        out[i] = execute(check, spec_of(check, seed, tier, i)).digest()
    print("DIGESTS " + json.dumps(out))
    return 0


def sub_python(args: list[str], hashseed: str, timeout: float, **extra_env) -> subprocess.CompletedProcess:
    scratch = boot.make_scratch()
    try:
        return subprocess.run(
            [boot.PYTHON, os.path.join(boot.VERIF, "dst", "run.py"), *args],
            env=boot.child_env(hashseed=hashseed, scratch=scratch, **extra_env),
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            text=True,
            timeout=timeout,
            cwd=boot.VERIF,
        )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(pid: str, tier: str, seed: int) -> int:
    t0 = real_monotonic()
    check = load(pid)
    known = Known(pid)
    jobs = int(os.environ.get("DST_JOBS") or 0) or max(1, len(os.sched_getaffinity(0)))
    n = int(os.environ.get("DST_RUNS") or 0) or (check.RUNS_QUICK if tier == "quick" else check.RUNS_THOROUGH)
    soft = 420 if tier == "quick" else 3 * 3600
    deadline = t0 + soft
    if hasattr(check, "prepare"):
        check.prepare()
    nw = min(jobs, n)
    parts = fork_map(
        jobs, worker, [(check, seed, tier, list(range(w, n, nw)), deadline, known) for w in range(nw)]
    )
    agg = Agg()
    for k, p in enumerate(parts):
        if p is None:
            agg.errors.append((k, "a worker process died"))
        else:
            agg.merge(p)
    search_s = real_monotonic() - t0
    violations = 0
    replay_path = None
    confirmed = None
    if agg.found:
        violations = len(agg.found)
        i, spec, v = min(agg.found, key=lambda f: f[0])
        small, mruns = spec, 0
        if v["kind"] not in ("malformed-outcome", "stalled"):  # a smaller spec could only blur these
            small, mruns = fork_map(1, minimise, [(check, spec, vkey(v), 60.0)])[0] or (spec, 0)
        res = execute(check, small, keep_trace=True)
        vs = [w for w in res.violations if vkey(w) == vkey(v)]
        if not vs:
            small, res = spec, execute(check, spec, keep_trace=True)
            vs = [w for w in res.violations if vkey(w) == vkey(v)] or [v]
        v = vs[0]
        replay_path = os.path.join(boot.VERIF, "replays", f"{pid}-{seed}-{i}.json")
        write_json(
            replay_path,
            dict(
                property=pid,
                seed=seed,
                tier=tier,
                run_index=i,
                violation=v,
                digest=res.digest(),
                spec=small,
                original_spec=spec,
                minimisation_runs=mruns,
                trace_tail=res.trace[-200:],
            ),
        )
        try:
            cp = sub_python([pid, "--replay", replay_path], "7", 200)
            confirmed = cp.returncode == 1 and "identical" in cp.stdout
        except subprocess.TimeoutExpired:
            confirmed = False
        print(f"{pid}: {v['kind']}: {v['msg']}")
        print(f"seed {seed} run {i}, minimised in {mruns} runs, replay confirmed in a fresh process: {confirmed}")
    determinism = None
    if not agg.found and agg.sample_digests and not getattr(check, "NO_SELF_CHECK", False):
        idx = sorted(agg.sample_digests)[:4]
        try:
            cp = sub_python([pid, "--digests", ",".join(map(str, idx)), "--tier", tier, "--seed", str(seed)], "99", 300)
            line = [l for l in cp.stdout.splitlines() if l.startswith("DIGESTS ")]
            got = json.loads(line[0][8:]) if line else {}
            equal = sum(got.get(str(i)) == agg.sample_digests[i] for i in idx)
            determinism = dict(reexecuted_in_fresh_process_with_other_hash_seed=len(idx), identical=equal)
        except subprocess.TimeoutExpired:
            determinism = dict(error="timeout")
    wall = real_monotonic() - t0
    cov = dict(
        evaluations=agg.runs,
        distinct_nontrivial=len(agg.nontrivial),
        rule=check.RULE,
        samples=agg.samples[:3],
        seeds_per_hour=round(agg.runs / max(search_s, 1e-9) * 3600),
        simulated_time_s=round(agg.sim_time, 3),
        events=agg.events,
        distinct_executions=len(agg.digests),
        distinct_states=len(agg.states),
        state_measure=getattr(check, "STATE_MEASURE", "coarse abstract states reached"),
        distinct_schedules=len(agg.schedules),
        faults_injected=dict(sorted(agg.faults.items())),
        counters=dict(sorted((k, v) for k, v in agg.stats.items() if not k.startswith("known:"))),
        real_components=check.REAL,
        stubbed_components=check.STUB,
        determinism=determinism,
        runs_skipped_for_time=agg.skipped,
        harness_errors=len(agg.errors),
        workers=jobs,
    )
    write_json(
        os.path.join(boot.VERIF, "evidence", f"{pid}.json"),
        dict(
            property=pid,
            tier=tier,
            seed=seed,
            level="exploration",
            coverage=cov,
            assumptions=getattr(check, "ASSUMPTIONS", []),
            violations=violations,
            wall_s=round(wall, 3),
        ),
    )
    for k in sorted(k for k in agg.stats if k.startswith("known:")):
        line = k[len("known:"):]
        print(f"KNOWN-FINDING: property={pid} {line}")
    if agg.found:
        print(f"VIOLATION property={pid} replay={replay_path}")
        return 1
    if agg.errors:
        print(f"{pid}: {len(agg.errors)} harness errors, no verdict; first:\n{agg.errors[0][1]}", file=boot.STDERR)
        return 2
    if agg.runs == 0 or not agg.nontrivial:
        print(f"{pid}: no nontrivial run, no verdict", file=boot.STDERR)
        return 2
    print(
        f"{pid}: held on {agg.runs} simulated runs ({len(agg.nontrivial)} distinct nontrivial, {agg.sim_time:.0f} s simulated, "
        f"{sum(agg.faults.values())} faults) in {wall:.1f} s"
    )
    return 0
