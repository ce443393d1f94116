"""Process set-up shared by the parent, the workers and the replay processes.

Has to run before anything of dg_commons is imported: it puts the sources of nondeterminism of the interpreter behind
seams (clock, hash seed, compiled files, plotting backend, logging output).
"""
import os
import shutil
import sys
import tempfile

PYTHON = "/opt/venv/bin/python"
REPO = os.environ.get("DST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def child_env(hashseed: str = "0", scratch: str | None = None, **extra: str) -> dict[str, str]:
    keep = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "VERIF_SEED", "VERIF_TIER", "TMPDIR", "DST_REPO",
                                                         "DST_JOBS", "DST_RUNS")}
    env = dict(
        keep,
        HOME=scratch or "/nonexistent",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED=hashseed,
        DISABLE_CONTRACTS="1",
        MPLBACKEND="Agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        DST_CHILD="1",
    )
    env.setdefault("LANG", "C.UTF-8")
    if scratch:
        env["DST_SCRATCH"] = scratch
        env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    env.update(extra)
    return env


def make_scratch() -> str:
    scratch = tempfile.mkdtemp(prefix="dst_")
    os.makedirs(os.path.join(scratch, "mpl"))
    os.makedirs(os.path.join(scratch, "cwd"))
    cached = "/opt/crdc/mpl"
    if os.path.isdir(cached):
        for f in os.listdir(cached):
            if f.startswith("fontlist"):
                shutil.copy(os.path.join(cached, f), os.path.join(scratch, "mpl", f))
    return scratch


STDERR = sys.stderr
_done = False


def boot() -> None:
    """Called once at the start of every process of the harness"""
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    # never trust a compiled file of the code under test: always compile its current source
    import importlib._bootstrap_external as be

    orig = be.cache_from_source
    prefix = os.path.join(os.path.abspath(REPO), "")

    def cache_from_source(path, *a, **k):
        if str(path).startswith(prefix):
            raise NotImplementedError
        return orig(path, *a, **k)

    be.cache_from_source = cache_from_source
    sys.path.insert(0, os.path.join(REPO, "src"))
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    scratch = os.environ.get("DST_SCRATCH")
    if scratch:
        # the simulator may write debugging plots in the current directory
        os.chdir(os.path.join(scratch, "cwd"))
    from dst.core import clock

    clock.install()
    from dst.core import sched

    sched.install()
    import warnings

    warnings.simplefilter("ignore")
    global STDERR
    STDERR = sys.stderr
    if os.environ.get("DST_LOGS") == "1":
        # the real logger, writing into the void
        sys.stderr = open(os.devnull, "w")
    else:
        from zuper_commons.logs import ZLogger

        ZLogger._log = lambda self, *a, **k: None
    from dst.core import crpoly

    crpoly.install()
    import dg_commons

    where = os.path.abspath(dg_commons.__file__)
    assert where.startswith(prefix), f"dg_commons comes from {where}"
