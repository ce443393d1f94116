"""Usage: run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE [--trace]]"""
import argparse
import os
import queue  # noqa: F401  (imported before the clocks are virtualised)
import select  # noqa: F401
import shutil
import subprocess
import sys
import threading  # noqa: F401

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--digests")
    ap.add_argument("--exec")
    args = ap.parse_args()
    from dst.core import boot

    if os.environ.get("DST_CHILD") != "1":
        scratch = boot.make_scratch()
        argv = list(sys.argv[1:])
        if args.replay:
            argv[argv.index(args.replay)] = os.path.abspath(args.replay)
        try:
            return subprocess.call(
                [boot.PYTHON, os.path.abspath(__file__), *argv], env=boot.child_env(scratch=scratch)
            )
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    boot.boot()
    from dst.core import engine

    if args.replay:
        return engine.replay(args.pid, args.replay)
    if args.exec:
        return engine.exec_main(args.pid, args.exec)
    if args.digests:
        return engine.digests_main(args.pid, args.tier, args.seed, [int(i) for i in args.digests.split(",")])
    return engine.main(args.pid, args.tier, args.seed)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
