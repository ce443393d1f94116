"""Run the check of each planted bug against a scratch copy of /repo with the bug applied and print a markdown table.

    python3 tools/seeded_table.py [ID ...] [--all-checks]

Nothing in /repo is touched; no registered check uses this."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    every = "--all-checks" in sys.argv
    ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
    checks = json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]
    known = [c["property"] for c in checks]
    print("| planted bug | property | needs | verdict |\n|---|---|---|---|")
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        scratch = tempfile.mkdtemp(prefix="dst-table-")
        try:
            repo = os.path.join(scratch, "repo")
            shutil.copytree(REPO, repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
            if subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo).returncode:
                verdict = "patch does not apply"
            else:
                got = []
                for c in (known if every else [meta["property"]]):
                    env = dict(os.environ, DST_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
                    p = subprocess.run([sys.executable, os.path.join(HERE, "dst", "run.py"), c], env=env, cwd=HERE,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    m = re.search(r"^%s: ([a-z-]+): " % c, p.stdout, re.M)
                    if p.returncode == 1:
                        got.append("%s caught%s" % (c, " (%s)" % m.group(1) if m else ""))
                    elif not every:
                        got.append("%s missed (exit %d)" % (c, p.returncode))
                verdict = ", ".join(got)
        finally:
            shutil.rmtree(scratch)
        print("| %s | %s | %s | %s |" % (i, meta["property"], " ".join(meta["needs"].split())[:160].replace("|", "/"), verdict), flush=True)


if __name__ == "__main__":
    main()
