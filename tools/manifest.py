"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
PURE = {
    "C30": "Pure geometric functions of their arguments: no time, schedule, I/O, randomness or other party they could depend on.",
    "C31": "Pure functions of a finished sequence: there is no schedule, clock, crash point or fault for a simulator to decide.",
    "C36": "Algebraic identities of value objects, no time, concurrency, I/O or multi-party behaviour.",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in PURE:
        na.append(dict(property=pid, reason=PURE[pid]))
    elif os.path.exists(os.path.join(V, "dst", "checks", pid.lower() + ".py")):
        checks.append(
            dict(
                property=pid,
                quick_cmd=f"python3 dst/run.py {pid} --tier quick",
                thorough_cmd=f"python3 dst/run.py {pid} --tier thorough",
                evidence_file=f"evidence/{pid}.json",
                technique=TECH + NOTES[pid][0],
                level="exploration",
                level_note=NOTES[pid][1],
            )
        )
    else:
        na.append(dict(property=pid, reason="The check of this property is not built yet."))
m = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, shapely, frozendict'",
    checks=checks,
    not_applicable=na,
    notes="One harness (dst/) drives all the checks; see DESIGN.md. No hooks in /repo were needed: all seams are the public "
    "interfaces of dg_commons or are placed from outside (clocks, threads, file system). Replay: "
    "python3 dst/run.py <ID> --replay <file> [--trace].",
)
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks", len(na), "not claimed")
