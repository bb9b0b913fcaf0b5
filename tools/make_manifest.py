"""Writes MANIFEST.json: one entry per property that has a module in checks/."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

LEVEL = {}
NOTES = {}
exec(open(os.path.join(HERE, "tools", "manifest_notes.py")).read())

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        checks.append({
            "property": pid, "quick_cmd": "./run %s" % pid,
            "thorough_cmd": "./run %s" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "runtime monitoring",
            "level": LEVEL.get(pid, "exploration"),
            "level_note": NOTES.get(pid, "Real code run under seeded generated workloads; monitors compare every observation with an independent reference.")})
    elif pid in NOT_APPLICABLE:
        na.append({"property": pid, "reason": NOT_APPLICABLE[pid]})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "TCRM_VERIF", "enable": "no hooks are compiled into the repository; monitors are attached from the harness", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Checks run the working tree of /repo (or $VERIF_REPO). Native extensions are rebuilt from source into /verif/.cache."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
