"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the check modules present in checks/."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import NOT_CLAIMED, NOTES, P

PY = "/opt/venv/bin/python -B run.py"
SEQ = "exhaustive enumeration of bounded operation sequences on the real code against a reference model"
SCHED = "stateless model checking of the real asyncio code: all environment schedules within a deviation bound"

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

checks, na = [], []
for p in P:
    i = p["id"]
    if i in NOT_CLAIMED:
        na.append(dict(property=i, reason=NOT_CLAIMED[i]))
        continue
    if not os.path.exists(os.path.join(ROOT, "checks", i + ".py")):
        na.append(dict(property=i, reason="check not built yet"))
        continue
    src = open(os.path.join(ROOT, "checks", i + ".py")).read()
    sched = "budget" in src
    note = NOTES.get(i) or (
        "Every execution within the bounds printed in the evidence file was run on the real code and judged; nothing is sampled. "
        "Trusted: the engine's event loop (FIFO ready queue, virtual time), the harness's environment and reference model; says nothing beyond the bounds."
    )
    checks.append(
        dict(
            property=i,
            quick_cmd="%s %s --tier quick" % (PY, i),
            thorough_cmd="%s %s --tier thorough" % (PY, i),
            evidence_file="evidence/%s.json" % i,
            technique=SCHED if sched else SEQ,
            level="model_checking",
            level_note=note,
        )
    )
m = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -B tools/selftest.py",
    checks=checks,
    not_applicable=na,
    notes="No hooks in /repo: the checks own time, randomness and the event loop from outside. known_findings.txt lists fixed and recorded defects.",
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", [x["property"] for x in na])
