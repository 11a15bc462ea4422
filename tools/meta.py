#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
from props import PROPS
from checks import CHECKS

TECH = "property-based testing: generated cases against an explicit oracle, with shrinking"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for pid, p in sorted(PROPS.items()):
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        f.write(json.dumps(dict(id=pid, title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for pid, p in sorted(PROPS.items()):
    if pid in CHECKS:
        c = CHECKS[pid]
        checks.append(dict(property=pid, quick_cmd="python3 run.py %s --tier quick" % pid,
            thorough_cmd="python3 run.py %s --tier thorough" % pid, evidence_file="evidence/%s.json" % pid,
            technique=c.get("technique", TECH), level="exploration",
            level_note=c.get("note", "Random search over generated cases; no case found violating it. ") + " Assumes: " + "; ".join(c.get("assumptions", ["the oracle in harness/%s is right" % c["harness"][0]["file"]]))))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
