#!/usr/bin/env python3
"""Rewrite MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(HERE, "tools", "techniques.json")))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
        t = TECH.get(pid, {})
        checks.append(
            {
                "property": pid,
                "quick_cmd": "python3 run_check.py %s --tier quick" % pid,
                "thorough_cmd": "python3 run_check.py %s --tier thorough" % pid,
                "technique": t.get("technique", "property-based testing (Hypothesis)"),
                "level": "exploration",
                "level_note": t.get(
                    "note",
                    "Random search with shrinking over generated cases against an explicit oracle; it shows no violation on what was explored, not absence.",
                ),
            }
        )
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q pbt props run_check.py replay_one.py >/dev/null || true",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check imports enterprise from /repo's working tree (pure Python: nothing to build) with a private bytecode cache. "
    "No hooks were added to /repo. VERIF_SEED selects the random cases; replays: python3 run_check.py <ID> --replay FILE.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
