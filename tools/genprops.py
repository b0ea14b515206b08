#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below and props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
exec(open(os.path.join(V, "tools", "proptable.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in TABLE:
        assert len(p["title"]) <= 80, p["title"]
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --build-only --prop %s" % ",".join(k for k in PROPS if k in {p["id"] for p in TABLE}),
    "checks": [],
    "not_applicable": NOT_APPLICABLE,
    "notes": "All checks are one program (check.py) over one simulator (sim/): see DESIGN.md. No hooks are needed in /repo: the seams are the compiler's instrumentation (every atomic and plain access), pthread, clock and allocation functions, all replaced at link time.",
}
for p in TABLE:
    if p["id"] not in PROPS:
        continue
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 check.py --prop %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py --prop %s" % p["id"],
        "technique": p.get("technique", "deterministic simulation with fault injection: seeded search over schedules and faults"),
        "level": "exploration",
        "level_note": p["note"],
    })
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
