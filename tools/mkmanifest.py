"""Writes MANIFEST.json from the registry."""
import json, sys
sys.path.insert(0, "/verif")
from harness.registry import PROPS
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NOTE = ("TLC checks the component's TLA+ model exhaustively within the stated constants; the real code replays the model's "
        "scenarios with seeded numeric inputs and TLC judges every recorded event against the same specification in exact "
        "rational arithmetic. Assurance for the code covers the replayed scenarios and inputs; trusted: TLC, java/Rat.java "
        "(self-tested against its TLA+ definitions), the recording driver, and the rounding allowances in the trace spec.")
checks = []
for p in props:
    if p not in PROPS:
        continue
    s = PROPS[p]
    checks.append({
        "property": p,
        "quick_cmd": f"/opt/venv/bin/python run.py {p}",
        "thorough_cmd": f"env VERIF_TIER=thorough /opt/venv/bin/python run.py {p}",
        "technique": s.get("technique", "TLA+ model checked with TLC; TLC trace validation of the real code in exact arithmetic"),
        "level": s["level"],
        "level_note": s.get("note", "") + (" " if s.get("note") else "") + NOTE,
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in PROPS],
     "notes": "See DESIGN.md. One pipeline (run.py) for all checks; VERIF_TIER and VERIF_SEED select depth and inputs."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not claimed")
