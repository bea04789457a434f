#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py and registry.py."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from spec import SPEC
import spec
from registry import PROPS
with open(V / "properties.jsonl", "w") as f:
    for s in SPEC:
        f.write(json.dumps({k: s[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for s in SPEC:
    if s["id"] in PROPS:
        checks.append({"property": s["id"], "quick_cmd": f"python3 check.py {s['id']} --tier quick",
                       "thorough_cmd": f"python3 check.py {s['id']} --tier thorough",
                       "evidence_file": f"evidence/{s['id']}.json", "technique": s["technique"],
                       "level": PROPS[s["id"]]["level"], "level_note": s["note"]})
    else:
        na.append({"property": s["id"], "reason": getattr(spec, "NOT_APPLICABLE", {}).get(s["id"], "no check yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
hooks = getattr(spec, "HOOKS", None)
if hooks:
    m["hooks"] = hooks
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
