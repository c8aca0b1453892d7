"""Write MANIFEST.json from the table of claimed checks below and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.claims import CLAIMS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        c = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
                       "technique": c["technique"], "level": c.get("level", "other"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "The check for this property is not built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa || true", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
