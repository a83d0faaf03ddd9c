"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier",
                                              "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
na = dict(NOT_APPLICABLE)
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [
    {"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
     "thorough_cmd": f"env VERIF_TIER=thorough python3 check.py {p['id']}", "evidence_file": f"evidence/{p['id']}.json",
     "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
    for p in PROPS if p["id"] not in na],
    "not_applicable": [{"property": k, "reason": v} for k, v in na.items()], "notes": NOTES}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties")
