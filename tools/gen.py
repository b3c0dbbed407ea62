"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from props import PROPS, NA
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in PROPS:
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["why"],
             "anchors": {"files": sorted({w.split(":")[0] for _, w in p["mech"]}),
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("obs", []), "hook_needed": None}}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(o) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in NA or not os.path.exists(os.path.join(R, "checks", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": "model_checking", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "bash run.sh setup", "checks": checks, "not_applicable": na,
           "notes": "Every check traces the real Python/JAX functions of /repo on symbolic arguments and asks z3; see DESIGN.md. "
                    "known_findings.json lists recorded defects and repairs."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
