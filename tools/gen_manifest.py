"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "clang++-18 --version >/dev/null && python3 -c 'import checks'",
     "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p,
                            "technique": c["technique"], "level": c["level"],
                            "level_note": c["note"] + " Bound: " + c["bound"] + "."})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
