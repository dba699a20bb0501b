"""Writes MANIFEST.json from checks/specs.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import specs  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(specs, "NOT_APPLICABLE", {})
m = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 checks/run.py %s quick" % i,
            "thorough_cmd": "python3 checks/run.py %s thorough" % i,
            "technique": getattr(s, "technique", None) or "runtime monitor (reference oracle) over generated workloads, under ASan and UBSan",
            "level": "exploration",
            "level_note": s.rule[:900],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
