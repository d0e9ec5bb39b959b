"""writes MANIFEST.json from sa/checks.py and properties.jsonl"""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sa"))
import checks
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out["checks"].append({"property": i, "quick_cmd": "python3 sa/run.py %s" % i, "thorough_cmd": "python3 sa/run.py %s --thorough" % i,
                              "technique": c.get("technique", checks.TECHNIQUE), "level": c.get("level", "proof"), "level_note": c.get("level_note", checks.LEVEL_NOTE)})
    else:
        out["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "no check has been built yet")})
json.dump(out, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
