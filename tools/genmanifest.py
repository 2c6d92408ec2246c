"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks

NOTES = getattr(checks, "NOTES", {})
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i not in checks.CHECKS:
        out["not_applicable"].append({"property": i, "reason": NOTES.get(i, "no check is registered for this property yet")})
        continue
    c = checks.CHECKS[i]
    out["checks"].append({
        "property": i,
        "quick_cmd": "./check %s --tier quick" % i,
        "thorough_cmd": "./check %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", "property-based testing: random operator parameters and message histories against a pure reference definition, with shrinking"),
        "level": "exploration",
        "level_note": c.get("note", "Random search; no counterexample among the generated cases. " + " ".join(c["assumptions"])),
    })
out["notes"] = "Every check rebuilds from /repo's working tree into /verif/build/<id>. No hooks are needed in /repo."
json.dump(out, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
