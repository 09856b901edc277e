"""Writes properties.jsonl and MANIFEST.json from harness/catalog.py (the single source of the property list)."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import catalog

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in catalog.CATALOG:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quantifier"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
checks = [{
    "property": p["id"],
    "quick_cmd": "./check {} quick".format(p["id"]),
    "thorough_cmd": "./check {} thorough".format(p["id"]),
    "technique": p["technique"],
    "level": "exploration",
    "level_note": p["note"],
} for p in catalog.CATALOG]
manifest = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": catalog.NOT_APPLICABLE}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        jsonschema.validate(json.loads(line), s)
    jsonschema.validate(manifest, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(checks), "properties, valid")
except ImportError:
    print("run with python3-vt to validate")
