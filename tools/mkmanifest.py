"""Writes MANIFEST.json from the property modules that exist (run by hand, the result is committed)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(ROOT, "harness", "props", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": "explicit TLA+ specification: TLC model checking, spec-generated scenarios replayed on the library, "
                                    "recorded traces validated against the specification by TLC",
                       "level": "model_checking", "level_note": NOTES.get(p, NOTES["default"])})
    else:
        na.append({"property": p, "reason": "check not built yet"})
doc = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "Specification in spec/ (TLA+, TLC). One runner (harness/run.py) for every property; see DESIGN.md. No hooks in /repo are needed."}
json.dump(doc, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
