#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
LEVEL = {}
TECH = "contract-based deductive verification of the extracted real functions (Verus), with a bounded replay engine on the real crate"
NOTE = {
    "*": "Every function the property is stated by carries a contract that Verus discharges on text extracted mechanically from the source on every run; functions listed in the evidence as assumed or bounded are covered only by the replay engine (bounded). Assumes: conforming data sources, the extraction rules, Verus/Z3/vstd, assumed specifications of std in spec/prelude.rs.",
}
NA = {}
exec(open(V + "/tools/manifest_notes.py").read())
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    c = {"property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough",
         "technique": TECH, "level": LEVEL.get(i, "proof"), "level_note": NOTE.get(i, NOTE["*"])}
    checks.append(c)
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Known findings and repaired defects: known-findings.jsonl. No hooks were added to /repo; its own commits are repairs (fix: ...)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
