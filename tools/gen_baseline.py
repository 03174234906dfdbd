#!/usr/bin/env python3
"""gen_baseline.py REPORT.json: writes spec/baseline.json, what the contracts were written for (shapes of bodies, keys)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(sys.argv[1]))
out = {
    "canaries": 5,
    "levels": {"C22": "exploration"},
    "keys": sorted(f["key"] for f in d["functions"]),
    "shape": {f["key"]: f["shape"] for f in d["functions"] if f["hints"]},
}
json.dump(out, open(V + "/spec/baseline.json", "w"), indent=0, sort_keys=True)
with open(V + "/spec/params.txt", "w") as f:
    for k, p in sorted({f["key"]: f["params"] for f in d["functions"] if any(f["params"])}.items()):
        f.write(k + "\t" + ",".join(p) + "\n")
