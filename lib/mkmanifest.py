#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registered rules and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import rules
NA = {
 "C30": "accuracy of floating point filter output is a numeric error bound over runtime data; no sound static bound in reach (the structural half, which kernel and which mode run, is C17)",
 "C31": "round trips through third party codecs and float arithmetic depend on external encoders and rounding; the static halves are C06, C07 and C22",
 "C32": "a statistical statement about generated samples; only that noise alone is random (C20) is a source-level fact",
}
TECH = "abstract interpretation of compiler MIR to symbolic normal forms, compared with the specified closed form"
LEVEL = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "lib/setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in rules.RULES:
        r = rules.RULES[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "technique": r[2] if len(r) > 2 else TECH, "level": "other", "level_note": r[1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
