#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and na.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
na = json.load(open(os.path.join(H, "tools", "na.json")))
notes = json.load(open(os.path.join(H, "tools", "notes.json")))
checks = []
for p in ps:
    i = p["id"]
    if i in na:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check %s quick" % i,
        "thorough_cmd": "./check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the compiled LLVM-IR with an SMT solver (z3), counterexamples replayed",
        "level": "model_checking",
        "level_note": notes.get(i, "") or notes["*"],
    })
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
    "notes": "No hooks: the harness crate uses the public API of vimwiki-core. Every check builds the engine, the harness IR and the replay binary from committed sources and /repo's working tree.",
}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
