#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json, properties.jsonl and tools/notes.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + "/checks.json"))
notes = json.load(open(V + "/tools/notes.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "cd vtool && cargo build --offline --quiet",
     "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS='--cfg verif_hooks' (check.py builds /verif/harness, which has a path dependency on /repo, with it)", "source_commits": notes["hook_commits"]},
     "checks": [], "not_applicable": [], "notes": notes["notes"]}
for p in props:
    i = p["id"]
    if i in checks:
        n = notes["checks"][i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": n.get("technique", "contract-based deductive verification: Verus contracts on functions extracted mechanically from /repo on every run (SMT); bounded executable oracle checks supply failing inputs"),
            "level": checks[i].get("level", "proof"), "level_note": n["note"], **({"theorems": n["theorems"]} if "theorems" in n else {})})
    else:
        m["not_applicable"].append({"property": i, "reason": notes["not_applicable"].get(i, "no check built yet; the contracts for these functions are still being written")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
