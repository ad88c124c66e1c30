#!/usr/bin/env python3
"""claim.py ID mod,mod,... note  -- records a proof-level check and rewrites MANIFEST.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, mods, note = sys.argv[1:4]
c = json.load(open(V + "/checks.json"))
c[i] = {"modules": mods.split(","), "lemmas": True}
json.dump(c, open(V + "/checks.json", "w"), indent=1)
n = json.load(open(V + "/tools/notes.json"))
n["checks"][i] = {"note": note}
json.dump(n, open(V + "/tools/notes.json", "w"), indent=1)
subprocess.check_call(["python3", V + "/tools/mkmanifest.py"])
