#!/usr/bin/env python3
"""specs/pristine.json: line hashes of the text extracted from the unchanged tree (see check.py: unchanged). Run after any change to specs or vtool."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
d = "/tmp/pristine"
os.makedirs(d, exist_ok=True)
subprocess.run([V + "/vtool/target/debug/vtool", "--src", "/repo/src", "--specs", V + "/specs", "--out", d + "/o.rs", "--map", d + "/m.json", "--modules", "all"], check=True)
fns = json.load(open(d + "/m.json"))["functions"]
f, r = check.frame(open(d + "/o.rs").read().split("\n"), fns)
json.dump([f, r], open(V + "/specs/pristine.json", "w"), indent=0, sort_keys=True)
print(len(f), "functions", sum(map(len, r.values())), "lines")
