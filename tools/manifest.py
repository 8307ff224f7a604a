#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks registered in the analyser."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
subprocess.run([os.path.join(root, "run.sh"), "--build"], check=True)
out = subprocess.run([os.path.join(root, "sa/bin/gpsa"), "list", "-v"], capture_output=True, text=True, check=True).stdout
have = {}
for l in out.splitlines():
    i, t, n = l.split("\t")
    have[i] = (t, n)
NA = json.load(open(os.path.join(here, "not_applicable.json")))
checks, na = [], []
for i in ids:
    if i in have:
        t, n = have[i]
        checks.append(dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
            evidence_file=f"evidence/{i}.json", technique=t, level="other", level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="./run.sh --build", checks=checks, not_applicable=na,
    notes="All checks are static: one analyser (sa/) loads /repo's current source with go/packages and go/ssa and decides each property; see DESIGN.md. No hooks are added to /repo.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
