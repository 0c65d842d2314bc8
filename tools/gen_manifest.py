#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
NA = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in props.PROPS and i in NOTES:
        t, n = NOTES[i]
        checks.append(dict(property=i, quick_cmd="python3 lib/check.py " + i, thorough_cmd="python3 lib/check.py " + i, technique=t, level="model_checking", level_note=n, evidence_file="evidence/%s.json" % i))
m = dict(version=1, setup_cmd="python3 lib/setup.py",
         hooks=dict(guard="FEYNMAN_VERIF", enable="harness builds compile /repo/src with -DFEYNMAN_VERIF (and -DFEYNMAN_VERIF_MAX_K=n for the explorers); see lib/vbuild.py", source_commits=HOOKS),
         checks=checks,
         not_applicable=[dict(property=i, reason=NA.get(i, "no check has been built for it yet")) for i in ids if i not in [c["property"] for c in checks]])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not claimed")
