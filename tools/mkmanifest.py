#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl") if l.strip()]
notes = json.load(open(R + "/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(R + "/checks/%s_*.py" % i.lower()):
        n = notes[i]
        checks.append(dict(property=i, quick_cmd="./run_check.py %s --tier quick" % i,
                           thorough_cmd="./run_check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=n["technique"], level="exploration", level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get("reason", "no check built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Property-based testing with Hypothesis; cases are JSON, shrunk failures are replay files "
               "(run_check.py <ID> --replay <file>). No hooks in /repo are needed; /repo carries only fix: commits.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable")
