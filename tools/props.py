#!/usr/bin/env python3
"""The properties and the notes for the manifest; writes properties.jsonl and MANIFEST.json."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "src/vmecpp/cpp/vmecpp/"
P = "src/vmecpp/"
props, levels = [], {}


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, reason=None):
    assert len(title) <= 80, (id, len(title))
    props.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                   observe_at=observe, hook_needed=None)))
    levels[id] = dict(technique=technique, note=note, **({"reason": reason} if reason else {}))


RND = "Random exploration: shows the absence of failures on the generated cases only. "

exec(open(R + "/tools/props_data.py").read())

with open(R + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
json.dump(levels, open(R + "/tools/levels.json", "w"), indent=1)
sys.exit(subprocess.call([sys.executable, R + "/tools/mkmanifest.py"]))
