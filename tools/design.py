#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md + one section per property (from properties.jsonl and the checks themselves) + tools/design_tail.md."""
import ast, glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(R + "/tools/levels.json"))
mods = {}
for f in sorted(glob.glob(R + "/checks/c[0-9]*.py")):
    src = open(f).read()
    info = {"file": os.path.relpath(f, R), "props": re.findall(r'Prop\("([^"]+)"[^)\n]*?quick=(\d+)(?:, thorough=(\d+))?', src)}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("PROPERTY", "RULE", "ASSUMPTIONS"):
            try:
                info[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    mods[info["PROPERTY"]] = info
out = [open(R + "/tools/design_head.md").read().rstrip(), "", "## Properties, one by one", ""]
for p in sorted((json.loads(x) for x in open(R + "/properties.jsonl")), key=lambda p: p["id"]):
    i, l = mods[p["id"]], lv[p["id"]]
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
            "*Check:* `%s`. *Technique:* %s." % (i["file"], l["technique"].rstrip(".")), "",
            "*Cases and oracle:* " + i.get("RULE", "").strip(), ""]
    if i.get("ASSUMPTIONS"):
        out += ["*Bounds and assumptions:* " + "; ".join(i["ASSUMPTIONS"]) + ".", ""]
    out += ["*Cost (cases quick / thorough):* " + ", ".join("%s %s / %s" % (a, b, c or "10x") for a, b, c in i["props"]) + ".", "",
            "*Beyond the tests:* " + p["why_tests_cant"], ""]
out += [open(R + "/tools/design_tail.md").read().rstrip()]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d))
    out.append("| `%s` | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
out.append("")
open(R + "/DESIGN.md", "w").write("\n".join(out))
