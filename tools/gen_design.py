#!/usr/bin/env python3
"""writes DESIGN.md from its parts, evidence/, known-findings.txt and seeded/"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rd(p):
    return open(os.path.join(H, p)).read()
cov = ["| | seconds | design states | programs from the specification | recorded behaviours | events | cases |", "|---|---|---|---|---|---|---|"]
for f in sorted(os.listdir(H + "/evidence")):
    d = json.load(open(H + "/evidence/" + f)); c = d["coverage"]
    if d["tier"] != "quick":
        continue
    cov.append("| %s | %d | %s | %s | %d | %d | %d |" % (d["property"], d["wall_s"], ", ".join("%s %d" % (x["cfg"][:-4], x["distinct"]) for x in c["design"]),
               ", ".join("%s %d" % (g["module"], g["behaviours"]) for g in c["generated"]) or "-", c["traces_validated_against_impl"], c["events"], c["cases"]))
fixes = ["| property | commit | what failed |", "|---|---|---|"]
for m in re.finditer(r"^fixed: property=(\S+) (\S+) (.*)$", rd("known-findings.txt"), re.M):
    fixes.append("| %s | %s | %s |" % m.groups())
caught = json.loads(rd("tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
seeded = ["| change | property | needs | quick check |", "|---|---|---|---|"]
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % i))
    seeded.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), caught.get(i, "?")))
t = rd("tools/design_head.md") + rd("tools/design_props.md") + rd("tools/design_tail.md")
t = t.replace("@COVERAGE@", "\n".join(cov)).replace("@FIXES@", "\n".join(fixes)).replace("@SEEDED@", "\n".join(seeded))
open(H + "/DESIGN.md", "w").write(t)
