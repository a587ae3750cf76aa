"""Writes DESIGN.md: tools/design_head.md, a section per property (properties.jsonl, vc/propinfo.py, the contracts in vc/), tools/design_tail.md with the table of planted bugs."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vc"))
import areas
import propinfo
areas.load()


def closure(prop):
    """functions under contract tagged with the property; trusted contracts"""
    own = sorted({c.name for _, c in areas.for_property(prop) if not c.trusted})
    return own


out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## 4. Property by property", ""]
for line in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(line)
    i = propinfo.INFO[d["id"]]
    out.append("### %s %s" % (d["id"], d["title"]))
    out.append("")
    if i["na"]:
        out += ["Not applicable: " + i["na"], ""]
        continue
    out.append("Level claimed: **%s**." % i["level"])
    fs = closure(d["id"])
    if fs:
        out.append("Functions under contract for it (their callees' contracts are verified with them): %s." % ", ".join("`%s`" % f for f in fs))
    if i["spec"]:
        out.append("- Specified and proved: " + i["spec"])
    if i["rest"]:
        out.append("- " + ("Not within the verifier's reach: " if not i["spec"] else "Left open by the proof: ") + i["rest"])
    for b in i["bounded"]:
        out.append("- Bounded run of the executable contract on the real code: " + b + ".")
    for t in i["trusted"]:
        out.append("- Trusted: " + t + ".")
    for a in i["assumptions"]:
        out.append("- Assumed: " + a + ".")
    out.append("- Why tests cannot settle it: " + d["why_tests_cant"])
    out.append("")
out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read().rstrip())
out += ["", "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
SD = os.path.join(HERE, "seeded")
for s in sorted(os.listdir(SD)):
    m = json.load(open(os.path.join(SD, s, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/").replace("\n", " "), caught.get(s, "")))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
