#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between markers) from checks.py and seeded/."""
import glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import checks as C
s = open(os.path.join(H, "DESIGN.md")).read()
t = ["| property | unit | builds | cases quick | cases thorough |", "|---|---|---|---|---|"]
for p, c in C.CHECKS.items():
    for u in c["units"]:
        t.append("| %s | %s (`%s`) | %s | %d | %d |" % (p, u["name"], u["src"], " ".join(u["configs"]), u["cases"][0], u["cases"][1]))
b = ["| bug | needs | breaks | caught by | notes |", "|---|---|---|---|---|"]
notes = {}
nf = os.path.join(H, "tools", "planted_notes.json")
if os.path.exists(nf):
    notes = json.load(open(nf))
for d in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    n = notes.get(i, {})
    b.append("| %s | %s | %s | %s | %s |" % (i, m["needs"], m["what_it_breaks"], n.get("by", m["property"]), n.get("note", "")))
def put(s, tag, lines):
    body = "<!-- %s -->\n%s\n<!-- end %s -->" % (tag, "\n".join(lines), tag)
    if "<!-- %s -->" % tag in s:
        return re.sub(r"<!-- %s -->.*?<!-- end %s -->" % (tag, tag), lambda m: body, s, flags=re.S)
    return s.replace(tag, body)
s = put(s, "BUDGET_TABLE", t)
s = put(s, "PLANTED_TABLE", b)
open(os.path.join(H, "DESIGN.md"), "w").write(s)
