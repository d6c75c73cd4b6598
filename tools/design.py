#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md from DESIGN.in.md, properties.jsonl, the claims, known_findings.json and seeded/*/meta.json."""
import json, os, glob
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
m = json.load(open("MANIFEST.json"))
kf = json.load(open("known_findings.json"))
cl = {c["property"]: c for c in m["checks"]}
na = {c["property"]: c["reason"] for c in m["not_applicable"]}
extra = json.load(open("tools/design_notes.json")) if os.path.exists("tools/design_notes.json") else {}
props = []
for l in open("properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    s = "### %s %s\n\n" % (i, p["title"])
    s += ("*Decided by:* %s.\n\n*Strength and bounds:* %s\n" % (cl[i]["technique"], cl[i]["level_note"])) if i in cl else "Not claimed: %s\n" % na.get(i, "")
    if extra.get("props", {}).get(i):
        s += "\n" + extra["props"][i] + "\n"
    props.append(s)
seeds = ["| change | property | needs | caught by |", "|---|---|---|---|"]
caught = extra.get("caught", {})
for d in sorted(glob.glob("seeded/*/meta.json") + glob.glob("seeded-pl/*/meta.json")):
    x = json.load(open(d))
    n = d.split("/")[1]
    seeds.append("| %s | %s | %s | %s |" % (n, x["property"], x["needs"], caught.get(n, "check of " + x["property"])))
t = open("tools/DESIGN.in.md").read()
t = t.replace("@@PROPS@@", "\n".join(props)).replace("@@SEEDS@@", "\n".join(seeds)).replace("@@MODULES@@\n", extra.get("modules", ""))
t = t.replace("@@FIXED@@", "\n".join("* " + x.replace("fixed: property=", "") for x in kf["fixed"]))
t = t.replace("@@FINDINGS@@", "\n".join("* %s: %s" % (f["property"], f["what"]) for f in kf["findings"]))
open("DESIGN.md", "w").write(t)
