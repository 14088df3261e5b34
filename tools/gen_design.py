#!/usr/bin/env python3
"""Fills the property sections and the table of planted bugs of DESIGN.md from tools/design/*.md and seeded/."""
import glob
import json
import os
import re

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
man = json.load(open(H + "/MANIFEST.json"))
na = {d["property"]: d["reason"] for d in man["not_applicable"]}
tech = {d["property"]: d["technique"] for d in man["checks"]}
out = []
for p in props:
    i = p["id"]
    out.append("### {} — {}\n".format(i, p["title"]))
    f = "{}/tools/design/{}.md".format(H, i)
    if i in tech:
        out.append("*Decided by:* {}.\n".format(tech[i]))
    else:
        out.append("*Not applicable:* {}.\n".format(na[i]))
    if os.path.exists(f):
        out.append(open(f).read().strip() + "\n")
rows = ["| planted bug | property | needs | caught |", "|---|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| {} | {} | {} | {} |".format(f.split("/")[-2], d["property"], d["needs"].replace("|", "/"), d.get("caught", "yes")))
t = open(H + "/DESIGN.md").read()
B, E = "<!-- {}:begin -->", "<!-- {}:end -->"
for name, body in (("SECTIONS", "\n".join(out)), ("SEEDS", "\n".join(rows))):
    blk = B.format(name) + "\n" + body + "\n" + E.format(name)
    if re.search(r"(?m)^%s$" % name, t):
        t = re.sub(r"(?m)^%s$" % name, lambda m: blk, t)
    else:
        t = re.sub("(?s)" + B.format(name) + ".*?" + E.format(name), lambda m: blk, t)
open(H + "/DESIGN.md", "w").write(t)
