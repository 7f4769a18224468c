#!/usr/bin/env python3
"""fills the generated sections of DESIGN.md from meta/DESIGN.in.md, the property table, KNOWN_FINDINGS.json and seeded/*/meta.json"""
import json, os, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, "checks")); sys.path.insert(0, HERE)
from table import TABLE, NA
from registry import PROPS
s = open(os.path.join(HERE, "DESIGN.in.md")).read()
t = ""
for p in TABLE:
    if p["id"] in PROPS:
        t += "### %s %s\n\n%s\n\n* technique: %s\n* what is analysed and how strong: %s\n* why tests cannot settle it: %s\n" % (
            p["id"], p["title"], p["statement"], p["tech"], p["note"], p["why"])
        if p.get("design"):
            t += "* " + p["design"] + "\n"
        t += "\n"
n = ""
for p in TABLE:
    if p["id"] not in PROPS:
        n += "* %s %s: %s\n" % (p["id"], p["title"], p.get("na", "no check finished yet"))
for p in NA:
    n += "* %s %s: %s\n" % (p["id"], p["title"], p["reason"])
f = ""
for k in json.load(open(os.path.join(ROOT, "KNOWN_FINDINGS.json")))["findings"]:
    f += "* %s\n" % (k["what"] if k["status"] == "fixed" else "known (recorded, not repaired), %s: %s" % (k["property"], k["what"]))
r = json.load(open(os.path.join(HERE, "caught.json"))) if os.path.exists(os.path.join(HERE, "caught.json")) else {}
d = "| id | property | needs | breaks | caught |\n|---|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    d += "| %s | %s | %s | %s | %s |\n" % (i, j["property"], j["needs"], j["what_it_breaks"], r.get(i, "?"))
s = s.replace("@TABLE@", t).replace("@NA@", n or "none").replace("@FINDINGS@", f).replace("@SEEDS@", d)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
