#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (python3 meta/gen_meta.py)"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, "checks"))
sys.path.insert(0, HERE)
from registry import PROPS
from table import TABLE, NA

GUARD = ("Unresolved items (code shapes the normaliser cannot interpret) are counted in the evidence and never reported as violations; "
         "the check gives no verdict if too many of them appear. Trusted: clang/LLVM 18, the normaliser, the reference written in the check.")

props, checks, na = [], [], []
TABLE.sort(key=lambda p: p["id"])
for p in TABLE:
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p.get("state"):
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["quant"]},
                  "why_tests_cant": p["why"], "anchors": a})
    assert len(p["title"]) <= 80, p["title"]
    if p["id"] in PROPS:
        checks.append({"property": p["id"],
                       "quick_cmd": "python3-vt /verif/check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3-vt /verif/check.py %s --tier thorough" % p["id"],
                       "technique": p["tech"], "level": "other", "level_note": p["note"] + " " + GUARD})
    else:
        na.append({"property": p["id"], "reason": p.get("na", "no check of this property is finished yet")})
for p in NA:
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                  "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
    na.append({"property": p["id"], "reason": p["reason"]})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3-vt /verif/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: drivers over the public API and the library's own member functions are compiled to LLVM IR and normalised; "
              "nothing of XAD is executed. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
