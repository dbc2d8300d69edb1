#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
from props import PROPS
H = os.path.dirname(os.path.abspath(__file__))
NA = []
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for k, p in PROPS.items():
        assert len(p["title"]) <= 80, k
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["observe"]: a["observe_at"] = p["observe"]
        if p["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        f.write(json.dumps(dict(id=k, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=a)) + "\n")
checks = []
for k, p in PROPS.items():
    c = dict(property=k, quick_cmd=f"python3 check.py {k}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {k}",
             technique=("Verus function contracts on the extracted code (units " + ", ".join(p["units"]) + "); failing input searched on the real code" if p["units"] else "contract's executable form checked on the real code (bounded stand-in)"),
             level="proof" if p["units"] else "exploration",
             level_note=(p["note"] + ". " if p["note"] else "") + "Bounded: " + p["bounded"] + ". " + ("Trusted: " + "; ".join(p["assumes"]) if p["assumes"] else ""))
    if p.get("theorems"): c["theorems"] = p["theorems"]
    checks.append(c)
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=NA,
               notes="check.py <id> builds the harness and the verification units from /repo's current source on every run; see DESIGN.md"), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
