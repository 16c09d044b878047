#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, text, why, files, mech, state=(), observe=("Evaluate results", "error returns"), claimed=True, note="", na="", theorems=()):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(","), text=text, why=why, files=files.split(),
                  mech=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                  observe=list(observe), claimed=claimed, note=note, na=na, theorems=list(theorems)))

exec(open(os.path.join(root, "tools", "table.py")).read())

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for q in P:
        a = dict(files=q["files"], mechanism=q["mech"], observe_at=q["observe"], hook_needed=None)
        if q["state"]:
            a["state"] = q["state"]
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
                quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"], anchors=a)) + "\n")

checks, na = [], []
for q in P:
    if q["claimed"]:
        c = dict(property=q["id"], quick_cmd="./check.sh %s quick" % q["id"], thorough_cmd="./check.sh %s thorough" % q["id"],
                 technique=TECH, level="proof", level_note=q["note"] + " " + TRUST)
        if q["theorems"]:
            c["theorems"] = q["theorems"]
        checks.append(c)
    else:
        na.append(dict(property=q["id"], reason=q["na"]))
m = dict(version=1, setup_cmd="./check.sh setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
