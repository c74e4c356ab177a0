#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; no check reads this file)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "orocos_bfl/src/"
W = S + "wrappers/matrix/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech]), note=note))
B = ", with both matrix back ends (Eigen and Boost)"
exec(open(os.path.join(V, "tools", "props_text.py")).read())
P.sort(key=lambda p: p["id"])
claimed = json.load(open(os.path.join(V, "props.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k != "note"}
        f.write(json.dumps(q) + "\n")
commits = []
checks = []
for p in P:
    i = p["id"]
    if i not in claimed: continue
    checks.append(dict(property=i, quick_cmd=f"python3 /verif/check.py {i} quick", thorough_cmd=f"python3 /verif/check.py {i} thorough",
        evidence_file=f"evidence/{i}.json", technique="property-based testing with integrated shrinking: " + TECH[i], level="exploration",
        level_note=NOTE.get(i, "Generated cases only; quick: a fixed number of cases per back end, reproducible from VERIF_SEED; thorough: the same generators for 10 minutes on all cores.")))
na = [dict(property=p["id"], reason=NA[p["id"]]) for p in P if p["id"] not in claimed]
m = dict(version=1, setup_cmd="python3 /verif/check.py --build", checks=checks, not_applicable=na, notes=MNOTES)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks", [x["property"] for x in na])
