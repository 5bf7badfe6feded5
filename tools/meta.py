#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "abstract interpretation of rustc MIR (path-condition dataflow over message handlers), rule check on the resulting effect summaries"
NOTE = "Every path of the analysed functions is covered by abstract interpretation (loops by widening, path conditions kept as BDDs); trusts rustc's MIR, the dump driver, the engine's models of std/actix/ndarray calls, and that actix runs one handler of an actor at a time and delivers each local message once."
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, state=(), na=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique or TECH, note=note or NOTE, state=state, na=na))


import sys
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
import registry

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]], "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": [], "not_applicable": [],
     "notes": "No hooks: the checks read /repo's source through a rustc driver (see DESIGN.md)."}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"], "technique": "static analysis: " + registry.REG[p["id"]][1], "level": "other", "level_note": p["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
