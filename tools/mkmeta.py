#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the tables below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = "symbolic execution of the real code over go/ssa (Z3), native replay of counterexamples"
NOTE = "Bounded symbolic check: every path within the bounds listed in the evidence is decided by Z3; counterexamples are replayed against the natively built code before being reported. Trusts the engine's Go semantics (cross-checked on sampled paths), collision-free SHA-256, virtual time; "

def prop(id, title, statement, over, text, why, files, mech, note="", state=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        P[-1]["_note"] = note

exec(open(os.path.join(here, "tools", "properties.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
checks = []
for p in P:
    if "_note" in p:
        checks.append({"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                       "technique": TECH, "level": "model_checking", "level_note": NOTE + (p["_note"] or "no further assumptions.")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NA,
     "notes": "No hooks in /repo: harnesses enter through a build overlay."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
print(len(P), "properties,", len(checks), "checks")
