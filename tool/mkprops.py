#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  python3-vt tool/mkprops.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PROPS = []; CLAIM = {}; NA = {}
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
        "anchors": {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "observe_at": list(observe), "hook_needed": None}})
def claim(id, technique, note): CLAIM[id] = (technique, note)
def na(id, reason): NA[id] = reason
S = "src/systems/"; I = "include/reactphysics3d/"
SOLV = " ".join(S + x for x in ("SolveBallAndSocketJointSystem.cpp", "SolveFixedJointSystem.cpp", "SolveHingeJointSystem.cpp", "SolveSliderJointSystem.cpp"))
exec(open(os.path.join(V, "tool", "props_data.py")).read())
def main():
    from rp3d.rules import RULES
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS: f.write(json.dumps(p) + "\n")
    checks = []
    nas = []
    for p in PROPS:
        i = p["id"]
        assert len(p["title"]) <= 80, i
        if i in RULES and i in CLAIM:
            t, n = CLAIM[i]
            checks.append({"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i, "thorough_cmd": "python3-vt check.py %s --tier thorough" % i, "technique": t, "level": "other", "level_note": n})
        else:
            nas.append({"property": i, "reason": NA.get(i, "no check is registered yet: the analysis for this property is not built")})
    m = {"version": 1, "setup_cmd": "python3-vt -m rp3d.extract --setup", "checks": checks, "not_applicable": nas,
         "notes": "All checks are static analyses over clang's type-checked AST of /repo's current sources; nothing of /repo is executed. Known findings: known_findings.jsonl."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(PROPS), "properties,", len(checks), "claimed,", len(nas), "not applicable")
main()
