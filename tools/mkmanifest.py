#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the P(...) entries in tools/props.py."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
TECH = "contract-based deductive verification (contracts on the real headers, obligations generated from LLVM IR, discharged by SMT and an algebraic normaliser)"


def P(id, title, statement, over, text, why, files, mech, note, level="proof", na_reason=None):
    assert len(title) <= 80, (id, len(title))
    root = os.environ.get("VC_REPO", "/repo")
    for f in files:
        assert os.path.exists(root + "/" + f), f
    props.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    if na_reason:
        na.append({"property": id, "reason": na_reason})
    else:
        checks.append({"property": id, "quick_cmd": "./check " + id, "thorough_cmd": "VERIF_TIER=thorough ./check " + id, "technique": TECH, "level": level, "level_note": note})


exec(open(V + "/tools/props.py").read())
props.sort(key=lambda p: p["id"])
checks.sort(key=lambda p: p["property"])
with open(V + "/properties.jsonl", "w") as h:
    for p in props:
        h.write(json.dumps(p) + "\n")
with open(V + "/MANIFEST.json", "w") as h:
    json.dump({"version": 1, "setup_cmd": "python3-vt -m compileall -q engine", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: contracts live in /verif/contracts and call the public API of the real headers."}, h, indent=1)
    h.write("\n")
