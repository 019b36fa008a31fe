#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks/props.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks.props import NA, P


def line(i, title, st, over, q, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = list(observe)
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": q},
            "why_tests_cant": why, "anchors": a}


with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(line(p["id"], p["title"], p["statement"], p["over"], p["qtext"], p["why"], p["files"],
                                p["mech"], p["observe"], p["state"]), ensure_ascii=False) + "\n")
    for i, t, st, over, q, why, files, mech, reason in NA:
        f.write(json.dumps(line(i, t, st, over, q, why, files, mech), ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other",
                   "level_note": p["level_note"]} for p in P],
       "not_applicable": [{"property": n[0], "reason": n[-1]} for n in NA],
       "notes": "Generated by tools/gen.py from checks/props.py."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
