#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the property texts below"""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                   why_tests_cant=why, anchors=a), technique, note, na))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        f.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 engine/export.py",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "python3 check.py %s" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "technique": t,
            "level": "other",
            "level_note": n,
        }
        for p, t, n, na in P
        if na is None
    ],
    "not_applicable": [{"property": p["id"], "reason": na} for p, t, n, na in P if na is not None],
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
