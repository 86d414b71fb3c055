#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/libspu/"
P = []      # claimed
NA = []     # (id, ..., reason)


def prop(pid, title, statement, over, qtext, why, files, mech, tech, note,
         reason=None):
    p = dict(id=pid, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech]))
    assert len(title) <= 80, (pid, len(title))
    (NA if reason else P).append((p, tech, note, reason))


exec(open(os.path.join(ROOT, "tools", "proplist.py")).read())

allp = sorted(P + NA, key=lambda x: x[0]["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _, _, _ in allp:
        f.write(json.dumps(p) + "\n")
man = dict(
    version=1, setup_cmd="sh tools/setup.sh",
    hooks=dict(guard="", enable="", source_commits=[]),
    checks=[dict(property=p["id"],
                 quick_cmd="python3 tools/check.py %s --tier quick" % p["id"],
                 thorough_cmd="python3 tools/check.py %s --tier thorough" % p["id"],
                 technique=t, level="exploration", level_note=n)
            for p, t, n, r in allp if not r],
    not_applicable=[dict(property=p["id"], reason=r) for p, t, n, r in allp if r])
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    sp = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, _, _, _ in allp:
        jsonschema.validate(p, sp)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(man["checks"]), "claimed", len(man["not_applicable"]), "not")
except ImportError:
    print("written (not validated)")
