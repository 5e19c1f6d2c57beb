#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level="other", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, level=level, note=note, na=na))


ENGINE = "MIR-level partitioned constant propagation / abstract interpretation"
TRUST = " Trusts: rustc's MIR, the transfer functions for std/quick-xml/chrono calls in lib/models.py, and the committed reference table where one is named."

exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = {
    "version": 1,
    "setup_cmd": "python3 lib/facts.py",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks: python3 check.py <ID> [--thorough]. Facts (MIR of every function instance) are extracted from /repo's current tree by driver/ (a rustc driver run through cargo +nightly check); checks never run the crate.",
}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({
            "property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"] + TRUST,
        })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
