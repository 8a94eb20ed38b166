#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, text, tests, files, mech, technique, note, over=("inputs",), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=list(over), text=" ".join(text.split()),
                  tests=" ".join(tests.split()), files=files, mech=mech, technique=technique,
                  note=" ".join(note.split()), observe=list(observe)))

VAL = """Search, not proof: a fixed number of generated expressions per run (see the evidence file), bounded in depth and
expanded size. Values are compared exactly at points of a 61-bit prime field (functions as opaque injective-looking values)
and by rigorous interval arithmetic at real points; trusts that oracle and the harness' own expression builder."""
GEN = """Search, not proof: a fixed number of generated cases per run (see the evidence file). Trusts the independent model in the harness."""

exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        **({"observe_at": p["observe"]} if p["observe"] else {})},
        }, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']}",
        "thorough_cmd": f"bash check.sh {p['id']} --thorough",
        "technique": p["technique"], "level": "exploration", "level_note": p["note"],
    } for p in P],
    "not_applicable": NOT_APPLICABLE,
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties")
