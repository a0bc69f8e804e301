#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, claimed=claimed, reason=reason))

exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p["observe"],
                "hook_needed": None,
            },
        }, ensure_ascii=False) + "\n")

checks, na = [], []
for p in P:
    if not p["claimed"]:
        na.append({"property": p["id"], "reason": p["reason"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']} quick",
        "thorough_cmd": f"./run.sh {p['id']} thorough",
        "technique": p["technique"],
        "level": p.get("level", "exploration"),
        "level_note": p["note"],
    })
manifest = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "One Rust harness (harness/) with a path dependency on /repo; run.sh rebuilds it against /repo's working tree on every call. No hooks in /repo: everything is observed through the public API. ./run.sh replay <ID> <FILE> replays a reproduction.",
}
json.dump(manifest, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
