#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level_note="", technique="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, level_note=level_note, technique=technique, na=na))
exec(open(V + "/tools/properties.py").read())
with open(V + "/properties.jsonl", "w") as o:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "./check build",
     "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
                 "level_note": p["level_note"]} for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "No hooks in /repo: every seam (allocator, buffers, streams, sqlite VFS, global operator new/malloc) already exists or is reached by link-time wrapping. Genuine defects found were repaired in 'fix:' commits, listed in known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
