#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/."""
import json, os
from props import PROPS, NOT_APPLICABLE
os.chdir(os.path.dirname(os.path.abspath(__file__)))
with open("properties.jsonl", "w") as f:
    for p in PROPS + [n for n in NOT_APPLICABLE]:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
json.dump({
    "version": 1,
    "setup_cmd": "python3 gen.py",
    "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                "technique": p["technique"], "level": p["level"],
                "level_note": ("Exhaustive within: %s. %s Trusts the reference model and harness, clang and the sanitizer runtime." % (p["bounds"].rstrip("."), p["note"])).replace("  ", " ")}
               for p in PROPS],
    "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
    "notes": "Every check compiles its harnesses from /repo/include at run time; the library is header-only and nothing needs hooks."
}, open("MANIFEST.json", "w"), indent=1)
