#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    lines, checks, not_applicable = [], [], []
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}}))
        if p.get("not_applicable"):
            not_applicable.append({"property": p["id"], "reason": p["not_applicable"]})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "/opt/venv/bin/python run.py %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python run.py %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(TOP, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1,
                   "setup_cmd": "/opt/venv/bin/python tools/setup.py",
                   "checks": checks, "not_applicable": not_applicable,
                   "notes": "No hooks in /repo: everything is observed through the public API. "
                            "Genuine defects found are repaired in /repo 'fix:' commits, listed in "
                            "KNOWN_FINDINGS.txt."}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
