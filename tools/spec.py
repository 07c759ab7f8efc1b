#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.table import PROPERTIES, NOT_APPLICABLE  # noqa

TECH = "deterministic simulation with fault injection: "


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPERTIES:
            f.write(json.dumps({k: p[k] for k in (
                "id", "title", "statement", "quantifier", "why_tests_cant",
                "anchors")}) + "\n")
    checks = []
    for p in PROPERTIES:
        if p["id"] in NOT_APPLICABLE:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": TECH + p["technique"],
            "level": "exploration",
            "level_note": p["level_note"],
            "evidence_file": "evidence/%s.json" % p["id"],
        })
    man = {
        "version": 1,
        "setup_cmd": "python3 -c pass",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v}
                           for k, v in sorted(NOT_APPLICABLE.items())],
        "notes": "Run from /verif. `python3 check.py --replay FILE` replays a "
                 "violation exactly. /repo carries no hooks: every seam is "
                 "put in place from outside (see DESIGN.md).",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
