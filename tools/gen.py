"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")

man = {
    "version": 1,
    "setup_cmd": "python3 analysis/setup.py",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "python3 analysis/check.py %s" % p["id"],
            "thorough_cmd": "python3 analysis/check.py %s --thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "other",
            "level_note": p["level_note"],
        }
        for p in PROPS
        if "technique" in p
    ],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if "na" in p],
    "notes": "Every check dumps the type-checked MIR of /repo's current source in two build configurations (portable fallback and all features with AVX-512 code) and decides its obligations on that dump; nothing from /repo is executed.",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
