"""Writes properties.jsonl and MANIFEST.json from tools/props.json-like data."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from proplist import PROPS, NOT_APPLICABLE      # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in (
            "id", "title", "statement", "quantifier", "why_tests_cant",
            "anchors")}) + "\n")
    for p in NOT_APPLICABLE:
        if "statement" in p:
            f.write(json.dumps({k: p[k] for k in (
                "id", "title", "statement", "quantifier", "why_tests_cant",
                "anchors")}) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "technique": "path-exhaustive symbolic execution of the real Python "
                     "code with z3, counterexamples replayed concretely",
        "level": "model_checking",
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]}
                       for p in NOT_APPLICABLE],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
