#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import VERIF
try:
    import props
    INFO = props.INFO
except ImportError:
    INFO = {}
checks = []
for l in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(l)["id"]
    i = INFO.get(p, {})
    checks.append({
        "property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": i.get("technique", "bounded differential check of the real code (stand-in until the contracts are in place)"),
        "level": i.get("level", "exploration"),
        "level_note": i.get("note", "bounded: generated inputs against an independent oracle"),
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "See DESIGN.md. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
