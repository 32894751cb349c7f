#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_table.py and properties.jsonl (run by hand)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from checks_table import CHECKS
try: from checks_table import NOT_APPLICABLE
except ImportError: NOT_APPLICABLE = {}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c.get("level", "exploration"),
            level_note=(c.get("note", "") + " Sampled exploration: absence of a counterexample is not a proof.").strip()))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in CHECKS]
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
  notes="Checks build their harnesses from /repo's working tree (include/, src/) into build/ (ignored by git)."), open(V + "/MANIFEST.json", "w"), indent=1)
