#!/usr/bin/env python3
"""Regenerates MANIFEST.json from rules.json (run by hand after editing rules)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
rules = json.load(open(H + "/rules.json"))
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl") if l.strip()]
checks = []
for p in props:
    if p not in rules:
        continue
    r = rules[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p,
                       thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p,
                       evidence_file="evidence/%s.json" % p,
                       technique=r["technique"], level="exploration", level_note=r["note"]))
na = [dict(property=p, reason="not built yet") for p in props if p not in rules]
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
               notes="Black-box harness module in harness/ (exported API of /repo only), built by check.py from /repo's working tree; no hooks in /repo."),
          open(H + "/MANIFEST.json", "w"), indent=1)
