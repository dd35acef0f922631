#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
NOT = {}  # property -> reason
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks = []
for p in ids:
    if p not in CHECKS: continue
    s = CHECKS[p]
    checks.append(dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
        evidence_file="evidence/%s.json" % p, technique=s["technique"], level="exploration", level_note=s["note"]))
na = [dict(property=p, reason=NOT.get(p, "check not built yet")) for p in ids if p not in CHECKS]
m = dict(version=1, setup_cmd="go version && python3 -c 'import checks'", checks=checks, not_applicable=na,
    hooks=dict(guard="none", enable="no hooks in /repo: harnesses are added at build time with 'go test -overlay'; they observe public calls, channels, connections and instrumented symbol/callback types", source_commits=[]),
    notes="run.py builds each harness against /repo's working tree with -overlay (plain, -race, -asan or checkptr), runs it in 8 shards and judges what its monitors recorded. Replay: python3 run.py <id> --replay <file>.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
