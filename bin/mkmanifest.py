#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks_net, checks_lib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg = dict(checks_net.CHECKS); reg.update(checks_lib.CHECKS)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "bin", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in reg:
        n = NOTES.get(i, "")
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification checked with TLC; TLC-generated scenarios replayed into the real code; recorded traces validated by TLC against the specification",
                       "level": "model_checking",
                       "level_note": n or "Exhaustive TLC check of the design at small constants; conformance of the real code on generated scenarios and recorded traces."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "hooks": {"guard": "none (no hooks in /repo; the checks add scheduling points through a build overlay)", "enable": "go build -overlay with sources rewritten at check time by harness/cmd/yieldgen", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
