#!/usr/bin/env python3
"""Writes checks.json (harness bounds) and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')

def H(fn, **k):
    k['fn'] = fn
    return k

P = {}

exec(open(os.path.join(ROOT, 'tools', 'table.py')).read())

NA = {
 'C31': "the generator is a template printer driven by reflection over service types; its observable is Go source text that must then be compiled, which no SMT encoding of the generator decides",
}
TECH = "symbolic execution of the real Go code (SSA) with z3 deciding every branch, assertion and schedule bound; counterexamples replayed natively"
NOTE = "bounded: holds for every input, fault and schedule within the bounds listed per harness in evidence (delay-bounded schedules, bounded frame counts and payload sizes); trusts the SSA translation, the models of sync/time/rand and the fake network"

json.dump(P, open(os.path.join(ROOT, 'checks.json'), 'w'), indent=1)
man = {"version": 1, "setup_cmd": "./run.sh", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
for p in sorted(P):
    man["checks"].append({"property": p, "quick_cmd": "./run.sh %s quick" % p, "thorough_cmd": "./run.sh %s thorough" % p,
                          "technique": TECH, "level": "model_checking", "level_note": NOTE})
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
for i in ids:
    if i not in P and i not in NA:
        man["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
