#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties that have a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
ENUM = "model checking: bounded exhaustive exploration (stateless choice-tree search) of the real code against an independent reference model"
SCHED = "model checking: exhaustive preemption-bounded exploration of thread schedules of the real code under a controlled scheduler and virtual clock, with linearizability against a sequential model"
SEQ = "model checking: exhaustive exploration of operation sequences (arrivals, time, expiry, close) on the real code under a virtual clock, against a reference model, with state dedup"
NOTE = "Every choice combination within the bounds listed in the evidence file is executed on the real code and compared step by step with a reference model written from TS 23.040/23.038; says nothing beyond those bounds. Trusts the reference models in h/ref and the Go toolchain."
CONC = " Scheduling points are the synchronisation operations, atomics and timers of the library; accesses between them are covered by the race detector, which runs on every schedule."
CLAIMED = {}
def claim(ids, tech=ENUM, note=NOTE):
    for i in ids.split():
        CLAIMED[i] = (tech, note)
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        t, n = CLAIMED[i]
        m['checks'].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
    else:
        m['not_applicable'].append({"property": i, "reason": "not claimed yet: its check is still being built"})
m['notes'] = "No hooks in /repo: schedules are controlled by instrumenting a build overlay of the current sources."
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
