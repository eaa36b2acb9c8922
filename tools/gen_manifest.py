#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
import checks
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = getattr(checks, "NOT_APPLICABLE", {})
TECH = {
 "bfs": "explicit-state model checking of the real code: breadth-first exploration of all operation histories in lockstep with a reference model",
 "choices": "stateless model checking of the real code: exhaustive enumeration of all choice sequences (inputs, operations, faults) against a reference model",
 "sched": "stateless model checking of the real code under a controlled scheduler: all interleavings (preemption bounded) with happens-before race detection",
}
m = dict(version=1, setup_cmd="python3 run.py --selftest", checks=[], not_applicable=[], notes="All checks build the headers of /repo's working tree in a scratch directory; no hooks in /repo are needed. See DESIGN.md.")
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=TECH[c.get("tech", "bfs")], level="model_checking",
            level_note=c.get("note") or "Exhaustive within the bound: %s. Trusts the compiler, the sanitizer and the reference model; says nothing beyond the bound." % c.get("bound", "see DESIGN.md")))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print("%d checks, %d not applicable" % (len(m["checks"]), len(m["not_applicable"])))
