#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {}
H = {"C06", "C07", "C08", "C14", "C16", "C17", "C18", "C21", "C22", "C24", "C25", "C26"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(root, "mc/checks/%s.py" % i.lower())):
        if i == "C23":
            t = "exhaustive enumeration of sampler transitions under scripted random numbers on the real code, checked against detailed balance"
        elif i == "C18":
            t = "stateless model checking: deviation-bounded exhaustive exploration of random-number histories on the real code"
        elif i == "C19":
            t = "exhaustive enumeration of inputs and download-fault sequences on the real code against a reference model"
        elif i == "C26":
            t = "systematic exploration of thread schedules (preemption-bounded, controlled scheduler) and of interruption points on the real code"
        elif i in H:
            t = "explicit-state exploration of all operation histories up to a depth on the real code against a reference model"
        else:
            t = "bounded exhaustive enumeration of configurations and inputs on the real code against a reference model"
        checks.append(dict(property=i, quick_cmd="./run.sh %s quick" % i, thorough_cmd="./run.sh %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="model_checking",
                           level_note="Holds for every element of the bounded space named in the evidence file (coverage.bounds), executed on the real code; values outside the alphabets are not covered. Trusts the reference model in mc/ and numpy's float64 arithmetic."))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed; every check drives the public API of the code imported from /repo."),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
