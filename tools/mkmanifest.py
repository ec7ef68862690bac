#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plan
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = "The compiler's MIR of /repo is interpreted over an abstract domain (character sets, intervals, linear forms, uninterpreted terms) on every feasible path of the named obligations; a path whose abstract state becomes inexact is reported as undecided in the evidence and never as a violation. Trusts rustc's front end and the models of std and proc_macro operations in analyzer/src."
checks = []
for i in ids:
    if i not in plan.PLAN: continue
    P = plan.PLAN[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
        technique=P["technique"], level=P["level"], level_note=P.get("note", NOTE)))
na = [dict(property=i, reason=plan.NA.get(i, "no check yet")) for i in ids if i not in plan.PLAN]
m = dict(version=1, setup_cmd="cd analyzer && cargo +nightly build --release --offline", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
