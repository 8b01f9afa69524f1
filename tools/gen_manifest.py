#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
PROG = ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C13 C19").split()
T = {p: "TLA+ specification VrfProgram model-checked with TLC; TLC-generated and random traces of the real program validated against it step by step" for p in PROG}
N = {p: "Every state of the bounded model satisfies the invariants; every recorded step of the real instruction handlers (replayed model states, mutated and hostile instructions, random histories) is a step of the specification. Trusts the emulated Solana runtime in harness/src/svm.rs and the projection of account bytes." for p in PROG}
NA = {}
exec(open(os.path.join(ROOT, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "manifest_more.py")) else None
checks = []
na = []
for p in props:
    i = p["id"]
    if i in T:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=T[i], level="model_checking", level_note=N[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="TLA+/TLC. Spec in spec/, harness in harness/ and service/, driver check.py. `python3 check.py replay <file>` re-runs a recorded violation.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
