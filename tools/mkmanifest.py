#!/usr/bin/env python3
"""Regenerates MANIFEST.json from jobs.py."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import jobs
NA = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in jobs.PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            technique="symbolic execution of the crate's compiled code (LLVM IR) with an SMT solver, counterexamples replayed natively",
            level="model_checking", level_note="Exhaustive by solver within: " + jobs.PROPS[i]["bounds"] + ". Trusts rustc/LLVM lowering to IR, the engine's IR semantics (cross-checked by native replay of sampled paths) and z3/cvc5; release and development semantics as stated in the evidence."))
    else: na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
