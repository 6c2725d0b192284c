#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per module in props/."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
NA = {}
NOTE = "Every harness: all values within its stated bound, decided by Z3 (or by term rewriting that closes the query) over the package's own code; counterexamples replayed on the built package. Trusted: clang -O1 IR vs the shipped gcc build, the Cython translator, the NumPy model, the term engine. Undecided harnesses are listed in the evidence as inconclusive and claim nothing."
checks, na = [], []
for i in ids:
    if os.path.exists("%s/props/%s.py" % (R, i.lower())):
        checks.append(dict(property=i, quick_cmd="./check.py %s --tier quick" % i, thorough_cmd="./check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique="symbolic execution of the Cython and C sources (LLVM IR) with SMT (Z3) deciding every assertion", level="other", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt -m compileall -q vp props && python3-vt -c 'import z3'", checks=checks, not_applicable=na,
               notes="Each check regenerates its encoding from /repo's working tree. See DESIGN.md."), open(R + "/MANIFEST.json", "w"), indent=1)
