#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks/ and the texts below."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
T = json.load(open(os.path.join(HERE, "tools", "techniques.json")))
SAN = ("Exploration: the search shows no counterexample among the generated cases (counts, classes and samples in the evidence file); it does not prove absence. "
       "Trusted: the compiler and its sanitizers, the standard library, and the oracle written in checks/ and harness/.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and glob.glob(os.path.join(HERE, "checks", i + "*.cpp")):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=T[i][0], level="exploration", level_note=T[i][1] + " " + SAN))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="Property-based testing with generated cases. No hooks: /repo is compiled as it is. known_findings.txt lists genuine defects (known: not repaired, fixed: repaired).")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
