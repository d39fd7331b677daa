#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J

TECH = "symbolic execution of whasm's compiled code (LLVM IR) with Z3, compared with a reference model of the standard"
NOTE = "Every path of the real code within the bounds is explored and every condition decided by Z3; no unwind limits. Bounds: %s. Counterexamples are replayed natively, and sampled paths are compared with the native code."
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
m = {
    "version": 1,
    "setup_cmd": "python3 vp.py setup",
    "checks": [
        {
            "property": i,
            "quick_cmd": "python3 vp.py check %s quick" % i,
            "thorough_cmd": "python3 vp.py check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH,
            "level": "model_checking",
            "level_note": NOTE % J.PROPS[i]["bounds"],
        }
        for i in ids
        if i in J.PROPS
    ],
    "not_applicable": [{"property": i, "reason": J.NOT.get(i, "check under construction")} for i in ids if i not in J.PROPS],
    "notes": "No hooks in /repo are needed: the checks use whasm's public API. Known and repaired defects are listed in known_findings.txt; see DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
