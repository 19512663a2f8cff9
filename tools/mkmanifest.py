#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl that jobs.py can decide is claimed."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import jobs
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in jobs.DONE:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification: TLC model checking of the design, TLC-generated behaviours replayed into the code, TLC validation of recorded executions",
                       "level": "model_checking",
                       "level_note": jobs.NOTES.get(i, "Design model exhaustive within its constants; the code is bound to it on the replayed and generated histories only. Trusts TLC and the recording executor.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the executor in /verif/harness uses only the public API, instrumented element types and a global allocator of its own."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
