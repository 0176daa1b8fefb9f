#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and registry.py.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "lib")]
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": ("bounded model checking of the real C code (CBMC: symbolic execution to SAT), counterexamples replayed natively"
                          if all(h.engine == "cbmc" for h in registry.CHECKS[i]) else
                          "path-wise symbolic execution of the LLVM IR of the real C code with Z3 (symex/), counterexamples replayed natively"),
            "level": "model_checking",
            "level_note": registry.NOTES.get(i, "Every value within the bounds stated in the evidence file; nothing beyond them."),
        })
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the library is compiled from its unchanged sources, with system calls renamed on the command line."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
