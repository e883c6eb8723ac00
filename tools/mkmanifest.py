#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os, sys
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, VERIF + "/lib")
import check
NOTE = {
 "filters": "TLC shows that the operational model meets every clause of the property for all hash functions in a small scope; behaviours of the model are replayed on the real filters in many configurations and every recorded step is validated by TLC against the same clauses.",
 "exact": "The hash functions, positions and layouts are specified bit for bit; TLC recomputes every saved byte of filters made by the code from the specification alone.",
 "bitsets": "All states of small bit sets are enumerated by TLC; generated histories on real bit sets are validated step by step.",
 "loading": "TLC enumerates the kinds of damage; the verdict on every loader run (result, memory, time) is computed by the specification from the damaged header.",
 "faults": "A buffered writer on a failing device is model checked; the real code is run with a failure at every offset (sampled for large files) and validated.",
 "params": "TLC enumerates all constructors with all kinds of parameters; every creation is validated, including sizes recomputed by the specification.",
 "rates": "The expected rate of every layout is computed in TLA+; filters filled to capacity are measured and validated, also by the rate that follows from the bits set.",
 "cli": "Parallel insertion and checking are model checked for all schedules in a small scope; generated histories of commands, and every combination of numbers of files and jobs, are run and validated.",
 "options": "TLC enumerates the command lines; what each makes is validated against the specification of the options.",
 "describe": "Histories generated from the model are replayed on DCSO filters; TLC computes the estimate and validates everything reported after every step.",
 "units": "TLC enumerates sizes around all powers of two, pairs and short histories of counting; every answer is computed by the specification in exact arithmetic.",
 "twins": "Generated histories are carried out through the Python module and the library; every step is validated to be the same.",
}
checks = []
for mod, props in check.MODULES.items():
    for p in props:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": "TLA+ specification checked with TLC, bound to the code by replayed behaviours and trace validation",
                       "level": "model_checking", "level_note": check.NOTES.get(p) or NOTE.get(mod, ""), "theorems": []})
checks.sort(key=lambda c: c["property"])
m = {"version": 1, "setup_cmd": "python3 check.py setup", "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface only", "source_commits": []},
     "checks": checks, "not_applicable": check.NOT_APPLICABLE,
     "notes": "See DESIGN.md. Every check rebuilds what it needs from /repo's working tree into /verif/.build."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
