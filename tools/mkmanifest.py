#!/usr/bin/env python3
"""Single source of /verif/MANIFEST.json (run by hand when the list of checks changes)."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TRUST = ("Trusted: the TLA+ text as the reading of the property, TLC, the Java arithmetic override Rat.java, the "
         "harness that calls the public interface and records what it observes, and floating-point tolerance 1e-9. ")
HAM = "TLC model checking of Ham.tla; replay of exported transitions in the code; trace validation of random histories"
C = {
 "C01": (HAM, "Every state of a small universe (1 bond quick, 2 thorough; both double-counting modes, 2 spin modes, factors, on-site sets) x every notation assignment is checked for physics preservation and for return to the old values, all transitions are replayed in the real code; random histories with asymmetric matrices, unequal spins and shared parameter objects are validated step by step."),
 "C02": (HAM, "All orders of setting components from every undefined/defined combination in the small universe, replayed; random histories interleaving reads, first settings, bad names/tuples and edits."),
 "C03": (HAM, "All container operations from all small states, by object, name and full name, replayed; random histories of 18 (30) operations with complete observation of the public state after each step."),
 "C04": (HAM, "All edits, atom removals and double-counting switches from all small states (2 pairs quick, 3 thorough), replayed; random histories."),
 "C05": (HAM, "All combinations of bounds and predicates on all small states, replayed; random Hamiltonians with bounds that coincide with bond lengths."),
}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "claims.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [], "not_applicable": []}
for i in ids:
    if i in C:
        t, n = C[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i,
                            "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": t, "level": "model_checking", "level_note": n + " " + TRUST})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is not built yet"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
