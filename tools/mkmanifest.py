#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
CLAIMED = open(os.path.join(V, "tools", "claimed.txt")).read().split()
NA = {
 "C25": "A liveness property of a distributed system over unbounded time (fair scheduling, reachability, random choices): contracts state what one call does, not what is eventually reached, and the code gives no ranking argument a contract could carry.",
 "C26": "The protocol has no request identity or de-duplication, so the property does not hold by construction when a reply is lost (net/rpc cannot tell 'not carried out' from 'reply lost'); deciding it needs fault injection on a two-party history rather than a contract on either side. The outcome without lost replies is covered by C14, C16 and C23.",
 "C27": "The encoding is done by encoding/gob and encoding/json, external code outside the verifier's reach that works by reflection; a contract on it would be an assumption and nothing of the property would remain to be proved.",
}
LEVELNOTE = "Deductive proof, function by function, over contracts in /verif/contracts against the Go source read on every run (go/ssa); floats are treated as reals and ints as mathematical integers; the axioms on sequences/measures and the contracts of external functions are trusted (listed in the evidence file). A bounded concrete driver runs beside it only to find failing inputs."
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": "contract-based deductive verification (govc: go/ssa VC generation, discharged by Z3/cvc5)",
            "level": "proof", "level_note": LEVELNOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check yet (work in progress).")})
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
