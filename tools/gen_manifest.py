#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl; CLAIMED below lists the properties with checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
claimed = set(open(here + "/tools/claimed.txt").read().split())
reasons = {
 "C33": "statistical and asymptotic behaviour of floating-point training (convergence, moments of random draws) is not expressible as a pre/postcondition a deductive verifier can discharge",
}
notes = {}
if os.path.exists(here + "/tools/level_notes.json"):
    notes = json.load(open(here + "/tools/level_notes.json"))
default = ("Every obligation generated from the SSA of /repo's current source for the functions this property depends on is discharged by z3/cvc5 on every run, "
  "for all inputs and all loop iterations. Trusted: the verifier in /verif/gov, go/ssa, the solvers, the float64 axioms, the contracts assumed on the standard library (listed in the evidence).")
bounded = json.load(open(here + "/contracts/bounded.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed and i in bounded:
        b = bounded[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
          "technique": "contracts discharged on the functions it builds on; bounded check of the real code for the functions out of the verifier's reach",
          "level": "exploration", "level_note": "NOT a proof. The functions %s are checked by a bounded run standing in for their proof (%s; reason: %s). "
          "The contracts of the functions they build on that carry this property are discharged on every run as for the other properties." % (", ".join(b["functions"]), b["bound"], b["why"])})
    elif i in claimed:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
          "technique": "contract-based deductive verification of the Go source (own VC generator over go/ssa, SMT)",
          "level": "proof", "level_note": (notes.get(i, "") + " " + default).strip()})
    else:
        na.append({"property": i, "reason": reasons.get(i, "no check registered yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: contracts live in /verif/contracts keyed by function; repairs of defects are the fix: commits listed in KNOWN_FINDINGS."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
