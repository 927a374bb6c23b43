#!/usr/bin/env python3
"""rewrites MANIFEST.json from tools/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
note = ("Every obligation Verus generates from /repo's current source for the functions listed in the evidence is discharged, for all inputs, "
        "iterations and call histories. Trusted: Verus/Z3/vstd, rustc's types, the weaver's lowering (cross-checked by running the compiled crate "
        "against an independent reference), the spec functions as the standard. On a changed tree whose functions the weaver or Verus cannot "
        "take, the verdict falls back to a bounded concrete search, labelled so in the evidence. Assumes: %s.")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": p,
        "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
        "technique": "contract-based deductive verification (Verus/SMT) of the functions woven from the current source; failed obligations replayed on the compiled crate",
        "level": "proof",
        "level_note": note % "; ".join(c["assumptions"]),
        "theorems": c["theorems"],
    } for p, c in props.PROPS.items()],
    "not_applicable": [],
    "notes": "No hooks in /repo. check.py is described in DESIGN.md.",
}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")
json.dump(m, open(p, "w"), indent=1)
open(p, "a").write("\n")
