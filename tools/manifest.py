#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "engine"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
import registry, tasks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        obs = registry.PROPS[i]
        np_ = [o.fn for o, _ in obs if isinstance(o, tasks.Pair)]; nr = [o.name for o, _ in obs if not isinstance(o, tasks.Pair)]
        tech = []
        if np_: tech.append("value-flow summaries compared in normal form with reference definitions")
        if nr: tech.append("dataflow / typestate / effect rules on LLVM IR")
        note = []
        if np_: note.append("Compares the closed-form summary of %s with its definition in spec/, for all inputs and sizes; a difference is reported only when an interpretation of the symbols tells the two terms apart; anything else is listed as undecided in the evidence." % ", ".join(np_))
        if nr: note.append("Rules: %s." % ", ".join(nr))
        note.append("Trusts clang's IR, exact real arithmetic instead of rounding, no aliasing between distinct buffers, and the reference definitions.")
        c = {"property": i, "quick_cmd": "python3 checks/run.py " + i, "thorough_cmd": "python3 checks/run.py " + i,
             "technique": "static analysis: " + "; ".join(tech), "level": "other", "level_note": " ".join(note)}
        checks.append(c)
    else:
        na.append({"property": i, "reason": registry.DECLINED.get(i, "no sound static rule built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
