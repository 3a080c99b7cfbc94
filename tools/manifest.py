#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import props
TECH = {"C03": "TLA+ specification; TLC compares executions of the same bytes in all kinds of cuts, and each against the specification",
        "C16": "TLA+ specification of urlencoded decoding; TLC judges recorded executions and direct calls",
        "C25": "TLA+ specification; TLC validates traces of the implementation driven and observed through its C interface, and the results of every C function given NULL",
        "C26": "TLA+ definitions of string and table operations; TLC judges recorded calls, exhaustive for small strings",
        "C27": "TLA+ specification of what is remembered of calls; TLC validates traces recorded through the Rust and C interfaces against it",
        "C28": "TLA+ specification of the stages; TLC validates traces of stage by stage executions against it, and compares them with the wire in the model",
        "C29": "TLA+ specification of decoding with the reactions of servers; TLC checks it on scripts, validates recorded traces and judges direct calls of the urlencoded parser",
        "C21": "TLA+ specification of the results of calls; TLC judges recorded executions with panic, overflow and hang detection"}
checks = []
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    p = d["id"]
    assert p in props.P
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                   "technique": TECH.get(p, "TLA+ specification; TLC validates traces recorded from the implementation against it"),
                   "level": "model_checking",
                   "level_note": "Every observation the property speaks of, at every call of every explored history, equals what the TLA+ specification (spec/Conn.tla and below) allows; "
                                 "histories are generated from a grammar, seeded and systematic. Trusted: TLC, the harness's recording of the public API, the specification as reading of the property."})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo are needed: the harness uses the public API only. DESIGN.md explains the method; KNOWN_FINDINGS.txt lists the repaired defects."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
