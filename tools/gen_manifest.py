#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has one; the rest are listed as not applicable (with why)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
import importlib, pkgutil, checks
reg = {}
for m in pkgutil.iter_modules(checks.__path__):
    mod = importlib.import_module("checks." + m.name)
    for n in dir(mod):
        if len(n) == 3 and n[0].isupper() and n[1:].isdigit(): reg[n] = getattr(mod, n)
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = NOTES.get("_not_applicable", {})
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
       "notes": "Specifications in TLA+ (spec/), checked with TLC; bound to the code by replaying TLC-generated behaviours on the real code and validating the recorded traces with TLC. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in reg and i not in na:
        man["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick",
                              "thorough_cmd": f"python3 run.py {i} --tier thorough",
                              "technique": NOTES.get(i, {}).get("technique", "TLA+ specification checked by TLC; TLC-generated behaviours replayed on the real code, recorded traces validated by TLC"),
                              "level": NOTES.get(i, {}).get("level", "model_checking"),
                              "level_note": NOTES.get(i, {}).get("note", "Spec exhaustively checked for small bounds; conformance of the real code checked on generated behaviours (bounded, seeded), so absence of violations is evidence within those bounds, not proof. Trusts TLC, the Go toolchain and the driver's abstraction of values.")})
    else:
        man["not_applicable"].append({"property": i, "reason": na.get(i, "No check has been built for it yet.")})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks;", len(man["not_applicable"]), "not claimed")
