#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
MC = "Model checked: TLC explores the specification exhaustively within the constants of the named configuration and checks the property on it. "
TV = "The code is bound to it by trace validation: histories of real calls (one per transition of the explored graph where a model generates them, plus seeded boundary-heavy random ones) are executed on the code compiled from /repo with AddressSanitizer and TLC accepts each recorded event only as a step of the same specification. Nothing is claimed about inputs not executed. "
FN = "The specification transcribes the required decoding as a TLA+ operator; TLC evaluates it on every recorded case and compares the complete observable outcome of the real code (compiled from /repo, AddressSanitizer on). Cases are enumerated systematically and at random; nothing is claimed about inputs not executed. "
T = {}
def t(ids, tech, note):
    for i in ids.split(): T[i] = (tech, note)
t("C01 C02 C03 C04 C05 C06 C07", "TLA+/TLC: MemorySim.tla model checked, transition-covering tests and random histories trace-validated against the code", MC + TV)
t("C08 C09", "TLA+/TLC: MemorySim.tla with out-of-memory actions; allocation-failure histories trace-validated against the code", MC + TV)
t("C10 C11", "TLA+/TLC: ELF loader specified in Elf.tla, recorded loads of enumerated and random images judged by TLC", FN + TV)
t("C12 C13 C14", "TLA+/TLC: dump decoder specified in Dump.tla, recorded reads of enumerated, truncated and random dumps judged by TLC", FN + TV)
t("C15 C16", "TLA+/TLC: log reader specified in GdbLog.tla, recorded parses of generated logs judged by TLC", FN + TV)
t("C17 C18 C19", "TLA+/TLC: start-up specified in CmdLine.tla (arguments x files x injected faults), recorded runs judged by TLC", MC + FN)
t("C20 C21 C22 C23 C24", "TLA+/TLC: debugger-side protocol machine in Platform.tla, recorded remote-protocol sessions judged by TLC", MC + TV)
t("C25", "TLA+/TLC: character transport machine in Comm.tla model checked, tests and histories trace-validated against the code", MC + TV)
t("C26", "TLA+/TLC: whole-program sessions (files, options, protocol) judged against the composition of the specifications", FN + TV)
t("C27", "TLA+/TLC: exception machine in Exceptions.tla model checked, generated nesting programs replayed and trace-validated", MC + TV)
t("C28 C29 C30 C31", "TLA+/TLC: test-support machines in Mocks.tla model checked, tests and histories trace-validated against the code", MC + TV)
t("C32", "TLA+/TLC: scripted line and console machines in Script.tla model checked, tests and histories trace-validated against the code", MC + TV)
sys.path.insert(0, os.path.join(V, "tools"))
import check, importlib
checks = []
for p in props:
    i = p["id"]
    path = os.path.join(V, "tools", check.MODULES[i] + ".py")
    if not os.path.exists(path) or not hasattr(importlib.import_module(check.MODULES[i]), i):
        print("no check for", i); continue
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": "model_checking", "level_note": T[i][1].strip()})
have = {c["property"] for c in checks}
na = [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in have]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the public interfaces and the hook_* function pointers expose everything that is logged."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
