#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import CHECKS
ROOT = os.path.dirname(HERE)
SPY = "runtime monitoring: the real controller runs with the solver boundary interposed and monitors compare everything observed with an independent reference"
NOTE = "Executions of the real code only: holds on the random and boundary cases explored (counts in the evidence file); trusts the harness's reference implementation, Eigen and the compiler."
TECH = {
    "C03": "runtime monitoring: analytic callbacks of the running controller compared with fourth order numerical differences at every observed point",
    "C06": "runtime monitoring with fault injection at the solver boundary and in the user callbacks; differential twin as oracle",
    "C10": "runtime monitoring of random interleavings of several controllers against their solo transcripts; ThreadSanitizer on controllers running on threads of their own",
    "C11": "runtime monitoring: differential twin (compile-time against run-time sizes) over random histories",
    "C12": "AddressSanitizer, UBSan, LeakSanitizer, valgrind memcheck and heap-fill differential on random histories with faults",
    "C15": "runtime monitoring: optima and closed loops against an independent certified QP solver",
    "C26": "AddressSanitizer, UBSan, LeakSanitizer, valgrind memcheck, heap-fill differential and the allocation ledger of the solver stand-in",
    "C29": "runtime monitoring: optima and closed loops against an independently condensed quadratic program",
    "C30": "runtime monitoring against an extended precision matrix exponential",
    "C31": "runtime monitoring of every stage evaluation against the classical scheme",
    "C32": "runtime monitoring on a simulated clock against reference statistics",
    "C33": "runtime monitoring of the written text against a model; differential controller runs at all levels",
    "C40": "runtime monitoring: the Python module and its C++ counterpart driven by the same random scripts and compared call by call, at the solver boundary and in the callbacks; AddressSanitizer and UBSan",
    "C34": "runtime monitoring: exhaustive small and random operands, and sizes of every matrix seen at callbacks and solver boundary",
}
NOTES = {
    "C06": "Enumerates every failure code and exceptions of nine types at random callback invocations; a twin controller that skips the failing calls is the oracle. " + NOTE,
    "C12": "Every executed instruction is checked by the sanitizers; what the random histories do not reach is not covered. MemorySanitizer is replaced by memcheck and the heap-fill differential because the solver library is not instrumented.",
    "C26": "Every executed instruction is checked by the sanitizers; the solver library is the stand-in (OSQP is not installed).",
}
NOTES["C40"] = "Differential: both sides share the C++ library (decided by the other properties), so what is decided is the binding. pybind11 3.1.0 is vendored in third_party because the submodule is empty here. " + NOTE
LMPC_NOTE = " The OSQP solver is not installed: a stand-in with its interface, validation and an exact solver takes its place, so what is decided is the controller's side of that interface."
NA = {
}
checks = []
for p in sorted(CHECKS):
    note = NOTES.get(p, NOTE)
    if "C20" <= p <= "C29":
        note += LMPC_NOTE
    checks.append({
        "property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": TECH.get(p, SPY), "level": CHECKS[p].get("level", "exploration"), "level_note": note,
    })
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for p in props:
    if p not in CHECKS and p not in NA:
        NA[p] = "no check yet"
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)],
     "notes": "No hooks in /repo: the solver boundary is interposed at link time (nlopt) or replaced (OSQP stand-in). VERIF_REPO selects another tree during development."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
