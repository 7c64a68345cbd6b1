#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "linearizability of simulated histories",
    "C02": "linearizability of simulated histories",
    "C03": "message passing under a weak memory model with race detection",
    "C04": "sequential consistency of simulated litmus programs",
    "C05": "linearizability plus watched cells on a masking platform",
    "C06": "linearizability and bounded completion with killed threads",
    "C07": "histories with failing computations against a reference model",
    "C08": "histories with failing copies against a reference model",
    "C09": "histories with throwing panic handlers against a reference model",
    "C10": "histories against reference lists with link checks",
    "C11": "histories against reference lists",
    "C12": "histories with refused nodes against reference lists",
    "C13": "histories with failing copies against a reference model",
    "C14": "histories with failing copies against a reference model",
    "C15": "histories with failing copies against a reference model",
    "C16": "histories with failing constructors and callbacks, object ledger",
    "C17": "simulated wrapping clock with jumps against unbounded time",
    "C18": "crash points in user functions, inputs and outputs, exact call log",
    "C19": "crash points in user functions, exact call log",
    "C20": "construction histories and crash points in the visitor",
    "C21": "race detection and equal answers under arbitrary interleavings",
    "C22": "whole-system simulation with interrupts, overflow, failures, clock",
    "C23": "nested, throwing and interrupted handlers, exact call log",
    "C24": "crash points in element copies and moves, reference lists, object ledger",
    "C25": "histories with failing copies and targets, call log, concurrent calls",
    "C26": "cursor and view histories of several contexts against a byte model, race detection",
    "C27": "crash points in copies, conversions and generators, call log, cursor histories",
    "C28": "crash points in element comparisons, copies and moves, log of compared pairs",
    "C29": "histories of nested values with failing innermost copies against a reference model",
    "C33": "crash points in arguments, conversions, copies and moves of messages, several threads formatting",
}
NA = {
    "C30": "decided by the compiler for each tuple type: no execution to schedule or to fail (moving the elements at run time is C24, comparing them C28)",
    "C31": "compile-time text is a pure function of its arguments: nothing to schedule or to fail (run-time arguments are C33)",
    "C32": "arithmetic on single words is a pure function of its input: nothing to schedule or to fail",
    "C35": "answered by the compiler for each type: there is no execution to simulate",
}


def main():
    checks = []
    for p in sorted(NOTE):
        if not os.path.exists(os.path.join(ROOT, "checks", p + ".cpp")):
            continue
        checks.append({
            "property": p,
            "quick_cmd": "python3 run.py check %s quick" % p,
            "thorough_cmd": "python3 run.py check %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "deterministic simulation with fault injection: " + NOTE[p],
            "level": "exploration",
            "level_note": "seeded random schedules, histories and faults over the real headers; bounded sizes, not exhaustive; trusts the simulated platform layer, memory model and reference model",
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py build",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
        "notes": "No hooks in /repo: memory accesses are intercepted by the compiler's thread-sanitizer instrumentation linked against sim/rt.cpp. Replay a violation with: python3 run.py replay <file>.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
