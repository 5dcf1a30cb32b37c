#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(__file__), "..")
NOTE = {
"C01": "seeded search over sink fault sequences, objects and retries; every run is checked exactly; trusts the simulated sink",
"C02": "seeded search over source and file fault sequences; every run is checked exactly; trusts the simulated streams and file system",
"C03": "seeded search over values of the schema corpus and I/O disturbances; exact comparison of values and bytes; constructs outside the corpus are not reached",
"C04": "every crash point of small objects, drawn crash points of larger ones, over seeded values of the corpus",
"C05": "seeded search over storage corruptions with deterministic step, stack and memory budgets; one known finding (recursive types)",
"C06": "seeded search over forged lengths and damage; peak live memory from a counting allocator against a budget computed per run",
"C07": "seeded search over schedules with preemption at control-flow edges and memory accesses of the code under test; sequentially consistent memory only",
"C08": "seeded search over schedules and settings; linearizability of the recorded history and a bound on single allocations",
"C09": "seeded search over histories of decodes and encodes on one object",
"C10": "seeded search over record logs, alignments and crash points",
"C11": "seeded search over messages in both directions and network faults against an independent codec; one known finding (aligned optional fields)",
"C12": "seeded search over schema trees, hash seeds, directory orders, earlier compilations and interleavings; byte comparison of all output files",
"C13": "seeded search over file-system fault sequences on a simulated file system below std::fs",
"C14": "seeded search over crash points, lost unsynced data and earlier output trees on a simulated file system",
"C15": "seeded search over damage of schema files; an independent parser decides which damaged files are invalid",
}
TECH = {"C07": "deterministic simulation: seeded thread scheduler with fault injection",
        "C08": "deterministic simulation: seeded thread scheduler, linearizability of the history, allocator seam",
        "C11": "deterministic simulation: seeded lossy network with a reference peer",
        "C12": "deterministic simulation: compiler on a simulated file system with seeded hash seeds, listing orders and schedules",
        "C13": "deterministic simulation: compiler on a simulated file system with seeded faults",
        "C14": "deterministic simulation: compiler on a simulated file system with seeded crashes",
        "C15": "deterministic simulation: compiler on a simulated file system with torn and damaged schemas"}
claimed = [l.strip() for l in open(os.path.join(V, "tools", "claimed")) if l.strip()]
NA = {
"N01": "the predicted size is a pure function of one object with no time, I/O, scheduling or fault for a simulation to control; deciding it is plain input generation, not simulation",
"N02": "expression evaluation is a pure function of its operands; no nondeterminism of an environment is involved that a simulator could control",
"N03": "the mapping of names is a pure function of the schema text; no environment takes part in it",
"N04": "rejecting well-formed but inconsistent schemas is a pure function of the schema; faults that damage schemas are covered by C15",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": TECH.get(i, "deterministic simulation: seeded storage and stream faults"), "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "the check is being built")})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no changes to /repo are needed: the simulation interposes libc calls, the allocator and the compiler's coverage callbacks from outside", "source_commits": []},
     "notes": "see DESIGN.md; known-findings.txt lists recorded and repaired defects; replay a violation with ./check.sh replay FILE"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
