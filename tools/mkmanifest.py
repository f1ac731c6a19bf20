#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
import engines
TECH = {
 "C01": "deterministic simulation, sanitizer oracles, allocation faults",
 "C13": "deterministic simulation of thread schedules, differential oracle",
 "C14": "deterministic simulation of crashes and restores, differential oracle",
 "C22": "deterministic simulation with fault injection, differential oracle (rescaled or shifted twin)",
 "C18": "deterministic simulation of the Python module, refinement against the C core",
 "C19": "deterministic simulation of the Python module with allocation and conversion faults",
 "C20": "deterministic simulation of the JavaScript module, refinement against the C core",
 "C21": "deterministic simulation of the JavaScript module, finalisation schedules and allocation faults",
}
NOTE = ("Seeded search over histories, faults and (where relevant) schedules: every run is a pure function of the seed, its invariants are checked after every operation. "
        "Sampling, not proof. Trusts the simulator in sim/, the compilers and, for numeric oracles, long double arithmetic.")
NA = {
 "N01": "A pure function of its argument: no history, schedule, fault, clock or I/O for a simulator to control; deciding it is input testing or proof, another technique. Its consequences inside histories are covered by C09-C11.",
 "N02": "A pure function of a function and an interval: nothing for a simulator to schedule or fail. Its use inside histories is covered by C09 and C16.",
 "N04": "A finite table lookup: the codes and sizes can simply be listed; no history or fault is involved. Memory safety of these calls is in C01.",
 "N05": "A statistical limit statement: no single run can violate it, so a simulator has no oracle that is free of false alarms.",
 "N06": "A static relation between two texts, decided at compile time; nothing runs.",
}
checks = []
for p in sorted(engines.CONFIG):
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TECH.get(p, "deterministic simulation with fault injection, reference-model oracle"),
                   "level": engines.CONFIG[p].get("level", "exploration"), "level_note": engines.CONFIG[p].get("note", "") + NOTE})
m = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "none", "enable": "No hooks were added to the repository: allocator, float utilities and compiler instrumentation are the seams.", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Run any check with --replay FILE to re-execute a recorded violation. known_findings.txt lists fixed and known defects."}
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in engines.CONFIG and i not in NA:
        m["not_applicable"].append({"property": i, "reason": "Not claimed yet: its simulator is under construction."})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
