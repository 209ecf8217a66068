#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "F02": ("fault_enumeration", "crash-point injection at generated/enumerated system calls, oracle: independent decoder"),
    "A01": ("fault_enumeration", "allocation-failure injection at enumerated allocations, oracle: undisturbed run"),
    "S05": ("exploration", "structure-aware fuzzing of file bytes, oracle: independent strict decoder, AddressSanitizer"),
    "T10": ("exploration", "random scripts in free-running threads, oracle: each thread's results alone; ThreadSanitizer on the library"),
    "F03": ("exploration", "random schedules of locked readers/writers at system-call granularity, oracle: linearizable register / counter"),
    "M04": ("exploration", "random MPI schedules in an in-process MPI, oracle: legality monitor, deadlock detection, reference results"),
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.cpp" % (V, i)):
        lvl, tech = TECH.get(i, ("exploration", "property-based testing: generated cases with shrinking against an explicit oracle (model / independent codec / round trip)"))
        checks.append({
            "property": i,
            "quick_cmd": "./check " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
            "technique": tech,
            "level": lvl,
            "level_note": "Generated-input search: holds on every case generated (counts, rule and samples in the evidence file), not a proof. "
                          "Trusts the reference model / independent codec in /verif/src, AddressSanitizer, and the system-call and MPI interposition layers.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
hook = json.load(open(V + "/tools/hooks.json")) if os.path.exists(V + "/tools/hooks.json") else None
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": na,
     "notes": "see DESIGN.md; known_findings.txt lists repaired defects and open findings"}
if hook:
    m["hooks"] = hook
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
