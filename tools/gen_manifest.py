#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan  # noqa: E402

MON = "online trace monitor: independent models checked after every call of the real code"
TECH = {
    "C01": "security monitor over attacked sessions (man in the middle, forged peers, hostile chains) of the real requester",
    "C02": "online monitor over whole sessions of real endpoints and an independent peer",
    "C03": "offline relational checker over recorded nonces of sessions, threads and processes; replay injection",
    "C04": "transcript monitor: independent recording compared after every call",
    "C05": "reference state machine monitor over generated request sequences",
    "C06": "differential monitor: restarted responder against a fresh one",
    "C07": "panic, hang and overflow-check monitor under hostile workloads (checked and optimized builds)",
    "C08": "panic, hang and overflow-check monitor under hostile workloads (checked and optimized builds)",
    "C16": "guard-byte and result monitor over every output buffer size",
    "C19": "fault injection through an instrumented signer, with online monitor",
    "C24": "interleaving, thread-migration and process-separation monitor with per-session comparison",
    "C25": "counting allocator armed around every library call",
    "C30": "configuration sweep of the real build script and builds, with observed constants and limits",
    "C31": "build-profile differential monitor, AddressSanitizer and Miri",
}
checks = []
for p in sorted(plan.PLAN):
    d = plan.PLAN[p]
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
        "technique": TECH.get(p, MON),
        "level": "fault_enumeration" if p == "C19" else "exploration",
        "level_note": "Runtime monitoring of generated executions, not a proof: holds on everything the run executed (counts in the evidence file). "
                      + (("Trusts: " + "; ".join(d["assumptions"]) + ".") if d["assumptions"] else ""),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'tools'); import plan\" && cargo --version",
    "hooks": {"guard": "none", "enable": "no hooks: everything is observed through the public interface", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": "C32", "reason": "The secret-dependent computation (private key use) is in the caller's signer and in ring, not in this library; the only comparisons of secrets-derived data here are of public values, and wall-clock timing cannot be decided soundly by monitoring in a shared sandbox."}],
    "notes": "check.py builds the monitor from /repo's current tree in several configurations and build profiles, runs it and judges what it observed. known_findings.txt lists repaired defects.",
}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
