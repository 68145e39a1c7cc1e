#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = "deterministic simulation with fault injection: seeded search over request histories, schedules and faults against the real program, judged by an executable reference model and history invariants"
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH,
        "level": "exploration",
        "level_note": "seeded search, no exhaustiveness claimed: the real program crate runs natively in a simulated Solana runtime; token, stake, system and precompile programs are stubs; every verdict and every byte of the ledger after each instruction is compared with the model",
    })
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {"guard": "none (no hooks in /repo)", "enable": "the program's own seam, Solana's syscalls, is used: prog/ compiles the unmodified sources with target_os=\"solana\" paths on and installs the simulator's syscalls", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "one simulator, one check per property: profile, verdict classes and history invariants of that property. VERIF_RUNS, VERIF_SECS, VERIF_JOBS change the size of a batch. target/sim/release/sim replay FILE reproduces a violation.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
