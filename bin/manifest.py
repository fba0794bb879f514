#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "bin", "levels.json")))
m = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "hooks": {
        "guard": "cfg(uflow_verif)",
        "enable": "RUSTFLAGS=--cfg uflow_verif (set by /verif/bin/common.py when it builds /verif/sim, which depends on /repo by path)",
        "source_commits": NOTES["hook_commits"],
    },
    "checks": [],
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOTES["not_applicable"].items())],
    "notes": "All checks run one simulator (/verif/sim) in two builds: with and without debug assertions and overflow checks. "
             "Replay a reported file with bin/replay FILE. Known findings and repaired defects: known-findings.txt.",
}
for p, note in sorted(NOTES["checks"].items()):
    m["checks"].append({
        "property": p,
        "quick_cmd": f"bin/check {p}",
        "thorough_cmd": f"VERIF_TIER=thorough bin/check {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection: " + note["technique"],
        "level": "exploration",
        "level_note": note["note"],
    })
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
