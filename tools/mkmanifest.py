#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties the simulator implements."""
import json, os, subprocess, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(root, "tools", "level_notes.json")))
NA = json.load(open(os.path.join(root, "tools", "not_applicable.json")))
claimed = [p["id"] for p in props if p["id"] in NOTES]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
commits = [l.split()[0] for l in hooks.splitlines() if "cfg(orchard_sim)" in l]
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {"guard": "--cfg orchard_sim (rustc cfg, never set by the crate itself)",
              "enable": "RUSTFLAGS '--cfg orchard_sim' set in /verif/sim/.cargo/config.toml",
              "source_commits": commits},
    "checks": [{
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": NOTES[i],
    } for i in claimed],
    "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "Not yet claimed: its simulation is still being built.")}
                       for p in props if p["id"] not in claimed],
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
