#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^sim:"], capture_output=True, text=True).stdout.split()
checks = []
for p in props:
    if p["id"] == "D01":
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "deterministic simulation with fault injection: seeded search over schedules and faults of the real client against a simulated network, broker, application and clock",
        "level": "exploration",
        "level_note": "Sampled, not exhaustive: no violation in the simulated runs counted in the evidence. Runs ruq's real code with the real tokio, tokio-util and futures; only TcpStream, the clock, randomness, the broker, the application and the task scheduler are simulated and trusted to be faithful. Debug (overflow-checked) and release builds are both explored.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "hooks": {
        "guard": "cfg(ruq_sim)",
        "enable": "RUSTFLAGS='--cfg ruq_sim --cfg tokio_unstable' cargo build --offline in /verif/harness (done by check.py)",
        "source_commits": hook,
    },
    "checks": checks,
    "not_applicable": [{
        "property": "D01",
        "reason": "decoding one reason code is a pure function of one byte: no schedule, clock, fault or interleaving takes part in it, so simulation has nothing to decide",
    }],
    "notes": "See DESIGN.md. Replay a failure with: python3 check.py --replay FILE",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
