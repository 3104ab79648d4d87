#!/usr/bin/env python3
"""Regenerates MANIFEST.json. DONE maps each claimed property to (technique, level_note)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
TRUST = " Trusted: the oracle in the harness, serde_json, tokio, rustc."
DONE = {
 "C01": ("runtime monitoring: round-trip oracle against independently written wire JSON, generated messages", "Seeded exploration of every message kind with hostile payloads; not exhaustive."),
 "C02": ("runtime monitoring: panic monitor and shape oracle over hostile byte strings", "Seeded mutation of valid wire text plus random bytes; not exhaustive."),
 "C03": ("runtime monitoring: recorded byte streams of real child processes checked for exactly-once framing", "Real stdin/stdout of child processes, sampled chunkings and header faults."),
 "C04": ("runtime monitoring: error round-trip oracle, all 32-bit boundary codes, end to end through a server", "All SDK error variants and sampled codes/messages/data."),
 "C05": ("runtime monitoring: exactly-once / conservation checker over recorded wire and handler logs", "Recorded histories of one and several clients judged against a model of the handlers."),
 "C06": ("runtime monitoring: fault injection into a live server, liveness judged under virtual time", "Sampled fault sequences; non-termination is decided by the virtual clock running out."),
 "C07": ("runtime monitoring: order, conservation and concurrency-limit monitors under virtual time and real threads", "Sampled latencies, limits and ids; peak concurrency measured inside the handlers."),
}
try:
    exec(open(f"{root}/tools/done.py").read())
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    if i in DONE:
        t, n = DONE[i]
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n + TRUST})
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives the crate through its public API."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not built")
