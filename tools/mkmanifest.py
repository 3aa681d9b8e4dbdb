#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl") if l.strip()]
claimed = subprocess.run([root + "/bin/engine", "ids"], capture_output=True, text=True, check=True).stdout.split()
note = ("Bounded: the solver decides every value of the symbolic inputs (element identities, hash bits within the stated "
        "windows, choices of operations, schedules) within the bounds listed in the evidence; nothing beyond them. Trusts z3, "
        "the Go SSA builder and this engine's interpretation of SSA, which every run cross-checks by running sampled paths natively.")
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "symbolic execution of the Go SSA of /repo, decided by SMT (z3)",
        "level": "model_checking",
        "level_note": note,
    } for p in props if p["id"] in claimed],
    "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in claimed],
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
