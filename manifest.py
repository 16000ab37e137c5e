#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the list of claimed ones."""
import json, os
d = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(d + "/properties.jsonl")]
CLAIMED = os.environ.get("CLAIMED", "F A").split()
SUITE = {"F": "fmc", "A": "amc"}
NOTE = {
 "F": "Exhaustive within the stated alphabets, roots and depths: the real program entrypoint (real SPL token CPIs, in-process runtime) is run in every distinct reachable state with every operation, and every result compared with an independent reference model. Trusted: the in-process runtime svm/, the solana-decimal stand-in (validated by the repository's own unit tests), the reference model. Not modelled: compute and transaction size limits.",
 "A": "Exhaustive within the stated alphabets, roots, depths and domains: the real program entrypoint (real SPL token CPIs, in-process runtime) is run for every case and every result compared with an independent exact-integer reference model. Trusted: the in-process runtime svm/, the solana-decimal stand-in (validated by the repository's own unit tests), the reference model. Not modelled: compute and transaction size limits.",
}
TECH = "explicit-state model checking of the real program: exhaustive breadth-first exploration of operation sequences, every step judged by a reference model"
checks, na = [], []
for p in props:
    i = p["id"]
    if i[0] in CLAIMED or i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH,
            "level": "model_checking",
            "level_note": NOTE[i[0]],
        })
    else:
        na.append({"property": i, "reason": "checker not finished yet"})
m = {
    "version": 1,
    "setup_cmd": "./check build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: the programs are driven through their public entrypoints.",
}
json.dump(m, open(d + "/MANIFEST.json", "w"), indent=1)
