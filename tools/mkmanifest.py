#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand after adding a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
S = "model-based property testing: generated pipelines and event scripts against a reference interpreter, shrinking"
T = "property-based schedule fuzzing: generated scenarios and interleavings on a deterministic runtime, history oracle, shrinking"
H = "stateful model-based property testing of generated operation histories, shrinking"
tech = {
 "C01": S, "C02": S, "C03": S, "C04": S, "C05": S + "; " + T, "C06": S, "C07": S + "; " + T,
 "C08": T, "C09": T, "C10": H, "C11": T, "C12": T, "C13": H + "; " + T, "C14": S, "C15": T,
 "C16": T, "C17": S + "; " + T, "C18": T, "C19": T,
}
note = ("Generated-input search, not a proof: the property held on every case of the run (counts, non-trivial "
        "rule and samples in the evidence file). Trusted: the reference interpreter / history oracle, the std "
        "facade and its scheduler (sequentially consistent, preemption at lock, atomic, notify and spawn points).")
done = os.environ.get("DONE", " ".join(ids)).split()
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "hooks": {"guard": "none (no hook in /repo: the instrumented copy is made by harness/prepare.py)",
           "enable": "harness/prepare.py copies /repo/src and links it against harness/vp_std", "source_commits": []},
 "checks": [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
             "technique": tech[i], "level": "exploration", "level_note": note} for i in ids if i in done],
 "not_applicable": [{"property": i, "reason": "check still under construction"} for i in ids if i not in done],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
