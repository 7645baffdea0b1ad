#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has harnesses is claimed, the rest listed as not applicable."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
have = set(re.findall(r'"(C\d\d)_\w+"', open(root + "/harness/h/registry.go").read()))
note = ("Bounded symbolic execution of the SSA of the current /repo sources (and of the standard library code it "
        "calls): within the bounds in the evidence file z3 decides every branch and assertion for all input values; "
        "counterexamples are replayed against the real build before they are reported. Trusts: the SSA builder, "
        "the symbolic executor (its traces are replayed against the real build on every run), z3. ")
extra = {
 "C19": "encoding/json's decoder (the destination side) is replaced by a model in harness/h/c19.go, cross-checked against the real decoder by the native replays.",
 "C04": "strconv.ParseFloat's rounding is an uninterpreted function shared by code and oracle; its syntax is executed.",
 "C21": "Schedules: a write by a reader to memory another goroutine can reach is reported whatever the interleaving; only the listed operations and bounds.",
}
na = {
}
checks = []
for p in props:
    i = p["id"]
    if i not in have:
        continue
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": "symbolic execution of the Go SSA, decided by z3",
        "level": "model_checking", "level_note": note + extra.get(i, "")})
nal = [{"property": p["id"], "reason": na.get(p["id"], "no check built yet")} for p in props if p["id"] not in have]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": nal}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
