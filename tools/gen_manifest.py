#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {}
NOTE = {
 "default": "Seeded random search over schedules, delays and faults, judged by an independent reference model; a clean batch is evidence, not proof. "
            "Trusted: the simulator (scheduler, network, clock), the harness's own wire codec and reference model. Not simulated: weak memory, real kernels.",
}
checks = []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA: continue
    checks.append(dict(property=p, quick_cmd="./check.sh %s quick" % p, thorough_cmd="./check.sh %s thorough" % p,
        technique="deterministic simulation with fault injection (seeded scheduler, simulated clock and TCP, reference-model oracle)",
        level="exploration", level_note=NOTE.get(p, NOTE["default"])))
m = dict(version=1, setup_cmd="./check.sh build",
    hooks=dict(guard="none in /repo: the seams are woven in at check time through a go build overlay (go test -c -overlay); the shipped sources carry no hook",
               enable="tools/check.py runs sim/instr over /repo's working tree and builds the result with -overlay", source_commits=[]),
    checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
    notes="./check.sh replay <file> runs a replay file again; ./check.sh determinism [n] compares n seeds per property over 8 processes.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
