#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the scenarios present."""
import json, glob, os, re
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
have = set()
for f in glob.glob(here + "/world/zzharness/c*.go"):
    have |= set(re.findall(r'ID: "(C\d+)"', open(f).read()))
na = {
 "C19": "The typed accessors are pure, single-threaded functions of a private byte array: no schedule, clock, I/O or second party for a simulation to control. Their use by the processors is exercised inside C01, C03, C12 and C13.",
 "C20": "Encoding and decoding one value is a pure function; there is nothing for deterministic simulation to schedule or fail. Codecs run for real inside C01, C02, C10 and C17.",
}
notes = {
 "C01": "every frame-decoding stack, codec and segmentation sampled; reference: the list of messages sent",
}
checks = []
for p in props:
    if p["id"] in have:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
          "technique": "deterministic simulation with fault injection: seeded search over schedules, network behaviour and fault sequences of the real, instrumented code, against an executable reference model",
          "level": "exploration",
          "level_note": "Seeded random sampling of configurations, operations, faults, delays and interleavings (random, PCT, synchronisation-point and blocking-only schedulers); no exhaustiveness. " +
            "Replayable and minimised on failure. Assumes sequential consistency and atomic standard-library calls. " + notes.get(p["id"], "")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": na.get(p["id"], "check under construction")} for p in props if p["id"] not in have],
     "notes": "No hooks in /repo: the seams are inserted at build time by /verif/instr into a scratch copy of the working tree (channels, select, go, sync, atomic, time, net, os, rand, log are redirected to the simulator). See DESIGN.md."}
for c in m["checks"]:
    c["level_note"] = c["level_note"].strip()
open(here + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
