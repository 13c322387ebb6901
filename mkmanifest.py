#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present and properties.jsonl."""
import json, os, sys, importlib, glob
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(H, "grtsim"))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = json.load(open(os.path.join(H, "not_applicable.json")))
TECH = json.load(open(os.path.join(H, "technique.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "grtsim", "c_%s.py" % i.lower())):
        m = importlib.import_module("c_" + i.lower())
        checks.append(dict(property=i, quick_cmd="python3 grtsim/check.py %s quick" % i, thorough_cmd="python3 grtsim/check.py %s thorough" % i, technique=TECH[i]["technique"], level=m.LEVEL, level_note=TECH[i]["note"], evidence_file="evidence/%s.json" % i))
    else: na.append(dict(property=i, reason=NA[i]))
json.dump(dict(version=1, setup_cmd="python3 grtsim/build.py", hooks=dict(guard="none", enable="not needed: every seam is at the libc/OpenMP boundary of the linked objects (objcopy --redefine-syms in /verif/grtsim/build.py); /repo carries no hook", source_commits=[]), checks=checks, not_applicable=na,
     notes="The simulator (/verif/sim, /verif/grtsim) links PyGRT's unmodified C objects against its own OpenMP runtime, file-operation, clock, allocator and directory layers; see DESIGN.md. Replay a violation with: python3 grtsim/replay.py FILE."), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
