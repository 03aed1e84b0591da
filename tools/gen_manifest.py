#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property of jobs.PLANS."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import jobs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
REPLAY = "TLA+ specification checked with TLC, and conformance: behaviours generated by TLC replayed on the real code, compared after every call"
HIST = "TLA+ specification checked with TLC, and conformance: histories of real threads validated with TLC, behaviours replayed on the real code"
NOTE = ("The specification is checked exhaustively within small constants. Conformance of the code is decided on every behaviour that is "
        "replayed (all short ones within the constants, random longer ones), with slots, write versions, pubkeys, contents, encodings and "
        "compressions chosen at random. Trusted: TLC, the projection in harness/src, bounds of slots / accounts / length in tools/jobs.py.")
checks = []
na = []
for p in props:
    i = p["id"]
    if i in jobs.PLANS:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                           technique=HIST if i in ("S10", "T08") else REPLAY, level="model_checking",
                           level_note=jobs.NOTES.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason="the check of this property is not built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the public interface exposes the abstract state. Known findings: KNOWN_FINDINGS.txt"),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
