#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(V, "tools", "claimed.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "N01": "A pure function of one integer (and, for formatting, of fixed calendar rules): no schedule, clock, fault, I/O or interleaving enters it, so there is nothing for a simulator to decide. The clock reading that feeds it is decided under W05.",
    "N02": "Pure value conversions without state, I/O, time or concurrency. Their effect inside files is decided by W01-W05 and B01 on an independent demuxer.",
}
checks = []
for c in CLAIMED:
    checks.append({
        "property": c["id"],
        "quick_cmd": "./check.sh %s quick" % c["id"],
        "thorough_cmd": "./check.sh %s thorough" % c["id"],
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["note"],
    })
done = {c["id"] for c in CLAIMED}
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in done]
m = {"version": 1, "setup_cmd": "python3 tools/build.py asan", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is an existing interface (std::ostream/std::istream, Box, Writer) or is put in at link time (allocator, clock, mkstemp/fdopen/close/unlink, mutex, basic-block callbacks). VIOLATION lines name a replay file; './check.sh replay FILE' reproduces it."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
