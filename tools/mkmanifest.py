#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE).stdout.decode().splitlines() if l.split(" ", 1)[1].startswith("hook:")]
NOTE = "Seeded search over simulated executions of the real code: no violation among the runs explored is evidence, not proof. Trusts the simulator's model of libc, clocks, signals, disk and allocator (sim/sim.cc) and the independent reference models in sim/."
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "SEARCH_SIM", "enable": "tools/simbuild.py compiles /repo's sources with -DSEARCH_SIM; the shipped Makefile never defines it", "source_commits": hooks},
     "checks": [], "not_applicable": [], "notes": "Every check is './check <id> <tier>': deterministic simulation with fault injection; './check --replay FILE' replays a violation. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "deterministic simulation with fault injection (seeded schedule and fault search)"),
            "level": c.get("level", "exploration"), "level_note": c.get("note", "") + (" " if c.get("note") else "") + NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
