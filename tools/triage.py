#!/usr/bin/env python3
"""triage.py BINARY PROP [SECS]: histogram of violation classes, shortest example each (development aid)."""
import sys, os, json, subprocess, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simbuild
b, prop = sys.argv[1:3]
secs = sys.argv[3] if len(sys.argv) > 3 else "10"
only = sys.argv[4:5]
exe = simbuild.build([b])[b]
ps = [subprocess.Popen([exe, "--prop", prop, "--seed", os.environ.get("SEED", "1"), "--from", str(k), "--step", os.environ.get("J","8"), "--n", "100000000", "--secs", secs, "--maxviol", "400"] + (["--only"] + only if only else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE) for k in range(int(os.environ.get("J","8")))]
runs = 0; cl = collections.defaultdict(list); errs = []; cnt = {}
for p in ps:
    o, e = p.communicate()
    if p.returncode: print("worker", p.returncode, e[-300:]); continue
    j = json.loads(o); runs += j["runs"]; errs += j["errors"]
    for k, (v, mx) in j["counters"].items(): cnt[k] = cnt.get(k, 0) + v
    for v in j["violations"]:
        m = v["o"]["msg"]; alg = m.split("[", 1)[1].split()[1] if "[" in m and len(m.split("[", 1)[1].split()) > 1 else "?"
        cl[(v["o"]["cls"], alg)].append((len(v["o"]["tape"]), v["index"], m))
print(prop, b, "runs", runs, {k: v for k, v in sorted(cnt.items())})
for k, v in sorted(cl.items()):
    t, i, m = min(v)
    print("%5d %s %s: idx %d %s" % (len(v), k[0], k[1], i, m[:330]))
for e in errs[:4]: print("ERR", e[:300])
