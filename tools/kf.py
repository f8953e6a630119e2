#!/usr/bin/env python3
"""kf.py finding PID KEY[,KEY] WHAT | kf.py fixed PID SUBJECT-SUBSTRING WHAT  (development tool)"""
import json, subprocess, sys
p = __file__.rsplit("/", 2)[0] + "/known_findings.json"
k = json.load(open(p))
kind, pid, x, what = sys.argv[1:5]
if kind == "finding":
    k["findings"].append({"property": pid, "keys": x.split(","), "what": what})
else:
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    h = [l.split()[0] for l in log if x in l]
    assert len(h) == 1, h
    k["fixed"].append(f"fixed: property={pid} {h[0]} {what}")
json.dump(k, open(p, "w"), indent=1)
