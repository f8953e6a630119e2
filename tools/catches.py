"""Record in tools/catches.json the check and rule catching each planted bug: catches.py LOG  (lines of tools/catch.sh)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = f"{V}/tools/catches.json"
c = json.load(open(p)) if os.path.exists(p) else {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (P\d\d) rc=(\d+) (?:\d+s )?(.*)", l)
    if m:
        r = re.match(r"\s*(\S+) broken by (\S+)", m[4])
        c[m[1]] = f"{m[2]} (rule {r[1]}, {r[2].split(':')[-1]})" if m[3] == "1" and r else f"{m[2]}" if m[3] == "1" else "missed"
json.dump(c, open(p, "w"), indent=1)
