"""Record in tools/sizes.json the size of each check, from the logs of runs: sizes.py LOG..."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = f"{V}/tools/sizes.json"
c = json.load(open(p)) if os.path.exists(p) else {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(P\d\d) \[quick\] (\d+) scenarios, (\d+) obligations, .*?(\d+) undecided, (\d+) functions analysed, ([\d.]+)s", l)
        if m:
            c[m[1]] = [int(m[2]), int(m[3]), int(m[5]), int(m[4]), max(1, round(float(m[6])))]
json.dump(c, open(p, "w"), indent=1)
