#!/usr/bin/env python3
"""Write planted bugs from a specification file (development tool). The file defines SEEDS: list of
dict(id, property, needs, what_it_breaks, edits=[(file under src/decomon, old, new)], demo=python text).  usage: mkseed.py FILE [ID...]"""
import difflib, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
export KERAS_BACKEND=tensorflow TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    out = ""
    byfile = {}
    for f, old, new in s["edits"]:
        byfile.setdefault(f, []).append((old, new))
    for f, eds in byfile.items():
        p = f"src/decomon/{f}"
        a = subprocess.run(["git", "-C", os.environ.get("REPO", "/repo"), "show", "HEAD:" + p], capture_output=True, text=True, check=True).stdout
        b = a
        for old, new in eds:
            n = b.count(old)
            if n != 1:
                print(s["id"], f, "old text found", n, "times:", old[:80]); raise SystemExit(1)
            b = b.replace(old, new)
        ls = difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + p, "b/" + p)
        out += f"diff --git a/{p} b/{p}\n" + "".join(ls)
    open(f"{d}/patch.diff", "w").write(out)
    open(f"{d}/demo.sh", "w").write(SH); os.chmod(f"{d}/demo.sh", 0o755)
    demo = s["demo"]
    if "from h import" in demo:
        shutil.copy(f"{V}/tools/h.py", f"{d}/h.py")
    open(f"{d}/demo.py", "w").write(demo.strip() + "\n")
    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
    print("wrote", s["id"])
