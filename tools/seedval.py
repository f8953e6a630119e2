#!/usr/bin/env python3
"""Validate planted bugs in a scratch copy (development tool): patch applies, builds, stable tests pass, demo 0 / nonzero.
usage: seedval.py [--notests] ID..."""
import json, os, re, shutil, subprocess, sys, glob, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
sys.path.insert(0, "/opt/vp")
import importlib.util
spec = importlib.util.spec_from_file_location("results", "/opt/vp/results.py"); results = importlib.util.module_from_spec(spec); spec.loader.exec_module(results)
PY = "/opt/venv/bin/python"

def env(root, backend="tensorflow"):
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True).stdout.decode()
    e.update(dict(x.split("=", 1) for x in out.split("\0") if "=" in x))
    e["PYTHONPATH"] = f"{root}/src:/opt/vp/plugins"
    e["KERAS_BACKEND"] = backend
    return e

def demo(sid, root):
    d = tempfile.mkdtemp(prefix="demo_")
    for f in os.listdir(f"{HERE}/seeded/{sid}"):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(f"{HERE}/seeded/{sid}/{f}", d)
    r = subprocess.run(["bash", f"{d}/demo.sh"], cwd=root, capture_output=True, text=True, timeout=300)
    shutil.rmtree(d)
    return r.returncode, (r.stdout + r.stderr)[-600:]

def val(sid, tests):
    root = f"/tmp/sv_{sid}"
    shutil.rmtree(root, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", root], check=True)
    res = {"id": sid}
    try:
        rc, out = demo(sid, root)
        res["clean"] = rc
        if rc: res["clean_out"] = out
        r = subprocess.run(["git", "apply", f"{HERE}/seeded/{sid}/patch.diff"], cwd=root, capture_output=True, text=True)
        if r.returncode:
            res["apply"] = r.stderr[-300:]; return res
        rc, out = demo(sid, root)
        res["patched"] = rc
        res["out"] = out.strip()[-200:]
        if tests:
            passed, failed = set(), set()
            subprocess.run([PY, "scripts/md2py.py", "docs/source/getting_started.md", "tests/test_doc_getting_started.py"], cwd=root, env=env(root))
            for b in ("tensorflow", "torch"):
                x = f"{root}/{b}.xml"
                subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "seed_each_test", "-n", "4", "--timeout=300",
                    "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junit-prefix={b}", f"--junitxml={x}"], cwd=root, env=env(root, b), capture_output=True)
                for n, ok in results.junit(x):
                    (passed if ok else failed).add(n)
            miss = [t for t in BASE["stable"] if t not in passed or t in failed]
            res["stable_lost"] = len(miss)
            res["lost"] = miss[:4]
        return res
    finally:
        shutil.rmtree(root, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "--notests" not in a
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(f"{HERE}/seeded"))
    with ThreadPoolExecutor(int(os.environ.get("J", 2)) if tests else 4) as ex:
        for r in ex.map(lambda s: val(s, tests), ids):
            ok = r.get("clean") == 0 and r.get("patched", 0) != 0 and (not tests or r.get("stable_lost") == 0)
            print("OK " if ok else "BAD", json.dumps(r), flush=True)
