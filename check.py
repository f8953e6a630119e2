#!/usr/bin/env python3
"""Decide one property of the analysed tree by static analysis.

usage: check.py <property id> [--tier quick|thorough] [--jobs N] [--only SUBSTRING] [--verbose]
"""
import argparse
import fnmatch
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import oblig, pool  # noqa: E402


def known(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def key(it):
    return f"{it['rule']}|{it['construct']}|{it['oid']}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only", default=None)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    pid = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    mod = importlib.import_module(f"props.{pid.lower()}")
    jobs = mod.obligations("deep" if tier == "thorough" else "std")
    if a.only:
        jobs = [j for j in jobs if a.only in j[0]]
    limit = getattr(mod, "LIMIT", {"quick": 60, "thorough": 300})[tier]
    work = [(oid, j[0], j[1], tuple(j[2:]), limit) for oid, *j in [(x[0], *x[1:]) for x in jobs]]
    kf = known(pid)

    def settle(r):
        return any(it["status"] == "refuted" and not any(fnmatch.fnmatchcase(key(it), pat) for k in kf for pat in k["keys"]) for it in r["items"])

    if a.jobs > 1:
        res = pool.run(work, a.jobs, {"quick": 600, "thorough": 3000}[tier], None if a.verbose or tier == "thorough" else settle)
    else:
        res = [oblig.run_one(w) for w in work]
    broken = [r for r in res if r["error"]]
    items = [it for r in res for it in r["items"]]
    visited = sorted({v for r in res for v in r["visited"]})
    used = set()
    viol, knownhits = [], []
    for it in items:
        if it["status"] != "refuted":
            continue
        hit = None
        for i, k in enumerate(kf):
            if any(fnmatch.fnmatchcase(key(it), pat) for pat in k["keys"]):
                hit = i
                break
        if hit is None:
            viol.append(it)
        else:
            used.add(hit)
            knownhits.append(it)
    proved = sum(it["proved"] for it in items)
    total = sum(it["n"] for it in items)
    und = [it for it in items if it["status"] == "undecided"]
    rules = {}
    for it in items:
        r = rules.setdefault(it["rule"], {"proved": 0, "refuted": 0, "undecided": 0})
        r[it["status"]] += 1
    constructs = sorted({it["construct"] for it in items if it["status"] == "proved"})
    empty = [r["oid"] for r in res if not r["items"]]

    for r in broken[: 50 if a.verbose else 3]:
        print("analysis error", r["oid"], r["error"] if a.verbose else r["error"].strip().splitlines()[-1])
    if a.verbose:
        groups = {}
        for it in items:
            if it["status"] != "proved":
                groups.setdefault((it["status"], it["rule"], it["construct"], it["oid"].split("/")[0]), []).append(it)
        for g, its in groups.items():
            print(*g[:3], [it["oid"] for it in its][:6], len(its), its[0]["where"], its[0]["detail"][:300])
        for r in sorted(res, key=lambda r: -r["wall"])[:5]:
            print("slowest", r["oid"], round(r["wall"], 1))

    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": mod.EXPLANATION,
            "scenarios": len(jobs),
            "obligations": len(items),
            "abstract_values_checked": total,
            "abstract_values_proved": proved,
            "undecided": [f"{key(it)}: {it['detail'][:160]}" for it in und][:60],
            "undecided_count": len(und),
            "analysis_errors": [r["oid"] for r in broken],
            "rules": rules,
            "constructs_with_proved_obligations": constructs[:200],
            "functions_analysed": len(visited),
            "functions": visited[:400],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
        "assumptions": getattr(mod, "ASSUMPTIONS", DEFAULT_ASSUMPTIONS),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    print(f"{pid} [{tier}] {len(jobs)} scenarios, {len(items)} obligations, {proved}/{total} abstract values proved, "
          f"{len(und)} undecided, {len(visited)} functions analysed, {ev['wall_s']}s")
    for it in und[:8]:
        print(f"  undecided {key(it)}: {it['detail'][:120]}")
    for i in sorted(used):
        print(f"KNOWN-FINDING: property={pid} {kf[i]['what']}")
    if viol:
        path = os.path.join(HERE, "evidence", f"{pid}.violation.json")
        with open(path, "w") as f:
            json.dump(viol, f, indent=1)
        shown = set()
        for it in viol:
            k = (it['rule'], it['construct'])
            if k in shown or len(shown) >= 20:
                continue
            shown.add(k)
            w = it["where"]
            loc = f"{w[0]}:{w[1]} in {w[2]}" if w else "-"
            print(f"  {it['rule']} broken by {it['construct']} [{it['oid']}] at {loc}: {it['detail'][:220]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if proved == 0:
        print("analysis broken: nothing could be decided", empty[:5])
        return 2
    return 0


DEFAULT_ASSUMPTIONS = [
    "Keras layers and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "real arithmetic: floating-point rounding and the epsilon guards are not modelled",
    "tensor ranks and configuration flags are enumerated from the listed scenarios; element values are unconstrained",
]

if __name__ == "__main__":
    sys.exit(main())
