"""Write DESIGN.md (development tool)."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(f"{V}/tools/design_notes.py").read(), NOTES)
P = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
M = json.load(open(f"{V}/MANIFEST.json"))
NA = {x["property"]if "property" in x else x["id"]: x["reason"] for x in M["not_applicable"]}
K = json.load(open(f"{V}/known_findings.json"))
out = open(f"{V}/tools/design_head.md").read() + "## Properties\n\n"
for p in P:
    i = p["id"]
    if i in NA:
        continue
    d = {}
    for n in ast.parse(open(f"{V}/props/{i.lower()}.py").read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("EXPLANATION", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    out += f"### {i} {p['title']}\n\n{d['EXPLANATION']}\n\n"
    if d.get("ASSUMPTIONS"):
        out += "Bounds and assumptions: " + "; ".join(d["ASSUMPTIONS"]) + ".\n\n"
    try:
        e = json.load(open(f"{V}/tools/sizes.json"))[i]
        out += f"Size (quick tier): {e[0]} scenarios, {e[1]} obligations, {e[2]} functions of the repository analysed, {e[3]} undecided, about {e[4]} s.\n\n"
    except KeyError:
        pass
    if NOTES["N"].get(i):
        out += NOTES["N"][i].strip() + "\n\n"
out += "## Not applicable\n\n" + "".join(f"* {k}: {v}\n" for k, v in NA.items()) + "\n" + NOTES["AFTER"].strip() + "\n\n"
out += "## Known findings (genuine defects recorded, not repaired)\n\n" + "".join(f"* {f['property']}: {f['what']}\n" for f in K["findings"])
out += f"\n## Genuine defects repaired ({len(K['fixed'])})\n\nEach is a `fix:` commit in /repo, found by the check of its property on the original tree and confirmed on the real code.\n\n" + "".join(f"* {x[len('fixed: property='):]}\n" for x in K["fixed"])
C = json.load(open(f"{V}/tools/catches.json"))
out += "\n## Planted bugs\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    s = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    out += f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {C.get(s, 'not run')} |\n"
open(f"{V}/DESIGN.md", "w").write(out)
