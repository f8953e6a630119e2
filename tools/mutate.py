"""Mutation of /repo's sources to look for what the checks do not see.

usage: mutate.py OUT.jsonl [--seed N] [--count N] [--per-function N] [--only SUBSTRING] [--jobs N]
Each mutant is written in a scratch copy of /repo, the checks which analyse the mutated function (according to the evidence of the last
runs on the unchanged tree) are run from the cheapest one until one of them reports a violation.
"""
import argparse, ast, copy, glob, json, os, random, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {"u": "l", "l": "u"}
CALLS = {"maximum": "minimum", "minimum": "maximum", "max": "min", "min": "max", "get_upper": "get_lower", "get_lower": "get_upper", "relu": "abs"}


def other(name):
    """w_u <-> w_l, upper <-> lower, ..."""
    for a, b in (("upper", "lower"), ("_u_c", "_l_c"), ("u_c", "l_c"), ("w_u", "w_l"), ("b_u", "b_l"), ("_pos", "_neg"), ("_0", "_1"), ("x_min", "x_max"), ("ibp", "affine"), ("w_pos", "w_neg")):
        if a in name:
            return name.replace(a, b)
        if b in name:
            return name.replace(b, a)
    return None


def variants(fn):
    """(path to node, description, edit) of one function"""
    out = []
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Raise, ast.Assert)):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.arg) and n.annotation is not None:
            skip.update(id(m) for m in ast.walk(n.annotation))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(m) for m in ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef):
            if n.returns is not None:
                skip.update(id(m) for m in ast.walk(n.returns))
            for d in n.decorator_list:
                skip.update(id(m) for m in ast.walk(d))
    names = {m.id for m in ast.walk(fn) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)} | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            out.append((n, "op", lambda m: setattr(m, "op", ast.Sub() if isinstance(m.op, ast.Add) else ast.Add())))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}[type(n.ops[0])]
            out.append((n, "compare", lambda m, t=t: setattr(m, "ops", [t()])))
        if isinstance(n, ast.BoolOp):
            out.append((n, "boolop", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            out.append((n, "neg", lambda m: setattr(m, "op", ast.UAdd())))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((n, "not", lambda m: (setattr(m, "op", ast.Not()), setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)))))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((n, "bool", lambda m: setattr(m, "value", not m.value)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            out.append((n, "int", lambda m: setattr(m, "value", m.value + 1 if m.value != -1 else 1)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            out.append((n, "float", lambda m: setattr(m, "value", 1.0 if m.value == 0 else -m.value)))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and other(n.id) in names:
            out.append((n, "swap", lambda m: setattr(m, "id", other(m.id))))
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in CALLS:
                out.append((n, "call", lambda m: setattr(m.func, "attr", CALLS[m.func.attr])))
            if isinstance(f, ast.Name) and f.id in CALLS:
                out.append((n, "call", lambda m: setattr(m.func, "id", CALLS[m.func.id])))
            for k, kw in enumerate(n.keywords):
                if kw.arg is not None and kw.arg not in ("dtype", "name"):
                    out.append((n, f"drop {kw.arg}", lambda m, k=k: m.keywords.pop(k)))
        if isinstance(n, ast.IfExp) or isinstance(n, ast.If):
            out.append((n, "if", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))))
        for field in ("body", "orelse"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for k, st in enumerate(b):
                    if isinstance(st, (ast.AugAssign, ast.Expr)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        out.append((n, "drop statement", lambda m, k=k, field=field: getattr(m, field).__setitem__(k, ast.Pass())))
                    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                        nm = st.targets[0].id
                        if nm in {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name)}:
                            out.append((n, "drop assignment", lambda m, k=k, field=field: getattr(m, field).__setitem__(k, ast.Pass())))
    return out


def functions(tree, mod):
    def go(body, pre):
        for n in body:
            if isinstance(n, ast.ClassDef):
                yield from go(n.body, pre + [n.name])
            elif isinstance(n, (ast.FunctionDef,)):
                yield ".".join(pre + [n.name]), n

    for q, n in go(tree.body, []):
        yield f"{mod}:{q}", n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--count", type=int, default=100)
    ap.add_argument("--per-function", type=int, default=1)
    ap.add_argument("--only", default="")
    ap.add_argument("--jobs", default="8")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--dry", action="store_true")
    a = ap.parse_args()
    covers, cost = {}, {}
    for f in glob.glob(os.path.join(HERE, "evidence", "P??.json")):
        d = json.load(open(f))
        cost[d["property"]] = d["wall_s"]
        for q in d["coverage"]["functions"]:
            covers.setdefault(q if isinstance(q, str) else q["function"], set()).add(d["property"])
    rnd = random.Random(a.seed)
    todo = []
    src = os.path.join(a.repo, "src")
    for f in sorted(glob.glob(os.path.join(src, "decomon", "**", "*.py"), recursive=True)):
        rel = os.path.relpath(f, src)
        mod = rel[:-3].replace("/", ".").removesuffix(".__init__")
        tree = ast.parse(open(f).read())
        for q, n in functions(tree, mod):
            if a.only not in q:
                continue
            v = variants(n)
            ks = list(range(len(v)))
            rnd.shuffle(ks)
            for k in ks[: a.per_function]:
                todo.append((rel, q, k))
    rnd.shuffle(todo)
    scratch = f"/tmp/mutate.{os.getpid()}"
    shutil.copytree(src, scratch + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    try:
        for rel, q, k in todo[: a.count]:
            p = os.path.join(src, rel)
            text = open(p).read()
            tree = ast.parse(text)
            n = dict(functions(tree, rel[:-3].replace("/", ".").removesuffix(".__init__")))[q]
            node, what, edit = variants(n)[k]
            line = getattr(node, "lineno", n.lineno)
            before = ast.unparse(n).splitlines()
            edit(node)
            ast.fix_missing_locations(tree)
            after = ast.unparse(n).splitlines()
            import difflib

            diff = [l for l in difflib.unified_diff(before, after, n=0, lineterm="") if l[0] in "+-" and l[:3] not in ("+++", "---")]
            rec = {"file": rel, "function": q, "what": what, "line": line, "diff": diff, "checks": sorted(covers.get(q, ()), key=lambda c: cost[c])}
            if not a.dry and rec["checks"]:
                open(os.path.join(scratch, "src", rel), "w").write(ast.unparse(tree))
                t = time.time()
                rec["ran"] = {}
                for c in rec["checks"]:
                    r = subprocess.run(["python3-vt", "check.py", c, "--jobs", a.jobs], cwd=HERE, env=dict(os.environ, SA_REPO=scratch), capture_output=True, text=True)
                    rec["ran"][c] = r.returncode
                    if r.returncode == 1:
                        rec["killed"] = c
                        break
                rec["time"] = round(time.time() - t)
                open(os.path.join(scratch, "src", rel), "w").write(text)
            with open(a.out, "a") as o:
                o.write(json.dumps(rec) + "\n")
    finally:
        shutil.rmtree(scratch)


main()
