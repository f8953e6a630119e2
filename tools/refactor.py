"""Rewrite a copy of the sources without changing what they do (development tool): the checks have to stay quiet and to prove as much on the result.

usage: refactor.py ROOT STEP...   (rewrites ROOT/src/decomon in place; steps: ret comp invert ternary impl enumerate flip sub mul rename alias kw while)
"""
import ast, copy, glob, sys

root, steps = sys.argv[1], sys.argv[2:]
N = [0]


def fresh(p):
    N[0] += 1
    return f"_{p}{N[0]}"


def name(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


class Stm(ast.NodeTransformer):
    """statement level rewriting"""

    def visit_Return(self, n):
        self.generic_visit(n)
        if "ret" in steps and n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)):
            v = fresh("ret")
            return [ast.Assign([name(v, ast.Store())], n.value), ast.Return(name(v))]
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            if "comp" in steps and isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1:
                g = n.value.generators[0]
                ns = {m.id for m in ast.walk(g.target) if isinstance(m, ast.Name)}
                inner = any(isinstance(m, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp)) for x in [n.value.elt] + g.ifs for m in ast.walk(x))
                if not inner and n.targets[0].id not in {m.id for m in ast.walk(n.value) if isinstance(m, ast.Name)}:
                    mp = {x: fresh("c") for x in ns}
                    R = Ren(mp)
                    acc = n.targets[0].id
                    body = [ast.Expr(ast.Call(ast.Attribute(name(acc), "append", ast.Load()), [R.visit(n.value.elt)], []))]
                    for c in g.ifs[::-1]:
                        body = [ast.If(R.visit(c), body, [])]
                    return [ast.Assign([name(acc, ast.Store())], ast.List([], ast.Load())), ast.For(R.visit(g.target), g.iter, body, [])]
            if "ternary" in steps and isinstance(n.value, ast.IfExp):
                t = n.targets
                return ast.If(n.value.test, [ast.Assign(t, n.value.body)], [ast.Assign(copy.deepcopy(t), n.value.orelse)])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if "invert" in steps and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if "enumerate" in steps and not (isinstance(n.iter, ast.Call) and getattr(n.iter.func, "id", "") in ("enumerate",)):
            n.target = ast.Tuple([name(fresh("i"), ast.Store()), n.target], ast.Store())
            n.iter = ast.Call(name("enumerate"), [n.iter], [])
        elif "while" in steps and isinstance(n.iter, ast.Call) and getattr(n.iter.func, "id", "") == "range" and len(n.iter.args) == 1 \
                and not any(isinstance(m, (ast.Continue, ast.Break)) for m in ast.walk(n)) and not n.orelse:
            k, e = fresh("k"), fresh("e")
            return [ast.Assign([name(k, ast.Store())], ast.Constant(0)), ast.Assign([name(e, ast.Store())], n.iter.args[0]),
                    ast.While(ast.Compare(name(k), [ast.Lt()], [name(e)]), [ast.Assign([n.target], name(k))] + n.body + [ast.Assign([name(k, ast.Store())], ast.BinOp(name(k), ast.Add(), ast.Constant(1)))], [])]
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        f = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if "flip" in steps and len(n.ops) == 1 and type(n.ops[0]) in f:
            return ast.Compare(n.comparators[0], [f[type(n.ops[0])]()], [n.left])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if "sub" in steps and isinstance(n.op, ast.Sub) and not isinstance(n.left, ast.Call):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        if "mul" in steps and isinstance(n.op, ast.Mult):
            return ast.BinOp(n.right, ast.Mult(), n.left)
        return n


class Ren(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        return ast.Name(self.m.get(n.id, n.id), n.ctx)


def rename(fn):
    if any(isinstance(m, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.ExceptHandler)) for m in ast.walk(fn) if m is not fn):
        return
    args = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    loc = {m.id for m in ast.walk(fn) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)} - args
    R = Ren({x: x + "_r" for x in loc})
    fn.body = [R.visit(s) for s in fn.body]


def impl(tree):
    """each function and method becomes a call of a module-level helper"""
    def ok(f):
        return not any(isinstance(m, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) or isinstance(m, ast.Name) and m.id in ("super", "__class__") or isinstance(m, ast.Attribute) and m.attr.startswith("__") and not m.attr.endswith("__") for m in ast.walk(f)) \
            and not f.decorator_list and not isinstance(f.body[-1] if len(f.body) == 1 else None, (ast.Raise, ast.Pass))

    def split(f, at, cls):
        h = copy.deepcopy(f)
        h.name = f"_{cls}{f.name.replace('__', '')}_impl"
        h.returns = None
        for a in ast.walk(h.args):
            if isinstance(a, ast.arg):
                a.annotation = None
        h.args.defaults, h.args.kw_defaults = [], [None] * len(h.args.kwonlyargs)
        a = f.args
        call = ast.Call(name(h.name), [name(x.arg) for x in a.posonlyargs + a.args] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                        [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []))
        doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
        f.body = doc + [ast.Return(call)]
        return h
    new = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and ok(n):
            new.append(split(n, tree, ""))
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and ok(m):
                    new.append(split(m, tree, n.name.lower() + "_"))
        new.append(n)
    head = [n for n in new if isinstance(n, (ast.Import, ast.ImportFrom)) or isinstance(n, ast.Expr)]
    tree.body = new


for f in sorted(glob.glob(f"{root}/src/decomon/**/*.py", recursive=True)):
    src = open(f).read()
    t = ast.parse(src)
    if "rename" in steps:
        for fn in ast.walk(t):
            if isinstance(fn, ast.FunctionDef):
                rename(fn)
    t = Stm().visit(t)
    if "impl" in steps:
        impl(t)
    if "alias" in steps:
        class A(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == "K" and n.attr in ("maximum", "minimum", "sum", "reshape", "expand_dims", "concatenate"):
                    return ast.Call(name("getattr"), [n.value, ast.Constant(n.attr)], [])
                return n
        t = A().visit(t)
    open(f, "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n")
