"""Networks ending with a softmax."""
from sa.scen import *
from props.models import *
from props.p21 import judge_model

EXPLANATION = (
    "Conversion is interpreted on networks whose last layer is a softmax (option of a dense layer, activation layer, Softmax layer; functional, sequential "
    "or nested).  The bounds returned must enclose the value the network computes before that softmax, and only that softmax is left out: one used "
    "inside the network is bounded as a softmax (rule logits).  Conversions are counted as refused only for a softmax inside the network, a merge or several "
    "outputs with a backward method, and for several outputs ending with Softmax layers."
)
ASSUMPTIONS = [
    "Keras layers, models and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "activations are replaced by their specification; weights, boxes and points are unconstrained; networks are enumerated",
    "with several outputs, or a softmax layer used both inside and at the end, each output is bounded either after or before its softmax",
]
H = "props.p43"
LIMIT = {"quick": 90, "thorough": 600}
LAST = ("dense", "activation", "layer", "relu-dense", "relu-activation", "relu-layer", "relu-direct-layer", "sequential-dense", "sequential-activation",
        "sequential-layer", "nested-activation", "nested-layer", "nested-dense", "conv-dense", "conv-layer", "skip-layer")
INSIDE = ("inside-activation", "inside-dense", "inside-nested", "inside-and-last", "inside-and-last-dense", "shared-activation",
          "norm-after-dense", "norm-after-activation", "reshape-after-dense", "flatten-after-activation", "add-after-dense", "add-after-activation")
SEVERAL = ("outputs-activation", "outputs-dense", "outputs-layer", "outputs-first")


def obligations(tier):
    return [(f"{k}/{m}", H, "net", k, m) for k in LAST + INSIDE + SEVERAL for m in METHODS]


class SNet(Net):
    """targets: for each output, the values that may be bounded"""

    def __init__(self, sc, kind):
        self.sc, self.kind, self.l, self.submodels = sc, kind, {}, []
        X = tens(sc.X)
        ops = sc.mod("keras.ops").d
        lay = lambda c, *a, **k: self.lay(f"l{len(self.l)}", c, *a, **k)
        lin = lambda d, v: sc.call(ops["add"], sc.call(ops["matmul"], v, sc.attr(d, "kernel")), sc.attr(d, "bias"))
        soft = lambda v: sc.call(sc.mod("keras.activations").d["softmax"], v)
        sm = {"activation": lambda: lay("Activation", "softmax"), "layer": lambda: lay("Softmax")}
        M = sc.mod("keras.models").d["Model"]
        kw, _, how = kind.rpartition("-")

        def ending(how, n=2):
            """layers ending with a softmax and the value before it"""
            if how == "dense":
                d = lay("Dense", n, activation="softmax")
                return [d], lambda v: lin(d, v)
            d = lay("Dense", n)
            return [d, sm[how]()], lambda v: sc.call(d, v)

        if kind in LAST:
            ls, logits = ending(how)
            if kw == "sequential":
                self.model = sc.call(sc.mod("keras").d["Sequential"], [self.inp()] + ls)
                self.targets = [[lambda: logits(X)]]
                return
            i = self.inp()
            if kw == "conv":
                pre = [lay("Reshape", (2, 1, 1)), lay("Conv2D", 1, (1, 1)), lay("Flatten")]
            elif kind == "relu-direct-layer":
                pre, ls = [lay("Dense", 2, activation="relu")], ls[1:]
                logits = lambda v: v
            elif kw == "relu":
                pre = [lay("Dense", 2, activation="relu")]
            else:
                pre = [lay("Dense", 2)] if kw else []
            if kw == "nested":
                si = self.inp(2)
                sub = sc.call(M, si, self.chain(si, *ls))
                self.submodels.append(sub)
                self.model = sc.call(M, i, self.chain(i, *pre, sub))
            elif kw == "skip":
                a = self.chain(i, pre[0])
                add = lay("Add")
                relu = lay("Activation", "relu")
                self.model = sc.call(M, i, self.chain(sc.call(add, [a, sc.call(relu, a)]), *ls))
                self.targets = [[lambda: logits(sc.call(add, [sc.call(pre[0], X), sc.call(relu, sc.call(pre[0], X))]))]]
                return
            else:
                self.model = sc.call(M, i, self.chain(i, *pre, *ls))
            self.targets = [[lambda: logits(self.chain(X, *pre))]]
        elif kind in INSIDE:
            i = self.inp()
            if "-after-" in kind:
                after = kw[:kw.index("-after")]
                ls, logits = ending(how)
                merge = {"add": "Add"}.get(after)
                if merge:
                    d0, m = lay("Dense", 2), lay(merge)
                    self.model = sc.call(M, i, sc.call(m, [sc.call(d0, i), self.chain(i, *ls)]))
                    self.targets = [[lambda: sc.call(m, [sc.call(d0, X), soft(logits(X))])]]
                else:
                    e = {"norm": lambda: lay("BatchNormalization"), "reshape": lambda: lay("Reshape", (2, 1)), "flatten": lambda: lay("Flatten")}[after]()
                    self.model = sc.call(M, i, self.chain(i, *ls, e))
                    self.targets = [[lambda: sc.call(e, soft(logits(X)))]]
                return
            d0, d1 = lay("Dense", 2), lay("Dense", 2)
            if kind == "shared-activation":
                a = lay("Activation", "softmax")
                self.model = sc.call(M, i, self.chain(i, d0, a, d1, a))
                v = lambda: sc.call(d1, soft(sc.call(d0, X)))
                self.targets = [[v, lambda: soft(v())]]
                return
            if "nested" in kind:
                si = self.inp(2)
                s0 = lay("Dense", 2)
                sub = sc.call(M, si, self.chain(si, s0, sm["activation"]()))
                self.submodels.append(sub)
                mid = [sub]
                val = lambda v: soft(sc.call(s0, v))
            elif kind.startswith("inside-dense"):
                ds = lay("Dense", 2, activation="softmax")
                mid = [ds]
                val = lambda v: soft(lin(ds, v))
            else:
                mid = [d0, sm["activation"]()]
                val = lambda v: soft(sc.call(d0, v))
            end = []
            if kind == "inside-and-last":
                end = [sm["activation"]()]
            if kind == "inside-and-last-dense":
                d1 = lay("Dense", 2, activation="softmax")
                self.targets = [[lambda: lin(d1, val(X))]]
            else:
                self.targets = [[lambda: sc.call(d1, val(X))]]
            self.model = sc.call(M, i, self.chain(i, *mid, d1, *end))
        else:
            i = self.inp()
            h = lay("Dense", 2)
            t = sc.call(h, i)
            e1, g1 = ending("activation" if how == "first" else how)
            e2, g2 = ([lay("Dense", 1)], None) if how == "first" else ending(how)
            self.model = sc.call(M, i, [self.chain(t, *e1), self.chain(t, *e2)])
            v = lambda: sc.call(h, X)
            two = lambda g: [lambda: g(v()), lambda: soft(g(v()))]
            self.targets = [two(g1), two(g2) if g2 else [lambda: sc.call(e2[0], v())]]


def net(rec, kind, method):
    sc = Scene(rec, 2, 1)
    contracts(sc)
    install(sc, "add")
    sc.contract("decomon.layers.activations:softmax", lambda sc, _, y: sc.call(sc.mod("keras.activations").d["softmax"], y[0]))
    n = SNet(sc, kind)
    cons = "decomon.models.convert:clone"
    what = f"{kind} {method}"
    try:
        d = clone(sc, n, method=method, perturbation_domain=sc.box())
    except AbsRaise as e:
        crown = method.startswith("crown")
        refusable = crown and (kind in INSIDE + SEVERAL or "skip" in kind) or kind == "outputs-layer"
        if refusable and e.typename() in ("NotImplementedError", "KeyError") + (("AttributeError",) if crown and "skip" in kind else ()):
            return rec.ok("refused", cons, f"{what}: {e.typename()}")
        raise
    outs = list(sc.attr(d, "outputs"))
    ibp, affine = sc.attr(d, "ibp"), sc.attr(d, "affine")
    mode = HYBRID if ibp and affine else IBP if ibp else AFFINE
    k = {HYBRID: 7, IBP: 2, AFFINE: 5}[mode]
    if len(outs) != k * len(n.targets):
        rec.bad("tensor-count", cons, f"{what}: {len(outs)} tensors for {len(n.targets)} outputs in mode {mode}")
        return
    for i, ts in enumerate(n.targets):
        trials = []
        for t in ts:
            r = type(rec)(rec.oid)
            sc.rec = r
            sc.check_bounds(outs[k * i:k * i + k], mode, t(), cons, f"{what} output {i}", rule="logits")
            trials.append(r)
        sc.rec = rec
        good = [r for r in trials if not any(x["status"] == "refuted" for x in r.items)]
        best = (good or trials)[0]
        if good:
            best = min(good, key=lambda r: sum(x["status"] != "proved" for x in r.items))
        rec.items += best.items
