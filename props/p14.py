"""Bounds returned by converted models."""
from sa.scen import *
from props.models import *

EXPLANATION = (
    "clone() is interpreted on small networks of every supported graph shape with symbolic weights, for every conversion method and final mode; "
    "activations are replaced by their specification (P03, P11), everything else (splitting, renaming, wiring, caching of intermediate bounds, "
    "composition, concretisation, final conversion) is interpreted. The bounds returned must enclose the outputs of the original network at an "
    "arbitrary point of the box (rule sound)."
)
H = "props.p14"
ASSUMPTIONS = [
    "Keras layers, models and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "relaxations of activations are sound (P03, P11)",
    "real arithmetic; networks, widths and input dimensions are enumerated, weights and points are unconstrained",
]
LIMIT = {"quick": 90, "thorough": 600}


def obligations(tier):
    out = []
    for kind in CHAINS:
        for m in METHODS:
            out.append((f"{kind}/{m}", H, "converted", kind, m, None))
    for kind in GRAPHS:
        for m in FORWARD:
            out.append((f"{kind}/{m}", H, "converted", kind, m, None))
    for kind in ("nested", "nested-last", "outputs", "outputs-swapped", "output-inside"):
        for m in METHODS[:4]:
            out.append((f"{kind}/{m}", H, "converted", kind, m, None))
    for kind in NESTED:
        for m in METHODS:
            out.append((f"{kind}/{m}", H, "converted", kind, m, None))
    for kind in MERGED:
        for m in FORWARD:
            out.append((f"{kind}/{m}", H, "converted", kind, m, None))
    for kind in ("relu",) if tier == "quick" else ("relu", "two-activations", "conv"):
        for m in METHODS:
            for f in ((True, False), (False, True), (True, True)):
                out.append((f"{kind}/{m}/final-{'ibp' if f[0] else ''}{'affine' if f[1] else ''}", H, "converted", kind, m, f))
    return out


def converted(rec, kind, method, final):
    sc = Scene(rec, nin_of(kind), 1)
    contracts(sc)
    net = Net(sc, kind)
    target = sc.call(net.model, tens(sc.X))
    targets = list(target) if isinstance(target, (list, tuple)) else [target]
    kw = {"final_ibp": final[0], "final_affine": final[1]} if final else {}
    d = clone(sc, net, method=method, perturbation_domain=sc.box(), **kw)
    outs = list(sc.attr(d, "outputs"))
    ibp, affine = sc.attr(d, "ibp"), sc.attr(d, "affine")
    mode = HYBRID if ibp and affine else IBP if ibp else AFFINE
    k = {HYBRID: 7, IBP: 2, AFFINE: 5}[mode]
    cons = "decomon.models.convert:clone"
    if len(outs) != k * len(targets):
        rec.bad("tensor-count", cons, f"{kind} {method}: {len(outs)} tensors for {len(targets)} outputs in mode {mode}")
        return
    for i, t in enumerate(targets):
        sc.check_bounds(outs[k * i:k * i + k], mode, t, cons, f"{kind} {method} output {i}")
