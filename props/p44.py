"""Bounds of affine functions of the outputs given at conversion."""
from sa.scen import *
from props.models import *
from props.p13 import lin
from props import queries

EXPLANATION = (
    "clone() is interpreted with back_bounds: a matrix of unknown elements, or an upper and a lower affine function of unknown weights, given as inputs of the "
    "converted model; with each method, final mode and kind of network.  The constant and affine bounds returned must enclose the functions given, evaluated on "
    "the outputs of the network at an arbitrary point of the box (rule sound), have as many components (rule shapes), and the model must take the functions as "
    "inputs after the domain and report them (rule inputs).  get_adv_box on a model converted with a matrix must bound the margins of the targets over the sources "
    "(rule margin)."
)
ASSUMPTIONS = [
    "Keras layers, models and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "relaxations of activations are sound (P03, P11)",
    "real arithmetic; networks, widths and numbers of functions are enumerated; weights, functions and points are unconstrained",
]
H = "props.p44"
LIMIT = {"quick": 90, "thorough": 600}
KINDS = ("relu", "relu-last", "two-outputs-wide", "sequential", "nested", "conv", "linear-only")


def obligations(tier):
    out = []
    for m in METHODS:
        for kind in KINDS:
            small = kind in ("relu-last", "linear-only")
            for how in ("matrix2", "functions3") if small and tier == "std" else ("matrix2",) if tier == "std" else \
                    ("matrix1", "matrix2", "matrix3") + (("functions1", "functions2", "functions3") if small else ()):
                out.append((f"{kind}/{m}/{how}", H, "given", kind, m, how, None))
        for f in ((True, False), (False, True), (True, True)):
            for how in ("matrix1", "functions2"):
                out.append((f"relu-last/{m}/{how}/final-{'ibp' if f[0] else ''}{'affine' if f[1] else ''}", H, "given", "relu-last", m, how, f))
    out += [(f"outputs/{m}", H, "several", m) for m in METHODS]
    for mode in MODES:
        for lab in ("onehot", "onehot-target", "masks", "int", "int-target", "list", "indices"):
            for n, bs in ((2, -1), (2, 1)) if tier == "std" else ((1, -1), (2, -1), (2, 1), (3, 2)):
                out.append((f"adv/{mode}/{lab}/n{n}/batch{bs}", H, "margin", mode, n, bs, 1, lab))
        out.append((f"adv/{mode}/sub-boxes", H, "margin", mode, 2, -1, 2, "onehot"))
        out.append((f"adv/{mode}/sub-boxes/batch1", H, "margin", mode, 2, 1, 2, "onehot-target"))
    return out


class BNet(Net):
    def __init__(self, sc, kind):
        if kind == "two-outputs-wide":
            self.sc, self.l, self.submodels = sc, {}, []
            i = self.inp()
            self.model = self.Model(i, self.chain(i, self.lay("d1", "Dense", 2, activation="relu"), self.lay("d2", "Dense", 3)))
        elif kind == "linear-only":
            self.sc, self.l, self.submodels = sc, {}, []
            i = self.inp()
            self.model = self.Model(i, self.chain(i, self.lay("d1", "Dense", 2)))
        else:
            super().__init__(sc, kind)


def functions(sc, how, n):
    """tensors given, and the two functions"""
    k = int(how[-1])
    free = lambda name, shape: arr(shape, lambda i: jordan(f"{name}{list(i)}"))
    vals = []

    def one(name, shape):
        v = free(name, (sc.B,) + shape)
        sc.I.state.input_hook = lambda s, nm: tens(v.copy()) if tuple(s) == shape else None
        try:
            t = sc.call(sc.keras.d["Input"], shape)
        finally:
            sc.I.state.input_hook = None
        vals.append(v)
        return t
    if how.startswith("matrix"):
        C = one("C", (n, k))
        z = arr((sc.B, k), lambda i: alg.ZERO)
        return [C], lambda y: [lin(sc, vals[0], y, z)] * 2
    ts = [one("Wu", (n, k)), one("Bu", (k,)), one("Wl", (n, k)), one("Bl", (k,))]
    return ts, lambda y: [lin(sc, vals[0], y, vals[1]), lin(sc, vals[2], y, vals[3])]


def given(rec, kind, method, how, final):
    sc = Scene(rec, nin_of(kind) if kind not in ("two-outputs-wide", "linear-only") else 2, 1)
    contracts(sc)
    net = BNet(sc, kind)
    y = ten.raw(sc.call(net.model, tens(sc.X)))
    if y.ndim != 2:
        return rec.undecided("sound", "-", "outputs are not flat")
    ts, value = functions(sc, how, y.shape[1])
    kw = {"final_ibp": final[0], "final_affine": final[1]} if final else {}
    cons = "decomon.models.convert:clone"
    what = f"{kind} {method} {how}"
    try:
        d = clone(sc, net, method=method, perturbation_domain=sc.box(), back_bounds=list(ts), **kw)
    except AbsRaise as e:
        if e.typename() == "NotImplementedError":
            return rec.ok("refused", cons, f"{what}: {e.typename()}")
        raise
    rec.check([id(t) for t in list(sc.attr(d, "inputs"))[1:]] == [id(t) for t in ts], "inputs", cons, f"{what}: the functions are not inputs of the model")
    rec.check(sc.attr(d, "backward_bounds") is True, "inputs", cons, f"{what}: not reported by the model")
    outs = list(sc.attr(d, "outputs"))
    ibp, affine = sc.attr(d, "ibp"), sc.attr(d, "affine")
    mode = HYBRID if ibp and affine else IBP if ibp else AFFINE
    k = {HYBRID: 7, IBP: 2, AFFINE: 5}[mode]
    if len(outs) != k:
        return rec.bad("tensor-count", cons, f"{what}: {len(outs)} tensors in mode {mode}")
    up, lo = value(y)
    t = sc.unpack(outs, mode)
    # the bounds on one function on each side
    gap = up - lo
    for key in ("l_c", "b_l"):
        if key in t:
            v = ten.raw(t[key])
            if v.shape != gap.shape:
                return rec.bad("shapes", cons, f"{what}: {key} has shape {v.shape} for functions of shape {gap.shape}", t[key].origin)
            o, t[key] = t[key].origin, tens(v + gap)
            t[key].origin = o
    keep = outs[:1] if mode != IBP else []
    sc.check_bounds(keep + [t[x] for x in t if x != "x"], mode, tens(up), cons, what)


def several(rec, method):
    """a network with several outputs: refused, or each output bounded"""
    sc = Scene(rec, 2, 1)
    contracts(sc)
    net = Net(sc, "outputs")
    y = [ten.raw(v) for v in sc.call(net.model, tens(sc.X))]
    ts, value = functions(sc, "matrix2", y[0].shape[1])
    cons = "decomon.models.convert:clone"
    try:
        d = clone(sc, net, method=method, perturbation_domain=sc.box(), back_bounds=list(ts))
    except AbsRaise as e:
        return rec.ok("refused", cons, f"several outputs {method}: {e.typename()}")
    outs = list(sc.attr(d, "outputs"))
    mode = HYBRID if sc.attr(d, "ibp") and sc.attr(d, "affine") else IBP if sc.attr(d, "ibp") else AFFINE
    k = {HYBRID: 7, IBP: 2, AFFINE: 5}[mode]
    for i, v in enumerate(y):
        sc.check_bounds(outs[k * i:k * i + k], mode, tens(value(v)[0]), cons, f"several outputs {method}, output {i}")


def margin(rec, mode, n_x, bs, n_sub, labels):
    queries.adv_box(rec, mode, n_x, bs, n_sub, labels, back=True)
