"""Domain used at every concretisation of a converted model."""
from sa.scen import *
from props.survey import *
from props.p01 import layer_cases, keras_layer
from props.p12 import keras_merge, BIN

EXPLANATION = (
    "clone() (also after another conversion of the same network for another domain) and the conversion of single layers are interpreted with a domain object of the user, then the converted layers are interpreted. "
    "Every call of a perturbation domain made on the input of the network must be made on a domain of the class and parameters of the user's, and "
    "a ball of the user must never be applied to anything else (rule domain-used); every layer run must hold the user's domain (rule domain-held); "
    "the converted model must report it (rule domain-reported). Balls make a defaulted BoxDomain another class of object."
)
H = "props.p15"
ASSUMPTIONS = [
    "Keras layers, models and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "networks, layers and domains are enumerated; values of weights and bounds are unconstrained",
]
LIMIT = {"quick": 120, "thorough": 600}
DOMS = ("ball2", "ballinf", "ball1", "box")
ACTFNS = ("relu", "softplus", "sigmoid", "tanh", "softsign", "exponential", "softmax", "linear")


def obligations(tier):
    out = []
    kinds = ("relu", "two-activations", "conv", "bn", "permute", "nested", "outputs", "activation-twice")
    for kind in kinds if tier != "deep" else tuple(k for k in CHAINS) + ("nested", "nested-last", "outputs"):
        for m in METHODS:
            for dom in DOMS[:2] if tier != "deep" else DOMS:
                for ft in (False, True) if kind in ("relu", "two-activations") else (False,):
                    out.append((f"{kind}/{m}/{dom}{'/finetune' if ft else ''}", H, "converted", kind, m, dom, None, ft))
    for m in METHODS:
        for f in ((True, False), (False, True), (True, True)):
            for dom in DOMS[:3]:
                out.append((f"relu/{m}/{dom}/final-{'ibp' if f[0] else ''}{'affine' if f[1] else ''}", H, "converted", "relu", m, dom, f, False))
    for kind in ("relu", "two-activations", "nested") if tier != "deep" else kinds:
        for i, m in enumerate(METHODS):
            for dom, first in (("ball2", "box"), ("box", "ball2"), ("ball2", "ballinf")):
                out.append((f"{kind}/{m}/{dom}/after-{first}", H, "converted", kind, m, dom, None, False, (m, first, {})))
            out.append((f"{kind}/{m}/ball2/after-{METHODS[(i + 3) % 7]}", H, "converted", kind, m, "ball2", None, False, (METHODS[(i + 3) % 7], "box", {})))
    for kind in ("branches", "skip", "concat"):
        for m in FORWARD:
            for dom in DOMS[:2]:
                out.append((f"{kind}/{m}/{dom}", H, "converted", kind, m, dom, None, False))
    cases = layer_cases("std")
    seen = set()
    for name, shape, spec in cases:
        if spec[0] in seen and tier != "deep":
            continue
        seen.add(spec[0])
        for mode in MODES:
            out.append((f"layer/{name}/{mode}", H, "single", name, shape, spec, mode))
    out += [(f"layer/MaxPooling2D{'-exact' if not fast else ''}/{mode}", H, "single", "MaxPooling2D", (2, 2, 1), ("MaxPooling2D", ((2, 2),), {}), mode, fast)
            for mode in MODES for fast in (True, False)]
    for a in ACTFNS:
        for mode in MODES:
            for ft in (False, True):
                out.append((f"activation/{a}/{mode}{'/finetune' if ft else ''}", H, "single", a, (2,), ("Activation", (a,), {}), mode, True, ft))
    for n in BIN + ["Concatenate"]:
        for mode in MODES:
            out.append((f"merge/{n}/{mode}", H, "merging", n, mode, (2,), 2))
    for n in ("Average", "Maximum", "Add", "Concatenate", "Multiply"):
        for mode in MODES:
            out.append((f"merge/{n}3/{mode}", H, "merging", n, mode, (2,), 3))
    for mode in MODES:
        out.append((f"merge/Dot/{mode}", H, "merging", "Dot", mode, (2,), 2, {"axes": 1}))
    from props.p05 import CASES

    prims = {}
    for c in CASES:
        prims.setdefault(c[1], c)
    for q, c in prims.items():
        for mode in MODES:
            out.append((f"operation/{q.split(':')[1]}/{mode}", H, "operation", q, c[2], c[3], mode))
    for n in ("exp", "log", "frac_pos", "softplus_"):
        for mode in MODES:
            out.append((f"operation/{n}/{mode}", H, "operation", "decomon.layers.utils:" + n, [(2,)], {}, mode))
    for n, k in (("backward_add", 2), ("backward_subtract", 2), ("backward_maximum", 2), ("backward_minimum", 2), ("backward_multiply", 2)):
        for mode in MODES:
            out.append((f"operation/{n}/{mode}", H, "operation", "decomon.backward_layers.utils:" + n, [(2,)] * k, {}, mode, True))
    return out


def operation(rec, q, shapes, kw, mode, backward=False):
    for dom in ("ball2", "ballinf"):
        sc = Scene(rec, 2, 1)
        mod, name = q.split(":")
        f = sc.get(mod, name)
        sv = Survey(sc)
        D = domain_of(sc, dom)
        sv.X = sc.X
        ins = [sc.pack(sc.bounds(sc.ghost(s, f"y{i}"), f"i{i}."), mode, tens(sc.X.copy())) for i, s in enumerate(shapes)]
        if backward:
            n = shapes[0][0]
            ins += [tens(ten.raw(base_tensor(s, f"w{i}"))) for i, s in enumerate(((1, n, 1), (1, 1), (1, n, 1), (1, 1)))]
        sc.call(f, *ins, mode=sc.mode(mode), perturbation_domain=D, **kw)
        n = len(sv.domains)
        for g, o, x, lay in sv.domains:
            if x is not None and sv.is_network_input(x):
                rec.check(same_domain(sc, o, D), "domain-used", q, f"{name}: {g.qual} of {describe(o)} is applied to the input of the network, whose domain is {describe(D)}")
        rec.ok("domain-used", q, n=1)


def judge(sv, dom, what):
    sc, rec = sv.sc, sv.sc.rec
    ball = not is_a(dom, "BoxDomain")
    n = 0
    for f, o, x, lay in sv.domains:
        cons = qual_of(lay) if lay is not None else f.qual
        if x is None:
            continue
        if sv.is_network_input(x):
            n += 1
            rec.check(same_domain(sc, o, dom), "domain-used", cons, f"{what}: {f.qual} of {describe(o)} is applied to the input of the network, whose domain is {describe(dom)}")
        elif ball:
            rec.check(o is not dom and not same_domain(sc, o, dom), "domain-used", cons, f"{what}: the ball of the user is applied to something that is not the input of the network")
    for l in sv.layers:
        for holder, where in ((l, ""), (has(sc, l, "inputs_outputs_spec"), ".inputs_outputs_spec"), (has(sc, l, "inputs_outputs_spec_from"), ".inputs_outputs_spec_from"), (has(sc, l, "inputs_outputs_spec_to"), ".inputs_outputs_spec_to")):
            h = has(sc, holder, "perturbation_domain") if holder is not None else None
            if h is None:
                continue
            n += 1
            rec.check(same_domain(sc, h, dom), "domain-held", qual_of(l), f"{what}: {l.d.get('name', '')}{where} holds {describe(h)} instead of {describe(dom)}")
    return n


def describe(o):
    if not isinstance(o, Obj):
        return str(o)
    return o.cls.name + (f"(eps={o.d.get('eps')}, p={o.d.get('p')})" if "eps" in o.d else "")


def converted(rec, kind, method, dom, final, finetune, before=None):
    sc = Scene(rec, nin_of(kind), 1)
    net = Net(sc, kind)
    earlier(sc, net, before)
    sv = Survey(sc)
    D = domain_of(sc, dom)
    kw = {"final_ibp": final[0], "final_affine": final[1]} if final else {}
    d = sv.clone(net, D, method=method, finetune=finetune, **kw)
    judge(sv, D, f"{kind} {method}")
    h = has(sc, d, "perturbation_domain")
    rec.check(same_domain(sc, h, D), "domain-reported", "decomon.models.convert:clone", f"{kind} {method}: the model reports {describe(h)}")


def run_single(sc, sv, lay, D, mode, fast, finetune, n, backward=True):
    sv.X = sc.X if not is_a(D, "BoxDomain") else ten.raw(sc.x_box())
    x = lambda: tens(sv.X.copy())
    f = sc.get("decomon.layers.convert", "to_decomon")
    cons = "decomon.layers.convert:to_decomon"
    try:
        dl = sc.call(f, lay, sc.nin, perturbation_domain=D, ibp=mode != AFFINE, affine=mode != IBP, fast=fast, finetune=finetune)
    except AbsRaise as e:
        if e.typename() == "NotImplementedError":
            return None
        raise
    shapes = [tuple(ten.raw(t).shape[1:]) for t in sc.attr(lay, "_inbound_nodes")[0].d["input_tensors"]]
    pack = lambda: [t for i, s in enumerate(shapes) for t in sc.pack(sc.bounds(sc.ghost(s, f"y{i}"), f"i{i}."), mode, x())]
    sc.call(dl, pack())
    try:
        for src in (dl, lay) if backward else ():
            bl = sc.call(sc.get("decomon.backward_layers.convert", "to_backward"), src, mode=sc.mode(mode), perturbation_domain=D, finetune=finetune)
            sc.call(bl, pack())
    except AbsRaise as e:
        if e.typename() not in ("NotImplementedError", "KeyError"):  # merges are propagated from their forward counterpart only
            raise
    return dl


def single(rec, name, shape, spec, mode, fast=True, finetune=False):
    for dom in ("ball2", "ballinf") if mode != IBP else ("ball2",):
        sc = Scene(rec, 2, 1)
        lay = keras_layer(sc, spec, shape)
        sv = Survey(sc)
        D = domain_of(sc, dom)
        if run_single(sc, sv, lay, D, mode, fast, finetune, 1) is not None:
            judge(sv, D, name)


def merging(rec, name, mode, shape, n, kw=None):
    sc = Scene(rec, 2, 1)
    lay = keras_merge(sc, name, [shape] * n, **(kw or {}))
    sv = Survey(sc)
    D = domain_of(sc, "ball2")
    if run_single(sc, sv, lay, D, mode, True, False, n) is not None:
        judge(sv, D, name)
