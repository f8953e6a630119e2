"""Counterparts of layers and activations."""
from sa.scen import *
from sa.interp import FuncV, ClassV
from props.models import *
from props.survey import *
from props.hulls import FUN
from props.p01 import layer_cases, keras_layer, decomon_of
from props.p10 import to_backward
from props.p12 import keras_merge

EXPLANATION = (
    "Every Keras layer of the catalogue is converted forward and backward by interpretation: the class reached must be the counterpart of that class, and "
    "every hyper-parameter of the Keras layer must be found unchanged in it (rule counterpart). Activations are looked up by every spelling, by function, "
    "from None and through layers, in both tables: lookups of one activation must agree (rule lookup), and the forward function reached must return the value of the "
    "Keras activation when its input bounds are equal to its input (rule own); tangent searches must be given the function and the derivative of that "
    "activation (rule hull). Converted networks must run exactly one counterpart per layer and activation of the network, with its hyper-parameters (rule network)."
)
H = "props.p24"
LIMIT = {"quick": 120, "thorough": 600}
ASSUMPTIONS = [
    "Keras layers, models and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "counterparts are recognised by their class name (Decomon or Backward followed by the name of the Keras class), which the dispatch itself relies on",
    "layers, options and networks are enumerated",
]
ACTIVATIONS = ("relu", "sigmoid", "tanh", "softplus", "softsign", "exponential", "linear", "softmax", "elu", "selu")
EXACT = ("relu", "sigmoid", "tanh", "softplus", "softsign", "exponential", "linear")
SSHAPE = ("sigmoid", "tanh", "softsign")
MERGES = ("Add", "Average", "Subtract", "Minimum", "Maximum", "Multiply", "Concatenate")
POOLS = (
    ("MaxPooling2D", (4, 4, 1), ((2, 2),), {}),
    ("MaxPooling2D", (4, 4, 1), ((2, 1),), {"strides": (1, 2)}),
    ("MaxPooling2D", (1, 4, 4), ((2, 2),), {"data_format": "channels_first"}),
)
NOT_HYPER = {"name", "activation", "dc_decomp", "shared", "fast", "finetune", "mode", "perturbation_domain", "slope"}


def obligations(tier):
    out = []
    t = "quick" if tier == "std" else tier
    for name, shape, spec in layer_cases(t):
        for mode in MODES:
            out.append((f"layer/{name}/{mode}", H, "layer", spec, shape, mode))
    for k, (c, shape, a, kw) in enumerate(POOLS):
        for mode in MODES:
            out.append((f"layer/{c}-{k}/{mode}", H, "layer", (c, a, kw), shape, mode))
    for act in ACTIVATIONS[:7]:
        for mode in MODES:
            out.append((f"layer/Activation-{act}/{mode}", H, "layer", ("Activation", (act,), {}), (2,), mode))
    for m in MERGES:
        for mode in MODES:
            out.append((f"merge/{m}/{mode}", H, "merge", m, mode, {}, ((2, 2), (2, 2))))
    for mode in MODES:
        out.append((f"merge/Concatenate-axis1/{mode}", H, "merge", "Concatenate", mode, {"axis": 1}, ((2, 2), (2, 2))))
        out.append((f"merge/Dot/{mode}", H, "merge", "Dot", mode, {"axes": 1}, ((2,), (2,))))
        out.append((f"merge/Dot-2/{mode}", H, "merge", "Dot", mode, {"axes": (1, 2)}, ((2, 3), (3, 2))))
    for act in ACTIVATIONS:
        out.append((f"lookup/{act}", H, "lookup", act))
    for act in EXACT:
        out.append((f"own/{act}", H, "own", act))
        for via in ("table", "layer"):
            for side in ("forward", "backward"):
                if act in SSHAPE:
                    for mode in (HYBRID, AFFINE) + ((IBP,) if side == "backward" else ()):
                        out.append((f"hull/{act}/{side}/{via}/{mode}", H, "hull", act, side, via, mode))
    for kind in CHAINS + ("nested", "nested-last", "outputs", "output-inside", "layer-activation") + NESTED:
        for m in METHODS:
            out.append((f"network/{kind}/{m}", H, "network", kind, m))
    for kind in ("branches", "skip", "concat") + MERGED:
        for m in FORWARD:
            out.append((f"network/{kind}/{m}", H, "network", kind, m))
    return out


def plainv(v):
    if isinstance(v, (list, tuple)):
        return tuple(plainv(x) for x in v)
    return v


def hyper(sc, lay):
    """hyper-parameters of a Keras layer, without what conversion is allowed to change"""
    c = sc.call(sc.attr(lay, "get_config"))
    return {k: both(k, plainv(v)) for k, v in c.items() if k not in NOT_HYPER}


def both(k, v):
    """one axis for both operands of a dot product, or one each"""
    return (v, v) if k == "axes" and isinstance(v, int) else v


def compare_hyper(sc, lay, dl, cons, what):
    rec = sc.rec
    a = hyper(sc, lay)
    b = sc.call(sc.attr(dl, "get_config"))
    for k, v in a.items():
        if k not in b:
            rec.bad("counterpart", cons, f"{what}: {k} is lost")
            continue
        rec.check(both(k, plainv(b[k])) == v, "counterpart", cons, f"{what}: {k} was {v} and is {plainv(b[k])}")
        if k in lay.d and k in dl.d and k != "axes" and isinstance(plainv(lay.d[k]), (int, float, str, bool, tuple, type(None))):
            rec.check(plainv(dl.d[k]) == plainv(lay.d[k]), "counterpart", cons, f"{what}: attribute {k} was {lay.d[k]} and is {dl.d[k]}")


def kind_of(o):
    n = o.cls.name
    for p in ("Decomon", "Backward"):
        if n.startswith(p):
            return p, n[len(p):]
    return "", n


def layer(rec, spec, shape, mode):
    sc = Scene(rec, 2, 1)
    lay = keras_layer(sc, spec, shape)
    sc.I.hooks.append(lambda f, args, kwargs: [base_tensor(ten.raw(list(args[0])[-1]).shape, f"hull{k}") for k in range(4)]
                      if f.qual == "decomon.utils:get_linear_hull_s_shape" else MISSING)
    dl = decomon_of(sc, lay, mode, sc.nin)
    what = f"{spec[0]} {spec[1]} {spec[2]}"
    rec.check(kind_of(dl) == ("Decomon", spec[0]), "counterpart", "decomon.layers.convert:to_decomon", f"{what} becomes {dl.cls.name}")
    compare_hyper(sc, lay, dl, qual_of(dl), what)
    if spec[0] == "Activation":
        rec.check(sc.call(sc.attr(dl, "get_config"))["activation"] == spec[1][0], "counterpart", qual_of(dl), f"{what}: activation")
    if spec[0] == "MaxPooling2D":
        return
    for via, l in (("keras", lay), ("decomon", dl)):
        bl = to_backward(sc, l, mode)
        w = f"{what} (from {via})"
        rec.check(kind_of(bl) == ("Backward", spec[0]), "counterpart", "decomon.backward_layers.convert:to_backward", f"{w} becomes {bl.cls.name}")
        inner = sc.attr(bl, "layer")
        ok = inner is l or kind_of(inner) == ("Decomon", spec[0])
        rec.check(ok, "counterpart", qual_of(bl), f"{w}: built on {inner.cls.name}")
        compare_hyper(sc, lay, inner, qual_of(bl), w)
        if spec[0] == "Activation":
            rec.check(has(sc, bl, "activation_name") == spec[1][0], "counterpart", qual_of(bl), f"{w}: activation {has(sc, bl, 'activation_name')}")


def merge(rec, name, mode, kw, shapes):
    sc = Scene(rec, 2, 1)
    lay = keras_merge(sc, name, shapes, **kw)
    dl = decomon_of(sc, lay, mode, sc.nin)
    what = f"{name} {kw}"
    rec.check(kind_of(dl) == ("Decomon", name), "counterpart", "decomon.layers.convert:to_decomon", f"{what} becomes {dl.cls.name}")
    compare_hyper(sc, lay, dl, qual_of(dl), what)
    if name == "Dot":
        return
    try:
        bl = to_backward(sc, dl, mode)
    except AbsRaise as e:
        if e.typename() == "NotImplementedError":
            return
        raise
    rec.check(kind_of(bl) == ("Backward", name), "counterpart", "decomon.backward_layers.convert:to_backward", f"{what} becomes {bl.cls.name}")


TABLES = ("decomon.layers.activations", "decomon.backward_layers.activations")


def lookup(rec, act):
    sc = Scene(rec, 2, 1)
    for t in TABLES:
        get, des = sc.get(t, "get"), sc.get(t, "deserialize")
        cons = f"{t}:get"
        try:
            f = sc.call(get, act)
        except AbsRaise as e:
            rec.bad("lookup", cons, f"{act} raises {e.typename()}", e.where)
            continue
        for s in (act.upper(), act.title(), act):
            for g in (get, des):
                try:
                    h = sc.call(g, s)
                except AbsRaise as e:
                    rec.bad("lookup", g.qual, f"{s} raises {e.typename()}", e.where)
                    continue
                rec.check(h is f or same_behaviour(sc, h, f), "lookup", g.qual, f"{s} gives {getattr(h, 'qual', h)}, {act} gives {getattr(f, 'qual', f)}")
        h = sc.call(get, f)
        rec.check(h is f, "lookup", cons, f"the function of {act} is looked up as {getattr(h, 'qual', h)}")
        if act == "linear":
            h = sc.call(get, None)
            rec.check(h is f or same_behaviour(sc, h, f), "lookup", cons, f"None gives {getattr(h, 'qual', h)} instead of linear")
            for bad in ("unknown", "", "lin"):
                try:
                    h = sc.call(get, bad)
                except AbsRaise as e:
                    rec.ok("lookup", cons, bad)
                    continue
                rec.bad("lookup", cons, f"{bad!r} gives {getattr(h, 'qual', h)}")
        for other in ACTIVATIONS:
            if other != act:
                h = sc.call(get, other)
                rec.check(h is not f, "lookup", cons, f"{act} and {other} are both {getattr(f, 'qual', f)}")
    if act == "relu":
        f = sc.call(sc.get(TABLES[1], "get"), "relu_")
        rec.check(f is sc.call(sc.get(TABLES[1], "get"), "relu"), "lookup", TABLES[1] + ":get", "relu_ and relu differ")


def same_behaviour(sc, a, b):
    return False


def own(rec, act):
    """with equal constant bounds, a forward activation returns the value of the Keras activation"""
    sc = Scene(rec, 2, 1)
    for via in ("table", "upper", "layer"):
        y = sc.ghost((3,))
        z = sc.call(sc.mod("keras.activations").d[act], y)
        ins = [sc.fresh(tens(ten.raw(y).copy())), sc.fresh(tens(ten.raw(y).copy()))]
        if via != "layer":
            f = sc.call(sc.get(TABLES[0], "get"), act.upper() if via == "upper" else act)
            outs = sc.call(f, ins, mode=sc.mode(IBP), perturbation_domain=sc.box())
            cons = f.qual
        else:
            lay = keras_layer(sc, ("Activation", (act,), {}), (3,))
            dl = decomon_of(sc, lay, IBP, sc.nin)
            outs = sc.call(dl, ins)
            cons = qual_of(dl)
        for o, n in zip(outs, ("u_c", "l_c")):
            d = ten.raw(o) - ten.raw(z)
            if any(alg.is_zero(d[i]) is None for i in np.ndindex(d.shape)):
                rec.undecided("own", cons, f"{act} {via} {n}")
                continue
            rec.zero(tens(d), "own", cons, f"{act} ({via}): {n} on exact bounds")


PRIME = {
    "sigmoid": lambda p: apply_sig(p) * (alg.ONE - apply_sig(p)),
    "tanh": lambda p: alg.ONE - alg.apply_fn("tanh", p) * alg.apply_fn("tanh", p),
    "softsign": None,
}


def apply_sig(p):
    return alg.apply_fn("sigmoid", p)


def hull(rec, act, side, via, mode):
    sc = Scene(rec, 2, 1)
    seen = []

    def hook(f, args, kwargs):
        if f.qual == "decomon.utils:get_linear_hull_s_shape":
            from sa.interp import Env

            env = Env(f.env, f.module, f, {})
            sc.I.bind_args(f, env, args, kwargs)
            v = env.vars
            seen.append((f, v.get("func"), v.get("f_prime")))
            sh = ten.raw(list(args[0])[-1]).shape
            return [base_tensor(sh, f"hull{k}") for k in range(4)]
        return MISSING

    y = sc.ghost((2,))
    ins = sc.pack(sc.bounds(y), mode)
    sc.I.hooks.append(hook)
    if via == "table":
        f = sc.call(sc.get(TABLES[side == "backward"], "get"), act)
        cons = f.qual
        run = lambda: sc.call(f, ins, mode=sc.mode(mode), perturbation_domain=sc.box())
    else:
        lay = keras_layer(sc, ("Activation", (act,), {}), (2,))
        dl = decomon_of(sc, lay, mode, sc.nin) if side == "forward" else to_backward(sc, lay, mode)
        cons = qual_of(dl)
        seen.clear()
        run = lambda: sc.call(dl, ins)
    try:
        run()
    except (AbsRaise, Unsupported):
        pass
    if not seen:
        rec.undecided("hull", cons, f"{act}: no tangent search met")
        return
    for f, func, prime in seen:
        t = sc.ghost((2,), "t")
        want = sc.call(sc.mod("keras.activations").d[act], t)
        got = sc.call(func, t)
        rec.zero(tens(ten.raw(got) - ten.raw(want)), "hull", cons, f"{act}: function given to the tangent search")
        if PRIME[act] is not None:
            d = ten.raw(sc.call(prime, t))
            w = arr(d.shape, lambda i: PRIME[act](ten.raw(t)[i]))
            r = d - w
            if any(alg.is_zero(r[i]) is None for i in np.ndindex(r.shape)):
                rec.undecided("hull", cons, f"{act}: derivative given to the tangent search")
            else:
                rec.zero(tens(r), "hull", cons, f"{act}: derivative given to the tangent search")


def leaves(sc, net):
    """layers run by the network, once each"""
    out = []
    work = [net.model]
    seen = set()
    while work:
        m = work.pop()
        for l in sc.attr(m, "layers"):
            if id(l) in seen or l.cls.name == "InputLayer":
                continue
            seen.add(id(l))
            if is_a(l, "Model"):
                work.append(l)
            else:
                out.append(l)
    return out


def expected(sc, net):
    """(kind, hyper-parameters, activation) expected, one per layer and per activation of a layer"""
    want = []
    for l in leaves(sc, net):
        c = sc.call(sc.attr(l, "get_config"))
        act = c.get("activation")
        k = l.cls.name
        if k == "Activation":
            want.append(("Activation", act, {}))
            continue
        want.append((k, None, hyper(sc, l)))
        if isinstance(act, dict):
            act = act["config"].get("activation")
        if act not in (None, "linear"):
            want.append(("Activation", act, {}))
    return want


def matches(a, b):
    return a[0] == b[0] and a[1] == b[1] and all(k in b[2] and b[2][k] == v for k, v in a[2].items())


def network(rec, kind, method):
    sc = Scene(rec, nin_of(kind), 1)
    net = Net(sc, kind)
    want = expected(sc, net)
    sv = Survey(sc)
    sv.clone(net, sc.box(), method=method)
    passes = []
    if method != "crown":
        passes.append(("Decomon", "DecomonLayer"))
    if method.startswith("crown"):
        passes.append(("Backward", "BackwardLayer"))
    for prefix, base in passes:
        got = []
        for l in sv.layers:
            if not is_a(l, base) or kind_of(l)[1] == "InputLayer":
                continue
            k = kind_of(l)[1]
            src = l if prefix == "Decomon" else sc.attr(l, "layer")
            c = sc.call(sc.attr(src, "get_config"))
            a = c.get("activation") if k == "Activation" else None
            if k == "Activation":
                own_act = has(sc, l, "activation_name")
                rec.check(own_act == a, "network", qual_of(l), f"{kind} {method}: bounds {own_act} for {a}")
            got.append((k, a, {n: plainv(v) for n, v in c.items()}, l))
        cons = "decomon.models.convert:clone"
        rest = list(got)
        for w in want:
            hit = next((g for g in rest if matches(w, g)), None)
            if hit is None:
                hit = next((g for g in got if matches(w, g)), None)
                rec.check(hit is not None, "network", cons, f"{kind} {method}: no {prefix} counterpart of {w[0]} {w[1] or ''} is run")
                continue
            rest = [g for g in rest if g is not hit]
        for g in rest:
            if g[1] == "linear":
                continue
            # a layer used several times may have several counterparts
            rec.check(any(matches(w, g) for w in want), "network", qual_of(g[3]), f"{kind} {method}: {g[0]} {g[1] or ''} corresponds to no layer of the network")
