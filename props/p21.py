"""What is not supported is refused."""
from sa.scen import *
from props.models import *
from props.p01 import decomon_of
from props.p10 import to_backward, check_backward
from props.survey import qual_of

EXPLANATION = (
    "Layers, options, activations, norms, names and networks outside what the library supports are given to conversion by interpretation. Either an error "
    "is raised on the way (refused), or the bounds returned must enclose what the Keras layer or network computes (rule accepted); what names no "
    "function, norm or method at all must be refused (rule refused)."
)
H = "props.p21"
LIMIT = {"quick": 90, "thorough": 600}
ASSUMPTIONS = [
    "Keras layers, models and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "the unsupported layers, options, activations, norms, names and networks are enumerated; any error raised counts as a refusal",
    "a softmax ending a network is replaced by a linear activation unless the user asks otherwise: this documented simplification is left out",
]
U = "user_layers"

LAYERS = {
    "ReLU": ("keras.layers", "ReLU", (), {}, (2,)),
    "ReLU-max": ("keras.layers", "ReLU", (), {"max_value": 1.0}, (2,)),
    "ReLU-slope": ("keras.layers", "ReLU", (), {"negative_slope": 0.25}, (2,)),
    "LeakyReLU": ("keras.layers", "LeakyReLU", (), {"negative_slope": 0.25}, (2,)),
    "PReLU": ("keras.layers", "PReLU", (), {}, (2,)),
    "Softmax": ("keras.layers", "Softmax", (), {}, (2,)),
    "Rescaling": ("keras.layers", "Rescaling", (2.0, 1.0), {}, (2,)),
    "RepeatVector": ("keras.layers", "RepeatVector", (2,), {}, (2,)),
    "AveragePooling2D": ("keras.layers", "AveragePooling2D", ((2, 1),), {}, (2, 1, 1)),
    "GlobalAveragePooling2D": ("keras.layers", "GlobalAveragePooling2D", (), {}, (2, 1, 1)),
    "Conv2D-groups": ("keras.layers", "Conv2D", (2, (1, 1)), {"groups": 2}, (1, 1, 2)),
    "Conv2D-groups-4": ("keras.layers", "Conv2D", (4, (1, 1)), {"groups": 2}, (1, 1, 4)),
    "Conv2D-groups-first": ("keras.layers", "Conv2D", (2, (1, 2)), {"groups": 2, "data_format": "channels_first"}, (2, 1, 2)),
    "Square": (U, "Square", (), {}, (2,)),
    "ScaledDense": (U, "ScaledDense", (2,), {}, (2,)),
    "ScaledConv2D": (U, "ScaledConv2D", (1, (1, 1)), {}, (1, 2, 1)),
    "ShiftedActivation": (U, "ShiftedActivation", ("relu",), {}, (2,)),
    "OppositeFlatten": (U, "OppositeFlatten", (), {}, (1, 2)),
    "Activation-elu": ("keras.layers", "Activation", ("elu",), {}, (2,)),
    "Activation-selu": ("keras.layers", "Activation", ("selu",), {}, (2,)),
    "Activation-hard_sigmoid": ("keras.layers", "Activation", ("hard_sigmoid",), {}, (2,)),
    "Activation-double": ("keras.layers", "Activation", (U + ".double",), {}, (2,)),
    "Activation-shifted_relu": ("keras.layers", "Activation", (U + ".shifted_relu",), {}, (2,)),
    "Activation-exponential": ("keras.layers", "Activation", ("exponential",), {}, (2,)),
    "Activation-softmax": ("keras.layers", "Activation", ("softmax",), {}, (2,)),
}
MERGES = {
    "Dot-normalize": ("keras.layers", "Dot", {"axes": 1, "normalize": True}, ((2,), (2,))),
    "Dot-normalize-2d": ("keras.layers", "Dot", {"axes": (1, 1), "normalize": True}, ((2, 1), (2, 1))),
    "ShiftedAdd": (U, "ShiftedAdd", {}, ((2,), (2,))),
}
for _m in ("Add", "Subtract", "Average", "Maximum", "Minimum", "Multiply"):
    MERGES[_m + "-broadcast"] = ("keras.layers", _m, {}, ((2, 2), (1, 2)))
    MERGES[_m + "-broadcast-1"] = ("keras.layers", _m, {}, ((2,), (1,)))
    MERGES[_m + "-broadcast-last"] = ("keras.layers", _m, {}, ((2, 1), (2, 2)))
    MERGES[_m + "-ranks"] = ("keras.layers", _m, {}, ((2, 2), (2,)))
ACTIVATIONS = ("elu", "selu", "hard_sigmoid", "exponential", "softmax", U + ".double", U + ".shifted_relu")
NETS = ("act-elu", "act-selu", "act-exponential", "act-double", "act-softmax", "layer-ReLU", "layer-LeakyReLU", "layer-Softmax", "layer-Square", "layer-ScaledDense",
        "layer-ShiftedActivation", "layer-Rescaling", "groups", "average-pooling", "max-pooling", "merge-normalize", "merge-broadcast", "merge-subtract", "merge-multiply",
        "embedded-ReLU", "embedded-LeakyReLU", "embedded-user")
STRUCT = ("two-inputs", "matrix-input", "not-a-model", "layer", "none")
WRONG = {
    "method": ("forward", "crown-ibp", "crown-forward", "", "ibp", "forward-crown", "hybrid"),
    "slope": ("volume", "", "same", "unknown-slope"),
}
NORMS = (3, 4, 5)
NOT_NORMS = (0, -1, -2, 1.5, 0.5, "2", "inf", None, float("-inf"))


def obligations(tier):
    out = []
    for k in LAYERS:
        for mode in MODES:
            out.append((f"layer/{k}/{mode}", H, "layer", k, mode))
            out.append((f"backward/{k}/{mode}", H, "backward", k, mode))
    for k in MERGES:
        for mode in MODES:
            out.append((f"merge/{k}/{mode}", H, "merge", k, mode))
    for mode in MODES:
        for k in ("alpha", "max_value", "threshold"):
            for side in ("forward", "backward"):
                out.append((f"relu-option/{k}/{side}/{mode}", H, "relu_option", k, side, mode))
        for k in ("Dropout", "BatchNormalization"):
            out.append((f"training/{k}/{mode}", H, "training", k, mode))
    for a in ACTIVATIONS:
        for side in ("forward", "backward"):
            out.append((f"activation/{a}/{side}", H, "activation", a, side))
    for n in NETS:
        for m in METHODS:
            out.append((f"network/{n}/{m}", H, "network", n, m))
    for s in STRUCT:
        for m in METHODS:
            out.append((f"structure/{s}/{m}", H, "structure", s, m))
    for opt, vs in WRONG.items():
        for v in vs:
            out.append((f"name/{opt}-{v}", H, "wrong_name", opt, v))
    for v in ("constant", "", "both", "forward-ibp"):
        for q in ("mode", "layer-mode", "spec"):
            out.append((f"name/{q}-{v}", H, "wrong_mode", q, v))
    for p in NORMS:
        for side in ("get_upper", "get_lower"):
            out.append((f"norm/{p}/{side}", H, "norm", p, side))
        for m in METHODS:
            out.append((f"norm-network/{p}/{m}", H, "norm_network", p, m))
    for p in NOT_NORMS:
        out.append((f"not-a-norm/{p}", H, "not_norm", p))
    for q in ("unbuilt", "uncalled", "two-shapes"):
        out.append((f"unready/{q}", H, "unready", q))
    return out


def refused(rec, e, cons, what):
    rec.ok("accepted", cons, f"{what}: {e.typename()}")


def symbol(sc, v):
    """arguments naming user functions"""
    if isinstance(v, str) and v.startswith(U + "."):
        return sc.mod(U).d[v.split(".")[1]]
    return v


def make(sc, module, cls, a=(), kw=(), **more):
    return sc.call(sc.mod(module).d[cls], *[symbol(sc, x) for x in a], **{**dict(kw), **more})


def build(sc, key):
    module, cls, a, kw, shape = LAYERS[key]
    lay = make(sc, module, cls, a, kw)
    sc.call(lay, sc.call(sc.keras.d["Input"], shape))
    return lay, shape


def slack_hulls(sc):
    sc.I.hooks.append(lambda f, args, kwargs: [base_tensor(ten.raw(list(args[0])[-1]).shape, f"hull{k}") for k in range(4)]
                      if f.qual == "decomon.utils:get_linear_hull_s_shape" else MISSING)


def layer(rec, key, mode):
    sc = Scene(rec, 1, 1)
    lay, shape = build(sc, key)
    y = sc.ghost(shape)
    target = sc.call(lay, y)
    sc.contract("decomon.layers.activations:exponential", lambda sc, _, y: sc.call(K(sc)["exp"], y[0]))
    sc.contract("decomon.layers.activations:softmax", lambda sc, _, y: sc.call(K(sc)["softmax"], y[0]))
    fullinputs_contract(sc)
    cons = "decomon.layers.convert:to_decomon"
    try:
        sc.symbolic = True
        dl = decomon_of(sc, lay, mode, sc.nin)
        sc.symbolic = False
        cons = qual_of(dl)
        outs = sc.call(dl, sc.pack(sc.bounds(y), mode))
    except AbsRaise as e:
        return refused(rec, e, cons, key)
    sc.check_bounds(outs, mode, target, cons, key, rule="accepted")


def backward(rec, key, mode):
    sc = Scene(rec, 1, 1)
    lay, shape = build(sc, key)
    y = sc.ghost(shape)
    target = sc.call(lay, y)
    cons = "decomon.backward_layers.convert:to_backward"
    try:
        bl = to_backward(sc, lay, mode)
        cons = qual_of(bl)
        outs = sc.call(bl, [sc.fresh(t) for t in sc.pack(sc.bounds(y), mode)])
    except AbsRaise as e:
        return refused(rec, e, cons, key)
    check_backward(sc, outs, y, target, cons, key, exact=False, rule="accepted")


def merge(rec, key, mode):
    sc = Scene(rec, 1, 1)
    module, cls, kw, shapes = MERGES[key]
    lay = make(sc, module, cls, (), kw)
    try:
        sc.call(lay, [sc.call(sc.keras.d["Input"], s) for s in shapes])
        ys = [sc.ghost(s, f"y{i}") for i, s in enumerate(shapes)]
        target = sc.call(lay, ys)
    except AbsRaise as e:
        return refused(rec, e, cls, key + " (by Keras)")
    install(sc, "add", "subtract", "minus", "maximum", "minimum", "relu_", "multiply")
    fullinputs_contract(sc)
    cons = "decomon.layers.convert:to_decomon"
    try:
        sc.symbolic = True
        dl = decomon_of(sc, lay, mode, sc.nin)
        sc.symbolic = False
        cons = qual_of(dl)
        x = sc.x_box()
        outs = sc.call(dl, [t for i, y in enumerate(ys) for t in sc.pack(sc.bounds(y, f"i{i}"), mode, x)])
    except AbsRaise as e:
        return refused(rec, e, cons, key)
    sc.check_bounds(outs, mode, target, cons, key, rule="accepted")


POINTS = (-2, -0.5, 0.25, 3)


def relu_option(rec, opt, side, mode):
    """relu with an option that changes the function, at known points"""
    v = {"alpha": 0.5, "max_value": 1.0, "threshold": 0.5}[opt]
    for pt in POINTS:
        sc = Scene(rec, 1, 1)
        y = tens(arr((1, 1), lambda i: const(Fraction(pt))))
        target = sc.call(sc.mod("keras.activations").d["relu"], y, **{"negative_slope" if opt == "alpha" else opt: v})
        mod = "decomon.layers.activations" if side == "forward" else "decomon.backward_layers.activations"
        f = sc.call(sc.get(mod, "get"), "relu")
        wide = lambda s: tens(arr((1, 1), lambda i: const(Fraction(pt) + s)))
        zero = tens(arr((1, 1, 1), lambda i: alg.ZERO))
        d = {"u_c": wide(1), "l_c": wide(-1), "w_u": zero, "b_u": wide(1), "w_l": zero, "b_l": wide(-1), "y": y}
        try:
            outs = sc.call(f, sc.pack(d, mode), mode=sc.mode(mode), perturbation_domain=sc.box(), **{opt: v})
        except AbsRaise as e:
            refused(rec, e, f.qual, f"relu {opt}={v}")
            continue
        if side == "forward":
            sc.check_bounds(outs, mode, target, f.qual, f"relu {opt}={v} at {pt}", rule="accepted")
        else:
            for k in range(3):
                outs = list(outs)
            w_u, b_u, w_l, b_l = [ten.raw(t).reshape(-1)[0] for t in outs]
            z = ten.raw(target).reshape(-1)[0]
            for nm, df in (("upper", w_u * const(Fraction(pt)) + b_u - z), ("lower", z - w_l * const(Fraction(pt)) - b_l)):
                rec.nonneg(tens(arr((1,), lambda i: df)), "accepted", f.qual, f"backward relu {opt}={v} at {pt}: {nm}")


def training(rec, cls, mode):
    sc = Scene(rec, 1, 1)
    lay = make(sc, "keras.layers", cls, (0.5,) if cls == "Dropout" else ())
    sc.call(lay, sc.call(sc.keras.d["Input"], (2,)))
    dl = decomon_of(sc, lay, mode, sc.nin)
    y = sc.ghost((2,))
    try:
        sc.call(dl, sc.pack(sc.bounds(y), mode), training=True)
    except AbsRaise as e:
        return rec.ok("refused", qual_of(dl), f"{cls} in training: {e.typename()}")
    rec.bad("refused", qual_of(dl), f"{cls} accepts a call in training mode, where the Keras layer does not compute what is bounded")


def activation(rec, name, side):
    """functions reached by the name, the function and the layer of an activation, at known points"""
    mod = "decomon.layers.activations" if side == "forward" else "decomon.backward_layers.activations"
    for via in ("name", "function", "deserialize"):
        if via != "function" and "." in name:
            continue
        sc = Scene(rec, 1, 1)
        y = sc.ghost((2,))
        fn = symbol(sc, name) if "." in name else sc.mod("keras.activations").d[name]
        target = sc.call(fn, y)
        cons = mod + ":get"
        sc.contract("decomon.layers.activations:exponential", lambda sc, _, y: sc.call(K(sc)["exp"], y[0]))
        sc.contract("decomon.layers.activations:softmax", lambda sc, _, y: sc.call(K(sc)["softmax"], y[0]))
        for mode in MODES:
            try:
                g = sc.call(sc.get(mod, "deserialize" if via == "deserialize" else "get"), fn if via == "function" else name)
                if g is fn:  # the function itself, not bounds of it
                    rec.ok("accepted", cons, f"{name} by {via}: given back")
                    continue
                cons = getattr(g, "qual", cons)
                outs = sc.call(g, sc.pack(sc.bounds(y), mode), mode=sc.mode(mode), perturbation_domain=sc.box())
            except AbsRaise as e:
                refused(rec, e, cons, f"{name} by {via}")
                continue
            if side == "forward":
                sc.check_bounds(outs, mode, target, cons, f"{name} by {via}", rule="accepted")
            else:
                diag = [ten.raw(t) for t in outs]
                Y, Z = ten.raw(y), ten.raw(target)
                if any(t.shape != (1, 2) for t in diag):
                    rec.undecided("accepted", cons, f"{name} by {via}")
                    continue
                rec.nonneg(tens(diag[0] * Y + diag[1] - Z), "accepted", cons, f"{name} by {via}: upper")
                rec.nonneg(tens(Z - diag[2] * Y - diag[3]), "accepted", cons, f"{name} by {via}: lower")


class Net21(Net):
    def __init__(self, sc, kind):
        self.sc, self.kind, self.l, self.submodels = sc, kind, {}, []
        what, _, arg = kind.partition("-")
        i = self.inp(nin21(kind))
        C = lambda cls, *a, module="keras.layers", **k: make(sc, module, cls, a, k)
        D = lambda n, **k: self.lay(f"d{len(self.l)}", "Dense", n, **k)
        if what == "act":
            t = self.chain(i, D(2, activation=symbol(sc, U + "." + arg) if arg == "double" else arg), D(1))
        elif what == "embedded":
            a = C("ShiftedActivation", "relu", module=U) if arg == "user" else C(arg, **({"max_value": 1.0} if arg == "ReLU" else {}))
            t = self.chain(i, D(2, activation=a), D(1))
        elif what == "layer":
            a = {"ReLU": {"max_value": 1.0}, "LeakyReLU": {}, "Softmax": {}}.get(arg)
            if a is not None:
                l = C(arg, **a)
            else:
                l = C(arg, *{"Rescaling": (2.0, 1.0), "ScaledDense": (2,), "ShiftedActivation": ("relu",)}.get(arg, ()), module="keras.layers" if arg == "Rescaling" else U)
            t = self.chain(i, D(2), l, D(1))
        elif what == "groups":
            t = self.chain(i, C("Reshape", (1, 1, 2)), C("Conv2D", 2, (1, 1), groups=2), C("Flatten"), D(1))
        elif kind == "average-pooling":
            t = self.chain(i, C("Reshape", (2, 1, 1)), C("AveragePooling2D", (2, 1)), C("Flatten"), D(1))
        elif kind == "max-pooling":
            t = self.chain(i, C("Reshape", (2, 1, 1)), C("MaxPooling2D", (2, 1)), C("Flatten"), D(1))
        else:
            a, b = self.chain(i, D(2)), self.chain(i, D(1 if arg == "broadcast" else 2))
            m = {"normalize": ("Dot", {"axes": 1, "normalize": True}), "broadcast": ("Add", {}), "subtract": ("Subtract", {}), "multiply": ("Multiply", {})}[arg]
            t = self.chain(sc.call(C(m[0], **m[1]), [a, b]), D(1))
        self.model = self.Model(i, t)


def nin21(kind):
    return 2


def judge_model(rec, sc, d, targets, cons, what):
    outs = list(sc.attr(d, "outputs"))
    ibp, affine = sc.attr(d, "ibp"), sc.attr(d, "affine")
    mode = HYBRID if ibp and affine else IBP if ibp else AFFINE
    k = {HYBRID: 7, IBP: 2, AFFINE: 5}[mode]
    if len(outs) != k * len(targets):
        rec.bad("tensor-count", cons, f"{what}: {len(outs)} tensors for {len(targets)} outputs in mode {mode}")
        return
    for i, t in enumerate(targets):
        sc.check_bounds(outs[k * i:k * i + k], mode, t, cons, f"{what} output {i}", rule="accepted")


def network(rec, kind, method):
    sc = Scene(rec, 2, 1)
    contracts(sc)
    install(sc, "add", "subtract", "minus", "maximum", "minimum", "multiply", "max_")
    sc.contract("decomon.layers.activations:exponential", lambda sc, _, y: sc.call(K(sc)["exp"], y[0]))
    sc.contract("decomon.layers.activations:softmax", lambda sc, _, y: sc.call(K(sc)["softmax"], y[0]))
    net = Net21(sc, kind)
    target = sc.call(net.model, tens(sc.X))
    cons = "decomon.models.convert:clone"
    try:
        d = clone(sc, net, method=method, perturbation_domain=sc.box())
    except AbsRaise as e:
        return refused(rec, e, cons, f"{kind} {method}")
    judge_model(rec, sc, d, [target], cons, f"{kind} {method}")


def structure(rec, kind, method):
    """networks the conversion is not made for"""
    sc = Scene(rec, 2, 1)
    contracts(sc)
    C = lambda cls, *a, **k: make(sc, "keras.layers", cls, a, k)
    I = lambda *s: sc.call(sc.keras.d["Input"], s)
    M = sc.mod("keras.models").d["Model"]
    if kind == "two-inputs":
        a, b = I(2), I(2)
        net = sc.call(M, [a, b], sc.call(C("Add"), [sc.call(C("Dense", 1), a), sc.call(C("Dense", 1), b)]))
    elif kind == "matrix-input":
        a = I(2, 1)
        net = sc.call(M, a, sc.call(C("Flatten"), a))
    elif kind == "layer":
        net = C("Dense", 1)
        sc.call(net, I(2))
    else:
        net = None if kind == "none" else "network"
    on_domain(sc)
    cons = "decomon.models.convert:clone"
    try:
        d = sc.call(sc.get("decomon.models", "clone"), net, method=method, perturbation_domain=sc.box())
    except AbsRaise as e:
        return rec.ok("refused", cons, f"{kind} {method}: {e.typename()}")
    finally:
        sc.I.state.input_hook = None
    if kind == "matrix-input":  # one point of the domain per input
        return rec.undecided("refused", cons, f"{kind} {method} accepted")
    rec.bad("refused", cons, f"{kind} is converted with {method}")


def wrong_name(rec, opt, v):
    for method in METHODS if opt != "method" else (None,):
        sc = Scene(rec, 2, 1)
        contracts(sc)
        net = Net(sc, "relu")
        cons = "decomon.models.convert:clone"
        try:
            # the relaxation itself is not replaced: it is what reads the option
            sc.I.hooks[:] = [h for h in sc.I.hooks if "contract" not in getattr(h, "__qualname__", "") or "fullinputs" in h.__qualname__]
            clone(sc, net, perturbation_domain=sc.box(), **({"method": v} if opt == "method" else {"method": method, opt: v}))
        except AbsRaise as e:
            rec.ok("refused", cons, f"{opt}={v!r}: {e.typename()}")
            continue
        if opt == "slope" and method == "forward-ibp":
            rec.ok("refused", cons, "no relaxation in this method")
            continue
        rec.bad("refused", cons, f"{opt}={v!r} is accepted" + (f" with {method}" if method else ""))


def wrong_mode(rec, where, v):
    sc = Scene(rec, 2, 1)
    y = sc.ghost((2,))
    try:
        if where == "mode":
            cons = "decomon.core:ForwardMode"
            sc.call(sc.core.d["ForwardMode"], v)
        elif where == "spec":
            cons = "decomon.core:InputsOutputsSpec"
            sp = sc.call(sc.core.d["InputsOutputsSpec"], mode=v, perturbation_domain=sc.box())
            sc.call(sc.attr(sp, "get_fullinputs_from_inputsformode"), sc.pack(sc.bounds(y), HYBRID))
        else:
            cons = "decomon.layers.decomon_layers:DecomonDense"
            dl = sc.call(sc.get("decomon.layers.decomon_layers", "DecomonDense"), 2, mode=v, perturbation_domain=sc.box())
            sc.call(dl, sc.pack(sc.bounds(y), HYBRID))
    except AbsRaise as e:
        return rec.ok("refused", cons, f"mode {v!r}: {e.typename()}")
    rec.bad("refused", cons, f"mode {v!r} is accepted")


def norm(rec, p, side):
    """a ball of a norm above 2 contains the ball of norm 2 of the same radius"""
    sc = Scene(rec, 2, 1)
    eps = fresh("eps", "0+")
    cons = f"decomon.core:BallDomain.{side}"
    w = arr((1, 2, 1), lambda i: jordan(f"w{list(i)}"))
    b = arr((1, 1), lambda i: fresh(f"b{list(i)}"))
    try:
        D = sc.call(sc.core.d["BallDomain"], eps=tens(np.array(eps, dtype=object)), p=p)
        v = sc.call(sc.attr(D, side), tens(sc.X), tens(w), tens(b))
    except AbsRaise as e:
        return refused(rec, e, cons, f"p={p}")
    val = ten._fsum([w[0, j, 0] * sc.X[0, j] for j in range(2)] + [b[0, 0]])
    sg = 1 if side == "get_upper" else -1
    for pt in ((1, 0), (0, -1), ("1/2", "1/2")):  # points of every such ball, in multiples of the radius
        off = ten._fsum([w[0, j, 0] * const(Fraction(pt[j])) * eps for j in range(2)])
        rec.nonneg(tens(arr((1, 1), lambda i: (ten.raw(v)[0, 0] - val - off) * const(sg))), "accepted", cons, f"p={p} at {pt}")
    nrm = eps * ten._sqrt(ten._fsum([w[0, j, 0] * w[0, j, 0] for j in range(2)]))
    gap = (ten.raw(v)[0, 0] - val) * const(sg) - nrm
    if alg.is_zero(gap) is True:
        rec.bad("accepted", cons, f"p={p}: the extremum over the smaller ball of norm 2 is returned")
    else:
        rec.nonneg(tens(arr((1, 1), lambda i: gap)), "accepted", cons, f"p={p} against norm 2")


def norm_network(rec, p, method):
    sc = Scene(rec, 2, 1)
    net = Net(sc, "dense")
    cons = "decomon.models.convert:clone"
    eps = 0.375
    try:
        D = sc.call(sc.core.d["BallDomain"], eps=eps, p=p)
        sc.I.state.input_hook = lambda shape, name: tens(sc.X.copy()) if tuple(shape) == (sc.nin,) else None
        d = sc.call(sc.get("decomon.models", "clone"), net.model, method=method, perturbation_domain=D)
    except AbsRaise as e:
        return refused(rec, e, cons, f"p={p} {method}")
    finally:
        sc.I.state.input_hook = None
    outs = list(sc.attr(d, "outputs"))
    ibp, affine = sc.attr(d, "ibp"), sc.attr(d, "affine")
    b = sc.unpack(outs, HYBRID if ibp and affine else IBP if ibp else AFFINE)
    # points at distance 3/8 of the centre along one axis
    for j in range(2):
        for sg in (1, -1):
            pt = sc.X.copy()
            pt[0, j] = pt[0, j] + const(Fraction(3 * sg, 8))
            z = ten.raw(sc.call(net.model, tens(pt)))
            for up in ("u", "l"):
                got = []
                if b.get(up + "_c") is not None:
                    got.append(ten.raw(b[up + "_c"]))
                if b.get("w_" + up) is not None:
                    w, c = ten.raw(b["w_" + up]), ten.raw(b["b_" + up])
                    got.append(arr(c.shape, lambda i: c[i] + ten._fsum([w[(i[0], q) + i[1:]] * pt[i[0], q] for q in range(2)])))
                for g in got:
                    rec.nonneg(tens(g - z if up == "u" else z - g), "accepted", cons, f"p={p} {method} {'upper' if up == 'u' else 'lower'}")


def not_norm(rec, p):
    sc = Scene(rec, 2, 1)
    cons = "decomon.core:BallDomain"
    w = arr((1, 2, 1), lambda i: jordan(f"w{list(i)}"))
    b = arr((1, 1), lambda i: fresh(f"b{list(i)}"))
    try:
        D = sc.call(sc.core.d["BallDomain"], eps=0.375, p=p)
        sc.call(sc.attr(D, "get_upper"), tens(sc.X), tens(w), tens(b))
    except AbsRaise as e:
        return rec.ok("refused", cons, f"p={p!r}: {e.typename()}")
    rec.bad("refused", cons, f"p={p!r} is accepted")


def unready(rec, q):
    """layers whose weights or input shape are not known"""
    sc = Scene(rec, 2, 1)
    lay = make(sc, "keras.layers", "Dense", (2,))
    cons = "decomon.layers.convert:to_decomon"
    if q == "uncalled":
        lay = make(sc, "keras.layers", "Flatten")
    elif q == "two-shapes":
        lay = make(sc, "keras.layers", "Flatten")
        sc.call(lay, sc.call(sc.keras.d["Input"], (2, 1)))
        sc.call(lay, sc.call(sc.keras.d["Input"], (3, 2)))
    try:
        dl = decomon_of(sc, lay, HYBRID, sc.nin)
    except AbsRaise as e:
        return rec.ok("refused", cons, f"{q}: {e.typename()}")
    if q == "unbuilt":
        rec.bad("refused", cons, "a layer without weights is converted")
    else:
        rec.undecided("refused", cons, f"{q} accepted by {qual_of(dl)}")
