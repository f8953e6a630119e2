"""Soundness of the relaxations for every value their trainable parameters can take."""
from sa.scen import *
from props.hulls import *
from props.p01 import keras_layer, decomon_of
from props.p10 import to_backward
from props.p11 import box_inputs, read
from props.p28 import atoms_in
from props.survey import Survey, domain_of, qual_of, has
from props.models import Net, METHODS, FORWARD, CHAINS, nin_of

EXPLANATION = (
    "The activation layers, forward and backward, are interpreted with fine-tuning on. Each of their trainable parameters holds the image, by the "
    "constraint attached to it (itself interpreted), of an unconstrained unknown: the values training can reach. The lines read off must then be on "
    "the right side of the function on intervals of every kind (rules line-above, line-below, composition, constant). For the activations whose "
    "relaxation comes from a tangent search, the result must not depend on the parameters (rule independent). In converted networks every variable "
    "which is not a parameter of the network must be constrained to [0, 1], its initial value included (rules constraint, initial), be one for which "
    "the relaxations are shown sound, and be held by an activation layer."
)
H = "props.p17"
SLOPES = ("volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb")
ASSUMPTIONS = [
    "Keras layers and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "the training procedure applies the constraint of a variable after updating it, as Keras optimizers do",
    "lines are judged on one interval per kind (positive, negative, crossing either way) with unknown ends",
]
LIMIT = {"quick": 120, "thorough": 600}
OTHERS = ("sigmoid", "tanh", "softsign", "linear", "exponential")


def obligations(tier):
    deep = tier == "deep"
    out = []
    for mode in MODES:
        for a in ("relu", "softplus"):
            for s in SLOPES:
                for via in ("class", "converted"):
                    if mode == IBP and (s != SLOPES[0] or via == "class"):
                        continue
                    out.append((f"forward/{a}/{s}/{mode}/{via}", H, "forward", a, s, mode, via))
                for shape in ((4,), (2, 2)) if deep or s == SLOPES[0] else ((4,),):
                    for via in ("keras", "decomon"):
                        if via == "decomon" and not deep and s not in SLOPES[:2]:
                            continue
                        out.append((f"backward/{a}/{s}/{mode}/{'x'.join(map(str, shape))}/{via}", H, "backward", a, s, mode, shape, via))
        for a in OTHERS:
            out.append((f"forward/{a}/{mode}/independent", H, "other_forward", a, mode))
            out.append((f"backward/{a}/{mode}/independent", H, "other_backward", a, mode))
    chains = ("relu", "two-activations", "softplus", "conv", "nested", "activation-twice") if not deep else tuple(CHAINS) + ("softplus", "nested", "outputs")
    for kind in chains:
        for m in METHODS:
            out.append((f"network/{kind}/{m}", H, "network", kind, m))
            if deep or kind == "two-activations":
                for shared in (True, False) if m != "crown" else (True,):
                    for opt in ("finetune_forward", "finetune_backward"):
                        out.append((f"network/{kind}/{m}/{opt}/{'shared' if shared else 'copied'}", H, "network", kind, m, opt, shared))
    for kind in ("branches", "concat"):
        for m in FORWARD:
            out.append((f"network/{kind}/{m}", H, "network", kind, m))
    return out


def created(sc, o):
    """variables of the library created by layer o (or a layer it wraps)"""
    return [v for l, v in sc.I.state.variables if l.cls.module.name.startswith("decomon.") and any(v is w for w in sc.attr(o, "weights"))]


def free(v):
    return arr(v.a.shape, lambda i: fresh("tuned"))


def between(p):
    return alg.nonneg(p) is True and alg.nonneg(alg.ONE - p) is True


def admissible(sc, v):
    """the values training can give to v: the image of an unknown by its constraint"""
    c = sc.attr(v, "constraint")
    if c is None:
        return free(v)
    a = ten.raw(sc.call(c, tens(free(v))))
    if a.shape != v.a.shape:
        raise Mismatch(f"the constraint of {v.name} turns shape {v.a.shape} into {a.shape}")
    if all(between(p) for p in a.flat):
        def par(i):
            p, q = fresh("ga", "0+"), fresh("gb", "+")
            return p * recip(p + q)
        return arr(a.shape, par)
    return a


def tune(sc, o):
    vs = created(sc, o)
    for v in vs:
        v.a = admissible(sc, v)
    return vs


def forward_of(sc, name, mode, via, **kw):
    if via == "class":
        return sc.call(sc.get("decomon.layers.decomon_layers", "DecomonActivation"), name, mode=sc.mode(mode), perturbation_domain=sc.box(), finetune=True, **kw)
    lay = keras_layer(sc, ("Activation", (name,), {}), (1,))
    return decomon_of(sc, lay, mode, 1, finetune=True, **kw)


def built(sc, o, mode, n=1):
    """the layer is built by a first call"""
    y = sc.ghost((n,))
    sc.call(o, sc.pack(sc.bounds(y), mode))
    return o


def forward(rec, name, slope, mode, via):
    sc = Scene(rec, 1, 1)
    dl = built(sc, forward_of(sc, name, mode, via, slope=slope), mode)
    cons = qual_of(dl)
    vs = tune(sc, dl)
    if mode != IBP and not vs:
        rec.undecided("parameters", cons, f"{name}: no trainable parameter found")
    judge(rec, sc, cons, f"{name} {slope} fine-tuned", name, lambda ins: sc.call(dl, ins), mode, intervals(name))


def backward(rec, name, slope, mode, shape, via):
    n = int(np.prod(shape))
    sc = Scene(rec, n, 1)
    lay = keras_layer(sc, ("Activation", (name,), {}), shape)
    if via == "decomon":
        lay = decomon_of(sc, lay, mode, sc.nin, finetune=True)
    bl = to_backward(sc, lay, mode, slope=sc.slope(slope), finetune=True)
    cons = qual_of(bl)
    iv = list(intervals(name))
    iv = [iv[k % len(iv)] for k in range(n)]
    ins = box_inputs(sc, mode, [x[1] for x in iv], [x[2] for x in iv], shape)
    sc.call(sc.attr(bl, "build"), [tuple(t.a.shape) for t in ins])
    if not tune(sc, bl):
        rec.undecided("parameters", cons, f"{name}: no trainable parameter found")
    outs = sc.call(bl, ins)
    what = f"{name} {slope} fine-tuned"
    r = read(rec, outs, n, cons, what)
    if r is None:
        return
    for k, (iname, L, U, br) in enumerate(iv):
        judge_line(rec, cons, f"{what} {iname} upper", name, 1, r[0][k], r[1][k], L, U, br, outs[1].origin)
        judge_line(rec, cons, f"{what} {iname} lower", name, -1, r[2][k], r[3][k], L, U, br, outs[3].origin)


def opaque(sc):
    def hook(f, args, kwargs):
        if f.qual in ("decomon.utils:get_t_upper", "decomon.utils:get_t_lower"):
            return [base_tensor(ten.raw(args[0]).shape, f"tan{k}") for k in range(2)]
        return MISSING

    sc.I.hooks.append(hook)


def other_forward(rec, name, mode):
    sc = Scene(rec, 1, 1)
    opaque(sc)
    dl = built(sc, forward_of(sc, name, mode, "converted"), mode)
    vs = tune(sc, dl)
    y = sc.ghost((1,))
    outs = sc.call(dl, sc.pack(sc.bounds(y), mode))
    decide(rec, sc, vs, outs, qual_of(dl), name)


def other_backward(rec, name, mode):
    sc = Scene(rec, 2, 1)
    opaque(sc)
    lay = keras_layer(sc, ("Activation", (name,), {}), (2,))
    try:
        bl = to_backward(sc, lay, mode, finetune=True)
        y = sc.ghost((2,))
        ins = sc.pack(sc.bounds(y), mode)
        sc.call(bl, ins)
        vs = tune(sc, bl)
        outs = sc.call(bl, ins)
    except AbsRaise as e:
        if e.typename() != "NotImplementedError":
            raise
        rec.ok("independent", "decomon.backward_layers.backward_layers:BackwardActivation", f"{name}: refused")
        return
    decide(rec, sc, vs, outs, qual_of(bl), name)


def decide(rec, sc, vs, outs, cons, name):
    """a relaxation depending on its parameters would have to be judged: it is not"""
    ids = set()
    for v in vs:
        ids |= atoms_in(v, set())
    if atoms_in(outs, set()) & ids:
        rec.undecided("independent", cons, f"{name}: the relaxation depends on its trainable parameters")
    else:
        rec.ok("independent", cons, name)


def network(rec, kind, method, opt="finetune", shared=True):
    from props.p18 import equal, initial
    sc = Scene(rec, nin_of(kind), 1)
    net = Net(sc, kind)
    initial(sc)
    sv = Survey(sc)
    d = sv.clone(net, domain_of(sc, "box"), method=method, shared=shared, **{opt: True})
    sc.I.hooks.remove(sv.hook)
    what = f"{kind} {method} {opt}"
    theirs = list(sc.attr(net.model, "weights"))
    for v in sc.attr(d, "trainable_weights"):
        if any(v is w or equal(v.a, w.a) for w in theirs):
            continue
        o = v.extra["owner_layer"]
        cons = qual_of(o)
        c = sc.attr(v, "constraint")
        if c is None:
            rec.bad("constraint", cons, f"{what}: trainable parameter {v.name} of {o.d.get('name')} has no constraint")
            continue
        a = ten.raw(sc.call(c, tens(free(v))))
        for p in a.flat:
            rec.nonneg(tens(arr((1,), lambda i: p)), "constraint", cons, f"{what}: {v.name} above 0")
            rec.nonneg(tens(arr((1,), lambda i: alg.ONE - p)), "constraint", cons, f"{what}: {v.name} below 1")
        if all(p.is_const() for p in v.a.flat):
            b = ten.raw(sc.call(c, tens(v.a)))
            rec.check(equal(b, v.a), "initial", cons, f"{what}: the initial value of {v.name} is not admitted by its constraint")
            for p in v.a.flat:
                rec.check(between(p), "initial", cons, f"{what}: the initial value of {v.name} is not in [0, 1]")
        else:
            rec.undecided("initial", cons, f"{what}: unknown initial value of {v.name}")
    rec.ok("listed", CONS, what)


CONS = "decomon.models.convert:clone"
