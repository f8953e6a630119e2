"""Backward propagation through layers computing an affine function of their input."""
from sa.scen import *
from props.p01 import keras_layer, layer_cases, decomon_of

EXPLANATION = (
    "Each Backward layer is interpreted on abstract inputs; its linear map applied to an arbitrary flattened activation must equal "
    "the flattened output of the Keras layer on that activation, for upper and lower bounds (rule exact), with weights of shape "
    "(batch, flattened input, flattened output)."
)
H = "props.p10"


def obligations(tier):
    out = []
    for name, shape, spec in layer_cases(tier):
        for mode in MODES:
            for via in ("keras", "decomon"):
                for batch in (1, 2) if tier != "quick" or (name in ("Dense", "Dense-3d", "BatchNormalization", "Permute") and mode == HYBRID) else (1,):
                    out.append((f"{name}/{mode}/{via}/b{batch}", H, "backward_layer", name, shape, spec, mode, via, batch))
    for mode in MODES:
        out.append((f"InputLayer/{mode}", H, "input_layer", mode))
        for act in ("linear", "Activation-linear"):
            out.append((f"{act}/{mode}", H, "linear_activation", act, mode))
    return out


def to_backward(sc, lay, mode, **kw):
    f = sc.get("decomon.backward_layers.convert", "to_backward")
    return sc.call(f, lay, mode=sc.mode(mode), perturbation_domain=kw.pop("domain", None) or sc.box(), **kw)


def shape_of(sc, t):
    return tuple(ten.raw(t).shape)


def check_backward(sc, outs, ins, target, construct, what, exact=True, rule="sound", batch=None):
    """outs = [w_u,b_u,w_l,b_l] maps the flattened tensors `ins` (one) to bounds of the flattened target"""
    rec = sc.rec
    outs = list(outs) if isinstance(outs, (list, tuple)) else outs
    if not isinstance(outs, list) or len(outs) != 4:
        rec.bad("tensor-count", construct, f"{what}: expected 4 tensors, got {len(outs) if isinstance(outs, list) else outs}")
        return
    Y = ten.raw(ins)
    Y = Y.reshape(Y.shape[0], -1)
    Z = ten.raw(target)
    Z = Z.reshape(Z.shape[0], -1)
    for s, wi, sg in (("u", 0, 1), ("l", 2, -1)):
        w, b = ten.raw(outs[wi]), ten.raw(outs[wi + 1])
        if w.shape[1:] != (Y.shape[1], Z.shape[1]) or b.shape[1:] != (Z.shape[1],) or w.shape[0] not in (1, Y.shape[0]) or b.shape[0] not in (1, Y.shape[0]):
            rec.bad("shapes", construct, f"{what} {s}: w {w.shape}, b {b.shape} for input {Y.shape} and output {Z.shape}")
            continue
        v = arr(Z.shape, lambda i: ten._fsum([w[(min(i[0], w.shape[0] - 1), j, i[1])] * Y[i[0], j] for j in range(Y.shape[1])]
                                             + [b[(min(i[0], b.shape[0] - 1), i[1])]]))
        diff = tens(v - Z if sg > 0 else Z - v)
        diff.origin = getattr(outs[wi], "origin", None)
        if exact:
            rec.zero(diff, "exact", construct, f"{what} {s}")
        else:
            rec.nonneg(diff, rule, construct, f"{what} {s}")


def sym_inputs(sc, shape, mode, name="h"):
    d = sc.bounds(sc.ghost(shape, name))
    return [sc.fresh(t) for t in sc.pack(d, mode)]


def backward_layer(rec, name, shape, spec, mode, via, batch):
    sc = Scene(rec, 2 if batch == 1 else 1, batch)
    lay = keras_layer(sc, spec, shape)
    y = sc.ghost(shape)
    target = sc.call(lay, y)
    d = sc.bounds(y)
    src = lay
    if via == "decomon":
        src = decomon_of(sc, lay, mode, sc.nin, shared=True)
        sc.call(src, sc.pack(d, mode))
    bl = to_backward(sc, src, mode, input_dim=sc.nin) if spec[0] in ("Dense", "Conv2D") else to_backward(sc, src, mode)
    cons = f"{bl.cls.module.name}:{bl.cls.name}"
    outs = sc.call(bl, sc.pack(d, mode))
    check_backward(sc, outs, y, target, cons, name)


def input_layer(rec, mode):
    sc = Scene(rec, 2, 1)
    lay = sc.call(sc.layers.d["InputLayer"], (2, 2)) if False else sc.call(sc.layers.d["InputLayer"], shape=(2, 2))
    y = sc.ghost((2, 2))
    bl = to_backward(sc, lay, mode)
    outs = sc.call(bl, sc.pack(sc.bounds(y), mode))
    check_backward(sc, outs, y, y, f"{bl.cls.module.name}:{bl.cls.name}", "InputLayer")


def linear_activation(rec, act, mode):
    sc = Scene(rec, 2, 1)
    lay = keras_layer(sc, ("Activation", ("linear",), {}), (2, 2))
    y = sc.ghost((2, 2))
    src = lay
    if act != "linear":
        src = decomon_of(sc, lay, mode, sc.nin)
        sc.call(src, sc.pack(sc.bounds(y), mode))
    bl = to_backward(sc, src, mode)
    outs = sc.call(bl, sc.pack(sc.bounds(y), mode))
    check_backward(sc, outs, y, y, f"{bl.cls.module.name}:{bl.cls.name}", act)
